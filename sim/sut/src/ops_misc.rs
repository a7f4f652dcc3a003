//! Everything else on UBig and IBig.
use super::*;
use num_traits::{Num, One, Signed, Zero};
use rand::distributions::uniform::{SampleUniform, UniformSampler};
use rand::Rng;
use serde::{Deserialize, Serialize};
use std::hash::Hash;
use std::ops::*;
use std::str::FromStr;

fn text(o: &Op) -> &str {
    std::str::from_utf8(&o.x).unwrap_or("?")
}

macro_rules! un {
    ($t:ident, $sem:literal, $dom:literal, $take:ident, $re:ident, $f:path) => {
        $t.add($sem, "v", "", $dom, |e, o| {
            let a = e.$take(o.a);
            $f(a).put(e, o.d)
        });
        $t.add($sem, "r", "", $dom, |e, o| {
            let r = $f(e.$re(o.a));
            r.put(e, o.d)
        });
    };
}
macro_rules! rf {
    ($t:ident, $sem:literal, $dom:literal, $re:ident, |$a:ident, $o:ident| $x:expr) => {
        $t.add($sem, "r", "", $dom, |e, $o| {
            let $a = e.$re($o.a);
            let r = $x;
            r.put(e, $o.d)
        });
    };
}
macro_rules! common {
    ($t:ident, $dom:literal, $dom2:literal, $T:ty, $take:ident, $re:ident, $m:ident, $v:ident, $R:ident,
     $clone:literal, $clonefrom:literal, $swap:literal, $drop:literal, $shl:literal, $shr:literal, $pow:literal,
     $tz:literal, $cmp:literal, $eq:literal, $hash:literal, $f32:literal, $f64:literal, $parse:literal,
     $parsep:literal, $str:literal, $inradix:literal, $fmt:literal, $fmtr:literal, $ser:literal, $de:literal, $dei:literal, $rand:literal,
     $zero:literal, $one:literal, $iszero:literal, $fromb:literal) => {
        rf!($t, $clone, $dom, $re, |a, o| a.clone());
        $t.add($clonefrom, "ar", "", $dom2, |e, o| {
            if o.a == o.b || o.a >= POOL {
                return e.skip();
            }
            let b: *const $T = e.$re(o.b);
            e.$m(o.a).clone_from(unsafe { &*b });
            e.out.push(R::$R(o.a));
        });
        $t.add($swap, "", "", $dom2, |e, o| {
            if o.a >= POOL || o.b >= POOL {
                return e.skip();
            }
            e.$v.swap(o.a as usize, o.b as usize);
        });
        $t.add($drop, "", "", $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            drop(std::mem::take(&mut e.$v[o.a as usize]));
        });
        $t.add($shl, "v", "", $dom, |e, o| {
            let a = e.$take(o.a);
            (a << o.k as usize).put(e, o.d)
        });
        $t.add($shl, "r", "", $dom, |e, o| {
            let r = e.$re(o.a) << &(o.k as usize);
            r.put(e, o.d)
        });
        $t.add($shl, "vP", "", $dom, |e, o| {
            let a = e.$take(o.a);
            (a << &(o.k as usize)).put(e, o.d)
        });
        $t.add($shl, "rp", "", $dom, |e, o| {
            let r = e.$re(o.a) << o.k as usize;
            r.put(e, o.d)
        });
        $t.add($shl, "aP", "", $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            *e.$m(o.a) <<= &(o.k as usize);
            e.out.push(R::$R(o.a));
        });
        $t.add($shl, "a", "", $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            *e.$m(o.a) <<= o.k as usize;
            e.out.push(R::$R(o.a));
        });
        $t.add($shr, "v", "", $dom, |e, o| {
            let a = e.$take(o.a);
            (a >> o.k as usize).put(e, o.d)
        });
        $t.add($shr, "r", "", $dom, |e, o| {
            let r = e.$re(o.a) >> &(o.k as usize);
            r.put(e, o.d)
        });
        $t.add($shr, "vP", "", $dom, |e, o| {
            let a = e.$take(o.a);
            (a >> &(o.k as usize)).put(e, o.d)
        });
        $t.add($shr, "rp", "", $dom, |e, o| {
            let r = e.$re(o.a) >> o.k as usize;
            r.put(e, o.d)
        });
        $t.add($shr, "aP", "", $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            *e.$m(o.a) >>= &(o.k as usize);
            e.out.push(R::$R(o.a));
        });
        $t.add($shr, "a", "", $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            *e.$m(o.a) >>= o.k as usize;
            e.out.push(R::$R(o.a));
        });
        rf!($t, $pow, $dom, $re, |a, o| a.pow(o.k as usize));
        rf!($t, $tz, $dom, $re, |a, o| a.trailing_zeros());
        $t.add($cmp, "r", "", $dom2, |e, o| {
            let r = Ord::cmp(e.$re(o.a), e.$re(o.b));
            r.put(e, 0)
        });
        $t.add($eq, "r", "", $dom2, |e, o| {
            let r = e.$re(o.a) == e.$re(o.b);
            r.put(e, 0)
        });
        $t.add($hash, "r", "", $dom, |e, o| {
            let a: *const $T = e.$re(o.a);
            unsafe { &*a }.hash(&mut e.ctx.hasher);
            let h = e.ctx.hasher.d.0;
            e.out.push(R::N(h));
        });
        rf!($t, $f32, $dom, $re, |a, o| a.to_f32());
        rf!($t, $f64, $dom, $re, |a, o| a.to_f64());
        $t.add($parse, "", "", "--", |e, o| {
            let r = if o.k == 10 && o.e == 1 {
                <$T>::from_str(text(o))
            } else if o.e == 2 {
                <$T as Num>::from_str_radix(text(o), o.k as u32)
            } else {
                <$T>::from_str_radix(text(o), o.k as u32)
            };
            r.put(e, o.d)
        });
        $t.add($parsep, "", "", "--", |e, o| <$T>::from_str_with_radix_prefix(text(o)).put(e, o.d));
        rf!($t, $str, $dom, $re, |a, o| a.to_string());
        rf!($t, $inradix, $dom, $re, |a, o| if o.e == 1 {
            format!("{:#}", a.in_radix(o.k as u32))
        } else {
            a.in_radix(o.k as u32).to_string()
        });
        $t.add($fmt, "r", "", $dom, |e, o| {
            let a: *const $T = e.$re(o.a);
            let r = format_to(unsafe { &*a }, o, &mut e.ctx.w).is_ok();
            e.out.push(R::W(r));
        });
        // the radix is in n
        $t.add($fmtr, "r", "", $dom, |e, o| {
            let a: *const $T = e.$re(o.a);
            let x = unsafe { &*a }.in_radix(o.n as u32);
            let mut f = options(o.k).create_formatter(&mut e.ctx.w);
            let r = std::fmt::Display::fmt(&x, &mut f).is_ok();
            e.out.push(R::W(r));
        });
        $t.add($ser, "r", "", $dom, |e, o| {
            let a: *const $T = e.$re(o.a);
            let s = SimSer { fmt: o.k as u8 % FORMATS, out: &mut e.ctx.ser_out, st: &mut e.ctx.ser };
            match unsafe { &*a }.serialize(s) {
                Ok(()) => e.out.push(R::W(true)),
                Err(x) => e.out.push(R::SerErr(x)),
            }
        });
        $t.add($de, "", "", "--", |e, o| {
            let st = std::mem::take(&mut e.ctx.de);
            let mut d = SimDeBox { d: SimDe::new(o.k as u8 % FORMATS, &o.x, st), back: e };
            let r = <$T>::deserialize(&mut d.d);
            let e: &mut Env = d.finish();
            match r {
                Ok(x) => x.put(e, o.d),
                Err(x) => e.out.push(R::DeErr(x)),
            }
        });
        $t.add($dei, "a", "", $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            let st = std::mem::take(&mut e.ctx.de);
            let v: *mut $T = e.$m(o.a);
            let mut d = SimDeBox { d: SimDe::new(o.k as u8 % FORMATS, &o.x, st), back: e };
            let r = <$T as Deserialize>::deserialize_in_place(&mut d.d, unsafe { &mut *v });
            let e: &mut Env = d.finish();
            match r {
                Ok(()) => e.out.push(R::$R(o.a)),
                Err(x) => e.out.push(R::DeErr(x)),
            }
        });
        // range a..b (k bit 0: inclusive; k bit 1: the sampler is kept and used `n` times)
        $t.add($rand, "r", "", $dom2, |e, o| {
            let (a, b): (*const $T, *const $T) = (e.$re(o.a), e.$re(o.b));
            let (a, b) = unsafe { (&*a, &*b) };
            let rng = &mut e.ctx.rng;
            let r = match o.k & 7 {
                0 => <$T as SampleUniform>::Sampler::new(a, b).sample(rng),
                1 => <$T as SampleUniform>::Sampler::new_inclusive(a, b).sample(rng),
                2 => rng.gen_range(a.clone()..b.clone()),
                3 => rng.gen_range(a.clone()..=b.clone()),
                4 => <$T as SampleUniform>::Sampler::sample_single(a, b, rng),
                5 => <$T as SampleUniform>::Sampler::sample_single_inclusive(a, b, rng),
                6 => {
                    let s = rand::distributions::Uniform::new(a, b);
                    let _ = rng.sample(&s);
                    rng.sample(&s)
                }
                _ => {
                    let s = rand::distributions::Uniform::new_inclusive(a, b);
                    let _ = rng.sample(&s);
                    rng.sample(&s)
                }
            };
            r.put(e, o.d)
        });
        $t.add($zero, "", "", "--", |e, o| <$T as Zero>::zero().put(e, o.d));
        $t.add($one, "", "", "--", |e, o| <$T as One>::one().put(e, o.d));
        rf!($t, $iszero, $dom, $re, |a, o| Zero::is_zero(a));
        $t.add($fromb, "", "", "--", |e, o| <$T>::from(o.n & 1 == 1).put(e, o.d));
    };
}

/// Returns the deserializer's state to the environment also when the operation unwinds.
struct SimDeBox<'a, 'b> {
    d: SimDe<'a>,
    back: &'b mut Env,
}
impl<'b> SimDeBox<'_, 'b> {
    fn finish(mut self) -> &'b mut Env {
        self.give();
        let p: *mut Env = self.back;
        std::mem::forget(self);
        unsafe { &mut *p }
    }
    fn give(&mut self) {
        self.back.ctx.de = std::mem::take(&mut self.d.st);
        self.back.ctx.de_pos = self.d.pos;
    }
}
impl Drop for SimDeBox<'_, '_> {
    fn drop(&mut self) {
        self.give();
    }
}

pub fn add(t: &mut Table) {
    common!(
        t, "u-", "uu", UBig, ut, ur, um, u, U, "u.clone", "u.clonefrom", "u.swap", "u.drop", "u.shl", "u.shr", "u.pow",
        "u.tz", "u.cmp", "u.eq", "u.hash", "u.f32", "u.f64", "u.parse", "u.parsep", "u.str", "u.inradix", "u.fmt", "u.fmtr", "u.ser",
        "u.de", "u.dei", "u.rand", "u.zero", "u.one", "u.iszero", "u.fromb"
    );
    common!(
        t, "i-", "ii", IBig, it, ir, im, i, I, "i.clone", "i.clonefrom", "i.swap", "i.drop", "i.shl", "i.shr", "i.pow",
        "i.tz", "i.cmp", "i.eq", "i.hash", "i.f32", "i.f64", "i.parse", "i.parsep", "i.str", "i.inradix", "i.fmt", "i.fmtr", "i.ser",
        "i.de", "i.dei", "i.rand", "i.zero", "i.one", "i.iszero", "i.fromb"
    );
    un!(t, "i.neg", "i-", it, ir, Neg::neg);
    un!(t, "i.not", "i-", it, ir, Not::not);
    un!(t, "i.abs", "i-", it, ir, Abs::abs);
    un!(t, "i.uabs", "i-", it, ir, UnsignedAbs::unsigned_abs);
    un!(t, "u.nextpow2", "u-", ut, ur, NextPowerOfTwo::next_power_of_two);
    un!(t, "i.fromu", "u-", ut, ur, IBig::from);
    un!(t, "u.fromi", "i-", it, ir, UBig::try_from);
    rf!(t, "i.signum", "i-", ir, |a, o| a.signum());
    rf!(t, "i.nsignum", "i-", ir, |a, o| Signed::signum(a));
    rf!(t, "i.nabs", "i-", ir, |a, o| Signed::abs(a));
    rf!(t, "i.ispos", "i-", ir, |a, o| Signed::is_positive(a));
    rf!(t, "i.isneg", "i-", ir, |a, o| Signed::is_negative(a));
    rf!(t, "u.npow", "u-", ur, |a, o| num_traits::Pow::pow(a, o.k as usize));
    rf!(t, "i.npow", "i-", ir, |a, o| num_traits::Pow::pow(a, o.k as usize));
    t.add("u.npow", "v", "", "u-", |e, o| {
        let a = e.ut(o.a);
        num_traits::Pow::pow(a, o.k as usize).put(e, o.d)
    });
    t.add("i.npow", "v", "", "i-", |e, o| {
        let a = e.it(o.a);
        num_traits::Pow::pow(a, o.k as usize).put(e, o.d)
    });
    t.add("i.abssub", "rr", "", "ii", |e, o| {
        let r = e.ir(o.a).abs_sub(e.ir(o.b));
        r.put(e, o.d)
    });
    rf!(t, "u.bit", "u-", ur, |a, o| a.bit(o.k as usize));
    rf!(t, "u.ispow2", "u-", ur, |a, o| a.is_power_of_two());
    rf!(t, "u.le", "u-", ur, |a, o| a.to_le_bytes());
    rf!(t, "u.be", "u-", ur, |a, o| a.to_be_bytes());
    t.add("u.bitlen", "r", "", "u-", |e, o| {
        let n = e.ur(o.a).bit_len();
        e.out.push(R::N(n as u64));
    });
    t.add("u.setbit", "a", "", "u-", |e, o| {
        if o.a >= POOL {
            return e.skip();
        }
        e.um(o.a).set_bit(o.k as usize);
        e.out.push(R::U(o.a));
    });
    t.add("u.clearbit", "a", "", "u-", |e, o| {
        if o.a >= POOL {
            return e.skip();
        }
        e.um(o.a).clear_bit(o.k as usize);
        e.out.push(R::U(o.a));
    });
    t.add("u.fromle", "", "", "--", |e, o| UBig::from_le_bytes(&o.x).put(e, o.d));
    t.add("u.frombe", "", "", "--", |e, o| UBig::from_be_bytes(&o.x).put(e, o.d));
    t.add("u.gcd", "rr", "", "uu", |e, o| {
        let r = e.ur(o.a).gcd(e.ur(o.b));
        r.put(e, o.d)
    });
    t.add("i.gcd", "rr", "", "ii", |e, o| {
        let r = e.ir(o.a).gcd(e.ir(o.b));
        r.put(e, o.d)
    });
    // results: d, then i[e], i[k]
    t.add("u.egcd", "rr", "", "uu", |e, o| {
        let (g, x, y) = e.ur(o.a).extended_gcd(e.ur(o.b));
        g.put(e, o.d);
        x.put(e, o.e);
        y.put(e, o.k as u8);
    });
    t.add("i.egcd", "rr", "", "ii", |e, o| {
        let (g, x, y) = e.ir(o.a).extended_gcd(e.ir(o.b));
        g.put(e, o.d);
        x.put(e, o.e);
        y.put(e, o.k as u8);
    });
    // exact construction used by the simulator to put a value in a slot
    t.add("u.load", "", "", "--", |e, o| UBig::from_le_bytes(&o.x).put(e, o.d));
    t.add("i.load", "", "", "--", |e, o| {
        let m = IBig::from(UBig::from_le_bytes(&o.x));
        let m = if o.e == 1 { -m } else { m };
        m.put(e, o.d)
    });
}
