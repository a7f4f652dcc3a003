//! Modular rings and values.
use super::*;
use std::ops::*;

macro_rules! bin {
    ($t:ident, $sem:literal, $f:path, $g:path) => {
        $t.add($sem, "vv", "", "mm", |e, o| {
            let (Some(a), Some(b)) = (e.mt(o.a), e.mt(o.b)) else { return e.skip() };
            $f(a, b).put(e, o.d)
        });
        $t.add($sem, "vr", "", "mm", |e, o| {
            if o.a == o.b || e.mr(o.b).is_none() {
                return e.skip();
            }
            let Some(a) = e.mt(o.a) else { return e.skip() };
            let r = $f(a, e.mr(o.b).unwrap());
            r.put(e, o.d)
        });
        $t.add($sem, "rv", "", "mm", |e, o| {
            if o.a == o.b || e.mr(o.a).is_none() {
                return e.skip();
            }
            let Some(b) = e.mt(o.b) else { return e.skip() };
            let r = $f(e.mr(o.a).unwrap(), b);
            r.put(e, o.d)
        });
        $t.add($sem, "rr", "", "mm", |e, o| {
            let (Some(a), Some(b)) = (e.mr(o.a), e.mr(o.b)) else { return e.skip() };
            let r = $f(a, b);
            r.put(e, o.d)
        });
        $t.add($sem, "av", "", "mm", |e, o| {
            if o.a == o.b || o.a >= POOL || e.mr(o.a).is_none() {
                return e.skip();
            }
            let Some(b) = e.mt(o.b) else { return e.skip() };
            $g(e.m[o.a as usize].as_mut().unwrap(), b);
            e.out.push(R::M(o.a));
        });
        $t.add($sem, "ar", "", "mm", |e, o| {
            if o.a == o.b || o.a >= POOL || e.mr(o.a).is_none() {
                return e.skip();
            }
            let Some(b) = e.mr(o.b) else { return e.skip() };
            let b: *const Modulo<'static> = b;
            $g(e.m[o.a as usize].as_mut().unwrap(), unsafe { &*b });
            e.out.push(R::M(o.a));
        });
    };
}

pub fn add(t: &mut Table) {
    // ring k is created from u[a]; the simulator only issues this for an empty ring slot
    t.add("ring.new", "", "", "u-", |e, o| {
        let k = o.k as usize;
        if k >= e.rings.len() || e.rings[k].is_some() {
            return e.skip();
        }
        let r = ModuloRing::new(e.ur(o.a));
        let h = Harness::new();
        e.rings[k] = Some(Box::into_raw(Box::new(r)));
        drop(h);
        e.out.push(R::N(o.k));
    });
    // drops the values of the ring (the simulator has emptied those slots), then the ring
    t.add("ring.drop", "", "", "--", |e, o| {
        let k = o.k as usize;
        let Some(p) = e.rings.get_mut(k).and_then(|x| x.take()) else { return e.skip() };
        unsafe {
            drop(std::ptr::read(p));
            let h = Harness::new();
            std::alloc::dealloc(p as *mut u8, std::alloc::Layout::new::<ModuloRing>());
            drop(h);
        }
        e.out.push(R::N(o.k));
    });
    t.add("ring.modulus", "", "", "--", |e, o| {
        let Some(r) = e.ring(o.k) else { return e.skip() };
        r.modulus().put(e, o.d)
    });
    t.add("ring.eq", "", "", "--", |e, o| {
        let (Some(a), Some(b)) = (e.ring(o.k), e.ring(o.n as u64)) else { return e.skip() };
        (a == b).put(e, 0)
    });
    t.add("ring.fmt", "", "", "--", |e, o| {
        let Some(r) = e.ring(o.n as u64) else { return e.skip() };
        let x = format_to(r, o, &mut e.ctx.w).is_ok();
        e.out.push(R::W(x));
    });
    t.add("m.from", "uv", "", "u-", |e, o| {
        let Some(r) = e.ring(o.k) else { return e.skip() };
        let a = e.ut(o.a);
        r.from(a).put(e, o.d)
    });
    t.add("m.from", "ur", "", "u-", |e, o| {
        let Some(r) = e.ring(o.k) else { return e.skip() };
        let x = r.from(e.ur(o.a));
        x.put(e, o.d)
    });
    t.add("m.from", "iv", "", "i-", |e, o| {
        let Some(r) = e.ring(o.k) else { return e.skip() };
        let a = e.it(o.a);
        r.from(a).put(e, o.d)
    });
    t.add("m.from", "ir", "", "i-", |e, o| {
        let Some(r) = e.ring(o.k) else { return e.skip() };
        let x = r.from(e.ir(o.a));
        x.put(e, o.d)
    });
    t.add("m.from", "b", "", "--", |e, o| {
        let Some(r) = e.ring(o.k) else { return e.skip() };
        r.from(o.n & 1 == 1).put(e, o.d)
    });
    bin!(t, "m.add", Add::add, AddAssign::add_assign);
    bin!(t, "m.sub", Sub::sub, SubAssign::sub_assign);
    bin!(t, "m.mul", Mul::mul, MulAssign::mul_assign);
    bin!(t, "m.div", Div::div, DivAssign::div_assign);
    t.add("m.neg", "v", "", "m-", |e, o| {
        let Some(a) = e.mt(o.a) else { return e.skip() };
        (-a).put(e, o.d)
    });
    t.add("m.neg", "r", "", "m-", |e, o| {
        let Some(a) = e.mr(o.a) else { return e.skip() };
        let r = -a;
        r.put(e, o.d)
    });
    t.add("m.pow", "r", "", "mu", |e, o| {
        let Some(a) = e.mr(o.a) else { return e.skip() };
        let r = a.pow(e.ur(o.b));
        r.put(e, o.d)
    });
    t.add("m.pows", "r", "", "mi", |e, o| {
        let Some(a) = e.mr(o.a) else { return e.skip() };
        let r = a.pow_signed(e.ir(o.b));
        r.put(e, o.d)
    });
    t.add("m.inv", "r", "", "m-", |e, o| {
        let Some(a) = e.mr(o.a) else { return e.skip() };
        match a.inverse() {
            Some(r) => r.put(e, o.d),
            None => e.out.push(R::None_),
        }
    });
    t.add("m.residue", "r", "", "m-", |e, o| {
        let Some(a) = e.mr(o.a) else { return e.skip() };
        let r = a.residue();
        r.put(e, o.d)
    });
    t.add("m.eq", "r", "", "mm", |e, o| {
        let (Some(a), Some(b)) = (e.mr(o.a), e.mr(o.b)) else { return e.skip() };
        let r = a == b;
        r.put(e, 0)
    });
    t.add("m.clone", "r", "", "m-", |e, o| {
        let Some(a) = e.mr(o.a) else { return e.skip() };
        let r = a.clone();
        r.put(e, o.d)
    });
    t.add("m.clonefrom", "ar", "", "mm", |e, o| {
        if o.a == o.b || o.a >= POOL || e.mr(o.a).is_none() {
            return e.skip();
        }
        let Some(b) = e.mr(o.b) else { return e.skip() };
        let b: *const Modulo<'static> = b;
        e.m[o.a as usize].as_mut().unwrap().clone_from(unsafe { &*b });
        e.out.push(R::M(o.a));
    });
    t.add("m.swap", "", "", "mm", |e, o| {
        if o.a >= POOL || o.b >= POOL {
            return e.skip();
        }
        e.m.swap(o.a as usize, o.b as usize);
    });
    t.add("m.drop", "", "", "m-", |e, o| {
        if o.a >= POOL {
            return e.skip();
        }
        e.m[o.a as usize] = None;
    });
    t.add("m.fmt", "r", "", "m-", |e, o| {
        let Some(a) = e.mr(o.a) else { return e.skip() };
        let a: *const Modulo<'static> = a;
        let x = format_to(unsafe { &*a }, o, &mut e.ctx.w).is_ok();
        e.out.push(R::W(x));
    });
}
