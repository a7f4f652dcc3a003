//! Operators between a big number and a primitive.
use super::*;
use std::ops::*;

macro_rules! fwd {
    ($t:ident, $P:ty, $p:literal, $sem:literal, $dom:literal, $take:ident, $re:ident, $put:ident, $f:path) => {
        $t.add($sem, "vp", $p, $dom, |e, o| {
            let a = e.$take(o.a);
            $put($f(a, o.n as $P), e, o)
        });
        $t.add($sem, "rp", $p, $dom, |e, o| {
            let r = $f(e.$re(o.a), o.n as $P);
            $put(r, e, o)
        });
        $t.add($sem, "vP", $p, $dom, |e, o| {
            let a = e.$take(o.a);
            $put($f(a, &(o.n as $P)), e, o)
        });
        $t.add($sem, "rP", $p, $dom, |e, o| {
            let r = $f(e.$re(o.a), &(o.n as $P));
            $put(r, e, o)
        });
    };
}
macro_rules! swp {
    ($t:ident, $P:ty, $p:literal, $sem:literal, $dom:literal, $take:ident, $re:ident, $f:path) => {
        $t.add($sem, "pv", $p, $dom, |e, o| {
            let a = e.$take(o.a);
            put1($f(o.n as $P, a), e, o)
        });
        $t.add($sem, "pr", $p, $dom, |e, o| {
            let r = $f(o.n as $P, e.$re(o.a));
            put1(r, e, o)
        });
        $t.add($sem, "Pv", $p, $dom, |e, o| {
            let a = e.$take(o.a);
            put1($f(&(o.n as $P), a), e, o)
        });
        $t.add($sem, "Pr", $p, $dom, |e, o| {
            let r = $f(&(o.n as $P), e.$re(o.a));
            put1(r, e, o)
        });
    };
}
macro_rules! asg {
    ($t:ident, $P:ty, $p:literal, $sem:literal, $dom:literal, $m:ident, $R:ident, $f:path) => {
        $t.add($sem, "ap", $p, $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            $f(e.$m(o.a), o.n as $P);
            e.out.push(R::$R(o.a));
        });
        $t.add($sem, "aP", $p, $dom, |e, o| {
            if o.a >= POOL {
                return e.skip();
            }
            $f(e.$m(o.a), &(o.n as $P));
            e.out.push(R::$R(o.a));
        });
    };
}

pub fn put1<A: Put>(r: A, env: &mut Env, o: &Op) {
    r.put(env, o.d)
}

macro_rules! prim {
    ($t:ident, $P:ty, $p:literal) => {
        prim!(one $t, $P, $p, "u-", ut, ur, um, U, "u.add", "u.mul", "u.and", "u.or", "u.xor", "u.sub", "u.div", "u.rem",
            "u.andnot", "u.diveuc", "u.remeuc", "u.divrem", "u.divremeuc");
        prim!(one $t, $P, $p, "i-", it, ir, im, I, "i.add", "i.mul", "i.and", "i.or", "i.xor", "i.sub", "i.div", "i.rem",
            "i.andnot", "i.diveuc", "i.remeuc", "i.divrem", "i.divremeuc");
        swp!($t, $P, $p, "i.sub", "i-", it, ir, Sub::sub);
        $t.add("i.from", "p", $p, "--", |e, o| IBig::from(o.n as $P).put(e, o.d));
        $t.add("u.from", "p", $p, "--", |e, o| UBig::try_from(o.n as $P).ok().put(e, o.d));
        $t.add("u.to", "v", $p, "u-", |e, o| {
            let a = e.ut(o.a);
            <$P>::try_from(a).put(e, o.d)
        });
        $t.add("u.to", "r", $p, "u-", |e, o| {
            let r = <$P>::try_from(e.ur(o.a));
            r.put(e, o.d)
        });
        $t.add("i.to", "v", $p, "i-", |e, o| {
            let a = e.it(o.a);
            <$P>::try_from(a).put(e, o.d)
        });
        $t.add("i.to", "r", $p, "i-", |e, o| {
            let r = <$P>::try_from(e.ir(o.a));
            r.put(e, o.d)
        });
        $t.add("m.from", "p", $p, "--", |e, o| {
            let Some(r) = e.ring(o.k) else { return e.skip() };
            r.from(o.n as $P).put(e, o.d)
        });
    };
    (one $t:ident, $P:ty, $p:literal, $dom:literal, $take:ident, $re:ident, $m:ident, $R:ident, $add:literal, $mul:literal,
        $and:literal, $or:literal, $xor:literal, $sub:literal, $div:literal, $rem:literal, $andnot:literal,
        $diveuc:literal, $remeuc:literal, $divrem:literal, $divremeuc:literal) => {
        fwd!($t, $P, $p, $add, $dom, $take, $re, put1, Add::add);
        fwd!($t, $P, $p, $mul, $dom, $take, $re, put1, Mul::mul);
        fwd!($t, $P, $p, $and, $dom, $take, $re, put1, BitAnd::bitand);
        fwd!($t, $P, $p, $or, $dom, $take, $re, put1, BitOr::bitor);
        fwd!($t, $P, $p, $xor, $dom, $take, $re, put1, BitXor::bitxor);
        fwd!($t, $P, $p, $sub, $dom, $take, $re, put1, Sub::sub);
        fwd!($t, $P, $p, $div, $dom, $take, $re, put1, Div::div);
        fwd!($t, $P, $p, $rem, $dom, $take, $re, put1, Rem::rem);
        fwd!($t, $P, $p, $andnot, $dom, $take, $re, put1, AndNot::and_not);
        fwd!($t, $P, $p, $diveuc, $dom, $take, $re, put1, DivEuclid::div_euclid);
        fwd!($t, $P, $p, $remeuc, $dom, $take, $re, put1, RemEuclid::rem_euclid);
        fwd!($t, $P, $p, $divrem, $dom, $take, $re, put2, DivRem::div_rem);
        fwd!($t, $P, $p, $divremeuc, $dom, $take, $re, put2, DivRemEuclid::div_rem_euclid);
        swp!($t, $P, $p, $add, $dom, $take, $re, Add::add);
        swp!($t, $P, $p, $mul, $dom, $take, $re, Mul::mul);
        swp!($t, $P, $p, $and, $dom, $take, $re, BitAnd::bitand);
        swp!($t, $P, $p, $or, $dom, $take, $re, BitOr::bitor);
        swp!($t, $P, $p, $xor, $dom, $take, $re, BitXor::bitxor);
        asg!($t, $P, $p, $add, $dom, $m, $R, AddAssign::add_assign);
        asg!($t, $P, $p, $mul, $dom, $m, $R, MulAssign::mul_assign);
        asg!($t, $P, $p, $and, $dom, $m, $R, BitAndAssign::bitand_assign);
        asg!($t, $P, $p, $or, $dom, $m, $R, BitOrAssign::bitor_assign);
        asg!($t, $P, $p, $xor, $dom, $m, $R, BitXorAssign::bitxor_assign);
        asg!($t, $P, $p, $sub, $dom, $m, $R, SubAssign::sub_assign);
        asg!($t, $P, $p, $div, $dom, $m, $R, DivAssign::div_assign);
        asg!($t, $P, $p, $rem, $dom, $m, $R, RemAssign::rem_assign);
    };
}
impl Put for Option<UBig> {
    fn put(self, e: &mut Env, d: u8) {
        match self {
            Some(x) => x.put(e, d),
            None => e.out.push(R::Err(3)),
        }
    }
}

pub fn add(t: &mut Table) {
    prim!(t, u8, "u8");
    prim!(t, u16, "u16");
    prim!(t, u32, "u32");
    prim!(t, u64, "u64");
    prim!(t, u128, "u128");
    prim!(t, usize, "usize");
    prim!(t, i8, "i8");
    prim!(t, i16, "i16");
    prim!(t, i32, "i32");
    prim!(t, i64, "i64");
    prim!(t, i128, "i128");
    prim!(t, isize, "isize");
}
