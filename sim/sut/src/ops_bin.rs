//! Operators between two big numbers, in every ownership form.
use super::*;
use std::ops::*;

macro_rules! forms {
    ($t:ident, $sem:literal, $dom:literal, $take:ident, $re:ident, $f:path) => {
        $t.add($sem, "vv", "", $dom, |e, o| {
            let a = e.$take(o.a);
            let b = e.$take(o.b);
            $f(a, b).put(e, o.d)
        });
        $t.add($sem, "vr", "", $dom, |e, o| {
            let a = e.$take(o.a);
            let r = $f(a, e.$re(o.b));
            r.put(e, o.d)
        });
        $t.add($sem, "rv", "", $dom, |e, o| {
            let b = e.$take(o.b);
            let r = $f(e.$re(o.a), b);
            r.put(e, o.d)
        });
        $t.add($sem, "rr", "", $dom, |e, o| {
            let r = $f(e.$re(o.a), e.$re(o.b));
            r.put(e, o.d)
        });
    };
}
macro_rules! forms2 {
    ($t:ident, $sem:literal, $dom:literal, $take:ident, $re:ident, $f:path) => {
        $t.add($sem, "vv", "", $dom, |e, o| {
            let a = e.$take(o.a);
            let b = e.$take(o.b);
            put2($f(a, b), e, o)
        });
        $t.add($sem, "vr", "", $dom, |e, o| {
            let a = e.$take(o.a);
            let r = $f(a, e.$re(o.b));
            put2(r, e, o)
        });
        $t.add($sem, "rv", "", $dom, |e, o| {
            let b = e.$take(o.b);
            let r = $f(e.$re(o.a), b);
            put2(r, e, o)
        });
        $t.add($sem, "rr", "", $dom, |e, o| {
            let r = $f(e.$re(o.a), e.$re(o.b));
            put2(r, e, o)
        });
    };
}
macro_rules! assign {
    ($t:ident, $sem:literal, $dom:literal, $take:ident, $re:ident, $v:ident, $R:ident, $f:path) => {
        $t.add($sem, "av", "", $dom, |e, o| {
            if o.a == o.b || o.a >= POOL {
                return e.skip();
            }
            let b = e.$take(o.b);
            $f(&mut e.$v[o.a as usize], b);
            e.out.push(R::$R(o.a));
        });
        $t.add($sem, "ar", "", $dom, |e, o| {
            if o.a == o.b || o.a >= POOL {
                return e.skip();
            }
            let b: *const _ = e.$re(o.b);
            // a and b are different slots
            $f(&mut e.$v[o.a as usize], unsafe { &*b });
            e.out.push(R::$R(o.a));
        });
    };
}

macro_rules! both {
    ($t:ident, $u:literal, $i:literal, $f:path) => {
        forms!($t, $u, "uu", ut, ur, $f);
        forms!($t, $i, "ii", it, ir, $f);
    };
    ($t:ident, $u:literal, $i:literal, $f:path, $g:path) => {
        both!($t, $u, $i, $f);
        assign!($t, $u, "uu", ut, ur, u, U, $g);
        assign!($t, $i, "ii", it, ir, i, I, $g);
    };
}
macro_rules! both2 {
    ($t:ident, $u:literal, $i:literal, $f:path) => {
        forms2!($t, $u, "uu", ut, ur, $f);
        forms2!($t, $i, "ii", it, ir, $f);
    };
}

pub fn add(t: &mut Table) {
    both!(t, "u.add", "i.add", Add::add, AddAssign::add_assign);
    both!(t, "u.sub", "i.sub", Sub::sub, SubAssign::sub_assign);
    both!(t, "u.mul", "i.mul", Mul::mul, MulAssign::mul_assign);
    both!(t, "u.div", "i.div", Div::div, DivAssign::div_assign);
    both!(t, "u.rem", "i.rem", Rem::rem, RemAssign::rem_assign);
    both!(t, "u.and", "i.and", BitAnd::bitand, BitAndAssign::bitand_assign);
    both!(t, "u.or", "i.or", BitOr::bitor, BitOrAssign::bitor_assign);
    both!(t, "u.xor", "i.xor", BitXor::bitxor, BitXorAssign::bitxor_assign);
    both!(t, "u.andnot", "i.andnot", AndNot::and_not);
    both!(t, "u.diveuc", "i.diveuc", DivEuclid::div_euclid);
    both!(t, "u.remeuc", "i.remeuc", RemEuclid::rem_euclid);
    both2!(t, "u.divrem", "i.divrem", DivRem::div_rem);
    both2!(t, "u.divremeuc", "i.divremeuc", DivRemEuclid::div_rem_euclid);
}
