//! What every operation must do, computed with the reference arithmetic.

use crate::nat::{Int, Nat};
use sut::{ff, Op, OpDef, POOL};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Why {
    DivZero,
    Negative,
    TooLarge,
    Radix,
    RingZero,
    Mixed,
    NonInv,
    GcdZero,
    EmptyRange,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Num(Int),
    M(u8, Nat),
    B(bool),
    N(u64),
    O(Option<u64>),
    By(Vec<u8>),
    S(String),
    F(u64),
    Ord(i8),
    Err(u8),
    /// the writer's or serializer's success
    Done,
    None_,
    /// the hash of the value, checked against a freshly built one
    Hash,
    /// Bezout coefficients of (a, b) with the given gcd: x, then y
    Bez { a: Int, b: Int, g: Nat },
    /// any number between the bounds, inclusive
    Within(Int, Int),
    /// deserialized: the only value acceptable, and whether an error is acceptable
    De { value: Option<Int>, err_ok: bool },
}

#[derive(Clone, Debug, Default)]
pub struct Exp {
    pub skip: bool,
    pub outs: Vec<Out>,
    pub panic: Option<Why>,
    /// another reason for which it may as well be refused
    pub also: Option<Why>,
    /// a recorded finding: this call is refused as too large though its result fits
    pub known: Option<&'static str>,
    /// the result is so large that running out of memory is acceptable
    pub huge: bool,
    /// text or bytes delivered to a caller-supplied object
    pub text: Option<Vec<u8>>,
    /// bits of the largest result, for the memory bound
    pub bits: usize,
    /// extra memory a modular power may use
    pub extra: usize,
    /// in-place target: (kind, slot, new value)
    pub target: Option<(char, u8)>,
}

#[derive(Clone, Default)]
pub struct Model {
    pub u: Vec<Nat>,
    pub i: Vec<Int>,
    pub m: Vec<Option<(u8, Nat)>>,
    pub rings: Vec<Option<Nat>>,
    pub pu: std::sync::Arc<Vec<Nat>>,
    pub pi: std::sync::Arc<Vec<Int>>,
    pub pm: std::sync::Arc<Vec<Option<(u8, Nat)>>>,
    /// bits above which results must be refused
    pub limit: usize,
    /// rings this world may create: all, or these
    pub own: Option<(usize, usize)>,
    /// rings that other worlds may be using
    pub sealed: Vec<bool>,
}

pub const HUGE_BITS: usize = 1 << 23;

impl Model {
    pub fn new(nu: usize, ni: usize, nm: usize, nr: usize, limit: usize) -> Model {
        Model {
            u: vec![Nat::zero(); nu],
            i: vec![Int::zero(); ni],
            m: vec![None; nm],
            rings: vec![None; nr],
            limit,
            ..Model::default()
        }
    }
    pub fn ur(&self, k: u8) -> Nat {
        if k >= POOL {
            self.pu[(k - POOL) as usize].clone()
        } else {
            self.u[k as usize].clone()
        }
    }
    pub fn ir(&self, k: u8) -> Int {
        if k >= POOL {
            self.pi[(k - POOL) as usize].clone()
        } else {
            self.i[k as usize].clone()
        }
    }
    pub fn mr(&self, k: u8) -> Option<(u8, Nat)> {
        if k >= POOL {
            self.pm[(k - POOL) as usize].clone()
        } else {
            self.m[k as usize].clone()
        }
    }
    pub fn ring(&self, k: u64) -> Option<&Nat> {
        self.rings.get(k as usize)?.as_ref()
    }
}

/// Which operands the form takes by value.
pub fn consumes(d: &OpDef) -> (bool, bool) {
    let f = d.form.as_bytes();
    match d.sem {
        "u.drop" | "i.drop" | "m.drop" => return (true, false),
        "m.from" => return (d.form == "uv" || d.form == "iv", false),
        _ => {}
    }
    match f.len() {
        1 => (f[0] == b'v', false),
        2 if f[1] == b'p' || f[1] == b'P' => (f[0] == b'v', false),
        2 if f[0] == b'p' || f[0] == b'P' => (f[1] == b'v', false),
        2 => (f[0] == b'v', f[1] == b'v'),
        _ => (false, false),
    }
}
/// The operation works in place on operand a.
pub fn in_place(d: &OpDef) -> bool {
    d.form.starts_with('a')
}

pub fn prim(ty: &str, n: u128) -> Int {
    macro_rules! g {
        (u $t:ty) => {
            Int::from_nat(Nat::from_u128(n as $t as u128))
        };
        (i $t:ty) => {
            Int::from_i128(n as $t as i128)
        };
    }
    match ty {
        "u8" => g!(u u8),
        "u16" => g!(u u16),
        "u32" => g!(u u32),
        "u64" => g!(u u64),
        "u128" => g!(u u128),
        "usize" => g!(u usize),
        "i8" => g!(i i8),
        "i16" => g!(i i16),
        "i32" => g!(i i32),
        "i64" => g!(i i64),
        "i128" => g!(i i128),
        _ => g!(i isize),
    }
}
pub fn prim_range(ty: &str) -> (Int, Int) {
    let bits = match &ty[1..] {
        "8" => 8,
        "16" => 16,
        "32" => 32,
        "64" => 64,
        "128" => 128,
        _ => usize::BITS as usize,
    };
    let one = Nat::one();
    if ty.starts_with('u') {
        (Int::zero(), Int::from_nat(Nat::pow2(bits).sub(&one).unwrap()))
    } else {
        (Int::new(true, Nat::pow2(bits - 1)), Int::from_nat(Nat::pow2(bits - 1).sub(&one).unwrap()))
    }
}

fn digits(mag: &Nat, k: u64, radix: u32) -> (String, &'static str) {
    // radix 0: from the style
    let alt = k >> 9 & 1 == 1;
    if radix != 0 {
        return (mag.to_radix(radix, alt), "");
    }
    let p = |s: &'static str| if alt { s } else { "" };
    match k & 0xff {
        ff::BINARY => (mag.to_radix(2, false), p("0b")),
        ff::OCTAL => (mag.to_radix(8, false), p("0o")),
        ff::LOWER => (mag.to_radix(16, false), p("0x")),
        ff::UPPER => (mag.to_radix(16, true), p("0x")),
        _ => (mag.to_radix(10, false), ""),
    }
}
/// The documented text of a number.
pub fn text(x: &Int, k: u64, radix: u32) -> String {
    let (d, prefix) = digits(&x.mag, k, radix);
    let sign = if x.neg {
        "-"
    } else if k >> 8 & 1 == 1 {
        "+"
    } else {
        ""
    };
    let len = d.len() + prefix.len() + sign.len();
    let w = (k >> 16 & 0x1_ffff) as usize;
    let width = if w > 0 { w - 1 } else { 0 };
    if width <= len {
        return format!("{}{}{}", sign, prefix, d);
    }
    let pad = width - len;
    if k >> 10 & 1 == 1 {
        return format!("{}{}{}{}", sign, prefix, "0".repeat(pad), d);
    }
    let left = match k >> 11 & 3 {
        1 => 0,
        2 => pad / 2,
        _ => pad,
    };
    let fill = ff::FILLS[(k >> 13 & 3) as usize];
    let mut s = String::new();
    for _ in 0..left {
        s.push(fill);
    }
    s.push_str(sign);
    s.push_str(prefix);
    s.push_str(&d);
    for _ in left..pad {
        s.push(fill);
    }
    s
}

fn lossless(b: &[u8]) -> &str {
    std::str::from_utf8(b).unwrap_or("?")
}

/// Ok(value) or the error code, or None for an invalid radix. `signed` allows a minus sign.
fn parse(s: &str, radix: u64, signed: bool) -> Option<Result<Int, u8>> {
    if !(2..=36).contains(&radix) {
        return None;
    }
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') if signed => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    Some(magnitude(body, radix as u32).map(|m| Int::new(neg, m)))
}
fn magnitude(body: &str, radix: u32) -> Result<Nat, u8> {
    if body.is_empty() {
        return Err(1);
    }
    Nat::parse(body.as_bytes(), radix).ok_or(2)
}
/// Malformed text that is also too long for any number may be refused for either reason.
fn endless(o: &Op, limit: usize) -> Option<Why> {
    if o.x.len().saturating_mul(6) > limit { Some(Why::TooLarge) } else { None }
}
fn parse_prefixed(s: &str, signed: bool) -> Result<Int, u8> {
    let (neg, body) = match s.as_bytes().first() {
        Some(b'-') if signed => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let (radix, body) = if let Some(r) = body.strip_prefix("0b") {
        (2, r)
    } else if let Some(r) = body.strip_prefix("0o") {
        (8, r)
    } else if let Some(r) = body.strip_prefix("0x") {
        (16, r)
    } else {
        (10, body)
    };
    magnitude(body, radix).map(|m| Int::new(neg, m))
}

// ---- stored form -----------------------------------------------------------------------------

fn varint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}
/// The one stored form of a number in each simulated format.
pub fn encode(fmt: u8, x: &Int, signed: bool) -> Vec<u8> {
    encode_words(fmt, x.neg as u8, &x.mag.words64(), signed, None)
}
pub fn encode_words(fmt: u8, sign: u8, words: &[u64], signed: bool, claim: Option<u64>) -> Vec<u8> {
    let mut out = Vec::new();
    let name: &[u8] = match sign {
        0 => b"Positive",
        1 => b"Negative",
        2 => b"Neutral",
        _ => b"positive",
    };
    if signed {
        match fmt {
            0 => out.extend_from_slice(&(sign as u32).to_le_bytes()),
            1 => {
                out.push(0x82);
                out.push(0x60 | name.len() as u8);
                out.extend_from_slice(name);
            }
            2 => {
                out.extend_from_slice(b"[\"");
                out.extend_from_slice(name);
                out.extend_from_slice(b"\",");
            }
            _ => out.push(sign),
        }
    }
    let n = claim.unwrap_or(words.len() as u64);
    match fmt {
        0 => out.extend_from_slice(&n.to_le_bytes()),
        1 => out.push(0x9f),
        2 => out.push(b'['),
        _ => varint(&mut out, n),
    }
    for (k, w) in words.iter().enumerate() {
        match fmt {
            0 => out.extend_from_slice(&w.to_le_bytes()),
            1 => {
                out.push(0x1b);
                out.extend_from_slice(&w.to_le_bytes());
            }
            2 => {
                if k > 0 {
                    out.push(b',');
                }
                out.extend_from_slice(w.to_string().as_bytes());
            }
            _ => varint(&mut out, *w),
        }
    }
    match fmt {
        1 => out.push(0xff),
        2 => out.push(b']'),
        _ => {}
    }
    if signed && fmt == 2 {
        out.push(b']');
    }
    out
}

struct Rd<'a>(&'a [u8], usize);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(r)
    }
    fn byte(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn expect(&mut self, b: u8) -> Option<()> {
        (self.byte()? == b).then_some(())
    }
    fn u64(&mut self) -> Option<u64> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn var(&mut self) -> Option<u64> {
        let mut x = 0u64;
        for i in 0..10 {
            let b = self.byte()?;
            x |= ((b & 0x7f) as u64).checked_shl(7 * i).unwrap_or(0);
            if b < 0x80 {
                return Some(x);
            }
        }
        None
    }
    fn num(&mut self, fmt: u8) -> Option<u64> {
        match fmt {
            0 => self.u64(),
            1 => {
                self.expect(0x1b)?;
                self.u64()
            }
            2 => {
                let st = self.1;
                while self.0.get(self.1).is_some_and(|c| c.is_ascii_digit()) {
                    self.1 += 1;
                }
                if self.1 == self.0.len() {
                    return None;
                }
                lossless(&self.0[st..self.1]).parse().ok()
            }
            _ => self.var(),
        }
    }
}
/// Reads a stored number: (negative, words, bytes used).
pub fn decode(fmt: u8, b: &[u8], signed: bool) -> Option<(bool, Vec<u64>, usize)> {
    let mut r = Rd(b, 0);
    let mut neg = false;
    if signed {
        match fmt {
            0 => {
                neg = match u32::from_le_bytes(r.take(4)?.try_into().unwrap()) {
                    0 => false,
                    1 => true,
                    _ => return None,
                }
            }
            1 => {
                r.expect(0x82)?;
                let t = r.byte()?;
                if t & 0xe0 != 0x60 {
                    return None;
                }
                neg = match r.take((t & 0x1f) as usize)? {
                    b"Positive" => false,
                    b"Negative" => true,
                    _ => return None,
                };
            }
            2 => {
                r.expect(b'[')?;
                r.expect(b'"')?;
                let st = r.1;
                while *r.0.get(r.1)? != b'"' {
                    r.1 += 1;
                }
                neg = match &r.0[st..r.1] {
                    b"Positive" => false,
                    b"Negative" => true,
                    _ => return None,
                };
                r.1 += 1;
                r.expect(b',')?;
            }
            _ => {
                neg = match r.byte()? {
                    0 => false,
                    1 => true,
                    _ => return None,
                }
            }
        }
    }
    let mut words = Vec::new();
    match fmt {
        0 | 3 => {
            let n = if fmt == 0 { r.u64()? } else { r.var()? };
            for _ in 0..n {
                words.push(r.num(fmt)?);
            }
        }
        1 => {
            r.expect(0x9f)?;
            loop {
                if *r.0.get(r.1)? == 0xff {
                    r.1 += 1;
                    break;
                }
                words.push(r.num(1)?);
            }
        }
        _ => {
            r.expect(b'[')?;
            if *r.0.get(r.1)? == b']' {
                r.1 += 1;
            } else {
                loop {
                    words.push(r.num(2)?);
                    match r.byte()? {
                        b',' => {}
                        b']' => break,
                        _ => return None,
                    }
                }
            }
        }
    }
    if signed && fmt == 2 {
        r.expect(b']')?;
    }
    Some((neg, words, r.1))
}

// ---- the operations ----------------------------------------------------------------------------

fn ok(outs: Vec<Out>) -> Exp {
    Exp { outs, ..Exp::default() }
}
/// A finding is tolerated only while the driver, reading the known-findings file, lists it.
fn known(id: &'static str) -> Option<&'static str> {
    static LIST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let l = LIST.get_or_init(|| std::env::var("SIM_KNOWN").unwrap_or_default());
    l.split(',').any(|x| x == id).then_some(id)
}
fn pan(w: Why) -> Exp {
    Exp { panic: Some(w), ..Exp::default() }
}
fn skip() -> Exp {
    Exp { skip: true, ..Exp::default() }
}
fn num(x: Int) -> Exp {
    ok(vec![Out::Num(x)])
}
fn nat(x: Nat) -> Exp {
    num(Int::from_nat(x))
}

/// Facts about the caller-supplied objects that change what is acceptable.
#[derive(Clone, Default)]
pub struct Around {
    /// every announcement honest, elements presented as unsigned integers
    pub honest: bool,
}

/// Applies the taking of by-value operands to the model and says what must happen.
pub fn expect(m: &mut Model, d: &OpDef, o: &Op, around: &Around) -> Exp {
    let dom = d.dom.as_bytes();
    // operands that do not exist
    if dom[0] == b'm' && m.mr(o.a).is_none() && d.sem != "m.swap" && d.sem != "m.drop" {
        return skip();
    }
    if dom[1] == b'm' && d.sem != "m.swap" && (m.mr(o.b).is_none() || (o.a == o.b && d.form != "rr" && d.form != "r")) {
        return skip();
    }
    if in_place(d) && (o.a >= POOL || (o.a == o.b && dom[1] != b'-' && dom[0] == dom[1])) {
        return skip();
    }
    let (ca, cb) = consumes(d);
    let mut e = match dom[0] {
        b'm' => expect_m(m, d, o, ca, cb),
        _ if d.sem.starts_with("m.") || d.sem.starts_with("ring.") => expect_ring(m, d, o, ca),
        _ => expect_n(m, d, o, ca, cb, around),
    };
    if e.skip {
        return e;
    }
    if in_place(d) {
        e.target = Some((dom[0] as char, o.a));
    }
    if e.panic.is_none() && !e.huge {
        for x in &e.outs {
            let bits = match x {
                Out::Num(x) => x.mag.bits(),
                Out::M(_, x) => x.bits(),
                _ => 0,
            };
            e.bits = e.bits.max(bits);
        }
        if e.bits > m.limit {
            e.panic = Some(Why::TooLarge);
            e.outs.clear();
        }
    }
    if e.huge && e.panic.is_none() && m.limit < HUGE_BITS {
        e.panic = Some(Why::TooLarge);
    }
    e
}

fn huge() -> Exp {
    Exp { huge: true, ..Exp::default() }
}

fn expect_n(m: &mut Model, d: &OpDef, o: &Op, ca: bool, cb: bool, around: &Around) -> Exp {
    let dom = d.dom.as_bytes();
    let signed = d.sem.starts_with('i');
    // operands, taking by-value ones out
    let mut a = Int::zero();
    let mut b = Int::zero();
    let get = |m: &Model, which: u8, k: u8| match which {
        b'u' => Int::from_nat(m.ur(k)),
        b'i' => m.ir(k),
        _ => Int::zero(),
    };
    let take = |m: &mut Model, which: u8, k: u8| {
        let v = get(m, which, k);
        if k < POOL {
            match which {
                b'u' => m.u[k as usize] = Nat::zero(),
                b'i' => m.i[k as usize] = Int::zero(),
                _ => {}
            }
        }
        v
    };
    if ca {
        a = take(m, dom[0], o.a);
    }
    if cb {
        b = take(m, dom[1], o.b);
    }
    if !ca {
        a = get(m, dom[0], o.a);
    }
    if !cb {
        b = get(m, dom[1], o.b);
    }
    let f = d.form;
    if !d.ty.is_empty() && dom[0] != b'-' {
        let p = prim(d.ty, o.n);
        if f.starts_with(['p', 'P']) {
            b = std::mem::replace(&mut a, p);
        } else {
            b = p;
        }
    }
    let k = o.k as usize;
    let name = &d.sem[2..];
    // an unsigned result that would be negative is refused
    let limit = m.limit;
    let res = |x: Int| {
        if !signed && x.neg {
            let also = if x.mag.bits() > limit { Some(Why::TooLarge) } else { None };
            Exp { also, ..pan(Why::Negative) }
        } else {
            num(x)
        }
    };
    let two = |q: Int, r: Int| {
        if !signed && (q.neg || r.neg) {
            pan(Why::Negative)
        } else {
            ok(vec![Out::Num(q), Out::Num(r)])
        }
    };
    match name {
        "add" => res(a.add(&b)),
        "sub" => res(a.sub(&b)),
        "abssub" => res(Some(a.sub(&b)).filter(|x| !x.neg).unwrap_or(Int::zero())),
        "mul" => {
            if a.mag.bits() + b.mag.bits() > HUGE_BITS {
                return huge();
            }
            res(a.mul(&b))
        }
        "and" => res(a.bitop(&b, 0)),
        "or" => res(a.bitop(&b, 1)),
        "xor" => res(a.bitop(&b, 2)),
        "andnot" => res(a.bitop(&b, 3)),
        "div" | "rem" | "diveuc" | "remeuc" | "divrem" | "divremeuc" => {
            if b.is_zero() {
                return pan(Why::DivZero);
            }
            let (q, r) = if name.ends_with("euc") { a.divrem_euclid(&b) } else { a.divrem(&b) };
            match name {
                "div" | "diveuc" => res(q),
                "rem" | "remeuc" => res(r),
                _ => two(q, r),
            }
        }
        "shl" => {
            if a.is_zero() {
                return num(a);
            }
            if a.mag.bits().saturating_add(k) > HUGE_BITS {
                return huge();
            }
            num(a.shl(k))
        }
        "shr" => num(a.shr(k)),
        "clone" => num(a),
        "clonefrom" => num(b),
        "swap" | "drop" => {
            if name == "swap" {
                if o.a >= POOL || o.b >= POOL {
                    return skip();
                }
                if signed {
                    m.i.swap(o.a as usize, o.b as usize)
                } else {
                    m.u.swap(o.a as usize, o.b as usize)
                }
            } else if o.a >= POOL {
                return skip();
            }
            ok(vec![])
        }
        "pow" | "npow" => {
            if a.mag.bits() <= 1 || k == 0 {
                return num(a.pow(if k < 2 { k } else { 2 + (k & 1) }));
            }
            if (a.mag.bits() - 1).saturating_mul(k) >= HUGE_BITS {
                return huge();
            }
            let mut e;
            if (a.mag.bits() - 1) * k > m.limit {
                // larger than the limit without computing it
                e = pan(Why::TooLarge);
            } else {
                e = num(a.pow(k));
            }
            e.extra = 0;
            e
        }
        "tz" => ok(vec![Out::O(a.mag.tz().map(|x| x as u64))]),
        "cmp" => ok(vec![Out::Ord(a.cmp(&b) as i8)]),
        "eq" => ok(vec![Out::B(a == b)]),
        "hash" => ok(vec![Out::Hash]),
        "f32" => {
            let x = a.mag.to_f32();
            ok(vec![Out::F((if a.neg { -x } else { x }).to_bits() as u64)])
        }
        "f64" => {
            let x = a.mag.to_f64();
            ok(vec![Out::F((if a.neg { -x } else { x }).to_bits())])
        }
        "parse" => match parse(lossless(&o.x), if o.k == 10 && o.e == 1 { 10 } else { o.k }, signed) {
            None => pan(Why::Radix),
            Some(Ok(x)) => num(x),
            Some(Err(c)) => Exp { also: endless(o, limit), ..ok(vec![Out::Err(c)]) },
        },
        "parsep" => match parse_prefixed(lossless(&o.x), signed) {
            Ok(x) => num(x),
            Err(c) => Exp { also: endless(o, limit), ..ok(vec![Out::Err(c)]) },
        },
        "str" => ok(vec![Out::S(text(&a, 0, 10))]),
        "inradix" => {
            if !(2..=36).contains(&o.k) {
                return pan(Why::Radix);
            }
            ok(vec![Out::S(text(&a, if o.e == 1 { 1 << 9 } else { 0 }, o.k as u32))])
        }
        "fmt" => {
            let mut e = ok(vec![Out::Done]);
            e.text = Some(text(&a, o.k, 0).into_bytes());
            e
        }
        "fmtr" => {
            if !(2..=36).contains(&(o.n as u32)) {
                return pan(Why::Radix);
            }
            let mut e = ok(vec![Out::Done]);
            e.text = Some(text(&a, o.k & !0xff, o.n as u32).into_bytes());
            e
        }
        "ser" => {
            let mut e = ok(vec![Out::Done]);
            e.text = Some(encode(o.k as u8 % simrt::io::FORMATS, &a, signed));
            e
        }
        "de" | "dei" => {
            let fmt = o.k as u8 % simrt::io::FORMATS;
            match decode(fmt, &o.x, signed) {
                None => ok(vec![Out::De { value: None, err_ok: true }]),
                Some((neg, words, _)) => {
                    let canonical = words.last() != Some(&0) && !(neg && words.is_empty());
                    let v = Int::new(neg, Nat::from_words64(&words));
                    if v.mag.bits() > m.limit {
                        return ok(vec![Out::De { value: None, err_ok: true }]);
                    }
                    let mut e = ok(vec![Out::De { value: Some(v.clone()), err_ok: !(canonical && around.honest) }]);
                    e.bits = v.mag.bits();
                    e
                }
            }
        }
        "rand" => {
            let inclusive = o.k & 1 == 1;
            let one = Int::from_nat(Nat::one());
            let hi = if inclusive { b.clone() } else { b.sub(&one) };
            let size = hi.sub(&a).add(&one).mag.bits();
            if hi.cmp(&a).is_lt() {
                let also = if size > m.limit || b.sub(&a).mag.bits() > m.limit { Some(Why::TooLarge) } else { None };
                return Exp { also, ..pan(Why::EmptyRange) };
            }
            let mut e = ok(vec![Out::Within(a.clone(), hi)]);
            e.bits = a.mag.bits().max(b.mag.bits());
            if size > m.limit || b.sub(&a).mag.bits() > m.limit {
                e.known = known("F2");
            }
            e
        }
        "zero" => nat(Nat::zero()),
        "one" => nat(Nat::one()),
        "iszero" => ok(vec![Out::B(a.is_zero())]),
        "fromb" => nat(Nat::from_u128(o.n & 1)),
        "neg" => num(a.neg()),
        "not" => num(a.not()),
        "abs" | "uabs" | "nabs" => num(Int::from_nat(a.mag)),
        "signum" | "nsignum" => num(Int::new(a.neg, if a.is_zero() { Nat::zero() } else { Nat::one() })),
        "ispos" => ok(vec![Out::B(!a.neg && !a.is_zero())]),
        "isneg" => ok(vec![Out::B(a.neg)]),
        "fromu" => num(a),
        "fromi" => {
            if a.neg {
                ok(vec![Out::Err(3)])
            } else {
                num(a)
            }
        }
        "nextpow2" => {
            if a.is_zero() {
                return nat(Nat::one());
            }
            let n = a.mag.bits();
            if a.mag.tz() == Some(n - 1) {
                num(a)
            } else {
                nat(Nat::pow2(n))
            }
        }
        "bit" => ok(vec![Out::B(a.mag.bit(k))]),
        "setbit" => {
            if k > HUGE_BITS {
                return huge();
            }
            if a.mag.bit(k) {
                num(a)
            } else {
                nat(a.mag.add(&Nat::pow2(k)))
            }
        }
        "clearbit" => {
            if a.mag.bit(k) {
                nat(a.mag.sub(&Nat::pow2(k)).unwrap())
            } else {
                num(a)
            }
        }
        "ispow2" => ok(vec![Out::B(!a.is_zero() && a.mag.tz() == Some(a.mag.bits() - 1))]),
        "le" => ok(vec![Out::By(a.mag.to_le())]),
        "be" => {
            let mut v = a.mag.to_le();
            v.reverse();
            ok(vec![Out::By(v)])
        }
        "bitlen" => ok(vec![Out::N(a.mag.bits() as u64)]),
        "fromle" => nat(Nat::from_le(&o.x)),
        "frombe" => nat(Nat::from_be(&o.x)),
        "gcd" => {
            if a.is_zero() && b.is_zero() {
                return pan(Why::GcdZero);
            }
            nat(a.mag.gcd(&b.mag))
        }
        "egcd" => {
            if a.is_zero() && b.is_zero() {
                return pan(Why::GcdZero);
            }
            let g = a.mag.gcd(&b.mag);
            let known = if a.mag.bits().max(b.mag.bits()) >= m.limit { known("F3") } else { None };
            let bz = Out::Bez { a, b, g: g.clone() };
            Exp { known, ..ok(vec![Out::Num(Int::from_nat(g)), bz.clone(), bz]) }
        }
        "load" => num(Int::new(signed && o.e == 1, Nat::from_le(&o.x))),
        "from" => {
            let p = prim(d.ty, o.n);
            if !signed && p.neg {
                return ok(vec![Out::Err(3)]);
            }
            num(p)
        }
        "to" => {
            let (lo, hi) = prim_range(d.ty);
            if a.cmp(&lo).is_lt() || a.cmp(&hi).is_gt() {
                return ok(vec![Out::Err(3)]);
            }
            num(a)
        }
        _ => panic!("no model for {}", d.sem),
    }
}

fn expect_ring(m: &mut Model, d: &OpDef, o: &Op, ca: bool) -> Exp {
    match d.sem {
        "ring.new" => {
            let k = o.k as usize;
            if k >= m.rings.len() || m.rings[k].is_some() || m.own.is_some_and(|(a, b)| k < a || k >= b) {
                return skip();
            }
            let n = m.ur(o.a);
            if n.is_zero() {
                return pan(Why::RingZero);
            }
            m.rings[k] = Some(n.clone());
            let mut e = ok(vec![Out::N(o.k)]);
            e.bits = n.bits();
            e
        }
        "ring.drop" => {
            let k = o.k as usize;
            if m.ring(o.k).is_none() || m.sealed.get(k) == Some(&true) || m.m.iter().flatten().any(|x| x.0 as usize == k) {
                return skip();
            }
            m.rings[k] = None;
            ok(vec![Out::N(o.k)])
        }
        "ring.modulus" => match m.ring(o.k) {
            None => skip(),
            Some(n) => nat(n.clone()),
        },
        "ring.eq" => match (m.ring(o.k), m.ring(o.n as u64)) {
            (Some(_), Some(_)) => ok(vec![Out::B(o.k == o.n as u64)]),
            _ => skip(),
        },
        "ring.fmt" => match m.ring(o.n as u64) {
            None => skip(),
            Some(n) => {
                let mut e = ok(vec![Out::Done]);
                e.text = Some(format!("mod {}", text(&Int::from_nat(n.clone()), o.k, 0)).into_bytes());
                e
            }
        },
        "m.from" => {
            let Some(n) = m.ring(o.k).cloned() else { return skip() };
            let x = match d.form {
                "uv" | "ur" => Int::from_nat(m.ur(o.a)),
                "iv" | "ir" => m.ir(o.a),
                "b" => Int::from_nat(Nat::from_u128(o.n & 1)),
                _ => prim(d.ty, o.n),
            };
            if ca && o.a < POOL {
                if d.form == "uv" {
                    m.u[o.a as usize] = Nat::zero();
                } else {
                    m.i[o.a as usize] = Int::zero();
                }
            }
            let w = sut::WORD_BITS;
            let shift = (w - n.bits() % w) % w;
            let known = if n.bits() > w && x.mag.bits() + shift > m.limit { known("F1") } else { None };
            let r = x.rem_euclid(&Int::from_nat(n)).mag;
            Exp { known, ..ok(vec![Out::M(o.k as u8, r)]) }
        }
        _ => panic!("no model for {}", d.sem),
    }
}

fn expect_m(m: &mut Model, d: &OpDef, o: &Op, ca: bool, cb: bool) -> Exp {
    let name = &d.sem[2..];
    if name == "swap" {
        if o.a >= POOL || o.b >= POOL {
            return skip();
        }
        m.m.swap(o.a as usize, o.b as usize);
        return ok(vec![]);
    }
    if name == "drop" {
        if o.a >= POOL {
            return skip();
        }
        m.m[o.a as usize] = None;
        return ok(vec![]);
    }
    let (ra, a) = m.mr(o.a).unwrap();
    let (rb, b) = if d.dom.as_bytes()[1] == b'm' { m.mr(o.b).unwrap() } else { (ra, Nat::zero()) };
    if ca && o.a < POOL {
        m.m[o.a as usize] = None;
    }
    if cb && o.b < POOL {
        m.m[o.b as usize] = None;
    }
    let n = m.rings[ra as usize].clone().unwrap();
    let res = |x: Nat| ok(vec![Out::M(ra, x)]);
    if ra != rb && name != "clonefrom" {
        return pan(Why::Mixed);
    }
    match name {
        "add" => res(a.add(&b).rem(&n)),
        "sub" => res(a.add(&n).sub(&b).unwrap().rem(&n)),
        "mul" => res(a.mul(&b).rem(&n)),
        "div" => match b.modinv(&n) {
            None => pan(Why::NonInv),
            Some(i) => res(a.mul(&i).rem(&n)),
        },
        "neg" => res(n.sub(&a).unwrap().rem(&n)),
        "pow" => {
            let x = m.ur(o.b);
            let mut e = res(a.modpow(&x, &n));
            e.extra = x.bits() * (n.bits() / 8 + 16);
            e
        }
        "pows" => {
            let x = m.ir(o.b);
            let base = if x.neg {
                match a.modinv(&n) {
                    None => return pan(Why::NonInv),
                    Some(i) => i,
                }
            } else {
                a
            };
            let mut e = res(base.modpow(&x.mag, &n));
            e.extra = x.mag.bits() * (n.bits() / 8 + 16);
            e
        }
        "inv" => match a.modinv(&n) {
            None => ok(vec![Out::None_]),
            Some(i) => res(i),
        },
        "residue" => nat(a),
        "eq" => ok(vec![Out::B(a == b)]),
        "clone" => res(a),
        "clonefrom" => {
            // the target joins the ring of the source
            ok(vec![Out::M(rb, b)])
        }
        "fmt" => {
            let mut e = ok(vec![Out::Done]);
            e.text = Some(
                format!("{} (mod {})", text(&Int::from_nat(a), o.k, 0), text(&Int::from_nat(n), o.k, 0)).into_bytes(),
            );
            e
        }
        _ => panic!("no model for {}", d.sem),
    }
}
