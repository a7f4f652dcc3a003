#![allow(unexpected_cfgs)]
#![feature(formatting_options)]
//! The operations the simulator can perform on the library, as a table. Compiled with the same
//! instrumentation as the library itself (generic code of the library is instantiated here).

use ibig::ops::*;
use ibig::{IBig, Modulo, ModuloRing, UBig};
use simrt::alloc::Harness;
use simrt::io::*;
use std::fmt;

mod nested;
mod ops_bin;
mod ops_misc;
mod ops_mod;
mod ops_prim;

pub use nested::{at_hand, nested};
pub const POOL: u8 = 64;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Op {
    pub def: u16,
    pub d: u8,
    pub e: u8,
    pub a: u8,
    pub b: u8,
    /// primitive argument
    pub n: u128,
    /// small argument (bit number, shift, exponent, radix, ...)
    pub k: u64,
    pub x: Vec<u8>,
}

/// What an operation handed back.
#[derive(Debug)]
pub enum R {
    U(u8),
    I(u8),
    M(u8),
    /// a primitive: negative, magnitude
    P(bool, u128),
    B(bool),
    N(u64),
    O(Option<u64>),
    By(Vec<u8>),
    S(String),
    F(u64),
    Ord(i8),
    /// 1 no digits, 2 invalid digit, 3 out of bounds
    Err(u8),
    /// the writer's result: true is Ok
    W(bool),
    SerErr(SimErr),
    DeErr(SimErr),
    RngErr,
    None_,
}

#[derive(Default)]
pub struct Outs {
    pub v: [Option<R>; 4],
    pub n: usize,
    pub skip: bool,
}
impl Outs {
    pub fn push(&mut self, r: R) {
        self.v[self.n] = Some(r);
        self.n += 1;
    }
    pub fn list(&self) -> impl Iterator<Item = &R> {
        self.v[..self.n].iter().map(|x| x.as_ref().unwrap())
    }
    pub fn clear(&mut self) {
        for x in &mut self.v {
            *x = None;
        }
        self.n = 0;
        self.skip = false;
    }
}

/// Caller-supplied objects for the current operation.
pub struct Ctx {
    pub w: SimWriter,
    pub rng: SimRng,
    pub hasher: SimHasher,
    pub ser_out: Vec<u8>,
    pub ser: SerState,
    pub de: DeState,
    pub de_pos: usize,
}
impl Default for Ctx {
    fn default() -> Ctx {
        Ctx {
            w: SimWriter::default(),
            rng: SimRng::fair(0),
            hasher: SimHasher::new(),
            ser_out: Vec::new(),
            ser: SerState::default(),
            de: DeState::default(),
            de_pos: 0,
        }
    }
}

#[derive(Clone, Copy)]
pub struct Pool {
    pub u: *const [UBig],
    pub i: *const [IBig],
    pub m: *const [Option<Modulo<'static>>],
}
pub const NO_POOL: Pool = Pool { u: &[], i: &[], m: &[] };

pub struct Env {
    pub u: Vec<UBig>,
    pub i: Vec<IBig>,
    pub m: Vec<Option<Modulo<'static>>>,
    pub rings: Vec<Option<*mut ModuloRing>>,
    pub pool: Pool,
    pub out: Outs,
    pub ctx: Ctx,
}
/// The simulator moves environments between its threads; that the library's types may be moved and
/// shared is checked by a separate compile-time probe.
unsafe impl Send for Env {}

impl Env {
    pub fn new(nu: usize, ni: usize, nm: usize, nr: usize) -> Env {
        Env {
            u: (0..nu).map(|_| UBig::default()).collect(),
            i: (0..ni).map(|_| IBig::default()).collect(),
            m: (0..nm).map(|_| None).collect(),
            rings: (0..nr).map(|_| None).collect(),
            pool: NO_POOL,
            out: Outs::default(),
            ctx: Ctx::default(),
        }
    }
    #[inline]
    pub fn ur(&self, k: u8) -> &UBig {
        if k >= POOL {
            unsafe { &(*self.pool.u)[(k - POOL) as usize] }
        } else {
            &self.u[k as usize]
        }
    }
    #[inline]
    pub fn ir(&self, k: u8) -> &IBig {
        if k >= POOL {
            unsafe { &(*self.pool.i)[(k - POOL) as usize] }
        } else {
            &self.i[k as usize]
        }
    }
    #[inline]
    pub fn mr(&self, k: u8) -> Option<&Modulo<'static>> {
        if k >= POOL {
            unsafe { (&(*self.pool.m))[(k - POOL) as usize].as_ref() }
        } else {
            self.m[k as usize].as_ref()
        }
    }
    #[inline]
    pub fn ut(&mut self, k: u8) -> UBig {
        if k >= POOL {
            simrt::alloc::calm(|| self.ur(k).clone())
        } else {
            std::mem::take(&mut self.u[k as usize])
        }
    }
    #[inline]
    pub fn it(&mut self, k: u8) -> IBig {
        if k >= POOL {
            simrt::alloc::calm(|| self.ir(k).clone())
        } else {
            std::mem::take(&mut self.i[k as usize])
        }
    }
    #[inline]
    pub fn mt(&mut self, k: u8) -> Option<Modulo<'static>> {
        if k >= POOL {
            simrt::alloc::calm(|| self.mr(k).cloned())
        } else {
            self.m[k as usize].take()
        }
    }
    #[inline]
    pub fn um(&mut self, k: u8) -> &mut UBig {
        &mut self.u[k as usize]
    }
    #[inline]
    pub fn im(&mut self, k: u8) -> &mut IBig {
        &mut self.i[k as usize]
    }
    pub fn ring(&self, k: u64) -> Option<&'static ModuloRing> {
        self.rings.get(k as usize).copied().flatten().map(|p| unsafe { &*p })
    }
    pub fn skip(&mut self) {
        self.out.skip = true;
    }
}

/// Puts a result where the operation says.
pub trait Put {
    fn put(self, e: &mut Env, d: u8);
}
impl Put for UBig {
    #[inline]
    fn put(self, e: &mut Env, d: u8) {
        e.u[d as usize] = self;
        e.out.push(R::U(d));
    }
}
impl Put for IBig {
    #[inline]
    fn put(self, e: &mut Env, d: u8) {
        e.i[d as usize] = self;
        e.out.push(R::I(d));
    }
}
impl Put for Modulo<'static> {
    #[inline]
    fn put(self, e: &mut Env, d: u8) {
        e.m[d as usize] = Some(self);
        e.out.push(R::M(d));
    }
}
impl Put for bool {
    fn put(self, e: &mut Env, _: u8) {
        e.out.push(R::B(self));
    }
}
impl Put for std::cmp::Ordering {
    fn put(self, e: &mut Env, _: u8) {
        e.out.push(R::Ord(self as i8));
    }
}
impl Put for Vec<u8> {
    fn put(self, e: &mut Env, _: u8) {
        e.out.push(R::By(self));
    }
}
impl Put for String {
    fn put(self, e: &mut Env, _: u8) {
        e.out.push(R::S(self));
    }
}
impl Put for f32 {
    fn put(self, e: &mut Env, _: u8) {
        e.out.push(R::F(self.to_bits() as u64));
    }
}
impl Put for f64 {
    fn put(self, e: &mut Env, _: u8) {
        e.out.push(R::F(self.to_bits()));
    }
}
impl Put for Option<usize> {
    fn put(self, e: &mut Env, _: u8) {
        e.out.push(R::O(self.map(|x| x as u64)));
    }
}
impl<T: Put> Put for Result<T, ibig::error::OutOfBoundsError> {
    fn put(self, e: &mut Env, d: u8) {
        match self {
            Ok(x) => x.put(e, d),
            Err(x) => e.out.push(R::Err(if said(&x) { 3 } else { 8 })),
        }
    }
}
/// The error has a text of its own.
fn said(x: &dyn std::error::Error) -> bool {
    struct Count(usize);
    impl std::fmt::Write for Count {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut c = Count(0);
    std::fmt::write(&mut c, format_args!("{}", x)).is_ok() && c.0 > 0
}
impl<T: Put> Put for Result<T, ibig::error::ParseError> {
    fn put(self, e: &mut Env, d: u8) {
        match self {
            Ok(x) => x.put(e, d),
            Err(x) => e.out.push(R::Err(match x {
                _ if !said(&x) => 8,
                ibig::error::ParseError::NoDigits => 1,
                ibig::error::ParseError::InvalidDigit => 2,
            })),
        }
    }
}
macro_rules! put_prim {
    (u $($t:ty)*) => {$( impl Put for $t { fn put(self, e: &mut Env, _: u8) { e.out.push(R::P(false, self as u128)); } } )*};
    (i $($t:ty)*) => {$( impl Put for $t { fn put(self, e: &mut Env, _: u8) { e.out.push(R::P(self < 0, (self as i128).unsigned_abs())); } } )*};
}
put_prim!(u u8 u16 u32 u64 u128 usize);
put_prim!(i i8 i16 i32 i64 i128 isize);
/// Two results: the second goes to `e`.
pub fn put2<A: Put, B: Put>(r: (A, B), env: &mut Env, o: &Op) {
    r.0.put(env, o.d);
    r.1.put(env, o.e);
}

pub type F = fn(&mut Env, &Op);
pub struct OpDef {
    pub name: String,
    pub sem: &'static str,
    pub form: &'static str,
    pub ty: &'static str,
    /// where operands a and b live: u, i, m or -
    pub dom: &'static str,
    pub f: F,
}

pub struct Table {
    pub ops: Vec<OpDef>,
}
impl Table {
    pub fn add(&mut self, sem: &'static str, form: &'static str, ty: &'static str, dom: &'static str, f: F) {
        let mut name = sem.to_string();
        for p in [form, ty] {
            if !p.is_empty() {
                name.push('.');
                name.push_str(p);
            }
        }
        self.ops.push(OpDef { name, sem, form, ty, dom, f });
    }
    pub fn build() -> Table {
        let mut t = Table { ops: Vec::new() };
        ops_bin::add(&mut t);
        ops_prim::add(&mut t);
        ops_misc::add(&mut t);
        ops_mod::add(&mut t);
        t
    }
    pub fn find(&self, name: &str) -> Option<u16> {
        self.ops.iter().position(|x| x.name == name).map(|x| x as u16)
    }
}

pub const TYPES: [&str; 12] =
    ["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];

/// Format flags packed in `Op::k`: bits 0-7 radix (0: none) or style, 8 plus, 9 alternate, 10 zero
/// pad, 11-12 alignment (0 none, 1 left, 2 center, 3 right), 13-14 fill, 16-47 width + 1.
pub mod ff {
    pub const DISPLAY: u64 = 0;
    pub const DEBUG: u64 = 101;
    pub const BINARY: u64 = 102;
    pub const OCTAL: u64 = 103;
    pub const LOWER: u64 = 104;
    pub const UPPER: u64 = 105;
    pub const FILLS: [char; 4] = [' ', '*', '\u{2591}', '0'];
}

pub fn options(k: u64) -> fmt::FormattingOptions {
    let mut o = fmt::FormattingOptions::new();
    if k >> 8 & 1 == 1 {
        o.sign(Some(fmt::Sign::Plus));
    }
    o.alternate(k >> 9 & 1 == 1);
    o.sign_aware_zero_pad(k >> 10 & 1 == 1);
    o.align(match k >> 11 & 3 {
        0 => None,
        1 => Some(fmt::Alignment::Left),
        2 => Some(fmt::Alignment::Center),
        _ => Some(fmt::Alignment::Right),
    });
    o.fill(ff::FILLS[(k >> 13 & 3) as usize]);
    let w = k >> 16 & 0x1_ffff;
    if w > 0 {
        o.width(Some((w - 1) as u16));
    }
    o
}

/// Formats any of the library's types into the simulated writer.
pub fn format_to<T>(x: &T, o: &Op, w: &mut SimWriter) -> fmt::Result
where
    T: fmt::Display + fmt::Debug + fmt::Binary + fmt::Octal + fmt::LowerHex + fmt::UpperHex,
{
    let mut f = options(o.k).create_formatter(w);
    match o.k & 0xff {
        ff::DEBUG => fmt::Debug::fmt(x, &mut f),
        ff::BINARY => fmt::Binary::fmt(x, &mut f),
        ff::OCTAL => fmt::Octal::fmt(x, &mut f),
        ff::LOWER => fmt::LowerHex::fmt(x, &mut f),
        ff::UPPER => fmt::UpperHex::fmt(x, &mut f),
        _ => fmt::Display::fmt(x, &mut f),
    }
}

/// A copy of the value made without the library's own operators, for harness use.
pub fn fresh_u(bytes: &[u8]) -> UBig {
    UBig::from_le_bytes(bytes)
}
pub fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    let mut h = SimHasher::new();
    x.hash(&mut h);
    h.d.0
}
pub fn harness() -> Harness {
    Harness::new()
}

/// The value as little-endian bytes.
pub fn peek_u(x: &UBig) -> Vec<u8> {
    x.to_le_bytes()
}
/// (negative, magnitude as little-endian bytes)
pub fn peek_i(x: &IBig) -> (bool, Vec<u8>) {
    (num_traits::Signed::is_negative(x), x.unsigned_abs().to_le_bytes())
}
pub fn fresh_i(neg: bool, bytes: &[u8]) -> IBig {
    let m = IBig::from(UBig::from_le_bytes(bytes));
    if neg {
        -m
    } else {
        m
    }
}
pub const MAX_BIT_LEN: usize = UBig::MAX_BIT_LEN;
#[cfg(force_bits = "16")]
pub const WORD_BITS: usize = 16;
#[cfg(force_bits = "32")]
pub const WORD_BITS: usize = 32;
#[cfg(force_bits = "64")]
pub const WORD_BITS: usize = 64;
#[cfg(not(any(force_bits = "16", force_bits = "32", force_bits = "64")))]
pub const WORD_BITS: usize = usize::BITS as usize;
pub use ibig;
