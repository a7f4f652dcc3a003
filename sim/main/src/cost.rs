//! What operations may cost: steps in units of the work of the algorithms the code names, and
//! stack.
use crate::gen::{group, G};
use sut::OpDef;

/// Products of numbers of n words: schoolbook, Karatsuba, Toom-Cook-3.
fn square(n: f64) -> f64 {
    if n <= 24.0 {
        n * n + 4.0 * n
    } else if n <= 192.0 {
        3.0 * square((n / 2.0).ceil()) + 8.0 * n
    } else {
        5.0 * square((n / 3.0).ceil() + 1.0) + 24.0 * n
    }
}
fn mul(a: f64, b: f64) -> f64 {
    let (l, s) = (a.max(b), a.min(b));
    if s <= 24.0 {
        return l * s + 4.0 * l;
    }
    let n = (l / s).floor();
    let rest = l - n * s;
    n * square(s) + if rest > 0.0 { mul(s, rest) } else { 0.0 }
}
/// 2n words by n words: divide and conquer.
fn div2(n: f64) -> f64 {
    if n <= 32.0 {
        n * n + 6.0 * n
    } else {
        let h = (n / 2.0).ceil();
        2.0 * div2(h) + 2.0 * square(h) + 10.0 * n
    }
}
fn div(a: f64, b: f64) -> f64 {
    if a < b {
        return a;
    }
    let q = a - b + 1.0;
    if b.min(q) <= 33.0 {
        return q * b + 6.0 * a;
    }
    if q >= b {
        (q / b).ceil() * div2(b) + 6.0 * a
    } else {
        div2(q) + mul(q, b - q) + 6.0 * a
    }
}
/// Number to text.
fn text(n: f64) -> f64 {
    if n <= 32.0 {
        2.0 * n * n + 60.0 * n
    } else {
        let h = (n / 2.0).ceil();
        2.0 * text(h) + div2(h) + square(h)
    }
}
/// Text to number.
fn parse(n: f64) -> f64 {
    if n <= 256.0 {
        n * n / 2.0 + 60.0 * n
    } else {
        let h = (n / 2.0).ceil();
        2.0 * parse(h) + 2.0 * square(h)
    }
}

/// Binary algorithm for n words: an iteration per bit.
fn binary(n: f64) -> f64 {
    n * sut::WORD_BITS as f64 * (60.0 + 4.0 * n)
}
/// Extended, with coefficients as long as the larger of the numbers.
fn extended(n: f64, larger: f64) -> f64 {
    n * sut::WORD_BITS as f64 * (300.0 + 5.0 * (n + larger))
}

pub struct Sizes {
    /// words of the operands, the result and the modulus
    pub a: f64,
    pub b: f64,
    pub r: f64,
    pub ring: f64,
    /// bits of the exponent
    pub e: f64,
    /// words that many digits make
    pub digits: f64,
    /// bytes handed over or delivered
    pub bytes: f64,
    /// random words drawn
    pub drawn: f64,
    /// digits are groups of bits
    pub pow2: bool,
}

/// A bound on the steps of an operation, and the class it is in.
pub fn work(d: &OpDef, s: &Sizes) -> (&'static str, f64) {
    let name = &d.sem[d.sem.find('.').unwrap() + 1..];
    let linear = s.a + s.b + s.r + s.ring;
    let n = s.ring;
    match group(d) {
        G::Mul => ("mul", mul(s.a, s.b) + linear),
        G::Div => ("div", div(s.a, s.b) + linear),
        G::Pow => ("pow", 2.0 * square(s.r / 2.0) + 2.0 * linear + 8.0 * s.e),
        G::Gcd => {
            let (l, m) = (s.a.max(s.b), s.a.min(s.b));
            (name, 4.0 * linear + div(l, m) + mul(l, m) + if name == "gcd" { binary(m) } else { extended(m, l) })
        }
        G::Parse => ("parse", linear + if s.pow2 { 0.0 } else { parse(s.digits) } + 4.0 * s.bytes),
        G::Text | G::Fmt => ("text", linear + if s.pow2 { 0.0 } else { 1.7 * text(s.a) } + 8.0 * s.bytes),
        G::ModFmt => ("text", linear + 3.4 * text(n) + 8.0 * s.bytes),
        G::Ser => ("store", 2.0 * linear + 8.0 * s.bytes),
        // a byte may stand for an element, and what grows by an eighth is copied nine times
        G::De => ("store", 2.0 * linear + (8.0 + 10.0 * 64.0 / sut::WORD_BITS as f64) * s.bytes),
        G::Rand => ("rand", 2.0 * (linear + 4.0 * s.drawn)),
        G::Ring => ("ring", linear),
        G::Mod => match name {
            "mul" | "sqr" => ("m.mul", square(n) + div2(n) + linear),
            "pow" => ("m.pow", s.e * 1.3 * (square(n) + div2(n) + 4.0 * n)),
            "pows" => ("m.pow", s.e * 1.3 * (square(n) + div2(n) + 4.0 * n) + extended(n, 0.0)),
            "inv" | "div" => ("m.inv", linear + extended(n, 0.0) + square(n) + div2(n)),
            "from" => ("m.from", div(s.a.max(n), n) + linear),
            _ => ("m", linear),
        },
        _ => ("linear", 3.0 * linear),
    }
}

/// Steps may be this many percent of the expected ones.
pub const WORK: u64 = 500;
/// Stack an operation may use, whatever the size of its numbers.
pub const FRAMES: usize = 32 << 10;

/// The stack below the caller, painted; `height` tells how much of it was used.
pub const STACK: usize = 512 << 10;
const PAINT: u64 = 0x5aa5_c33c_6996_0ff0;

#[inline(never)]
pub fn paint() -> usize {
    let here = 0u64;
    let top = (&here as *const u64 as usize) & !63;
    let (a, b) = (top - STACK, top - 1024);
    let mut p = a;
    while p < b {
        // below every frame in use
        unsafe { (p as *mut u64).write_volatile(PAINT) };
        p += 8;
    }
    top
}
/// Bytes used below `top` since it was painted.
#[inline(never)]
pub fn height(top: usize) -> usize {
    let (a, b) = (top - STACK, top - 1024);
    let mut p = a;
    while p < b {
        if unsafe { (p as *const u64).read_volatile() } != PAINT {
            break;
        }
        p += 8;
    }
    top - p
}
