//! What callers' code does with the library in the middle of an operation: complete small
//! computations whose results are known.
use super::*;
use rand::{Rng, RngCore};

struct Weyl(u64);
impl RngCore for Weyl {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z ^ z >> 29
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

fn digits(k: u64, n: usize, radix: u32) -> String {
    let mut w = Weyl(k);
    (0..n)
        .map(|i| {
            let d = w.next_u32() % radix;
            std::char::from_digit(if i == 0 { d.max(1) } else { d }, radix).unwrap()
        })
        .collect()
}
fn number(k: u64, words: usize) -> UBig {
    let mut b = vec![0u8; words * 8];
    Weyl(k).fill_bytes(&mut b);
    b.push(1);
    UBig::from_le_bytes(&b)
}

fn right(k: u64) -> bool {
    let size = [2, 5, 20, 40][(k >> 8) as usize % 4];
    match k % 8 {
        0 | 1 => {
            let r = 2 + (k >> 16) as u32 % 35;
            let t = digits(k, 20 * size, r);
            let x = UBig::from_str_radix(&t, r).unwrap();
            x.in_radix(r).to_string() == t
        }
        2 => {
            let t = digits(k, 20 * size, 10);
            let x: IBig = format!("-{t}").parse().unwrap();
            x.to_string() == format!("-{t}")
        }
        3 => {
            let (a, b) = (number(k, size), number(k + 1, size + 3));
            let p = &a * &b;
            &p / &a == b && &p % &b == UBig::from(0u8) && &p + &a - &a == p
        }
        4 => {
            // Fermat: 2^61 - 1 and 2^521 - 1 are prime
            let e = if size < 10 { 61usize } else { 521 };
            let p = (UBig::from(1u8) << e) - UBig::from(1u8);
            let ring = ModuloRing::new(&p);
            ring.from(number(k, size)).pow(&p) == ring.from(number(k, size))
        }
        5 => {
            let (a, b) = (number(k, size), number(k + 1, 2));
            let (g, s, t) = a.extended_gcd(&b);
            IBig::from(g) == s * IBig::from(&a) + t * IBig::from(&b)
        }
        6 => {
            let (a, b) = (number(k, 2), number(k + 1, size + 2));
            let x = Weyl(k).gen_range(a.clone()..b.clone());
            x >= a && x < b
        }
        _ => {
            let a = number(k, size);
            let r = a.pow(3);
            let mut t = String::new();
            fmt::Write::write_fmt(&mut t, format_args!("{:#x}", r)).unwrap();
            UBig::from_str_radix(&t[2..], 16).unwrap() == &a * &a * &a
        }
    }
}

thread_local! {
    /// the numbers at hand while an operation runs
    static CURRENT: std::cell::Cell<*const Env> = const { std::cell::Cell::new(std::ptr::null()) };
}
/// The caller's code has these numbers at hand, and may look at them.
pub fn at_hand(e: *const Env) {
    CURRENT.set(e);
}
fn look(e: &Env, k: u64) -> bool {
    let s = (k >> 12) as usize;
    let small = |x: &UBig| x.bit_len() < 6000;
    match k >> 8 & 7 {
        0 => {
            let x = &e.u[s % e.u.len()];
            let y = x.clone();
            y == *x && y.cmp(x).is_eq() && (!small(x) || x + UBig::from(1u8) - UBig::from(1u8) == y)
        }
        1 => {
            let x = &e.i[s % e.i.len()];
            let y = x.clone();
            y == *x && -(-x) == y && x - &y == IBig::from(0u8)
        }
        2 => {
            let x = &e.u[s % e.u.len()];
            let r = 2 + (k >> 20) as u32 % 35;
            !small(x) || UBig::from_str_radix(&x.in_radix(r).to_string(), r).unwrap() == *x
        }
        3 => {
            let x = &e.i[s % e.i.len()];
            !small(&x.unsigned_abs()) || format!("{:+}", x).parse::<IBig>().unwrap() == *x
        }
        4 => {
            use std::hash::{Hash, Hasher};
            let x = &e.u[s % e.u.len()];
            let h = |x: &UBig| {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                x.hash(&mut h);
                h.finish()
            };
            h(x) == h(&x.clone())
        }
        5 => {
            let x = &e.u[s % e.u.len()];
            UBig::from_le_bytes(&x.to_le_bytes()) == *x && UBig::from_be_bytes(&x.to_be_bytes()) == *x
        }
        6 => {
            let n = e.m.len();
            let Some(x) = (0..n).find_map(|j| e.m[(s + j) % n].as_ref()) else { return true };
            let r = x.residue();
            if !small(&r) {
                return x + x - x == *x;
            }
            x + x - x == *x && x.pow(&UBig::from(3u8)) == x * x * x && x.to_string().starts_with(&format!("{} (mod ", r))
        }
        7 => {
            let n = e.rings.len();
            let Some(g) = (0..n).find_map(|j| e.ring(((s + j) % n) as u64)) else { return true };
            let m = g.modulus();
            let x = number(k, 3);
            let y = g.from(&x);
            y.residue() == &x % &m && y.clone() - &y == g.from(0u8) && g.from(&m) == g.from(0u8)
        }
        _ => unreachable!(),
    }
}

pub fn nested(k: u64) {
    let r = std::panic::catch_unwind(|| {
        let e = CURRENT.get();
        if !e.is_null() && k >> 40 & 1 == 1 {
            return look(unsafe { &*e }, k);
        }
        right(k)
    });
    let m = match r {
        Ok(true) => return,
        Ok(false) => "an operation of the caller's code in the middle of another one gave a wrong result",
        Err(_) => "an operation of the caller's code in the middle of another one panicked",
    };
    let _h = Harness::new();
    simrt::alloc::fatal(m)
}
