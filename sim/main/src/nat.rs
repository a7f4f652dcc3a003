//! Reference arithmetic: a small independent implementation that results are compared with.

use std::cmp::Ordering;

#[cfg(target_pointer_width = "64")]
mod l {
    pub type L = u64;
    pub type D = u128;
}
#[cfg(not(target_pointer_width = "64"))]
mod l {
    pub type L = u32;
    pub type D = u64;
}
use l::*;
const LB: usize = L::BITS as usize;
const LBY: usize = LB / 8;

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Nat(Vec<L>);

impl std::fmt::Debug for Nat {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = self.hex();
        if s.len() <= 80 {
            write!(f, "0x{}", s)
        } else {
            write!(f, "0x{}..{} ({} bits)", &s[..24], &s[s.len() - 24..], self.bits())
        }
    }
}

impl Ord for Nat {
    fn cmp(&self, o: &Nat) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Nat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Nat {
    fn norm(mut v: Vec<L>) -> Nat {
        while v.last() == Some(&0) {
            v.pop();
        }
        Nat(v)
    }
    pub fn zero() -> Nat {
        Nat(vec![])
    }
    pub fn one() -> Nat {
        Nat(vec![1])
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_one(&self) -> bool {
        self.0.len() == 1 && self.0[0] == 1
    }
    pub fn from_u128(x: u128) -> Nat {
        Nat::from_le(&x.to_le_bytes())
    }
    pub fn from_le(b: &[u8]) -> Nat {
        let mut v = Vec::with_capacity(b.len() / LBY + 1);
        for c in b.chunks(LBY) {
            let mut w = [0u8; LBY];
            w[..c.len()].copy_from_slice(c);
            v.push(L::from_le_bytes(w));
        }
        Nat::norm(v)
    }
    pub fn from_be(b: &[u8]) -> Nat {
        let mut v = b.to_vec();
        v.reverse();
        Nat::from_le(&v)
    }
    pub fn to_le(&self) -> Vec<u8> {
        let mut v: Vec<u8> = self.0.iter().flat_map(|x| x.to_le_bytes()).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
    pub fn hex(&self) -> String {
        let b = self.to_le();
        if b.is_empty() {
            return "0".into();
        }
        let mut s = format!("{:x}", b[b.len() - 1]);
        for x in b[..b.len() - 1].iter().rev() {
            s.push_str(&format!("{:02x}", x));
        }
        s
    }
    pub fn from_words64(w: &[u64]) -> Nat {
        let b: Vec<u8> = w.iter().flat_map(|x| x.to_le_bytes()).collect();
        Nat::from_le(&b)
    }
    pub fn words64(&self) -> Vec<u64> {
        self.to_le()
            .chunks(8)
            .map(|c| {
                let mut w = [0u8; 8];
                w[..c.len()].copy_from_slice(c);
                u64::from_le_bytes(w)
            })
            .collect()
    }
    pub fn pow2(n: usize) -> Nat {
        Nat::one().shl(n)
    }
    pub fn ones(n: usize) -> Nat {
        Nat::pow2(n).sub(&Nat::one()).unwrap()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(x) => self.0.len() * LB - x.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, n: usize) -> bool {
        n / LB < self.0.len() && self.0[n / LB] >> (n % LB) & 1 == 1
    }
    pub fn tz(&self) -> Option<usize> {
        self.0.iter().position(|x| *x != 0).map(|i| i * LB + self.0[i].trailing_zeros() as usize)
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.bits() > 128 {
            return None;
        }
        let mut w = [0u8; 16];
        let b = self.to_le();
        w[..b.len()].copy_from_slice(&b);
        Some(u128::from_le_bytes(w))
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let (a, b) = if self.0.len() >= o.0.len() { (&self.0, &o.0) } else { (&o.0, &self.0) };
        let mut r = Vec::with_capacity(a.len() + 1);
        let mut c: D = 0;
        for i in 0..a.len() {
            c += a[i] as D + *b.get(i).unwrap_or(&0) as D;
            r.push(c as L);
            c >>= LB;
        }
        r.push(c as L);
        Nat::norm(r)
    }
    pub fn sub(&self, o: &Nat) -> Option<Nat> {
        if *self < *o {
            return None;
        }
        let mut r = Vec::with_capacity(self.0.len());
        let mut borrow = false;
        for i in 0..self.0.len() {
            let (x, b1) = self.0[i].overflowing_sub(*o.0.get(i).unwrap_or(&0));
            let (x, b2) = x.overflowing_sub(borrow as L);
            borrow = b1 || b2;
            r.push(x);
        }
        Some(Nat::norm(r))
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        if self.is_zero() || o.is_zero() {
            return Nat::zero();
        }
        let mut r = vec![0 as L; self.0.len() + o.0.len()];
        for (i, x) in self.0.iter().enumerate() {
            let mut c: D = 0;
            if *x == 0 {
                continue;
            }
            for (j, y) in o.0.iter().enumerate() {
                c += *x as D * *y as D + r[i + j] as D;
                r[i + j] = c as L;
                c >>= LB;
            }
            r[i + o.0.len()] = c as L;
        }
        Nat::norm(r)
    }
    fn divrem_l(&self, d: L) -> (Nat, L) {
        let mut r: D = 0;
        let mut q = self.0.clone();
        for x in q.iter_mut().rev() {
            let cur = (r << LB) | *x as D;
            *x = (cur / d as D) as L;
            r = cur % d as D;
        }
        (Nat::norm(q), r as L)
    }
    /// (quotient, remainder); the divisor is not zero
    pub fn divrem(&self, o: &Nat) -> (Nat, Nat) {
        assert!(!o.is_zero());
        if *self < *o {
            return (Nat::zero(), self.clone());
        }
        if o.0.len() == 1 {
            let (q, r) = self.divrem_l(o.0[0]);
            return (q, Nat::norm(vec![r]));
        }
        let s = o.0.last().unwrap().leading_zeros() as usize;
        let v = o.shl(s).0;
        let mut u = self.shl(s).0;
        u.resize(u.len().max(self.0.len()) + 1, 0);
        let n = v.len();
        let m = u.len() - n;
        let mut q = vec![0 as L; m];
        let (v1, v2) = (v[n - 1] as D, v[n - 2] as D);
        for j in (0..m).rev() {
            let top = ((u[j + n] as D) << LB) | u[j + n - 1] as D;
            let mut qh = top / v1;
            let mut rh = top % v1;
            while qh >> LB != 0 || qh * v2 > ((rh << LB) | u[j + n - 2] as D) {
                qh -= 1;
                rh += v1;
                if rh >> LB != 0 {
                    break;
                }
            }
            let mut borrow: D = 0;
            let mut carry: D = 0;
            for i in 0..n {
                carry += qh * v[i] as D;
                let sub = (carry as L) as D + borrow;
                carry >>= LB;
                let x = u[i + j] as D;
                borrow = (x < sub) as D;
                u[i + j] = x.wrapping_sub(sub) as L;
            }
            let sub = carry + borrow;
            let x = u[j + n] as D;
            let neg = x < sub;
            u[j + n] = x.wrapping_sub(sub) as L;
            if neg {
                qh -= 1;
                let mut c: D = 0;
                for i in 0..n {
                    c += u[i + j] as D + v[i] as D;
                    u[i + j] = c as L;
                    c >>= LB;
                }
                u[j + n] = (u[j + n] as D + c) as L;
            }
            q[j] = qh as L;
        }
        u.truncate(n);
        (Nat::norm(q), Nat::norm(u).shr(s))
    }
    pub fn rem(&self, o: &Nat) -> Nat {
        self.divrem(o).1
    }
    pub fn shl(&self, n: usize) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let (w, b) = (n / LB, n % LB);
        let mut r = vec![0 as L; w];
        let mut c: L = 0;
        for x in &self.0 {
            r.push(if b == 0 { *x } else { (*x << b) | c });
            c = if b == 0 { 0 } else { *x >> (LB - b) };
        }
        r.push(c);
        Nat::norm(r)
    }
    pub fn shr(&self, n: usize) -> Nat {
        let (w, b) = (n / LB, n % LB);
        if w >= self.0.len() {
            return Nat::zero();
        }
        let mut r = Vec::with_capacity(self.0.len() - w);
        for i in w..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0);
            r.push(if b == 0 { self.0[i] } else { (self.0[i] >> b) | (hi << (LB - b)) });
        }
        Nat::norm(r)
    }
    fn zip(&self, o: &Nat, f: impl Fn(L, L) -> L) -> Nat {
        let n = self.0.len().max(o.0.len());
        Nat::norm((0..n).map(|i| f(*self.0.get(i).unwrap_or(&0), *o.0.get(i).unwrap_or(&0))).collect())
    }
    pub fn and(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a & b)
    }
    pub fn or(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a | b)
    }
    pub fn xor(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a ^ b)
    }
    pub fn andnot(&self, o: &Nat) -> Nat {
        self.zip(o, |a, b| a & !b)
    }
    pub fn low_bits(&self, n: usize) -> Nat {
        self.sub(&self.shr(n).shl(n)).unwrap()
    }
    pub fn pow(&self, e: usize) -> Nat {
        let mut r = Nat::one();
        if e == 0 {
            return r;
        }
        for i in (0..usize::BITS - e.leading_zeros()).rev() {
            r = r.mul(&r);
            if e >> i & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    /// self^e mod m
    pub fn modpow(&self, e: &Nat, m: &Nat) -> Nat {
        let mut r = Nat::one().rem(m);
        let b = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&b).rem(m);
            }
        }
        r
    }
    /// inverse of self modulo m
    pub fn modinv(&self, m: &Nat) -> Option<Nat> {
        if m.is_one() {
            return Some(Nat::zero());
        }
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (Int::zero(), Int::from_nat(Nat::one()));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let t = t0.sub(&Int::from_nat(q).mul(&t1));
            t0 = t1;
            t1 = t;
            r0 = r1;
            r1 = r;
        }
        if !r0.is_one() {
            return None;
        }
        Some(t0.rem_euclid(&Int::from_nat(m.clone())).mag)
    }
    pub fn to_radix(&self, radix: u32, upper: bool) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut k = 1;
        let mut big = radix as D;
        while big * (radix as D) <= L::MAX as D {
            big *= radix as D;
            k += 1;
        }
        let mut out: Vec<u8> = Vec::new();
        let mut x = self.clone();
        while !x.is_zero() {
            let (q, mut r) = x.divrem_l(big as L);
            x = q;
            for _ in 0..k {
                let d = (r % radix as L) as u8;
                r /= radix as L;
                out.push(match d {
                    0..=9 => b'0' + d,
                    _ if upper => b'A' + d - 10,
                    _ => b'a' + d - 10,
                });
            }
        }
        while out.last() == Some(&b'0') {
            out.pop();
        }
        out.reverse();
        String::from_utf8(out).unwrap()
    }
    /// digits only, all valid
    pub fn parse(s: &[u8], radix: u32) -> Option<Nat> {
        let mut v: Vec<L> = Vec::new();
        let mut k = 0;
        let mut mul: L = 1;
        let mut acc: L = 0;
        let push = |v: &mut Vec<L>, mul: L, acc: L| {
            let mut c: D = acc as D;
            for x in v.iter_mut() {
                c += *x as D * mul as D;
                *x = c as L;
                c >>= LB;
            }
            if c != 0 {
                v.push(c as L);
            }
        };
        let per = {
            let mut p = 1;
            let mut b = radix as D;
            while b * (radix as D) <= L::MAX as D {
                b *= radix as D;
                p += 1;
            }
            p
        };
        for c in s {
            let d = (*c as char).to_digit(36)?;
            if d >= radix {
                return None;
            }
            acc = acc * radix as L + d as L;
            mul *= radix as L;
            k += 1;
            if k == per {
                push(&mut v, mul, acc);
                k = 0;
                mul = 1;
                acc = 0;
            }
        }
        if k > 0 {
            push(&mut v, mul, acc);
        }
        Some(Nat::norm(v))
    }
    /// Rounded to nearest, ties to even: mantissa bits incl. the hidden one, largest exponent.
    fn float(&self, mant: u32, maxexp: usize) -> Option<(u64, usize)> {
        let n = self.bits();
        if n <= mant as usize {
            return Some((self.to_u128().unwrap() as u64, 0));
        }
        let mut s = n - mant as usize;
        let q = self.shr(s);
        let rest = self.low_bits(s);
        let half = Nat::pow2(s - 1);
        let mut m = q.to_u128().unwrap() as u64;
        if rest > half || (rest == half && m & 1 == 1) {
            m += 1;
        }
        if m == 1 << mant {
            m >>= 1;
            s += 1;
        }
        if s + mant as usize > maxexp {
            None
        } else {
            Some((m, s))
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self.float(53, 1024) {
            None => f64::INFINITY,
            Some((m, 0)) => m as f64,
            Some((m, s)) => f64::from_bits(((s as u64 + 1075) << 52) | (m & ((1 << 52) - 1))),
        }
    }
    pub fn to_f32(&self) -> f32 {
        match self.float(24, 128) {
            None => f32::INFINITY,
            Some((m, 0)) => m as f32,
            Some((m, s)) => f32::from_bits(((s as u32 + 150) << 23) | (m as u32 & ((1 << 23) - 1))),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}
impl std::fmt::Debug for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}{:?}", if self.neg { "-" } else { "" }, self.mag)
    }
}
impl Int {
    pub fn new(neg: bool, mag: Nat) -> Int {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    pub fn zero() -> Int {
        Int::default()
    }
    pub fn from_nat(mag: Nat) -> Int {
        Int { neg: false, mag }
    }
    pub fn is_zero(&self) -> bool {
        self.mag.is_zero()
    }
    pub fn from_i128(x: i128) -> Int {
        Int::new(x < 0, Nat::from_u128(x.unsigned_abs()))
    }
    pub fn neg(&self) -> Int {
        Int::new(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Int) -> Int {
        if self.neg == o.neg {
            return Int::new(self.neg, self.mag.add(&o.mag));
        }
        match self.mag.sub(&o.mag) {
            Some(m) => Int::new(self.neg, m),
            None => Int::new(o.neg, o.mag.sub(&self.mag).unwrap()),
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        Int::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    /// truncated
    pub fn divrem(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.mag.divrem(&o.mag);
        (Int::new(self.neg != o.neg, q), Int::new(self.neg, r))
    }
    pub fn divrem_euclid(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.divrem(o);
        if !r.neg {
            return (q, r);
        }
        let one = Int::from_nat(Nat::one());
        let q = if o.neg { q.add(&one) } else { q.sub(&one) };
        let r = r.add(&Int::from_nat(o.mag.clone()));
        (q, r)
    }
    pub fn rem_euclid(&self, o: &Int) -> Int {
        self.divrem_euclid(o).1
    }
    pub fn cmp(&self, o: &Int) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
    fn twos(&self, n: usize) -> Vec<L> {
        let mut v = self.mag.0.clone();
        v.resize(n, 0);
        if self.neg {
            let mut c = true;
            for x in v.iter_mut() {
                let (y, o) = (!*x).overflowing_add(c as L);
                *x = y;
                c = o;
            }
        }
        v
    }
    pub fn bitop(&self, o: &Int, op: u8) -> Int {
        let n = self.mag.0.len().max(o.mag.0.len()) + 1;
        let (a, b) = (self.twos(n), o.twos(n));
        let r: Vec<L> = (0..n)
            .map(|i| match op {
                0 => a[i] & b[i],
                1 => a[i] | b[i],
                2 => a[i] ^ b[i],
                _ => a[i] & !b[i],
            })
            .collect();
        if r[n - 1] >> (LB - 1) == 1 {
            let m = Int { neg: true, mag: Nat(r) }.twos(n);
            Int::new(true, Nat::norm(m))
        } else {
            Int::from_nat(Nat::norm(r))
        }
    }
    pub fn not(&self) -> Int {
        self.neg().sub(&Int::from_nat(Nat::one()))
    }
    pub fn shl(&self, n: usize) -> Int {
        Int::new(self.neg, self.mag.shl(n))
    }
    /// floor
    pub fn shr(&self, n: usize) -> Int {
        if !self.neg {
            return Int::from_nat(self.mag.shr(n));
        }
        let q = self.mag.shr(n);
        let exact = match self.mag.tz() {
            Some(t) => t >= n,
            None => true,
        };
        Int::new(true, if exact { q } else { q.add(&Nat::one()) })
    }
    pub fn pow(&self, e: usize) -> Int {
        Int::new(self.neg && e & 1 == 1, self.mag.pow(e))
    }
    pub fn to_i128(&self) -> Option<i128> {
        let m = self.mag.to_u128()?;
        if self.neg {
            if m <= 1 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }
}

/// Prints random computations for an independent check (tools/natcheck.py).
pub fn cross_check(seed: u64, count: u64) {
    use simrt::prng::Prng;
    let mut r = Prng::split(seed, 77);
    let val = |r: &mut Prng| {
        let n = r.usize(30) * r.usize(30) + r.usize(4);
        let mut v: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
        let k = r.below(5);
        for b in v.iter_mut() {
            match k {
                0 => *b = 0xff,
                1 if r.chance(3, 4) => *b = 0,
                2 if r.chance(3, 4) => *b = 0xff,
                _ => {}
            }
        }
        let x = Nat::from_le(&v);
        if r.chance(1, 5) {
            x.add(&Nat::one())
        } else {
            x
        }
    };
    let h = |x: &Nat| x.hex();
    let hi = |x: &Int| format!("{}{}", if x.neg { "-" } else { "" }, x.mag.hex());
    for _ in 0..count {
        let (a, b, c) = (val(&mut r), val(&mut r), val(&mut r));
        let k = r.usize(300);
        println!("add {} {} {}", h(&a), h(&b), h(&a.add(&b)));
        println!("mul {} {} {}", h(&a), h(&b), h(&a.mul(&b)));
        if let Some(d) = a.sub(&b) {
            println!("sub {} {} {}", h(&a), h(&b), h(&d));
        }
        if !b.is_zero() {
            let (q, m) = a.mul(&c).divrem(&b);
            println!("div {} {} {} {}", h(&a.mul(&c)), h(&b), h(&q), h(&m));
        }
        println!("shl {} {:x} {}", h(&a), k, h(&a.shl(k)));
        println!("shr {} {:x} {}", h(&a), k, h(&a.shr(k)));
        println!("gcd {} {} {}", h(&a), h(&b), h(&a.gcd(&b)));
        let e = Nat::from_u128(r.below(1 << 20) as u128);
        if !c.is_zero() {
            println!("powm {} {} {} {}", h(&a), h(&e), h(&c), h(&a.modpow(&e, &c)));
            match a.modinv(&c) {
                Some(i) => println!("inv {} {} {}", h(&a), h(&c), h(&i)),
                None => println!("inv {} {} none", h(&a), h(&c)),
            }
        }
        let radix = 2 + r.below(35) as u32;
        let s = a.to_radix(radix, false);
        println!("radix {} {:x} {}", h(&a), radix, s);
        println!("parse {} {:x} {}", s, radix, h(&Nat::parse(s.as_bytes(), radix).unwrap()));
        println!("f64 {} {:x}", h(&a), a.to_f64().to_bits());
        println!("f32 {} {:x}", h(&a), a.to_f32().to_bits());
        let (x, y) = (Int::new(r.chance(1, 2), a), Int::new(r.chance(1, 2), b));
        for (n, op) in [("and", 0), ("or", 1), ("xor", 2), ("andnot", 3)] {
            println!("{} {} {} {}", n, hi(&x), hi(&y), hi(&x.bitop(&y, op)));
        }
        println!("iadd {} {} {}", hi(&x), hi(&y), hi(&x.add(&y)));
        println!("imul {} {} {}", hi(&x), hi(&y), hi(&x.mul(&y)));
        println!("ishr {} {:x} {}", hi(&x), k, hi(&x.shr(k)));
        println!("inot {} {}", hi(&x), hi(&x.not()));
        if !y.is_zero() {
            let (q, m) = x.divrem(&y);
            println!("idiv {} {} {} {}", hi(&x), hi(&y), hi(&q), hi(&m));
            let (q, m) = x.divrem_euclid(&y);
            println!("ieuc {} {} {} {}", hi(&x), hi(&y), hi(&q), hi(&m));
        }
    }
}
