//! Seeded generation of operations, operands and faults.

use crate::machine::*;
use crate::nat::{Int, Nat};
use crate::oracle::*;
use simrt::alloc::{fk, Fault};
use simrt::io::*;
use simrt::prng::Prng;
use std::collections::{BTreeMap, VecDeque};
use sut::{ff, Op, OpDef, Table, TYPES, WORD_BITS};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum G {
    Arith,
    Mul,
    Div,
    Bit,
    Shift,
    Life,
    Pow,
    Query,
    Hash,
    Float,
    Parse,
    Text,
    Fmt,
    Ser,
    De,
    Rand,
    Conv,
    Gcd,
    Ring,
    Mod,
    ModFmt,
    Load,
}

pub fn group(d: &OpDef) -> G {
    let name = &d.sem[d.sem.find('.').unwrap() + 1..];
    if d.sem.starts_with("ring.") {
        return if name == "fmt" { G::ModFmt } else { G::Ring };
    }
    if d.sem.starts_with("m.") {
        return if name == "fmt" { G::ModFmt } else { G::Mod };
    }
    match name {
        "add" | "sub" | "abssub" => G::Arith,
        "mul" => G::Mul,
        "div" | "rem" | "diveuc" | "remeuc" | "divrem" | "divremeuc" => G::Div,
        "and" | "or" | "xor" | "andnot" | "bit" | "setbit" | "clearbit" | "not" | "nextpow2" => G::Bit,
        "shl" | "shr" => G::Shift,
        "clone" | "clonefrom" | "swap" | "drop" | "zero" | "one" | "fromb" => G::Life,
        "pow" | "npow" => G::Pow,
        "hash" => G::Hash,
        "f32" | "f64" => G::Float,
        "parse" | "parsep" => G::Parse,
        "str" | "inradix" => G::Text,
        "fmt" | "fmtr" => G::Fmt,
        "ser" => G::Ser,
        "de" | "dei" => G::De,
        "rand" => G::Rand,
        "gcd" | "egcd" => G::Gcd,
        "load" => G::Load,
        "from" | "to" | "fromu" | "fromi" | "fromle" | "frombe" | "le" | "be" => G::Conv,
        "neg" | "abs" | "uabs" | "nabs" | "signum" | "nsignum" => G::Arith,
        _ => G::Query,
    }
}

fn group_weight(prop: u8, g: G) -> u32 {
    let base = match g {
        G::Load => 0,
        G::Arith | G::Mul | G::Div => 20,
        G::Bit | G::Shift | G::Life => 14,
        G::Gcd => 6,
        G::Pow | G::Float => 4,
        G::Query | G::Conv => 8,
        G::Hash => 2,
        G::Parse | G::Text | G::Fmt | G::Ser | G::De | G::Rand => 6,
        G::Ring => 6,
        G::Mod => 20,
        G::ModFmt => 2,
    };
    let boost: &[(G, u32)] = match prop {
        3 => &[(G::Mod, 90), (G::Ring, 12)],
        4 => &[(G::Fmt, 200), (G::ModFmt, 30), (G::Text, 20)],
        5 => &[(G::De, 250)],
        6 => &[(G::Ser, 120), (G::De, 80), (G::Ring, 0), (G::Mod, 0), (G::ModFmt, 0), (G::Gcd, 0), (G::Rand, 0)],
        7 => &[(G::Rand, 300)],
        8 => &[(G::Bit, 40), (G::Life, 40), (G::Query, 24), (G::Shift, 24), (G::Mod, 8)],
        9 => &[(G::Mod, 300), (G::Ring, 40), (G::ModFmt, 12)],
        13 => &[(G::Fmt, 80), (G::ModFmt, 60), (G::Ser, 60), (G::De, 60), (G::Rand, 80), (G::Hash, 40), (G::Ring, 30)],
        11 => &[(G::Fmt, 50), (G::ModFmt, 12), (G::Ser, 40), (G::De, 50), (G::Rand, 60), (G::Hash, 30)],
        12 => &[(G::Parse, 20), (G::Conv, 20), (G::De, 16), (G::Pow, 12), (G::Rand, 12)],
        _ => &[],
    };
    boost.iter().find(|x| x.0 == g).map_or(base, |x| x.1)
}

pub struct Gen<'t> {
    pub t: &'t Table,
    pub prop: u8,
    pub rng: Prng,
    pub wb: usize,
    groups: Vec<G>,
    weights: Vec<u32>,
    defs: BTreeMap<G, Vec<(&'static str, Vec<u16>, Vec<u16>)>>,
    queue: VecDeque<(Op, Inject)>,
    ids: Vec<u16>,
    size_w: [u32; 5],
    maxw: usize,
    /// few operations, on numbers so long that quadratic and sub-quadratic are far apart
    pub giant: bool,
    cost_cap: u64,
    fault_free: bool,
    pub slots: (usize, usize, usize, usize),
    limit: usize,
    near_limit: bool,
    /// without anything that depends on the world around (threads: no exhaustive failing)
    pub threads: bool,
}

const IDS: [&str; 6] = ["u.load", "i.load", "m.drop", "ring.drop", "ring.new", "m.from.ur"];
const THRESHOLDS: [usize; 24] =
    [2, 3, 4, 5, 8, 16, 23, 24, 25, 26, 31, 32, 33, 34, 48, 49, 64, 65, 96, 97, 128, 192, 193, 194];
const THRESHOLDS2: [usize; 10] = [256, 257, 258, 384, 385, 400, 512, 513, 576, 600];

impl<'t> Gen<'t> {
    pub fn new(t: &'t Table, prop: u8, seed: u64, threads: bool) -> Gen<'t> {
        let mut rng = Prng::split(seed, 0x6e6);
        let mut defs: BTreeMap<G, Vec<(&'static str, Vec<u16>, Vec<u16>)>> = BTreeMap::new();
        for (k, d) in t.ops.iter().enumerate() {
            // stored histories must be the same for every word size
            if prop == 6 && d.ty.ends_with("size") {
                continue;
            }
            let v = defs.entry(group(d)).or_default();
            let i = match v.iter().position(|x| x.0 == d.sem) {
                Some(i) => i,
                None => {
                    v.push((d.sem, vec![], vec![]));
                    v.len() - 1
                }
            };
            if d.ty.is_empty() {
                v[i].1.push(k as u16);
            } else {
                v[i].2.push(k as u16);
            }
        }
        let wb = if prop == 6 { 64 } else { WORD_BITS };
        let mut groups = vec![];
        let mut weights = vec![];
        // swarm: some groups are left out or favoured
        for g in defs.keys() {
            let mut w = group_weight(prop, *g);
            if w > 0 && w < 40 {
                match rng.below(6) {
                    0 => w = 0,
                    1 => w *= 4,
                    _ => {}
                }
            }
            groups.push(*g);
            weights.push(w);
        }
        let limit = if prop == 6 { 1 << 30 } else { sut::MAX_BIT_LEN };
        let mut size_w = *rng.pick(&[
            [40, 30, 20, 10, 0],
            [10, 30, 40, 20, 0],
            [20, 20, 20, 30, 10],
            [10, 15, 20, 35, 20],
            [5, 5, 10, 30, 50],
            [10, 60, 30, 0, 0],
        ]);
        let mut maxw = *rng.pick(&[100usize, 250, 420, 700, 1500]);
        let mut cost_cap = *rng.pick(&[100_000u64, 300_000, 1_000_000, 4_000_000]);
        if threads {
            maxw = *rng.pick(&[30usize, 60, 220, 420]);
            cost_cap = 100_000;
        }
        match prop {
            1 | 11 => {
                cost_cap = cost_cap.min(400_000);
                maxw = maxw.min(700);
            }
            5 => {
                size_w[4] = size_w[4].min(20);
            }
            6 => {
                maxw = maxw.min(300);
            }
            9 => {
                size_w = *rng.pick(&[[30, 40, 20, 10, 0], [10, 30, 50, 10, 0], [30, 30, 30, 10, 0]]);
                maxw = maxw.min(100);
            }
            10 => {
                size_w = *rng.pick(&[[5, 10, 20, 35, 30], [5, 5, 10, 30, 50], [20, 20, 20, 20, 20]]);
                maxw = *rng.pick(&[420, 700, 1500, 4000]);
                cost_cap = 20_000_000;
            }
            13 => {
                cost_cap = cost_cap.min(400_000);
                maxw = maxw.min(420);
            }
            14 | 15 => {
                size_w = *rng.pick(&[[5, 10, 20, 35, 30], [5, 5, 10, 30, 50], [20, 20, 20, 20, 20]]);
                maxw = *rng.pick(&[420, 700, 1500, 4000]);
                cost_cap = 4_000_000;
            }
            _ => {}
        }
        // now and then numbers so long that the algorithms nest deeply
        if !threads && matches!(prop, 1 | 2 | 8 | 10 | 12 | 14 | 15) && rng.chance(1, if prop >= 14 { 4 } else { 60 }) {
            maxw = *rng.pick(&[3000, 6000, 9000]);
            cost_cap = 100_000_000;
            size_w = [10, 15, 15, 20, 40];
        }
        if prop == 15 && rng.chance(1, 10) {
            maxw = *rng.pick(&[9_000, 12_000]);
            cost_cap = 2_000_000;
            size_w = [10, 10, 10, 20, 50];
        }
        let giant = matches!(prop, 14 | 15) && limit >= 1 << 22 && rng.chance(1, 16);
        if giant {
            maxw = *rng.pick(&[8_000, 14_000, 20_000]);
            cost_cap = 800_000_000;
            size_w = [3, 3, 6, 6, 82];
            for (g, w) in groups.iter().zip(&mut weights) {
                *w = match g {
                    G::Load | G::Rand | G::Ring | G::Mod | G::ModFmt | G::Gcd => 0,
                    G::Mul | G::Div | G::Pow | G::Parse | G::Text | G::Fmt => 12,
                    _ => 1,
                };
            }
        }
        let near_limit = limit < 1 << 20 && prop != 6 && rng.chance(if prop == 12 { 3 } else { 1 }, 5);
        maxw = maxw.min(limit / wb);
        if near_limit {
            cost_cap = cost_cap.max(2_000_000);
        }
        let fault_free = rng.chance(1, 4);
        Gen {
            t,
            prop,
            wb,
            groups,
            weights,
            defs,
            queue: VecDeque::new(),
            ids: IDS.iter().map(|x| t.find(x).unwrap()).collect(),
            size_w,
            maxw,
            giant,
            cost_cap,
            fault_free,
            slots: if threads { (3, 3, 3, 2) } else { (5, 5, 5, 3) },
            limit,
            near_limit,
            threads,
            rng,
        }
    }

    /// Only these groups of operations.
    pub fn only(&mut self, groups: &[G]) {
        for (g, w) in self.groups.iter().zip(&mut self.weights) {
            if !groups.contains(g) {
                *w = 0;
            } else {
                *w = (*w).max(4);
            }
        }
    }
    pub fn group_index(&self, g: G) -> u64 {
        self.groups.iter().position(|x| *x == g).unwrap_or(0) as u64
    }
    /// One group, picked by `k`, most of the time.
    pub fn focus(&mut self, k: u64) {
        let k = k as usize % self.groups.len();
        if self.groups[k] != G::Load {
            self.weights[k] = 200;
        }
    }

    // ---- values ------------------------------------------------------------------------------------

    pub fn words(&mut self) -> usize {
        let r = &mut self.rng;
        let n = match r.weighted(&self.size_w) {
            0 => r.usize(2),
            1 => 2 + r.usize(3),
            2 => 5 + r.usize(20),
            3 => *r.pick(&THRESHOLDS),
            _ if self.giant => match r.below(5) {
                0 => 1 + r.usize(self.maxw / 8),
                _ => self.maxw / 4 + r.usize(self.maxw * 3 / 4),
            },
            _ => {
                if r.chance(1, 2) {
                    *r.pick(&THRESHOLDS2)
                } else {
                    1 + r.usize(self.maxw)
                }
            }
        };
        n.min(self.maxw)
    }
    fn bits_of(&mut self, words: usize) -> usize {
        let r = &mut self.rng;
        let b = words * self.wb;
        match r.below(4) {
            0 => b,
            1 => b.saturating_sub(1),
            2 => (b + 1).saturating_sub(self.wb),
            _ => b.saturating_sub(r.usize(self.wb)),
        }
    }
    pub fn random_bits(&mut self, bits: usize) -> Nat {
        let mut v = vec![0u8; bits.div_ceil(8)];
        for c in v.chunks_mut(8) {
            let w = self.rng.u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
        Nat::from_le(&v).low_bits(bits)
    }
    /// A number of at most that many bits.
    pub fn value_bits(&mut self, bits: usize) -> Nat {
        if bits == 0 {
            return Nat::zero();
        }
        let one = Nat::one();
        match self.rng.below(13) {
            0 => Nat::ones(bits),
            1 => Nat::pow2(bits - 1),
            2 => Nat::pow2(bits - 1).add(&one).low_bits(bits),
            3 => Nat::ones(bits).sub(&Nat::pow2(self.rng.usize(bits))).unwrap(),
            4 => Nat::pow2(bits - 1).or(&Nat::pow2(self.rng.usize(bits))),
            5 | 6 => {
                // special words
                let n = bits.div_ceil(self.wb);
                let mut x = Nat::zero();
                let dense = self.rng.chance(1, 2);
                let mut parts = Vec::new();
                for _ in 0..n {
                    let w = match self.rng.below(if dense { 5 } else { 8 }) {
                        0 => u64::MAX,
                        1 => 1,
                        2 => 1 << (self.wb - 1),
                        3 => self.rng.u64(),
                        4 => u64::MAX - 1,
                        _ => 0,
                    };
                    let w = if self.wb == 64 { w } else { w & ((1 << self.wb) - 1) };
                    parts.extend_from_slice(&w.to_le_bytes()[..self.wb / 8]);
                }
                x = x.add(&Nat::from_le(&parts));
                x.low_bits(bits)
            }
            7 => {
                // runs of ones and zeros
                let mut x = Nat::zero();
                let mut pos = 0;
                while pos < bits {
                    let n = (1 + self.rng.usize(2 * self.wb)).min(bits - pos);
                    if self.rng.chance(1, 2) {
                        x = x.or(&Nat::ones(n).shl(pos));
                    }
                    pos += n;
                }
                x
            }
            8 => {
                // near a power of a radix
                let r = if self.rng.chance(1, 2) { 10 } else { self.rng.range(2, 36) };
                let e = (((bits as f64 - 1.0) / (r as f64).log2()) as usize).min(2000);
                let r = Nat::from_u128(r as u128);
                let p = r.pow(e);
                match self.rng.below(7) {
                    0 => p,
                    1 => p.sub(&one).unwrap(),
                    2 => p.add(&one),
                    k => {
                        // a long run of zeros or of the largest digit between or before others
                        let f = self.rng.usize(e + 1);
                        let q = r.pow(f);
                        let top = r.pow(e - f);
                        let b = top.bits();
                        let top = if self.rng.chance(1, 2) { top } else { self.random_bits(b) };
                        let x = top.mul(&q);
                        let b = self.rng.usize(q.bits());
                        let low = if k < 5 { Nat::zero() } else { self.random_bits(b) };
                        if self.rng.chance(2, 3) {
                            x.add(&low)
                        } else {
                            x.sub(&low.add(&one)).unwrap_or(Nat::zero())
                        }
                    }
                }
                .low_bits(bits)
            }
            9 => {
                // low part zero
                let z = self.rng.usize(bits);
                self.random_bits(bits - z).shl(z)
            }
            _ => {
                let x = self.random_bits(bits);
                if self.rng.chance(1, 2) {
                    x.or(&Nat::pow2(bits - 1))
                } else {
                    x
                }
            }
        }
    }
    pub fn value(&mut self) -> Nat {
        if self.near_limit && self.rng.chance(1, 3) {
            let d = self.rng.usize(3) * self.rng.usize(40);
            let b = self.limit - d;
            return self.value_bits(b);
        }
        let w = self.words();
        let b = self.bits_of(w);
        self.value_bits(b)
    }
    fn small(&mut self, words: usize) -> Nat {
        let w = self.words().min(words);
        let b = self.bits_of(w);
        self.value_bits(b)
    }
    fn below(&mut self, n: &Nat) -> Nat {
        // not uniform: near the ends often
        if n.is_zero() {
            return Nat::zero();
        }
        match self.rng.below(6) {
            0 => Nat::zero(),
            1 => n.sub(&Nat::one()).unwrap(),
            2 => n.shr(1),
            3 => Nat::one().rem(n),
            _ => self.random_bits(n.bits() + 8).rem(n),
        }
    }
    pub fn prim_n(&mut self, ty: &str) -> u128 {
        let (lo, hi) = prim_range(ty);
        let bits = hi.mag.bits();
        let x = match self.rng.below(10) {
            0 => Int::zero(),
            1 => hi.clone(),
            2 => lo.clone(),
            3 => Int::from_i128(1),
            4 => Int::from_nat(Nat::pow2(self.rng.usize(bits))),
            5 => hi.sub(&Int::from_i128(1)),
            6 => Int::from_i128(2 + self.rng.below(40) as i128),
            7 => Int::from_nat(self.value_bits(bits)),
            _ => {
                let b = self.rng.usize(bits + 1);
                Int::from_nat(self.random_bits(b))
            }
        };
        let x = if lo.neg && !x.neg && self.rng.chance(1, 2) { x.neg() } else { x };
        let m = x.mag.to_u128().unwrap_or(0);
        if x.neg {
            m.wrapping_neg()
        } else {
            m
        }
    }

    /// Operands with a structure that matters to the operation.
    fn pair(&mut self, g: G, name: &str) -> (Nat, Nat) {
        let one = Nat::one();
        match g {
            G::Div => {
                let b = self.value();
                if b.is_zero() && self.rng.chance(9, 10) {
                    let a = self.value();
                    return (a, one);
                }
                match self.rng.below(8) {
                    0 => (self.value(), b),
                    1 => {
                        // largest dividend for a quotient of given length
                        let k = self.rng.usize(4) * self.wb + self.rng.usize(2 * self.wb);
                        (b.shl(k).sub(&one).unwrap_or(Nat::zero()), b)
                    }
                    2 => {
                        // quotient of all ones
                        let w = self.words();
                        let q = Nat::ones(w * self.wb);
                        let r = self.below(&b);
                        (q.mul(&b).add(&r), b)
                    }
                    3 => {
                        // same leading words
                        let k = self.rng.usize(3) * self.wb + self.rng.usize(self.wb);
                        let low = self.random_bits(k);
                        (b.shl(k).add(&low), b)
                    }
                    _ => {
                        let q = self.value();
                        let r = match self.rng.below(4) {
                            0 => Nat::zero(),
                            1 => b.sub(&one).unwrap_or(Nat::zero()),
                            _ => self.below(&b),
                        };
                        let a = q.mul(&b).add(&r);
                        // exact or one off
                        match self.rng.below(6) {
                            0 => (a.sub(&one).unwrap_or(Nat::zero()), b),
                            _ => (a, b),
                        }
                    }
                }
            }
            G::Arith if name.ends_with("sub") || name.ends_with("add") => {
                let a = self.value();
                let b = match self.rng.below(9) {
                    0 => a.clone(),
                    // the difference is short
                    5 => {
                        let k = self.rng.usize(a.bits() + 1).min(*self.rng.pick(&[8, 70, 140, 400]));
                        a.xor(&self.random_bits(k))
                    }
                    1 => a.add(&one),
                    2 => a.sub(&one).unwrap_or(one),
                    3 => {
                        // sum is a power of two
                        let k = a.bits() + self.rng.usize(3) * self.wb;
                        Nat::pow2(k).sub(&a).unwrap()
                    }
                    4 => {
                        let k = self.rng.usize(a.bits() + 1);
                        a.low_bits(k)
                    }
                    _ => self.value(),
                };
                if name == "u.sub" && Int::from_nat(a.clone()).cmp(&Int::from_nat(b.clone())).is_lt() && self.rng.chance(4, 5)
                {
                    (b, a)
                } else {
                    (a, b)
                }
            }
            G::Float if self.rng.chance(2, 3) => {
                // around the rounding points
                let p = if name.ends_with("32") { 24 } else { 53 };
                let r = &mut self.rng;
                let n = match r.below(4) {
                    0 => p + 1 + r.usize(80),
                    1 => *r.pick(&[p + 1, 64, 65, 127, 128, 129, 1023, 1024, 1025]),
                    _ => p + 1 + r.usize(1030 - p),
                };
                let low = n.saturating_sub(p + 1);
                let head = match r.below(3) {
                    0 => Nat::ones(p),
                    _ => Nat::pow2(p - 1).add(&self.random_bits(p - 1)),
                };
                let head = head.shl(1).add(&self.random_bits(1));
                let r = &mut self.rng;
                let tail = match r.below(6) {
                    0 => Nat::zero(),
                    1 if low > 0 => Nat::pow2(low - 1),
                    2 if low > 0 => one,
                    3 if low > 0 => Nat::pow2(r.usize(low)),
                    4 => Nat::ones(low),
                    _ => self.random_bits(low),
                };
                (head.shl(low).add(&tail), Nat::zero())
            }
            G::Gcd => {
                let lim = if self.rng.chance(1, 12) { 150 } else { 40 };
                match self.rng.below(7) {
                    0 => {
                        // Fibonacci neighbours
                        let (mut a, mut b) = (one.clone(), one);
                        let n = self.rng.usize(lim * self.wb);
                        for _ in 0..n {
                            let c = a.add(&b);
                            a = std::mem::replace(&mut b, c);
                        }
                        (b, a)
                    }
                    1 => {
                        let a = self.small(lim);
                        let k = self.small(4);
                        (a.mul(&k), a)
                    }
                    2 | 3 => {
                        let g = self.small(lim / 2);
                        let (x, y) = (self.small(lim / 2), self.small(lim / 2));
                        (g.mul(&x), g.mul(&y))
                    }
                    4 => {
                        let a = self.small(lim);
                        (a.clone(), a)
                    }
                    _ => (self.small(lim), self.small(lim)),
                }
            }
            G::Query => {
                let a = self.value();
                let b = match self.rng.below(4) {
                    0 => a.clone(),
                    1 => a.add(&Nat::pow2(self.rng.usize(a.bits() + 1))),
                    2 => a.sub(&one).unwrap_or(one),
                    _ => self.value(),
                };
                (a, b)
            }
            G::Rand => {
                let lo = self.value();
                let range = match self.rng.below(6) {
                    0 => Nat::from_u128(1 + self.rng.below(10) as u128),
                    1 => {
                        let w = self.words();
                        Nat::pow2(w * self.wb)
                    }
                    2 => {
                        let w = self.words();
                        Nat::pow2(w * self.wb).add(&one)
                    }
                    3 => {
                        // just above half of a power of the word: most rejections
                        let w = self.words().max(1);
                        Nat::pow2(w * self.wb - 1).add(&one)
                    }
                    _ => self.value(),
                };
                let hi = lo.add(&range);
                match self.rng.below(16) {
                    0 => (hi, lo),
                    1 => (lo.clone(), lo),
                    _ => (lo, hi),
                }
            }
            G::Mul => {
                let a = self.value();
                let b = match self.rng.below(6) {
                    0 => a.clone(),
                    1 => {
                        let n = a.bits();
                        self.value_bits(n)
                    }
                    2 => self.small(3),
                    _ => self.value(),
                };
                (a, b)
            }
            _ => {
                let a = self.value();
                let b = match self.rng.below(7) {
                    0 => a.clone(),
                    // alike except in the low part, or in a few words
                    2 => {
                        let k = self.rng.usize(a.bits() + 1);
                        let k = k.min(*self.rng.pick(&[1, 8, 70, 140, 200, usize::MAX]));
                        a.xor(&self.random_bits(k))
                    }
                    3 => {
                        let k = self.rng.usize(a.bits() + 1);
                        let w = self.rng.usize(3 * self.wb);
                        a.xor(&self.random_bits(w.min(a.bits() - k.min(a.bits()))).shl(k))
                    }
                    1 => {
                        let n = a.bits();
                        Nat::ones(n).sub(&a).unwrap_or(a.clone())
                    }
                    _ => self.value(),
                };
                (a, b)
            }
        }
    }

    // ---- building operations ----------------------------------------------------------------------------

    fn id(&self, name: &str) -> u16 {
        let k = IDS.iter().position(|x| *x == name).unwrap();
        self.ids[k]
    }
    pub fn load(&mut self, kind: u8, d: u8, x: &Nat, neg: bool) -> Op {
        if kind == b'u' {
            Op { def: self.id("u.load"), d, x: x.to_le(), ..Op::default() }
        } else {
            Op { def: self.id("i.load"), d, e: neg as u8, x: x.to_le(), ..Op::default() }
        }
    }
    fn nslots(&self, kind: u8) -> usize {
        match kind {
            b'u' => self.slots.0,
            b'i' => self.slots.1,
            b'm' => self.slots.2,
            _ => 1,
        }
    }
    fn slot(&mut self, kind: u8, m: &Model, writable: bool) -> u8 {
        let n = self.nslots(kind);
        let pool = match kind {
            b'u' => m.pu.len(),
            b'i' => m.pi.len(),
            b'm' => m.pm.len(),
            _ => 0,
        };
        if !writable && pool > 0 && self.rng.chance(1, 2) {
            return sut::POOL + self.rng.usize(pool) as u8;
        }
        self.rng.usize(n) as u8
    }

    /// The same operation with other operands.
    pub fn next_of(&mut self, m: &Model, def: u16) -> Vec<(Op, Inject)> {
        (0..10).find_map(|_| self.burst(m, def)).unwrap_or_default()
    }
    /// More of the sequence just begun follows.
    pub fn pending(&self) -> bool {
        !self.queue.is_empty()
    }
    pub fn next(&mut self, m: &Model) -> (Op, Inject) {
        if let Some(x) = self.queue.pop_front() {
            return x;
        }
        let growing = match self.prop {
            1 => 4,
            2 | 3 | 8 | 10 | 11 | 12 => 2,
            _ => 1,
        };
        if self.prop != 6 && self.rng.chance(growing, 100) {
            self.grow(m);
            return self.queue.pop_front().unwrap();
        }
        for _ in 0..20 {
            let g = self.groups[self.rng.weighted(&self.weights)];
            let sems = &self.defs[&g];
            let s = &sems[self.rng.usize(sems.len())];
            let def = if s.2.is_empty() || (!s.1.is_empty() && self.rng.chance(2, 3)) {
                *self.rng.pick(&s.1)
            } else {
                *self.rng.pick(&s.2)
            };
            if let Some(x) = self.burst(m, def) {
                let n = x.len();
                for (k, mut o) in x.into_iter().enumerate() {
                    if k + 1 == n {
                        o.1 = self.inject(m, &o.0, o.1);
                    }
                    self.queue.push_back(o);
                }
                return self.queue.pop_front().unwrap();
            }
        }
        let x = self.value();
        let d = self.rng.usize(self.slots.0) as u8;
        (self.load(b'u', d, &x, false), Inject::default())
    }

    /// Updates one number in place again and again, so that its buffer fills up and grows.
    fn grow(&mut self, m: &Model) {
        let signed = self.rng.chance(1, 3);
        let (kind, p) = if signed { (b'i', "i") } else { (b'u', "u") };
        let a = self.slot(kind, m, true);
        let b = (a + 1) % self.nslots(kind) as u8;
        let wb = self.wb;
        let mut words = match self.rng.below(4) {
            0 => 1 + self.rng.usize(3),
            1 | 2 => 2 + self.rng.usize(10),
            _ => 2 + self.rng.usize(40),
        };
        let neg = signed && self.rng.chance(1, 2);
        let x = Nat::ones(words * wb);
        let l = self.load(kind, a, &x, neg);
        self.queue.push_back((l, Inject::default()));
        let find = |t: &Table, n: &str| t.find(&format!("{}.{}", p, n));
        let way = self.rng.below(4);
        let steps = 2 + self.rng.usize(words / 8 + 6);
        for k in 0..steps {
            if words * wb + 2 * wb > self.limit {
                break;
            }
            let y = match self.rng.below(3) {
                0 => Nat::one(),
                1 => Nat::ones(words * wb),
                _ => self.random_bits(words * wb).or(&Nat::one()),
            };
            let l = self.load(kind, b, &y, neg);
            let by = |n: &str, r: &mut Prng| format!("{}.{}", n, if r.chance(2, 3) { "ar" } else { "av" });
            let name = match way {
                0 => by("add", &mut self.rng),
                1 => match self.rng.below(3) {
                    0 => "shl.a".into(),
                    1 if !signed => "setbit.a".into(),
                    _ => by("add", &mut self.rng),
                },
                _ => match self.rng.below(6) {
                    0 => "shl.a".into(),
                    1 => "mul.ap.u64".into(),
                    2 => "add.ap.u64".into(),
                    3 => by("xor", &mut self.rng),
                    _ => by("add", &mut self.rng),
                },
            };
            let Some(def) = find(self.t, &name) else { continue };
            if name.starts_with("add.a") || name.starts_with("xor") {
                self.queue.push_back((l, Inject::default()));
            }
            let o = Op {
                def,
                a,
                b,
                n: if name.contains(".ap.") { u64::MAX as u128 } else { 0 },
                k: if name == "setbit.a" { (words * wb) as u64 } else { 1 + self.rng.below(wb as u64) },
                ..Op::default()
            };
            let inj = if k > 0 || self.rng.chance(1, 2) { self.inject(m, &o, Inject::default()) } else { Inject::default() };
            self.queue.push_back((o, inj));
            words += 1;
            // all ones again, still in the same buffer
            if let Some(def) = find(self.t, "or.ar") {
                let l = self.load(kind, b, &Nat::ones(words * wb), false);
                if !neg {
                    self.queue.push_back((l, Inject::default()));
                    self.queue.push_back((Op { def, a, b, ..Op::default() }, Inject::default()));
                }
            }
        }
    }

    fn bits(m: &Model, kind: u8, k: u8) -> usize {
        match kind {
            b'u' => m.ur(k).bits(),
            b'i' => m.ir(k).mag.bits(),
            b'm' => m.mr(k).map_or(0, |x| m.rings[x.0 as usize].as_ref().map_or(0, |n| n.bits())),
            _ => 0,
        }
    }

    fn burst(&mut self, m: &Model, def: u16) -> Option<Vec<(Op, Inject)>> {
        let t = self.t;
        let d = &t.ops[def as usize];
        let g = group(d);
        let mut out: Vec<(Op, Inject)> = Vec::new();
        let dom = d.dom.as_bytes();
        let mut o = Op { def, ..Op::default() };
        let mut inj = Inject::default();
        let name = &d.sem[d.sem.find('.').unwrap() + 1..];
        let writable = in_place(d) || matches!(name, "swap" | "drop");
        o.a = self.slot(dom[0], m, writable);
        o.b = self.slot(dom[1], m, name == "swap");
        if dom[0] == dom[1] && dom[0] != b'-' && o.a == o.b && self.rng.chance(4, 5) {
            let n = self.nslots(dom[0]);
            if o.b < sut::POOL {
                o.b = (o.b + 1) % n as u8;
            }
        }
        o.d = self.rng.usize(5) as u8;
        o.e = self.rng.usize(5) as u8;
        let least = self.slots.0.min(self.slots.1).min(self.slots.2) as u8;
        o.d %= least;
        o.e %= least;
        if !d.ty.is_empty() {
            o.n = self.prim_n(d.ty);
        }
        match g {
            G::Mod | G::ModFmt | G::Ring => return self.burst_mod(m, d, o),
            G::Parse => {
                o.e = 0;
                self.text(d, &mut o);
                return Some(vec![(o, inj)]);
            }
            G::De => {
                let from_slot = self.rng.chance(1, 3);
                self.stored(m, d, &mut o, &mut inj, from_slot);
                return Some(vec![(o, inj)]);
            }
            _ => {}
        }
        match name {
            "fromle" | "frombe" => {
                let x = self.value();
                let mut b = x.to_le();
                for _ in 0..self.rng.usize(4) * self.rng.usize(9) {
                    b.push(0);
                }
                if name == "frombe" {
                    b.reverse();
                }
                o.x = b;
                return Some(vec![(o, inj)]);
            }
            "zero" | "one" => return Some(vec![(o, inj)]),
            "fromb" => {
                o.n = self.rng.below(2) as u128;
                return Some(vec![(o, inj)]);
            }
            "from" => return Some(vec![(o, inj)]),
            _ => {}
        }
        if d.sem == "u.egcd" || d.sem == "i.egcd" {
            // both coefficients in different slots
            let n = self.slots.1;
            o.e = self.rng.usize(n) as u8;
            o.k = ((o.e as usize + 1 + self.rng.usize(n - 1)) % n) as u64;
            if d.sem == "i.egcd" {
                o.d = ((0..n).find(|x| *x != o.e as usize && *x as u64 != o.k).unwrap_or(0)) as u8;
            }
        }
        if matches!(name, "divrem" | "divremeuc") && dom[0] == dom[1] && o.d == o.e {
            o.e = (o.d + 1) % self.nslots(dom[0]) as u8;
        }
        if matches!(name, "divrem" | "divremeuc") && !d.ty.is_empty() && o.d == o.e {
            o.e = (o.d + 1) % self.nslots(dom[0]).max(2) as u8;
        }

        // operands: the values at hand, or chosen ones
        let fresh = match self.prop {
            7 => g != G::Rand || self.rng.chance(4, 5),
            8 | 9 => self.rng.chance(2, 5),
            _ => self.rng.chance(3, 5),
        };
        if fresh && g != G::Life {
            let (x, y) = self.pair(g, d.sem);
            let (sx, sy) = (self.rng.chance(1, 2), self.rng.chance(1, 2));
            let prim_left = d.form.starts_with(['p', 'P']);
            if dom[0] != b'-' && o.a < sut::POOL && dom[0] != b'm' {
                let v = if prim_left && g == G::Div { &y } else { &x };
                out.push((self.load(dom[0], o.a, v, sx), Inject::default()));
            }
            if dom[1] != b'-' && o.b < sut::POOL && dom[1] != b'm' && (o.a != o.b || dom[0] != dom[1]) {
                out.push((self.load(dom[1], o.b, &y, sy), Inject::default()));
            }
        }
        // sizes as they will be
        let size = |kind: u8, k: u8| {
            for (l, _) in out.iter().rev() {
                let ld = &t.ops[l.def as usize];
                if ld.sem.as_bytes()[0] == kind && l.d == k {
                    return Nat::from_le(&l.x).bits();
                }
            }
            Self::bits(m, kind, k)
        };
        let la = size(dom[0], o.a);
        let lb = if dom[1] == b'-' { if d.ty.is_empty() { 0 } else { 128 } } else { size(dom[1], o.b) };
        let maxbits = self.maxw.max(8) * self.wb * 3;
        let maxbits = if self.limit < 1 << 20 { maxbits.min(self.limit + 200) } else { maxbits };
        match name {
            "shl" => {
                let r = &mut self.rng;
                o.k = match r.below(8) {
                    0 => (r.usize(5) * self.wb) as u64,
                    1 => r.usize(self.wb) as u64,
                    2 if self.prop == 12 || self.prop == 8 => {
                        *r.pick(&[1u64 << 29, 1 << 31, usize::MAX as u64, usize::MAX as u64 - 63, 1 << 30])
                    }
                    3 if self.near_limit => (self.limit.saturating_sub(la) + r.usize(40)).saturating_sub(20) as u64,
                    _ => r.usize(maxbits.saturating_sub(la).max(1)) as u64,
                };
            }
            "shr" => {
                let r = &mut self.rng;
                o.k = match r.below(7) {
                    0 => la as u64,
                    1 => (la as u64).saturating_sub(1),
                    2 => la as u64 + 1,
                    3 => (r.usize(la / self.wb + 2) * self.wb) as u64,
                    4 => *r.pick(&[usize::MAX as u64, 1 << 31, la as u64 + 1000]),
                    5 => (la as u64).saturating_sub((r.usize(4) * self.wb + r.usize(self.wb)) as u64),
                    _ => r.usize(la + 10) as u64,
                };
            }
            "bit" | "setbit" | "clearbit" => {
                let r = &mut self.rng;
                o.k = match r.below(7) {
                    0 => la as u64,
                    1 => (la as u64).saturating_sub(1),
                    2 => (r.usize(la / self.wb + 3) * self.wb) as u64,
                    3 => (r.usize(la / self.wb + 3) * self.wb + self.wb - 1) as u64,
                    4 if name != "setbit" || self.prop == 12 => *r.pick(&[usize::MAX as u64, 1 << 31, 1 << 29]),
                    5 if self.near_limit && name == "setbit" => (self.limit + r.usize(10)).saturating_sub(5) as u64,
                    _ => r.usize(la + 2 * self.wb) as u64,
                };
            }
            "pow" | "npow" => {
                let r = &mut self.rng;
                let cap = ((self.cost_cap as f64).sqrt() * 64.0) as usize;
                let cap = cap.min(maxbits);
                let most = if la <= 1 { 1 << 20 } else { cap / la };
                o.k = match r.below(6) {
                    0 => r.below(4),
                    1 if (self.prop == 12 || self.prop == 8) && la > 1 && r.chance(1, 8) => {
                        *r.pick(&[1u64 << 30, usize::MAX as u64, (1 << 31) + 1])
                    }
                    2 if self.near_limit && la > 1 => (self.limit / la) as u64 + r.below(3),
                    3 => most as u64,
                    _ => r.usize(most + 1) as u64,
                };
                if self.limit < 1 << 20 && la > 1 && (o.k as usize).saturating_mul(la) > 4 * self.limit && o.k < 1 << 29 {
                    o.k = (self.limit / la) as u64 + 1;
                }
            }
            "inradix" => {
                o.k = self.radix(false);
                o.e &= 1;
            }
            "fmt" => o.k = self.flags(la),
            "fmtr" => {
                o.k = self.flags(la);
                o.n = self.radix(self.prop == 12) as u128;
            }
            "ser" => o.k = self.rng.below(FORMATS as u64),
            "rand" => {
                o.k = self.rng.below(8);
                inj.r = Some(RSpec {
                    seed: self.rng.below(1 << 20),
                    mode: if self.rng.chance(1, 2) { 0 } else { 1 + self.rng.below(4) as u8 },
                    stuck: if self.rng.chance(1, 2) { self.rng.below(8) } else { self.rng.below(200) },
                    fail: None,
                    how: 0,
                });
            }
            "swap" | "drop" => {}
            _ => {}
        }
        // the remaining cost
        let (wa, wbb) = ((la / 64 + 1) as u64, (lb / 64 + 1) as u64);
        let cost = match g {
            G::Mul => wa * wbb,
            G::Div => wa * wbb,
            G::Gcd => wa * wbb * if self.prop >= 14 || wa * wbb > 200_000 { 128 } else { 8 } * if self.prop == 6 { 1 } else { 64 / WORD_BITS as u64 },
            G::Text | G::Fmt => wa * wa,
            _ => wa + wbb,
        };
        if cost > self.cost_cap {
            return None;
        }
        if self.limit >= 1 << 20 {
            let r = match g {
                G::Mul => la + lb,
                G::Shift if name == "shl" && o.k < 1 << 28 => la + o.k as usize,
                G::Bit if name == "setbit" && o.k < 1 << 28 => o.k as usize,
                G::Pow if self.prop == 6 && la > 1 => la.saturating_mul(o.k as usize),
                _ => 0,
            };
            if r > maxbits {
                return None;
            }
        }
        out.push((o, inj));
        Some(out)
    }

    fn radix(&mut self, bad: bool) -> u64 {
        let r = &mut self.rng;
        if r.chance(1, if bad { 5 } else { 60 }) {
            return *r.pick(&[0u64, 1, 37, 38, 255, 256, 1000, (1 << 31) - 1]);
        }
        match r.below(4) {
            0 => 10,
            1 => *r.pick(&[2u64, 4, 8, 16, 32]),
            _ => r.range(2, 36),
        }
    }
    fn flags(&mut self, bits: usize) -> u64 {
        let r = &mut self.rng;
        let style = *r.pick(&[ff::DISPLAY, ff::DISPLAY, ff::DEBUG, ff::BINARY, ff::OCTAL, ff::LOWER, ff::UPPER]);
        let mut k = style;
        for b in [8, 9, 10] {
            if r.chance(1, 3) {
                k |= 1 << b;
            }
        }
        k |= r.below(4) << 11 | r.below(4) << 13;
        if r.chance(1, 2) {
            let w = match r.below(4) {
                0 => r.usize(30),
                1 => r.usize(bits + 30),
                2 => bits / 3 + r.usize(20),
                _ => {
                    if r.chance(1, 8) {
                        65534
                    } else {
                        r.usize(400)
                    }
                }
            };
            k |= (w.min(65534) as u64 + 1) << 16;
        }
        k
    }

    fn text(&mut self, d: &OpDef, o: &mut Op) {
        let signed = d.sem.starts_with('i');
        let x = self.value();
        let prefixed = d.sem.ends_with("parsep");
        let radix = if prefixed { *self.rng.pick(&[2u64, 8, 10, 16]) } else { self.radix(self.prop == 12) };
        o.k = if prefixed { 0 } else { radix };
        let base = if (2..=36).contains(&radix) { radix as u32 } else { 10 };
        let digits = x.to_radix(base, self.rng.chance(1, 3));
        let mut s = String::new();
        if self.rng.chance(1, 4) {
            s.push('+');
        } else if self.rng.chance(if signed { 1 } else { 1 }, if signed { 3 } else { 20 }) {
            s.push('-');
        }
        if prefixed {
            s.push_str(match radix {
                2 => "0b",
                8 => "0o",
                16 => "0x",
                _ => "",
            });
        }
        for _ in 0..self.rng.usize(3) * self.rng.usize(20) {
            s.push('0');
        }
        s.push_str(&digits);
        match self.rng.below(if self.prop == 12 { 5 } else { 12 }) {
            0 => {
                // one character replaced
                let k = self.rng.usize(s.len() + 1);
                let c = *self.rng.pick(&[' ', '_', '-', '+', 'g', 'z', '@', '[', '`', '{', '/', ':', '\u{e9}', '9', '\u{0}']);
                if s.is_char_boundary(k) {
                    s.insert(k, c);
                }
            }
            1 => s = (*self.rng.pick(&["", "+", "-", "0x", "+0b", "-0o", "--1", "+-1", "0", "-0", "00", "0X1F", "0b2"])).to_string(),
            2 => {
                // a digit just out of range
                let c = std::char::from_digit(base.min(35), 36).unwrap();
                let k = self.rng.usize(s.len() + 1);
                s.insert(k, c);
            }
            3 if self.prop != 12 || self.rng.chance(1, 2) => {
                // some characters, or all in a part, replaced by others with bits in common
                let mut b = s.into_bytes();
                let (i, j) = (self.rng.usize(b.len() + 1), self.rng.usize(b.len() + 1));
                let (i, j) = if self.rng.chance(1, 2) { (i.min(j), i.max(j)) } else { (i.max(j), b.len()) };
                let bit = 1 << self.rng.below(7);
                let one = *self.rng.pick(b"0pP 09zZ/:@[`{@");
                let how = self.rng.below(4);
                for c in &mut b[i..j] {
                    match how {
                        0 => *c ^= bit,
                        1 => *c = one,
                        2 if self.rng.chance(1, 8) => *c ^= bit,
                        2 => {}
                        _ => *c = if self.rng.chance(1, 2) { b'0' } else { b'0' ^ bit },
                    }
                }
                s = String::from_utf8(b).unwrap();
            }
            _ => {}
        }
        if !prefixed && radix == 10 {
            o.e = self.rng.below(3) as u8;
        } else if !prefixed {
            o.e = *self.rng.pick(&[0, 0, 2]);
        }
        o.x = s.into_bytes();
    }

    /// Stored bytes, often damaged, and the behaviour of the source.
    fn stored(&mut self, m: &Model, d: &OpDef, o: &mut Op, inj: &mut Inject, from_slot: bool) {
        let signed = d.sem.starts_with('i');
        let fmt = self.rng.below(FORMATS as u64) as u8;
        o.k = fmt as u64;
        let x = if from_slot {
            let k = self.rng.usize(self.slots.0) as u8;
            if self.rng.chance(1, 2) { m.ur(k) } else { m.ir(k).mag }
        } else if self.limit < 1 << 20 && self.wb != 64 && self.rng.chance(1, 12) {
            // around the largest number
            let b = self.limit - 70 + self.rng.usize(140);
            self.value_bits(b)
        } else {
            self.value()
        };
        let neg = signed && self.rng.chance(1, 2);
        let x = Int::new(neg, x);
        let mut words = x.mag.words64();
        let mut sign = x.neg as u8;
        let mut claim = None;
        let mut ds = DSpec { hint: 0, fail: None, how: 0, present: 0 };
        let damage = if self.prop == 5 { 3 } else { 1 };
        if self.rng.chance(damage, 4) {
            match self.rng.below(6) {
                0 => {
                    for _ in 0..1 + self.rng.usize(4) {
                        words.push(0);
                    }
                }
                1 => sign = self.rng.below(4) as u8,
                2 => {
                    let n = words.len() as u64;
                    claim = Some(match self.rng.below(7) {
                        0 => n + 1,
                        1 => n.saturating_sub(1),
                        2 => u64::MAX,
                        3 => 1 << 32,
                        4 => 1 << 60,
                        5 => (1 << 61) - 1,
                        _ => self.rng.u64() >> self.rng.below(64),
                    });
                }
                _ => {}
            }
        }
        o.x = encode_words(fmt, sign, &words, signed, claim);
        if self.rng.chance(damage, 6) {
            match self.rng.below(5) {
                0 => {
                    let n = self.rng.usize(o.x.len() + 1);
                    o.x.truncate(n);
                }
                1 => {
                    for _ in 0..1 + self.rng.usize(3) {
                        if !o.x.is_empty() {
                            let k = self.rng.usize(o.x.len());
                            o.x[k] ^= 1 << self.rng.below(8);
                        }
                    }
                }
                2 => {
                    // torn: the tail is what was there before
                    let n = self.rng.usize(o.x.len() + 1);
                    let c = *self.rng.pick(&[0u8, 0xff, 0x5d, 0x31]);
                    for b in &mut o.x[n..] {
                        *b = c;
                    }
                }
                3 => {
                    let n = self.rng.usize(20);
                    for _ in 0..n {
                        o.x.push(self.rng.u64() as u8);
                    }
                }
                _ => {
                    // a piece repeated or removed
                    if o.x.len() > 8 {
                        let k = self.rng.usize(o.x.len() - 8);
                        if self.rng.chance(1, 2) {
                            o.x.drain(k..k + 8);
                        } else {
                            let p: Vec<u8> = o.x[k..k + 8].to_vec();
                            o.x.splice(k..k, p);
                        }
                    }
                }
            }
        }
        if self.rng.chance(damage, 5) {
            ds.hint = self.rng.below(HINTS as u64) as u8;
        }
        if self.rng.chance(damage, 12) {
            let kinds = if self.rng.chance(1, 4) { 11 } else { 6 };
            ds.present = self.rng.below(kinds) as u8;
        }
        if self.prop == 5 && self.rng.chance(1, 10) {
            ds.fail = Some(self.rng.below(words.len() as u64 + 3));
            ds.how = HOW_ERR;
        }
        inj.d = Some(ds);
    }

    fn burst_mod(&mut self, m: &Model, d: &OpDef, mut o: Op) -> Option<Vec<(Op, Inject)>> {
        let mut out: Vec<(Op, Inject)> = Vec::new();
        let nr = m.rings.len();
        let none = Inject::default;
        let (own_a, own_b) = m.own.unwrap_or((0, nr));
        let there: Vec<usize> = (0..nr).filter(|k| m.rings[*k].is_some()).collect();
        let any = |g: &mut Self| if there.is_empty() { g.rng.usize(nr) } else { *g.rng.pick(&there) };
        match d.sem {
            "ring.new" => {
                let k = own_a + self.rng.usize(own_b - own_a);
                if m.rings[k].is_some() {
                    // replace the ring: its values first
                    if self.rng.chance(3, 4) {
                        return None;
                    }
                    let def = self.id("m.drop");
                    for (s, x) in m.m.iter().enumerate() {
                        if x.as_ref().is_some_and(|x| x.0 as usize == k) {
                            out.push((Op { def, a: s as u8, ..Op::default() }, none()));
                        }
                    }
                    let def = self.id("ring.drop");
                    out.push((Op { def, k: k as u64, ..Op::default() }, none()));
                }
                o.k = k as u64;
                let n = self.modulus(m);
                if o.a >= sut::POOL && (self.rng.chance(1, 2) || m.ur(o.a).is_zero()) {
                    o.a = self.rng.usize(self.nslots(b'u')) as u8;
                }
                if o.a < sut::POOL {
                    out.push((self.load(b'u', o.a, &n, false), none()));
                }
                out.push((o, none()));
                return Some(out);
            }
            "ring.drop" => {
                o.k = if self.threads { own_a + self.rng.usize(own_b - own_a) } else { any(self) } as u64;
                return Some(vec![(o, none())]);
            }
            "ring.modulus" => {
                o.k = any(self) as u64;
                return Some(vec![(o, none())]);
            }
            "ring.eq" => {
                o.k = any(self) as u64;
                o.n = any(self) as u128;
                return Some(vec![(o, none())]);
            }
            "ring.fmt" => {
                o.n = any(self) as u128;
                o.k = self.flags(200);
                return Some(vec![(o, none())]);
            }
            _ => {}
        }
        // a value of an existing ring
        let live = there;
        if live.is_empty() {
            let k = own_a + self.rng.usize(own_b - own_a);
            let n = self.modulus(m);
            out.push((self.load(b'u', 0, &n, false), none()));
            let def = self.id("ring.new");
            out.push((Op { def, a: 0, k: k as u64, ..Op::default() }, none()));
            return Some(out);
        }
        if d.sem == "m.from" {
            o.k = *self.rng.pick(&live) as u64;
            let n = m.rings[o.k as usize].clone().unwrap();
            if matches!(d.form, "uv" | "ur" | "iv" | "ir") {
                if o.a < sut::POOL && self.rng.chance(3, 4) {
                    let x = self.residue(&n);
                    let s = self.rng.chance(1, 2);
                    out.push((self.load(d.form.as_bytes()[0], o.a, &x, s), none()));
                }
            } else if d.form == "b" {
                o.n = self.rng.below(2) as u128;
            }
            out.push((o, none()));
            return Some(out);
        }
        let dom = d.dom.as_bytes();
        let binary = dom[1] == b'm';
        // the modulus bounds the cost
        let mut mbits = Self::bits(m, b'm', o.a);
        if m.mr(o.a).is_none() {
            if o.a >= sut::POOL {
                return None;
            }
            let k = *self.rng.pick(&live);
            let n = m.rings[k].clone().unwrap();
            mbits = mbits.max(n.bits());
            let x = self.residue(&n);
            out.push((self.load(b'u', 0, &x, false), none()));
            let def = self.id("m.from.ur");
            out.push((Op { def, d: o.a, a: 0, k: k as u64, ..Op::default() }, none()));
            if binary && m.mr(o.b).is_none() {
                return Some(out);
            }
        }
        let ring_of = |k: u8| m.mr(k).map(|x| x.0);
        if binary && d.sem != "m.swap" {
            let ra = ring_of(o.a);
            let same: Vec<u8> = (0..m.m.len() as u8).filter(|k| *k != o.a && ring_of(*k).is_some() && ring_of(*k) == ra).collect();
            let bias = if d.sem == "m.clonefrom" { 1 } else { 6 };
            if o.b < sut::POOL && !same.is_empty() && self.rng.chance(bias, 7) {
                o.b = *self.rng.pick(&same);
            } else if o.b < sut::POOL && ra.is_some() && same.is_empty() && o.a != o.b && self.rng.chance(4, 5) {
                let k = ra.unwrap() as usize;
                let n = m.rings[k].clone().unwrap();
                let x = self.residue(&n);
                out.push((self.load(b'u', 1, &x, false), none()));
                let def = self.id("m.from.ur");
                out.push((Op { def, d: o.b, a: 1, k: k as u64, ..Op::default() }, none()));
            }
            if d.sem == "m.div" && mbits > 64 * 64 {
                return None;
            }
        }
        match d.sem {
            "m.inv" if mbits > 64 * 64 => return None,
            "m.pow" | "m.pows" => {
                let w = (mbits / 64 + 1) as u64;
                if w > 64 && d.sem == "m.pows" {
                    return None;
                }
                let most = (self.cost_cap / (4 * w * w)).clamp(1, 400) as usize;
                let b = match self.rng.below(5) {
                    0 => self.rng.usize(4),
                    1 => most,
                    _ => self.rng.usize(most + 1),
                };
                let kind = if d.sem == "m.pow" { b'u' } else { b'i' };
                if o.b >= sut::POOL {
                    o.b = self.rng.usize(self.nslots(kind)) as u8;
                }
                let x = self.value_bits(b);
                let neg = self.rng.chance(1, 3);
                out.push((self.load(kind, o.b, &x, neg), none()));
            }
            "m.fmt" => o.k = self.flags(200),
            _ => {}
        }
        out.push((o, none()));
        Some(out)
    }
    fn modulus(&mut self, m: &Model) -> Nat {
        if self.rng.chance(1, 30) && self.prop != 9 {
            return Nat::zero();
        }
        let lim = if self.prop == 9 || self.prop == 10 { 120 } else { 40 };
        let mut w = self.words().min(lim);
        if self.prop == 3 && self.rng.chance(1, 2) {
            w = 1;
        }
        let b = self.bits_of(w).max(1);
        let x = match self.rng.below(8) {
            0 => Nat::one(),
            1 => Nat::pow2(b - 1),
            2 => self.value_bits(b).or(&Nat::one()),
            3 => Nat::from_u128(2 + self.rng.below(30) as u128),
            4 => {
                // composite with a known factor
                let f = Nat::from_u128(*self.rng.pick(&[3u128, 6, 15, 21, 255, 65535, 1 << 16]));
                self.value_bits(b).add(&Nat::one()).mul(&f)
            }
            // the same modulus as another ring: a different ring all the same
            5 => {
                let v: Vec<Nat> = m.rings.iter().flatten().cloned().collect();
                if v.is_empty() {
                    Nat::one()
                } else {
                    self.rng.pick(&v).clone()
                }
            }
            _ => self.value_bits(b),
        };
        if x.is_zero() {
            Nat::one()
        } else {
            x
        }
    }
    fn residue(&mut self, n: &Nat) -> Nat {
        match self.rng.below(8) {
            0 => self.value(),
            1 => n.clone(),
            2 => n.sub(&Nat::one()).unwrap_or(Nat::zero()),
            3 => n.mul(&Nat::from_u128(1 + self.rng.below(5) as u128)).add(&Nat::one()),
            4 => {
                // shares a factor with composite moduli
                let f = Nat::from_u128(*self.rng.pick(&[2u128, 3, 6, 5, 7, 15]));
                let x = self.below(n);
                x.divrem(&f).0.mul(&f)
            }
            _ => self.below(n),
        }
    }

    // ---- faults ---------------------------------------------------------------------------------------------

    fn inject(&mut self, m: &Model, o: &Op, inj: Inject) -> Inject {
        let mut inj = self.inject_faults(m, o, inj);
        let g = group(&self.t.ops[o.def as usize]);
        // (measured memory must be the operation's own)
        let calls = matches!(g, G::Fmt | G::ModFmt | G::Ser | G::De | G::Rand | G::Hash);
        // (or only the panic hook is)
        if (calls || self.prop == 13) && !matches!(self.prop, 5 | 6 | 10 | 14 | 15) {
            let r = &mut self.rng;
            if r.chance(match self.prop { 13 => 85, 11 => 12, 4 => 4, _ => 8 }, 100) {
                let stride = if r.chance(2, 3) { 1 } else { 1 + r.below(6) };
                inj.n = Some((stride, r.below(1 << 30)));
            }
        }
        inj
    }
    fn inject_faults(&mut self, m: &Model, o: &Op, mut inj: Inject) -> Inject {
        let d = &self.t.ops[o.def as usize];
        let g = group(d);
        if self.fault_free && !matches!(self.prop, 1 | 11) {
            return inj;
        }
        let dom = d.dom.as_bytes();
        let bits = Self::bits(m, dom[0], o.a) + Self::bits(m, dom[1], o.b) + o.x.len() * 8;
        let w = (bits / 64 + 1) as u64;
        let cheap = w * w < 20_000 && !self.threads;
        let r = &mut self.rng;
        // failing allocations
        let (every, single) = match self.prop {
            6 => (0, 0),
            1 => (35, 35),
            9 => (9, 15),
            10 => (0, 12),
            3 | 14 | 15 => (0, 12),
            11 => (0, 4),
            2 | 8 | 12 => (0, 6),
            _ => (0, 3),
        };
        let x = r.below(100);
        if x < every && cheap {
            inj.every = 1;
            return inj;
        }
        if x < every + single {
            let f = match r.below(6) {
                0 | 1 => Fault { kind: fk::KTH, p: r.below(4), q: 0 },
                2 => Fault { kind: fk::FROM, p: r.below(6), q: 0 },
                3 => Fault { kind: fk::SIZE, p: 1 + r.below(2 * bits as u64 / 8 + 8), q: 0 },
                4 if !self.threads && self.prop != 2 => Fault { kind: fk::BUDGET, p: r.below(3 * bits as u64 / 8 + 64), q: 0 },
                _ => Fault { kind: fk::PROB, p: r.range(2000, 40000), q: r.below(1 << 20) },
            };
            inj.alloc = Some(f);
            inj.retry = r.chance(1, 2);
            if r.chance(2, 3) {
                return inj;
            }
        }
        // failing caller code
        let chance = match self.prop {
            4 | 11 => 70,
            6 | 7 => 35,
            5 => 10,
            3 | 14 | 15 => 15,
            _ => 5,
        };
        if !r.chance(chance, 100) || (self.prop == 6 && !matches!(g, G::Ser | G::De)) {
            return inj;
        }
        let how = match self.prop {
            11 => HOW_PANIC,
            _ => *r.pick(&[HOW_ERR, HOW_ERR, HOW_PANIC]),
        };
        inj.retry = r.chance(1, 2);
        let full = cheap && r.chance(1, 4) && self.prop != 6;
        match g {
            G::Fmt | G::ModFmt => {
                if full {
                    inj.every = if how == HOW_PANIC { 3 } else { 2 };
                } else {
                    let len = bits / 4 + 10 + (o.k >> 16 & 0x1_ffff) as usize;
                    inj.w = Some(if r.chance(1, 2) {
                        WSpec { cap: Some(r.usize(len)), call: None, partial: r.chance(1, 2), how }
                    } else {
                        WSpec { cap: None, call: Some(r.below(8)), partial: false, how }
                    });
                }
            }
            G::Ser => {
                if full {
                    inj.every = if how == HOW_PANIC { 3 } else { 2 };
                } else {
                    inj.s = Some((Some(r.below(w + 4)), how));
                }
            }
            G::De => {
                if full {
                    inj.every = if how == HOW_PANIC { 3 } else { 2 };
                } else if let Some(x) = &mut inj.d {
                    x.fail = Some(r.below(w + 4));
                    x.how = how;
                }
            }
            G::Rand => {
                if full {
                    inj.every = if how == HOW_PANIC { 3 } else { 2 };
                } else if let Some(x) = &mut inj.r {
                    x.fail = Some(r.below(6));
                    x.how = how;
                }
            }
            G::Hash => {
                if full || r.chance(1, 2) {
                    inj.every = 3;
                } else {
                    inj.h = Some(r.below(w + 3));
                }
            }
            _ => {
                inj.retry = inj.alloc.is_some() && inj.retry;
            }
        }
        inj
    }
}

#[allow(dead_code)]
pub fn types() -> &'static [&'static str] {
    &TYPES
}
