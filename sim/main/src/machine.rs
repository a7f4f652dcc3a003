//! Executes operations on the real library, injects the faults, and compares with the model.

use crate::cost;
use crate::nat::{Int, Nat};
use crate::oracle::*;
use simrt::alloc::{self, fk, Fault};
use simrt::io::*;
use simrt::prng::{mix, Digest, Prng};
use simrt::{in_sut, sched, PanicKind};
use std::collections::BTreeMap;
use sut::ibig::{IBig, UBig};
use sut::{Env, Op, OpDef, Outs, Table, POOL, R, WORD_BITS};

pub type Viol = String;

// ---- injections ---------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct RSpec {
    pub seed: u64,
    pub mode: u8,
    pub stuck: u64,
    pub fail: Option<u64>,
    pub how: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct WSpec {
    pub cap: Option<usize>,
    pub call: Option<u64>,
    pub partial: bool,
    pub how: u8,
}
#[derive(Clone, Debug, PartialEq)]
pub struct DSpec {
    pub hint: u8,
    pub fail: Option<u64>,
    pub how: u8,
    pub present: u8,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Inject {
    pub alloc: Option<Fault>,
    pub w: Option<WSpec>,
    pub r: Option<RSpec>,
    pub s: Option<(Option<u64>, u8)>,
    pub d: Option<DSpec>,
    pub h: Option<u64>,
    /// the caller's code itself uses the library at every so many calls: (stride, seed)
    pub n: Option<(u64, u64)>,
    /// 0 none; 1 every allocation; 2 every call of caller code fails; 3 every call panics
    pub every: u8,
    /// repeat the operation without faults after it was stopped
    pub retry: bool,
}

fn opt<T: std::fmt::Display>(x: &Option<T>) -> String {
    match x {
        Some(x) => x.to_string(),
        None => "-".into(),
    }
}
fn unopt<T: std::str::FromStr>(s: &str) -> Option<T> {
    s.parse().ok()
}

impl Inject {
    pub fn is_none(&self) -> bool {
        self.alloc.is_none()
            && self.w.is_none()
            && self.s.is_none()
            && self.h.is_none()
            && self.n.is_none()
            && self.every == 0
            && self.r.as_ref().is_none_or(|r| r.fail.is_none() && r.mode == 0)
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        if let Some(f) = &self.alloc {
            s += &format!(" !a:{}:{}:{}", f.kind, f.p, f.q);
        }
        if let Some(w) = &self.w {
            s += &format!(" !w:{}:{}:{}:{}", opt(&w.cap), opt(&w.call), w.partial as u8, w.how);
        }
        if let Some(r) = &self.r {
            s += &format!(" !r:{}:{}:{}:{}:{}", r.seed, r.mode, r.stuck, opt(&r.fail), r.how);
        }
        if let Some((f, h)) = &self.s {
            s += &format!(" !s:{}:{}", opt(f), h);
        }
        if let Some(d) = &self.d {
            s += &format!(" !d:{}:{}:{}:{}", d.hint, opt(&d.fail), d.how, d.present);
        }
        if let Some(h) = &self.h {
            s += &format!(" !h:{}", h);
        }
        if let Some((a, b)) = &self.n {
            s += &format!(" !n:{}:{}", a, b);
        }
        if self.every != 0 {
            s += &format!(" !e:{}", self.every);
        }
        if self.retry {
            s += " !t";
        }
        s
    }
    pub fn read(tok: &str, i: &mut Inject) -> Option<()> {
        let p: Vec<&str> = tok[1..].split(':').collect();
        match p[0] {
            "a" => i.alloc = Some(Fault { kind: p[1].parse().ok()?, p: p[2].parse().ok()?, q: p[3].parse().ok()? }),
            "w" => {
                i.w = Some(WSpec { cap: unopt(p[1]), call: unopt(p[2]), partial: p[3] == "1", how: p[4].parse().ok()? })
            }
            "r" => {
                i.r = Some(RSpec {
                    seed: p[1].parse().ok()?,
                    mode: p[2].parse().ok()?,
                    stuck: p[3].parse().ok()?,
                    fail: unopt(p[4]),
                    how: p[5].parse().ok()?,
                })
            }
            "s" => i.s = Some((unopt(p[1]), p[2].parse().ok()?)),
            "d" => {
                i.d = Some(DSpec {
                    hint: p[1].parse().ok()?,
                    fail: unopt(p[2]),
                    how: p[3].parse().ok()?,
                    present: p[4].parse().ok()?,
                })
            }
            "h" => i.h = Some(p[1].parse().ok()?),
            "n" => i.n = Some((p[1].parse().ok()?, p[2].parse().ok()?)),
            "e" => i.every = p[1].parse().ok()?,
            "t" => i.retry = true,
            _ => return None,
        }
        Some(())
    }
}

// ---- operations as text ---------------------------------------------------------------------------

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
pub fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes()
        .chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("0"), 16).unwrap_or(0))
        .collect()
}

pub fn show_op(t: &Table, o: &Op, inj: &Inject) -> String {
    let mut s = t.ops[o.def as usize].name.clone();
    for (n, v) in [("d", o.d), ("e", o.e), ("a", o.a), ("b", o.b)] {
        if v != 0 {
            s += &format!(" {}={}", n, v);
        }
    }
    if o.k != 0 {
        s += &format!(" k={}", o.k);
    }
    if o.n != 0 {
        s += &format!(" n={}", o.n);
    }
    if !o.x.is_empty() {
        s += &format!(" x={}", hex(&o.x));
    }
    s + &inj.show()
}
pub fn read_op(t: &Table, line: &str) -> Option<(Op, Inject)> {
    let mut it = line.split_whitespace();
    let mut o = Op { def: t.find(it.next()?)?, ..Op::default() };
    let mut inj = Inject::default();
    for tok in it {
        if tok.starts_with('!') {
            Inject::read(tok, &mut inj)?;
            continue;
        }
        let (k, v) = tok.split_once('=')?;
        match k {
            "d" => o.d = v.parse().ok()?,
            "e" => o.e = v.parse().ok()?,
            "a" => o.a = v.parse().ok()?,
            "b" => o.b = v.parse().ok()?,
            "k" => o.k = v.parse().ok()?,
            "n" => o.n = v.parse().ok()?,
            "x" => o.x = unhex(v),
            _ => return None,
        }
    }
    Some((o, inj))
}

// ---- statistics -------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.n.get_mut(k) {
            Some(x) => *x += n,
            None => {
                self.n.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.n.entry(format!("max.{}", k)).or_default();
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.n {
            if k.starts_with("max.") {
                let e = self.n.entry(k.clone()).or_default();
                *e = (*e).max(*v);
            } else {
                self.add(k, *v);
            }
        }
    }
}

// ---- the machine ---------------------------------------------------------------------------------------

#[derive(Clone, Copy, Default)]
pub struct Opts {
    /// several threads share the allocator: no per-step memory accounting
    pub threads: bool,
    /// check the memory in use during each operation
    pub peak: bool,
    /// repeat each sampling with the same stream
    pub twice: bool,
    /// check the steps an operation takes
    pub work: bool,
    /// check the stack an operation uses
    pub stack: bool,
}

pub struct World<'t> {
    pub t: &'t Table,
    pub env: Env,
    pub model: Model,
    pub opts: Opts,
    pub stats: Stats,
    /// outcomes and values, independent of the allocator
    pub log: Digest,
    pub ops: u64,
    ring_cost: Vec<(usize, usize)>,
    base: (usize, usize),
    /// digests of states reached
    pub states: Vec<u64>,
}

pub const CAP: u64 = 3_000_000_000;
pub const CAP_SMALL: u64 = 400_000_000;
pub const CAP_THREADS: u64 = 200_000_000;

enum Did {
    Done,
    Stopped,
}
struct Tried {
    did: Did,
    attempts: u64,
    fired: u64,
    caller_fired: bool,
}

type Saved = Vec<(u8, u8, Val)>;
#[derive(Clone, PartialEq)]
enum Val {
    U(Nat),
    I(Int),
    M(Option<(u8, Nat)>),
}

fn class(bits: usize) -> &'static str {
    match bits / WORD_BITS {
        0 => "1w",
        1..=3 => "2-4w",
        4..=23 => "5-24w",
        24..=191 => "25-192w",
        192..=767 => "193-768w",
        768..=3071 => "769-3072w",
        _ => "3073w+",
    }
}

pub fn words(bits: usize) -> usize {
    bits.div_ceil(WORD_BITS)
}
/// The memory a value of that many bits may hold: blocks, bytes.
pub fn held(bits: usize) -> (usize, usize) {
    let n = words(bits);
    if n <= 1 {
        return (0, 0);
    }
    let cap = n + n / 4 + 4;
    (1, cap * (WORD_BITS / 8))
}

/// Panics of the runtime rather than of the library's documented checks.
fn internal_panic(msg: &str) -> bool {
    [
        "index out of bounds",
        "out of range for slice",
        "slice index starts",
        "range end index",
        "range start index",
        "attempt to add",
        "attempt to subtract",
        "attempt to multiply",
        "attempt to shift",
        "attempt to negate",
        "called `Option::unwrap()`",
        "called `Result::unwrap()`",
        "assertion failed",
        "assertion `",
        "internal error",
        "copy_from_slice",
        "source slice length",
        "mid > len",
        "capacity overflow",
        "RefCell",
        "PoisonError",
        "unsafe precondition",
    ]
    .iter()
    .any(|x| msg.contains(x))
}
/// The panic is the documented kind of refusal.
fn refusal_ok(why: Why, msg: &str) -> bool {
    let m = msg.to_lowercase();
    let known: [(Why, &[&str]); 9] = [
        (Why::DivZero, &["divide by 0", "division by zero", "divide by zero"]),
        (Why::Negative, &["negative", "underflow"]),
        (Why::TooLarge, &["too large", "maximum"]),
        (Why::Radix, &["radix"]),
        (Why::RingZero, &["moduloring::new(0)", "modulus"]),
        (Why::Mixed, &["different rings"]),
        (Why::NonInv, &["non-invertible", "invertible"]),
        (Why::GcdZero, &["gcd(0, 0)"]),
        (Why::EmptyRange, &["empty range", "negative", "empty"]),
    ];
    let says = |w: Why| known.iter().any(|x| x.0 == w && x.1.iter().any(|k| m.contains(k)));
    // a division by a non-invertible value of another ring violates both
    if says(why) || (why == Why::Mixed && says(Why::NonInv)) {
        return true;
    }
    if known.iter().any(|x| says(x.0)) {
        // the message of another kind of refusal
        return false;
    }
    !internal_panic(msg)
}

fn caught<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Viol> {
    sched::outside_reset();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => {
            alloc::ALLOW.set(false);
            Err(format!("panic while {}", what))
        }
    }
}

impl<'t> World<'t> {
    pub fn new(t: &'t Table, nu: usize, ni: usize, nm: usize, nr: usize, opts: Opts) -> World<'t> {
        let base = if opts.threads { (0, 0) } else { alloc::live() };
        World {
            t,
            env: Env::new(nu, ni, nm, nr),
            model: Model::new(nu, ni, nm, nr, sut::MAX_BIT_LEN),
            opts,
            stats: Stats::default(),
            log: Digest::new(),
            ops: 0,
            ring_cost: vec![(0, 0); nr],
            base,
            states: Vec::new(),
        }
    }

    // -- reading values back ------------------------------------------------------------------------

    fn check_u(&self, x: &UBig, want: &Nat, what: &str) -> Result<(), Viol> {
        let wb = want.to_le();
        let r = caught(what, || {
            let got = sut::peek_u(x);
            if got != wb {
                return Some(format!("{}: is {:?}, must be {:?}", what, Nat::from_le(&got), want));
            }
            let f = sut::fresh_u(&wb);
            if !(*x == f && f == *x) || x.cmp(&f) != std::cmp::Ordering::Equal {
                return Some(format!("{}: does not compare equal to {:?} built afresh", what, want));
            }
            if sut::hash_of(x) != sut::hash_of(&f) {
                return Some(format!("{}: hash differs from that of {:?} built afresh", what, want));
            }
            if x.bit_len() != want.bits() {
                return Some(format!("{}: bit_len {} of {:?}", what, x.bit_len(), want));
            }
            None
        })?;
        r.map_or(Ok(()), Err)
    }
    fn check_i(&self, x: &IBig, want: &Int, what: &str) -> Result<(), Viol> {
        let wb = want.mag.to_le();
        let r = caught(what, || {
            let (neg, mag) = sut::peek_i(x);
            if (neg, &mag) != (want.neg, &wb) {
                return Some(format!(
                    "{}: is {}{:?}, must be {:?}",
                    what,
                    if neg { "-" } else { "" },
                    Nat::from_le(&mag),
                    want
                ));
            }
            let f = sut::fresh_i(want.neg, &wb);
            if !(*x == f && f == *x) || x.cmp(&f) != std::cmp::Ordering::Equal {
                return Some(format!("{}: does not compare equal to {:?} built afresh", what, want));
            }
            if sut::hash_of(x) != sut::hash_of(&f) {
                return Some(format!("{}: hash differs from that of {:?} built afresh", what, want));
            }
            None
        })?;
        r.map_or(Ok(()), Err)
    }
    fn check_m(&self, x: Option<&sut::ibig::Modulo<'static>>, want: &Option<(u8, Nat)>, what: &str) -> Result<(), Viol> {
        let (x, (ring, res)) = match (x, want) {
            (None, None) => return Ok(()),
            (Some(x), Some(w)) => (x, w),
            (a, _) => return Err(format!("{}: value present: {}, must be {}", what, a.is_some(), want.is_some())),
        };
        let Some(r) = self.env.ring(*ring as u64) else { return Err("simulator: ring missing".into()) };
        let wb = res.to_le();
        let v = caught(what, || {
            let f = r.from(sut::fresh_u(&wb));
            // panics when the value is bound to another ring
            if !(*x == f && f == *x) {
                return Some(format!(
                    "{}: does not equal residue {:?} built afresh; residue is {:?}",
                    what,
                    res,
                    Nat::from_le(&x.residue().to_le_bytes())
                ));
            }
            let got = Nat::from_le(&x.residue().to_le_bytes());
            if got != *res {
                return Some(format!("{}: residue is {:?}, must be {:?}", what, got, res));
            }
            None
        })?;
        v.map_or(Ok(()), Err)
    }
    fn check_slot(&self, kind: u8, k: u8) -> Result<(), Viol> {
        let shared = if k >= POOL { "shared " } else { "" };
        match kind {
            b'u' => self.check_u(self.env.ur(k), &self.model.ur(k), &format!("{}unsigned value {}", shared, k)),
            b'i' => self.check_i(self.env.ir(k), &self.model.ir(k), &format!("{}signed value {}", shared, k)),
            b'm' => self.check_m(self.env.mr(k), &self.model.mr(k), &format!("{}modular value {}", shared, k)),
            _ => Ok(()),
        }
    }
    pub fn check_all(&self) -> Result<(), Viol> {
        for k in 0..self.env.u.len() {
            self.check_slot(b'u', k as u8)?;
        }
        for k in 0..self.env.i.len() {
            self.check_slot(b'i', k as u8)?;
        }
        for k in 0..self.env.m.len() {
            self.check_slot(b'm', k as u8)?;
        }
        for (k, n) in self.model.rings.iter().enumerate() {
            if let (Some(n), Some(r)) = (n, self.env.ring(k as u64)) {
                let got = caught("reading a modulus", || Nat::from_le(&r.modulus().to_le_bytes()))?;
                if got != *n {
                    return Err(format!("modulus of ring {} is {:?}, must be {:?}", k, got, n));
                }
            }
        }
        Ok(())
    }
    /// Two rings are never the same ring: `a` and `b` of them.
    pub fn check_apart(&self, a: usize, b: usize) -> Result<(), Viol> {
        let (Some(ra), Some(rb)) = (self.env.ring(a as u64), self.env.ring(b as u64)) else { return Ok(()) };
        if caught("comparing rings", || *ra == *rb)? {
            return Err(format!("ring {} and ring {} are equal", a, b));
        }
        match in_sut(|| ra.from(1u8) == rb.from(1u8)) {
            Err(PanicKind::Other(m)) if refusal_ok(Why::Mixed, &m) => Ok(()),
            r => Err(format!("comparing values of ring {} and ring {} is not refused: {:?}", a, b, r)),
        }
    }
    pub fn state_digest(&self) -> u64 {
        let mut d = Digest::new();
        for x in &self.model.u {
            d.bytes(&x.to_le());
        }
        for x in &self.model.i {
            d.add(x.neg as u64);
            d.bytes(&x.mag.to_le());
        }
        for x in &self.model.m {
            match x {
                None => d.add(0),
                Some((r, x)) => {
                    d.add(*r as u64 + 1);
                    d.bytes(&x.to_le());
                }
            }
        }
        d.0
    }

    fn check_memory(&mut self) -> Result<(), Viol> {
        if self.opts.threads {
            return Ok(());
        }
        let errs = alloc::take_errors();
        if let Some(e) = errs.first() {
            return Err(format!("memory: {}", e));
        }
        let (mut blocks, mut bytes) = self.base;
        for x in &self.model.u {
            let h = held(x.bits());
            blocks += h.0;
            bytes += h.1;
        }
        for x in &self.model.i {
            let h = held(x.mag.bits());
            blocks += h.0;
            bytes += h.1;
        }
        for x in self.model.m.iter().flatten() {
            let h = held(self.model.rings[x.0 as usize].as_ref().unwrap().bits());
            blocks += h.0;
            bytes += h.1;
        }
        for (k, x) in self.ring_cost.iter().enumerate() {
            if self.model.rings[k].is_some() {
                blocks += x.0;
                bytes += x.1;
            }
        }
        let live = alloc::live();
        if live.0 > blocks {
            return Err(format!(
                "memory: {} blocks ({} bytes) allocated, at most {} blocks for the live values",
                live.0, live.1, blocks
            ));
        }
        if live.1 > bytes {
            return Err(format!(
                "memory: {} bytes in {} blocks allocated, at most {} bytes for the live values",
                live.1, live.0, bytes
            ));
        }
        if self.base.0 == 0 && live.0 > 1 && live.0 <= 64 {
            // every block must find a value that may hold one as long
            let mut may: Vec<usize> = Vec::new();
            may.extend(self.model.u.iter().map(|x| held(x.bits()).1));
            may.extend(self.model.i.iter().map(|x| held(x.mag.bits()).1));
            for x in self.model.m.iter().flatten() {
                may.push(held(self.model.rings[x.0 as usize].as_ref().unwrap().bits()).1);
            }
            for (k, x) in self.ring_cost.iter().enumerate() {
                if self.model.rings[k].is_some() {
                    may.extend((0..x.0).map(|_| x.1));
                }
            }
            may.sort_unstable_by(|a, b| b.cmp(a));
            let mut is: Vec<usize> = alloc::live_ranges().iter().map(|x| x.1 - x.0).collect();
            is.sort_unstable_by(|a, b| b.cmp(a));
            if let Some(k) = (0..is.len()).find(|k| is[*k] > may.get(*k).copied().unwrap_or(0)) {
                return Err(format!(
                    "memory: {} blocks of at least {} bytes are allocated, but only {} of the live values may hold as much",
                    k + 1,
                    is[k],
                    may.iter().filter(|x| **x >= is[k]).count()
                ));
            }
        }
        Ok(())
    }

    // -- saving and restoring operands -----------------------------------------------------------------

    fn save(&self, d: &OpDef, o: &Op) -> Saved {
        let mut v: Saved = Vec::new();
        let dom = d.dom.as_bytes();
        for (kind, k) in [(dom[0], o.a), (dom[1], o.b)] {
            if k >= POOL || v.iter().any(|x| x.0 == kind && x.1 == k) {
                continue;
            }
            match kind {
                b'u' => v.push((kind, k, Val::U(self.model.ur(k)))),
                b'i' => v.push((kind, k, Val::I(self.model.ir(k)))),
                b'm' => v.push((kind, k, Val::M(self.model.mr(k)))),
                _ => {}
            }
        }
        v
    }
    /// Puts operands back (in the model and the library) after an operation that was stopped.
    fn restore(&mut self, saved: &Saved) -> Result<(), Viol> {
        for (_, k, v) in saved {
            let k = *k as usize;
            let env = &mut self.env;
            let r = match v {
                Val::U(x) if self.model.u[k] != *x => {
                    self.model.u[k] = x.clone();
                    let b = x.to_le();
                    in_sut(|| env.u[k] = sut::fresh_u(&b))
                }
                Val::I(x) if self.model.i[k] != *x => {
                    self.model.i[k] = x.clone();
                    let b = x.mag.to_le();
                    let neg = x.neg;
                    in_sut(|| env.i[k] = sut::fresh_i(neg, &b))
                }
                Val::M(x) if self.model.m[k] != *x => {
                    self.model.m[k] = x.clone();
                    match x {
                        None => in_sut(|| env.m[k] = None),
                        Some((r, x)) => {
                            let b = x.to_le();
                            let Some(r) = env.ring(*r as u64) else { return Err("simulator: ring missing".into()) };
                            in_sut(|| env.m[k] = Some(r.from(sut::fresh_u(&b))))
                        }
                    }
                }
                _ => Ok(()),
            };
            if let Err(p) = r {
                return Err(format!("rebuilding an operand panicked: {:?}", p));
            }
        }
        Ok(())
    }

    // -- one operation -------------------------------------------------------------------------------------

    pub fn step(&mut self, o: &Op, inj: &Inject) -> Result<(), Viol> {
        let t = self.t;
        let d = &t.ops[o.def as usize];
        self.ops += 1;
        let around = Around {
            honest: inj.d.as_ref().is_none_or(|d| {
                (d.hint == HINT_EXACT || d.hint == HINT_NONE) && d.present <= 1
            }),
        };
        let saved = self.save(d, o);
        let before = self.model_slots(d, o);
        let exp = expect(&mut self.model, d, o, &around);
        if exp.skip {
            self.stats.add("op.skipped", 1);
            return Ok(());
        }
        self.stats.add("op.run", 1);
        if self.ops <= 1 << 40 {
            self.stats.add(&format!("sem.{}", d.sem), 1);
        }
        let r = self.step_inner(d, o, inj, exp, &saved, &around);
        let _ = before;
        r.map_err(|e| format!("{}: {}", d.name, e))?;
        self.log.add(self.ops);
        self.states.push(self.state_digest());
        Ok(())
    }
    fn model_slots(&self, _d: &OpDef, _o: &Op) {}

    fn step_inner(
        &mut self,
        d: &OpDef,
        o: &Op,
        inj: &Inject,
        exp: Exp,
        saved: &Saved,
        around: &Around,
    ) -> Result<(), Viol> {
        let mut exp = exp;
        if inj.every == 0 {
            let r = self.attempt(d, o, inj, &exp, saved)?;
            if let Did::Stopped = r.did {
                if inj.retry && exp.panic.is_none() && !exp.huge {
                    self.restore(saved)?;
                    exp = expect(&mut self.model, d, o, around);
                    let mut clean = Inject::default();
                    if inj.r.is_some() {
                        clean.r = inj.r.clone().map(|r| RSpec { fail: None, ..r });
                    }
                    if let Some(x) = &inj.d {
                        clean.d = Some(DSpec { fail: None, ..x.clone() });
                    }
                    let r = self.attempt(d, o, &clean, &exp, saved)?;
                    if let (Did::Stopped, None, None) = (r.did, exp.also, exp.known) {
                        return Err("stopped again without a fault".into());
                    }
                    self.stats.add("retry.exact", 1);
                }
            } else if self.opts.twice && d.sem.ends_with(".rand") && exp.panic.is_none() && d.dom.as_bytes()[0] != b'-' && o.d != o.a && o.d != o.b {
                let first = if d.sem.starts_with('u') { Int::from_nat(self.model.ur(o.d)) } else { self.model.ir(o.d) };
                exp = expect(&mut self.model, d, o, around);
                self.attempt(d, o, inj, &exp, saved)?;
                let second = if d.sem.starts_with('u') { Int::from_nat(self.model.ur(o.d)) } else { self.model.ir(o.d) };
                if first != second {
                    return Err(format!("the same random words gave {:?} and then {:?}", first, second));
                }
                self.stats.add("rand.repeated", 1);
            }
            return Ok(());
        }
        // every failing point, each from the same operands
        let mut k = 0u64;
        let mut stopped = 0;
        loop {
            let mut i = inj.clone();
            i.every = 0;
            if inj.every == 1 {
                i.alloc = Some(Fault { kind: fk::KTH, p: k, q: 0 });
            } else {
                let how = if inj.every == 2 { HOW_ERR } else { HOW_PANIC };
                match d.sem.rsplit('.').next().unwrap() {
                    "fmt" | "fmtr" => i.w = Some(WSpec { cap: None, call: Some(k), partial: false, how }),
                    "ser" => i.s = Some((Some(k), how)),
                    "de" | "dei" => {
                        let x = i.d.clone().unwrap_or(DSpec { hint: 0, fail: None, how: 0, present: 0 });
                        i.d = Some(DSpec { fail: Some(k), how, ..x })
                    }
                    "rand" => {
                        let x = i.r.clone().unwrap_or(RSpec { seed: 1, mode: 0, stuck: 0, fail: None, how: 0 });
                        i.r = Some(RSpec { fail: Some(k), how, ..x })
                    }
                    "hash" => i.h = Some(k),
                    _ => {}
                }
            }
            let r = self.attempt(d, o, &i, &exp, saved)?;
            let fired = if inj.every == 1 { r.fired > 0 } else { r.caller_fired };
            if !fired {
                break;
            }
            stopped += 1;
            let _ = r.attempts;
            self.restore(saved)?;
            exp = expect(&mut self.model, d, o, around);
            // all of the first points, then ever larger strides
            k += if k < 24 { 1 } else { 1 + k / 4 };
            if stopped > 120 {
                break;
            }
        }
        self.stats.add("every.points", stopped);
        if stopped > 0 {
            self.stats.add("retry.exact", 1);
        }
        Ok(())
    }

    fn prepare(&mut self, d: &OpDef, o: &Op, inj: &Inject) {
        let c = &mut self.env.ctx;
        c.w = SimWriter::default();
        if let Some(w) = &inj.w {
            c.w.cap = w.cap;
            c.w.call_cap = w.call;
            c.w.partial = w.partial;
            c.w.how = w.how;
        }
        c.hasher = SimHasher::new();
        c.hasher.fail_at = inj.h;
        c.ser_out.clear();
        c.ser = SerState::default();
        if let Some((f, h)) = &inj.s {
            c.ser.fail_at = *f;
            c.ser.how = *h;
        }
        c.de = DeState::default();
        if let Some(x) = &inj.d {
            c.de.hint = x.hint;
            c.de.fail_at = x.fail;
            c.de.how = x.how;
            c.de.present = x.present;
        }
        c.rng = SimRng::fair(1);
        if let Some(r) = &inj.r {
            let mut g = SimRng::fair(r.seed);
            g.mode = r.mode;
            g.stuck = r.stuck;
            g.fail_at = r.fail;
            g.how = r.how;
            if r.mode != 0 {
                let mut p = Prng::split(r.seed, 0x9001);
                let (a, b) = if d.sem.starts_with('u') {
                    (Int::from_nat(self.model.ur(o.a)), Int::from_nat(self.model.ur(o.b)))
                } else {
                    (self.model.ir(o.a), self.model.ir(o.b))
                };
                let range = b.sub(&a).mag;
                let bytes = range.to_le();
                let mut p64 = vec![0, u64::MAX, 1 << 63, u64::MAX - 1, (1 << 63) - 1];
                let mut p32 = vec![0, u32::MAX, 1 << 31, 0xffff, 0x8000_0000 - 1];
                for c in bytes.chunks(WORD_BITS / 8).rev().take(4) {
                    let mut w = [0u8; 8];
                    w[..c.len()].copy_from_slice(c);
                    let w = u64::from_le_bytes(w);
                    p64.extend([w, w.wrapping_add(1), w.wrapping_sub(1)]);
                    p32.extend([w as u32, (w as u32).wrapping_add(1), (w as u32).wrapping_sub(1), (w >> 32) as u32]);
                }
                // a small selection, so that runs repeat
                let n = 1 + p.usize(4);
                g.pool64 = (0..n).map(|_| *p.pick(&p64)).collect();
                g.pool32 = (0..n).map(|_| *p.pick(&p32)).collect();
                g.bytes = *p.pick(&[0u8, 0xff, 0x80, 0x7f]);
            }
            // at least every fourth try succeeds, and a try takes at most a few calls a word
            if matches!(d.dom.as_bytes()[0], b'u' | b'i') {
                let w = if d.sem.starts_with('u') {
                    self.model.ur(o.a).bits().max(self.model.ur(o.b).bits())
                } else {
                    self.model.ir(o.a).mag.bits().max(self.model.ir(o.b).mag.bits())
                };
                g.fair_cap = 120 * (4 + w as u64 / 16);
            }
            c.rng = g;
        }
        self.env.out.clear();
    }

    fn attempt(&mut self, d: &OpDef, o: &Op, inj: &Inject, exp: &Exp, saved: &Saved) -> Result<Tried, Viol> {
        self.prepare(d, o, inj);
        let before = if self.opts.threads {
            (0, 0)
        } else {
            alloc::peak_reset();
            alloc::live()
        };
        let mut fault = inj.alloc.unwrap_or(Fault::NONE);
        if fault.kind == fk::BUDGET {
            // relative to what is allocated now
            fault.p += before.1 as u64;
        }
        let sizes = self.sizes(d, o, exp, saved);
        let most = 10.0 * cost::work(d, &sizes).1;
        let cap = match self.opts {
            Opts { threads: true, .. } => CAP_THREADS,
            _ if exp.huge || exp.panic.is_some() => CAP,
            _ => CAP_SMALL,
        };
        sched::steps_reset(cap.max(if exp.huge || exp.panic.is_some() { 0 } else { most as u64 }));
        alloc::arm(fault);
        let env = &mut self.env;
        let f = d.f;
        if let Some((stride, seed)) = inj.n {
            simrt::nest_arm(stride, seed);
            // what is being updated cannot be looked at
            if !d.sem.ends_with(".dei") {
                sut::at_hand(env);
            }
        }
        let top = if self.opts.stack { cost::paint() } else { 0 };
        let r = in_sut(|| f(env, o));
        let stack = if self.opts.stack { cost::height(top) } else { 0 };
        sut::at_hand(std::ptr::null());
        let nested = simrt::nest_disarm();
        self.stats.add("fault.caller.uses.library", nested);
        let (attempts, fired) = alloc::disarm();
        // a word moved counts as a step
        let steps = sched::steps() + simrt::copy::moved() * 8 / sut::WORD_BITS as u64;
        sched::steps_uncap();
        self.stats.add("steps", steps);
        self.stats.max("steps", steps);
        self.stats.add("alloc.attempts", attempts);
        if fired > 0 {
            let n = ["none", "kth", "from", "size", "budget", "prob"][fault.kind as usize];
            self.stats.add(&format!("fault.alloc.{}", n), fired);
        }
        if self.opts.work || self.opts.stack {
            self.check_cost(d, inj, exp, sizes, steps, stack)?;
        }
        let peak = if self.opts.threads { 0 } else { alloc::peak().saturating_sub(before.1) };

        // caller-supplied objects
        let c = &self.env.ctx;
        let (w_failed, s_failed, d_failed, r_fired, h_fired) =
            (c.w.failed, c.ser.failed, c.de.failed, c.rng.fired, c.hasher.fired);
        for (on, name, how) in [
            (w_failed, "writer", c.w.how),
            (s_failed, "serializer", c.ser.how),
            (d_failed, "source", c.de.how),
            (r_fired, "random", c.rng.how),
            (h_fired, "hasher", HOW_PANIC),
        ] {
            if on {
                self.stats.add(&format!("fault.{}.{}", name, if how == HOW_PANIC { "panic" } else { "error" }), 1);
            }
        }
        if let Some(x) = &inj.d {
            if x.hint > HINT_NONE {
                self.stats.add("fault.source.length", 1);
            }
        }
        if let Some(x) = &inj.r {
            if x.mode != 0 {
                self.stats.add("fault.random.biased", 1);
            }
        }
        let caller_fired = w_failed || s_failed || d_failed || r_fired || h_fired;
        let caller_panics = (w_failed && c.w.how == HOW_PANIC)
            || (s_failed && c.ser.how == HOW_PANIC)
            || (d_failed && c.de.how == HOW_PANIC)
            || r_fired
            || h_fired;
        if c.w.after + c.ser.after + c.de.after > 0 {
            return Err("caller code was called again after it had reported a failure".into());
        }
        if c.rng.runaway {
            return Err(format!("sampling did not finish within {} fair random words", c.rng.fair_cap));
        }

        // text delivered
        if let Some(text) = &exp.text {
            let is_ser = d.sem.ends_with(".ser");
            let got: &[u8] = if is_ser { &c.ser_out } else { c.w.got.as_bytes() };
            let complete = r.is_ok() && !caller_fired && exp.panic.is_none();
            if complete && got != &text[..] {
                return Err(format!("delivered {} instead of {}", brief(got), brief(text)));
            }
            if !complete && !is_ser && !text.starts_with(got) {
                return Err(format!("delivered {} which is not the beginning of {}", brief(got), brief(text)));
            }
            if !complete && is_ser && d_prefix(got, text).is_none() {
                return Err(format!("stored {} which is not the beginning of {}", brief(got), brief(text)));
            }
        }
        if c.ser.unknown > 0 {
            return Err("stored through an unexpected kind of element".into());
        }

        let did = match r {
            Ok(()) => {
                if self.env.out.skip {
                    return Err("simulator: operation skipped unexpectedly".into());
                }
                if let Some(w) = exp.panic {
                    return Err(format!("must be refused ({:?}) but returned {}", w, show_outs(&self.env.out)));
                }
                if exp.huge {
                    return Err("returned a number larger than memory".into());
                }
                if r_fired {
                    return Err("the random source failed but the operation returned a result".into());
                }
                self.commit(d, o, exp)?;
                Did::Done
            }
            Err(p) => {
                match &p {
                    PanicKind::Oom => {
                        if fired == 0 && !exp.huge {
                            return Err("out-of-memory panic though no allocation failed".into());
                        }
                        self.stats.add("stop.oom", 1);
                    }
                    PanicKind::Caller => {
                        if !caller_panics {
                            return Err("caller's panic surfaced though caller code did not panic".into());
                        }
                        self.stats.add("stop.caller", 1);
                    }
                    PanicKind::Other(m) => match exp.panic {
                        Some(w) => {
                            if !refusal_ok(w, m) && !exp.also.is_some_and(|w| refusal_ok(w, m)) && !(fired > 0 && m.starts_with("out of memory")) {
                                return Err(format!("must be refused ({:?}) but panicked: {}", w, m));
                            }
                            self.stats.add(&format!("refused.{:?}", w), 1);
                        }
                        None if exp.huge => {
                            if !refusal_ok(Why::TooLarge, m) {
                                return Err(format!("result too large for memory, but panicked: {}", m));
                            }
                        }
                        None if exp.known.is_some() && refusal_ok(Why::TooLarge, m) => {
                            self.stats.add(&format!("known.{}", exp.known.unwrap()), 1);
                        }
                        None if exp.also.is_some_and(|w| refusal_ok(w, m)) => {
                            self.stats.add(&format!("refused.{:?}", exp.also.unwrap()), 1);
                        }
                        None if r_fired => {
                            if internal_panic(m) && !m.contains("unwrap") {
                                return Err(format!("random source failed, but panicked: {}", m));
                            }
                        }
                        None => return Err(format!("unexpected panic: {}", m)),
                    },
                }
                self.after_stop(exp, saved)?;
                Did::Stopped
            }
        };
        self.log.add(match did {
            Did::Done => 1,
            Did::Stopped => 2,
        });

        // operands, results, memory
        let dom = d.dom.as_bytes();
        self.check_slot(dom[0], o.a)?;
        self.check_slot(dom[1], o.b)?;
        self.check_slot_d(d, o)?;
        // texts and byte strings that were returned
        self.env.out.clear();
        if d.sem == "ring.new" {
            let k = o.k as usize;
            if let Did::Done = did {
                let now = alloc::live();
                self.ring_cost[k] = (now.0 - before.0.min(now.0), now.1 - before.1.min(now.1));
                let bound = held(exp.bits);
                if !self.opts.threads && (self.ring_cost[k].0 > 4 * bound.0 || self.ring_cost[k].1 > 4 * bound.1) {
                    return Err(format!("memory: a ring of {} bits holds {:?}", exp.bits, self.ring_cost[k]));
                }
            } else {
                self.model.rings[k] = None;
            }
        }
        if d.sem == "ring.drop" {
            if let Did::Stopped = did {
                return Err("dropping a ring panicked".into());
            }
        }
        self.check_memory()?;
        if self.opts.peak && !self.opts.threads && matches!(did, Did::Done) {
            let mut size = exp.bits / 8 + o.x.len() + exp.text.as_ref().map_or(0, |t| t.len());
            for (_, _, v) in saved {
                size += match v {
                    Val::U(x) => x.bits() / 8,
                    Val::I(x) => x.mag.bits() / 8,
                    Val::M(Some((r, _))) => self.model.rings[*r as usize].as_ref().map_or(0, |n| n.bits() / 8),
                    _ => 0,
                };
            }
            for (kind, k) in [(dom[0], o.a), (dom[1], o.b)] {
                if k >= POOL {
                    size += match kind {
                        b'u' => self.model.ur(k).bits() / 8,
                        b'i' => self.model.ir(k).mag.bits() / 8,
                        _ => 0,
                    };
                }
            }
            if d.sem.starts_with("ring.") || d.sem.starts_with("m.") {
                let k = if d.sem == "ring.fmt" { o.n as u64 } else { o.k };
                if let Some(n) = self.model.ring(k) {
                    size += n.bits() / 8;
                }
            }
            if let Some(Out::S(s)) = exp.outs.first() {
                size += s.len();
            }
            let bound = 16 * size + (64 << 10) + exp.extra + if d.sem.contains(".de") { 1 << 20 } else { 0 };
            if peak > bound {
                return Err(format!(
                    "memory: the operation used {} bytes, operands and results have {} bytes",
                    peak, size
                ));
            }
            if size >= 4096 && exp.extra == 0 && !d.sem.contains(".de") {
                self.stats.max("peak.percent", (peak * 100 / size) as u64);
            }
        }
        self.stats.add(&format!("size.{}", class(exp.bits)), 1);
        Ok(Tried { did, attempts, fired, caller_fired })
    }

    /// What the operation should cost, but for random words.
    fn sizes(&self, d: &OpDef, o: &Op, exp: &Exp, saved: &Saved) -> cost::Sizes {
        let dom = d.dom.as_bytes();
        let words = |n: usize| n.div_ceil(WORD_BITS) as f64;
        let ring_words = |k: u64| self.model.ring(k).map_or(0.0, |n| words(n.bits()));
        let mut ring = 0.0;
        let mut size = |kind: u8, k: u8| -> f64 {
            let was = saved.iter().find(|x| x.0 == kind && x.1 == k).map(|x| &x.2);
            match (kind, was) {
                (b'u', Some(Val::U(x))) => words(x.bits()),
                (b'u', _) => words(self.model.ur(k).bits()),
                (b'i', Some(Val::I(x))) => words(x.mag.bits()),
                (b'i', _) => words(self.model.ir(k).mag.bits()),
                (b'm', Some(Val::M(Some((r, _))))) => {
                    ring = ring_words(*r as u64);
                    0.0
                }
                (b'm', None) => {
                    ring = self.model.mr(k).map_or(0.0, |x| ring_words(x.0 as u64));
                    0.0
                }
                _ => 0.0,
            }
        };
        let (a, b) = (size(dom[0], o.a), size(dom[1], o.b));
        if d.sem.starts_with("ring.") || d.sem == "m.from" {
            ring = ring_words(if d.sem == "ring.fmt" { o.n as u64 } else { o.k });
        }
        let prim = if d.ty.is_empty() { 0.0 } else { (128 / WORD_BITS) as f64 };
        let name = &d.sem[d.sem.find('.').unwrap() + 1..];
        let radix = match name {
            "parse" | "inradix" => o.k as u32,
            "fmtr" => o.n as u32,
            "fmt" if !matches!(o.k & 0xff, x if x == sut::ff::DISPLAY || x == sut::ff::DEBUG) => 2,
            _ => 10,
        };
        cost::Sizes {
            a: a.max(prim),
            b: b.max(prim),
            r: words(exp.bits),
            ring,
            e: match name {
                "pows" => self.model.ir(o.b).mag.bits() as f64,
                "pow" if dom[0] == b'm' => self.model.ur(o.b).bits() as f64,
                _ => 64.0 - o.k.leading_zeros() as f64,
            },
            digits: o.x.len() as f64 * (radix.clamp(2, 36) as f64).log2() / WORD_BITS as f64,
            bytes: (o.x.len() + exp.text.as_ref().map_or(0, |t| t.len()) + if let Some(Out::S(s)) = exp.outs.first() { s.len() } else { 0 }) as f64,
            drawn: 0.0,
            pow2: radix.is_power_of_two(),
        }
    }
    /// Steps and stack.
    fn check_cost(&mut self, d: &OpDef, inj: &Inject, exp: &Exp, mut s: cost::Sizes, steps: u64, stack: usize) -> Result<(), Viol> {
        s.drawn = self.env.ctx.rng.calls as f64;
        let (class, w) = cost::work(d, &s);
        let known = exp.panic.is_none() && !exp.huge;
        if self.opts.work && known && inj.n.is_none() {
            let percent = (steps as f64 * 100.0 / (w + 400.0)) as u64;
            self.stats.max(&format!("work.percent.{}", class), percent);
            self.stats.add(&format!("work.{}", class), 1);
            if percent > cost::WORK {
                return Err(format!("work: {} steps for an operation that should take about {}", steps, w as u64));
            }
        }
        if self.opts.stack {
            self.stats.max(&format!("stack.{}", class), stack as u64);
            if stack > cost::FRAMES {
                return Err(format!("stack: the operation used {} bytes of stack", stack));
            }
        }
        Ok(())
    }

    fn check_slot_d(&self, d: &OpDef, o: &Op) -> Result<(), Viol> {
        for r in self.env.out.list() {
            match r {
                R::U(k) => self.check_slot(b'u', *k)?,
                R::I(k) => self.check_slot(b'i', *k)?,
                R::M(k) => self.check_slot(b'm', *k)?,
                _ => {}
            }
        }
        // an operation that was stopped leaves the destination alone
        if self.env.out.n == 0 {
            let kind = if d.sem.starts_with("u.") { b'u' } else if d.sem.starts_with("i.") { b'i' } else { b'm' };
            if let b'u' | b'i' | b'm' = kind {
                let len = match kind {
                    b'u' => self.env.u.len(),
                    b'i' => self.env.i.len(),
                    _ => self.env.m.len(),
                };
                if (o.d as usize) < len {
                    self.check_slot(kind, o.d)?;
                }
            }
        }
        Ok(())
    }

    /// After an operation was stopped: what an in-place target may hold.
    fn after_stop(&mut self, exp: &Exp, saved: &Saved) -> Result<(), Viol> {
        let Some((kind, k)) = exp.target else { return Ok(()) };
        let old = saved.iter().find(|x| x.0 == kind as u8 && x.1 == k).map(|x| x.2.clone());
        let new = exp.outs.first();
        let mut allowed: Vec<Val> = Vec::new();
        match kind {
            'u' => {
                allowed.extend(old);
                allowed.push(Val::U(Nat::zero()));
                if let Some(Out::Num(x)) = new {
                    allowed.push(Val::U(x.mag.clone()));
                }
            }
            'i' => {
                allowed.extend(old);
                allowed.push(Val::I(Int::zero()));
                if let Some(Out::Num(x)) = new {
                    allowed.push(Val::I(x.clone()));
                }
            }
            _ => {
                if let Some(Val::M(Some((r, _)))) = &old {
                    allowed.push(Val::M(Some((*r, Nat::zero()))));
                }
                allowed.extend(old);
                if let Some(Out::M(r, x)) = new {
                    allowed.push(Val::M(Some((*r, x.clone()))));
                }
            }
        }
        let mut first = None;
        for v in allowed {
            match v {
                Val::U(x) => self.model.u[k as usize] = x,
                Val::I(x) => self.model.i[k as usize] = x,
                Val::M(x) => self.model.m[k as usize] = x,
            }
            match self.check_slot(kind as u8, k) {
                Ok(()) => return Ok(()),
                Err(e) => {
                    first.get_or_insert(e);
                }
            }
        }
        Err(format!("after the operation was stopped, the value updated in place is neither old, new nor zero: {}", first.unwrap()))
    }

    fn actual(&self, r: &R) -> Result<Int, Viol> {
        caught("reading a result", || match r {
            R::U(k) => Int::from_nat(Nat::from_le(&sut::peek_u(&self.env.u[*k as usize]))),
            R::I(k) => {
                let (n, b) = sut::peek_i(&self.env.i[*k as usize]);
                Int { neg: n, mag: Nat::from_le(&b) }
            }
            R::P(n, m) => Int::new(*n, Nat::from_u128(*m)),
            _ => Int::zero(),
        })
    }

    /// Compares what was returned with what must be, and records it in the model.
    fn commit(&mut self, d: &OpDef, o: &Op, exp: &Exp) -> Result<(), Viol> {
        let outs = std::mem::take(&mut self.env.out);
        let r = self.commit_inner(d, o, exp, &outs);
        self.env.out = outs;
        r
    }
    fn commit_inner(&mut self, d: &OpDef, o: &Op, exp: &Exp, outs: &Outs) -> Result<(), Viol> {
        let c = &self.env.ctx;
        if outs.n != exp.outs.len() {
            return Err(format!("simulator: {} results, {} expected", outs.n, exp.outs.len()));
        }
        let mut bez: Option<Int> = None;
        for (r, x) in outs.list().zip(&exp.outs) {
            let bad = || Err(format!("returned {} instead of {}", show_r(r), show_out(x)));
            let mut value: Option<Int> = None;
            match (r, x) {
                (R::U(_) | R::I(_), Out::Num(x)) => value = Some(x.clone()),
                (R::P(n, m), Out::Num(x)) => {
                    if Int::new(*n, Nat::from_u128(*m)) != *x || (*n && *m == 0) {
                        return bad();
                    }
                }
                (R::M(k), Out::M(ring, x)) => self.model.m[*k as usize] = Some((*ring, x.clone())),
                (R::B(a), Out::B(b)) if a == b => {}
                (R::N(a), Out::N(b)) if a == b => {}
                (R::N(h), Out::Hash) => {
                    let want = caught("hashing", || match d.dom.as_bytes()[0] {
                        b'u' => sut::hash_of(&sut::fresh_u(&self.model.ur(o.a).to_le())),
                        _ => {
                            let x = self.model.ir(o.a);
                            sut::hash_of(&sut::fresh_i(x.neg, &x.mag.to_le()))
                        }
                    })?;
                    if *h != want {
                        return Err("hash differs from that of the same number built afresh".into());
                    }
                }
                (R::O(a), Out::O(b)) if a == b => {}
                (R::By(a), Out::By(b)) if a == b => {}
                (R::S(a), Out::S(b)) if a == b => {}
                (R::F(a), Out::F(b)) if a == b => {}
                (R::Ord(a), Out::Ord(b)) if a == b => {}
                (R::Err(a), Out::Err(b)) if a == b => {}
                (R::None_, Out::None_) => {}
                (R::W(ok), Out::Done) => {
                    let failed = c.w.failed || c.ser.failed;
                    if *ok == failed {
                        return Err(if failed {
                            "the failure of caller code was not passed on".to_string()
                        } else {
                            "reported a failure though caller code did not fail".to_string()
                        });
                    }
                }
                (R::SerErr(e), Out::Done) => {
                    if !c.ser.failed || !matches!(e, SimErr::Injected(_)) {
                        return Err(format!("serializing failed: {}", e));
                    }
                }
                (R::U(_) | R::I(_), Out::Within(lo, hi)) => {
                    let v = self.actual(r)?;
                    if v.cmp(lo).is_lt() || v.cmp(hi).is_gt() {
                        return Err(format!("sampled {:?}, outside {:?} ..= {:?}", v, lo, hi));
                    }
                    value = Some(v);
                }
                (R::I(_), Out::Bez { a, b, g }) => {
                    let v = self.actual(r)?;
                    let one = Nat::one();
                    let bound = match &bez {
                        None => b.mag.clone(),
                        Some(_) => a.mag.clone(),
                    };
                    if v.mag > bound.clone().max(one) {
                        return Err(format!("coefficient {:?} larger than documented ({:?})", v, bound));
                    }
                    if let Some(x) = &bez {
                        let s = x.mul(a).add(&v.mul(b));
                        if s != Int::from_nat(g.clone()) {
                            return Err(format!("coefficients {:?}, {:?} give {:?}, not the gcd {:?}", x, v, s, g));
                        }
                    }
                    bez = Some(v.clone());
                    value = Some(v);
                }
                (R::U(_) | R::I(_), Out::De { value: want, .. }) => {
                    let v = self.actual(r)?;
                    if c.de.failed {
                        return Err("the byte source failed but a number was returned".into());
                    }
                    if want.as_ref() != Some(&v) {
                        return Err(match want {
                            None => format!("bytes that store no number were read as {:?}", v),
                            Some(w) => format!("bytes that store {:?} were read as {:?}", w, v),
                        });
                    }
                    value = Some(v);
                }
                (R::DeErr(e), Out::De { err_ok, value: want }) => {
                    if c.de.failed {
                        if !matches!(e, SimErr::Injected(_)) {
                            return Err(format!("the error of the byte source was replaced by: {}", e));
                        }
                    } else if !err_ok {
                        return Err(format!("a well-formed stored number was rejected: {} (stores {:?})", e, want));
                    }
                    self.stats.add("de.rejected", 1);
                    // an in-place target keeps its value or becomes zero
                    if in_place(d) {
                        let k = o.a;
                        if self.check_slot(d.dom.as_bytes()[0], k).is_err() {
                            if d.dom.starts_with('u') {
                                self.model.u[k as usize] = Nat::zero();
                            } else {
                                self.model.i[k as usize] = Int::zero();
                            }
                        }
                    }
                }
                _ => return bad(),
            }
            if let Some(v) = value {
                self.log.bytes(&v.mag.to_le());
                self.log.add(v.neg as u64);
                match r {
                    R::U(k) => {
                        if v.neg {
                            return bad();
                        }
                        self.model.u[*k as usize] = v.mag
                    }
                    R::I(k) => self.model.i[*k as usize] = v,
                    _ => {}
                }
            }
        }
        Ok(())
    }

    /// End of the scenario: everything is checked, dropped one by one and weighed.
    pub fn finish(&mut self) -> Result<(), Viol> {
        self.check_all()?;
        if !self.opts.threads {
            alloc::sweep();
            if let Some(e) = alloc::take_errors().first() {
                return Err(format!("memory: {}", e));
            }
        }
        self.drop_all()
    }
    pub fn drop_all(&mut self) -> Result<(), Viol> {
        let threads = self.opts.threads;
        let env = &mut self.env;
        let weigh = |what: String, bits: usize, f: &mut dyn FnMut()| -> Result<(), Viol> {
            let a = alloc::live();
            if let Err(p) = in_sut(f) {
                return Err(format!("dropping {} panicked: {:?}", what, p));
            }
            if threads {
                return Ok(());
            }
            let b = alloc::live();
            let (n, s) = (a.0.wrapping_sub(b.0), a.1.wrapping_sub(b.1));
            let h = held(bits);
            if n > h.0 || s > h.1 {
                return Err(format!(
                    "memory: {} of {} bits ({} words) held {} blocks, {} bytes; at most {} blocks, {} bytes",
                    what,
                    bits,
                    words(bits),
                    n,
                    s,
                    h.0,
                    h.1
                ));
            }
            Ok(())
        };
        for k in 0..env.m.len() {
            let bits = match &self.model.m[k] {
                Some((r, _)) => self.model.rings[*r as usize].as_ref().map_or(0, |x| x.bits()),
                None => 0,
            };
            self.model.m[k] = None;
            let v = &mut env.m[k];
            weigh(format!("modular value {}", k), bits, &mut || *v = None)?;
        }
        for k in 0..env.u.len() {
            let bits = self.model.u[k].bits();
            self.model.u[k] = Nat::zero();
            let v = &mut env.u[k];
            weigh(format!("unsigned value {}", k), bits, &mut || drop(std::mem::take(v)))?;
        }
        for k in 0..env.i.len() {
            let bits = self.model.i[k].mag.bits();
            self.model.i[k] = Int::zero();
            let v = &mut env.i[k];
            weigh(format!("signed value {}", k), bits, &mut || drop(std::mem::take(v)))?;
        }
        let t = self.t;
        let def = t.find("ring.drop").unwrap();
        for k in 0..env.rings.len() {
            if env.rings[k].is_some() {
                let o = Op { def, k: k as u64, ..Op::default() };
                env.out.clear();
                if let Err(p) = in_sut(|| (t.ops[def as usize].f)(env, &o)) {
                    return Err(format!("dropping ring {} panicked: {:?}", k, p));
                }
                self.model.rings[k] = None;
            }
        }
        env.out.clear();
        if !threads {
            let live = alloc::live();
            if live.0 > self.base.0 {
                return Err(format!(
                    "memory: {} blocks ({} bytes) never released",
                    live.0 - self.base.0,
                    live.1.wrapping_sub(self.base.1)
                ));
            }
            if let Some(e) = alloc::take_errors().first() {
                return Err(format!("memory: {}", e));
            }
        }
        Ok(())
    }
}

/// Whether `got` is the beginning of `text`; announced lengths patched in later do not occur here.
fn d_prefix(got: &[u8], text: &[u8]) -> Option<usize> {
    text.starts_with(got).then_some(got.len())
}
fn brief(b: &[u8]) -> String {
    let s: String = b.iter().map(|c| if (0x20..0x7f).contains(c) { *c as char } else { '.' }).collect();
    if s.len() <= 100 {
        format!("\"{}\" ({} bytes)", s, b.len())
    } else {
        format!("\"{}...{}\" ({} bytes)", &s[..40], &s[s.len() - 40..], b.len())
    }
}
fn show_r(r: &R) -> String {
    let s = format!("{:?}", r);
    if s.len() > 200 {
        format!("{}...", &s[..200])
    } else {
        s
    }
}
fn show_out(r: &Out) -> String {
    let s = format!("{:?}", r);
    if s.len() > 200 {
        format!("{}...", &s[..200])
    } else {
        s
    }
}
fn show_outs(o: &Outs) -> String {
    o.list().map(show_r).collect::<Vec<_>>().join(", ")
}
/// A label for seeds.
pub fn label(s: &str) -> u64 {
    let mut h = 0;
    for b in s.bytes() {
        h = mix(h ^ b as u64);
    }
    h
}
