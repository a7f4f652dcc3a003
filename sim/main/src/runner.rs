//! Scenarios: their text form, their generation and their execution.

use crate::gen::{Gen, G};
use crate::machine::*;
use crate::nat::{Int, Nat};
use simrt::alloc::{self, Plan};
use simrt::prng::{mix, Digest, Prng};
use simrt::sched;
use std::collections::BTreeMap;
use sut::{Op, Table};

pub const VERSION: &str = "ibig-sim 1";

/// What one scenario did.
#[derive(Default)]
pub struct Outcome {
    pub stats: Stats,
    /// digest of outcomes and values: independent of the allocator
    pub log: u64,
    /// digest of everything, allocation events included
    pub full: u64,
    pub states: Vec<u64>,
    pub ops: u64,
}

impl Outcome {
    /// Faults that fired, refusals and thread switches.
    pub fn eventful(&self) -> u64 {
        self.stats
            .n
            .iter()
            .filter(|(k, _)| ["fault.", "stop.", "refused.", "de.rejected", "sched.switches"].iter().any(|p| k.starts_with(p)))
            .map(|x| *x.1)
            .sum()
    }
}

pub struct Totals {
    pub stats: Stats,
    pub scenarios: u64,
    pub ops: u64,
    /// estimates the number of distinct states: largest number of leading zeros per bucket
    hll: Vec<u8>,
    digest: Digest,
    t0: std::time::Instant,
}
impl Totals {
    pub fn new() -> Totals {
        Totals {
            stats: Stats::default(),
            scenarios: 0,
            ops: 0,
            hll: vec![0; 4096],
            digest: Digest::new(),
            t0: std::time::Instant::now(),
        }
    }
    pub fn add(&mut self, o: &Outcome) {
        self.stats.merge(&o.stats);
        self.scenarios += 1;
        self.ops += o.ops;
        self.digest.add(o.full);
        for s in &o.states {
            let h = mix(*s);
            let k = (h >> 52) as usize;
            let z = ((h << 12) | 1 << 11).leading_zeros() as u8 + 1;
            self.hll[k] = self.hll[k].max(z);
        }
    }
    pub fn json(&self) -> String {
        let mut s = String::from("{");
        s += &format!(
            "\"scenarios\":{},\"ops\":{},\"seconds\":{:.3},\"digest\":\"{:016x}\",",
            self.scenarios,
            self.ops,
            self.t0.elapsed().as_secs_f64(),
            self.digest.0
        );
        s += "\"stats\":{";
        let v: Vec<String> = self.stats.n.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        s += &v.join(",");
        s += "},\"hll\":\"";
        for x in &self.hll {
            s.push((b'0' + x) as char);
        }
        s = s.replace('\\', "\\\\");
        let (hit, all) = sched::reach();
        s += &format!("\",\"edges_total\":{},\"edges_hit\":{},\"edges\":\"", all, hit);
        let mut map = vec![0u8; all / 8 + 1];
        for k in sched::reach_set() {
            let k = k as usize;
            if k / 8 < map.len() {
                map[k / 8] |= 1 << (k % 8);
            }
        }
        s += &hex(&map);
        s += "\"}";
        s
    }
}

// ---- lines ---------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Line {
    Op(Op, Inject),
    /// the bytes the last serialization delivered go to the end of the simulated disk
    DiskAppend,
    DiskSync,
    /// power loss: what was not synced is lost, torn or scrambled; all values in memory are gone
    DiskCrash(u64),
    /// restart: everything on the disk is read back
    DiskRecover,
    Uniform(Uniform),
}
#[derive(Clone, Debug)]
pub struct Uniform {
    pub signed: bool,
    pub k: u64,
    pub n: u64,
    pub seed: u64,
    pub lo: Int,
    pub range: Nat,
}

pub fn show_line(t: &Table, l: &Line) -> String {
    match l {
        Line::Op(o, i) => show_op(t, o, i),
        Line::DiskAppend => "disk.append".into(),
        Line::DiskSync => "disk.sync".into(),
        Line::DiskCrash(s) => format!("disk.crash {}", s),
        Line::DiskRecover => "disk.recover".into(),
        Line::Uniform(u) => format!(
            "uniform {} {} {} {} {} {} {}",
            u.signed as u8,
            u.k,
            u.n,
            u.seed,
            u.lo.neg as u8,
            hexn(&u.lo.mag),
            hexn(&u.range)
        ),
    }
}
fn hexn(x: &Nat) -> String {
    let s = hex(&x.to_le());
    if s.is_empty() {
        "00".into()
    } else {
        s
    }
}
pub fn read_line(t: &Table, s: &str) -> Option<Line> {
    let p: Vec<&str> = s.split_whitespace().collect();
    Some(match *p.first()? {
        "disk.append" => Line::DiskAppend,
        "disk.sync" => Line::DiskSync,
        "disk.crash" => Line::DiskCrash(p.get(1)?.parse().ok()?),
        "disk.recover" => Line::DiskRecover,
        "uniform" => Line::Uniform(Uniform {
            signed: *p.get(1)? == "1",
            k: p.get(2)?.parse().ok()?,
            n: p.get(3)?.parse().ok()?,
            seed: p.get(4)?.parse().ok()?,
            lo: Int::new(*p.get(5)? == "1", Nat::from_le(&unhex(p.get(6)?))),
            range: Nat::from_le(&unhex(p.get(7)?)),
        }),
        _ => {
            let (o, i) = read_op(t, s)?;
            Line::Op(o, i)
        }
    })
}

// ---- execution -------------------------------------------------------------------------------------

struct Record {
    start: usize,
    len: usize,
    fmt: u8,
    signed: bool,
    value: Int,
    complete: bool,
}
#[derive(Default)]
struct Disk {
    data: Vec<u8>,
    synced: usize,
    records: Vec<Record>,
    last: Option<(u8, bool, Int, Vec<u8>, bool)>,
}

pub struct Runner<'t> {
    pub t: &'t Table,
    pub w: World<'t>,
    prop: u8,
    slots: (usize, usize, usize, usize),
    disk: Disk,
    stats: Stats,
    states: Vec<u64>,
    log: Digest,
    ops: u64,
}

fn opts(prop: u8) -> Opts {
    Opts { threads: false, peak: matches!(prop, 10 | 8 | 5), twice: prop == 7, work: prop == 14, stack: prop == 15 }
}

impl<'t> Runner<'t> {
    pub fn new(t: &'t Table, prop: u8, slots: (usize, usize, usize, usize), plan: u64) -> Runner<'t> {
        alloc::reset(if plan == 0 { Plan::DEFAULT } else { Plan::numbered(plan) });
        Runner {
            t,
            w: World::new(t, slots.0, slots.1, slots.2, slots.3, opts(prop)),
            prop,
            slots,
            disk: Disk::default(),
            stats: Stats::default(),
            states: Vec::new(),
            log: Digest::new(),
            ops: 0,
        }
    }
    pub fn line(&mut self, l: &Line) -> Result<(), Viol> {
        match l {
            Line::Op(o, i) => {
                let d = &self.t.ops[o.def as usize];
                let is_ser = self.prop == 6 && d.sem.ends_with(".ser");
                let value = if is_ser {
                    if d.sem.starts_with('u') { Int::from_nat(self.w.model.ur(o.a)) } else { self.w.model.ir(o.a) }
                } else {
                    Int::zero()
                };
                self.w.step(o, i)?;
                if is_ser {
                    let b = self.w.env.ctx.ser_out.clone();
                    let ok = !self.w.env.ctx.ser.failed;
                    self.log.bytes(&b);
                    self.disk.last =
                        Some((o.k as u8 % simrt::io::FORMATS, d.sem.starts_with('i'), value, b, ok));
                }
                Ok(())
            }
            Line::DiskAppend => {
                if let Some((fmt, signed, value, b, complete)) = self.disk.last.take() {
                    self.disk.records.push(Record {
                        start: self.disk.data.len(),
                        len: b.len(),
                        fmt,
                        signed,
                        value,
                        complete,
                    });
                    self.disk.data.extend_from_slice(&b);
                    self.stats.add("disk.appended", 1);
                }
                Ok(())
            }
            Line::DiskSync => {
                self.disk.synced = self.disk.data.len();
                self.stats.add("disk.synced", 1);
                Ok(())
            }
            Line::DiskCrash(seed) => {
                let mut r = Prng::split(*seed, 0xd15c);
                let (st, end) = (self.disk.synced, self.disk.data.len());
                let sector = *r.pick(&[1usize, 7, 8, 16, 64, 512]);
                let mode = r.below(4);
                let cut = st + r.usize(end - st + 1);
                let mut k = st;
                while k < end {
                    let e = (k + sector).min(end);
                    for i in k..e {
                        let keep = match mode {
                            0 => i < cut,
                            1 => true,
                            2 => mix(*seed ^ (k as u64) << 8) & 1 == 0,
                            _ => i < cut || mix(*seed ^ k as u64) & 3 == 0,
                        };
                        if !keep {
                            self.disk.data[i] = match seed & 3 {
                                0 => 0,
                                1 => 0xff,
                                2 => self.disk.data.get(i.wrapping_sub(sector)).copied().unwrap_or(0),
                                _ => mix(*seed ^ i as u64) as u8,
                            };
                            self.stats.add("fault.disk.bytes", 1);
                        }
                    }
                    k = e;
                }
                self.stats.add("fault.disk.crash", 1);
                // memory is gone
                self.absorb()?;
                self.w = World::new(self.t, self.slots.0, self.slots.1, self.slots.2, self.slots.3, opts(self.prop));
                Ok(())
            }
            Line::DiskRecover => {
                let records = std::mem::take(&mut self.disk.records);
                for (n, r) in records.iter().enumerate() {
                    let bytes = self.disk.data[r.start..r.start + r.len].to_vec();
                    self.log.bytes(&bytes);
                    let durable = r.complete && r.start + r.len <= self.disk.synced;
                    let slot = (n % 5) as u8;
                    let def = self.t.find(if r.signed { "i.de" } else { "u.de" }).unwrap();
                    let o = Op { def, d: slot, k: r.fmt as u64, x: bytes, ..Op::default() };
                    self.w.step(&o, &Inject::default())?;
                    if durable {
                        let got = if r.signed {
                            self.w.model.ir(slot)
                        } else {
                            Int::from_nat(self.w.model.ur(slot))
                        };
                        if got != r.value {
                            return Err(format!("stored and synced {:?}, read back {:?}", r.value, got));
                        }
                        self.stats.add("disk.recovered", 1);
                    } else {
                        self.stats.add("disk.torn_read", 1);
                    }
                }
                self.disk.data.clear();
                self.disk.synced = 0;
                Ok(())
            }
            Line::Uniform(u) => self.uniform(u),
        }
    }

    /// Every number of the range must be equally likely under a fair source.
    fn uniform(&mut self, u: &Uniform) -> Result<(), Viol> {
        if u.range.is_zero() {
            return Ok(());
        }
        let inclusive = u.k & 1 == 1;
        let one = Int::from_nat(Nat::one());
        let mut hi = u.lo.add(&Int::from_nat(u.range.clone()));
        if inclusive {
            hi = hi.sub(&one);
        }
        let kind = if u.signed { b'i' } else { b'u' };
        if !u.signed && (u.lo.neg || hi.neg) {
            return Ok(());
        }
        let ld = |d: u8, x: &Int| -> Op {
            if kind == b'u' {
                Op { def: self.t.find("u.load").unwrap(), d, x: x.mag.to_le(), ..Op::default() }
            } else {
                Op { def: self.t.find("i.load").unwrap(), d, e: x.neg as u8, x: x.mag.to_le(), ..Op::default() }
            }
        };
        let (a, b) = (ld(0, &u.lo), ld(1, &hi));
        self.w.step(&a, &Inject::default())?;
        self.w.step(&b, &Inject::default())?;
        let def = self.t.find(if u.signed { "i.rand.r" } else { "u.rand.r" }).unwrap();
        let o = Op { def, d: 2, a: 0, b: 1, k: u.k, ..Op::default() };
        let small = u.range.to_u128().filter(|x| *x <= 64).map(|x| x as usize);
        let buckets = small.unwrap_or(16);
        let mut high = vec![0u64; buckets];
        let mut low = vec![0u64; 16];
        // bits well below the top of the range are fair coins, and so are the exclusive or of two
        // words at some distance and the carry from one sample to the next
        let top = u.range.bits().saturating_sub(12).min(64 * 8);
        const SHIFTS: [usize; 6] = [0, 8, 16, 32, 64, 128];
        let mut coins: Vec<Vec<u32>> = SHIFTS.iter().map(|k| vec![0; top.saturating_sub(*k)]).collect();
        let mut serial = vec![0u32; top];
        let mut last: Option<Vec<u8>> = None;
        let save = self.w.opts.twice;
        self.w.opts.twice = false;
        for j in 0..u.n {
            let inj = Inject {
                r: Some(RSpec { seed: u.seed.wrapping_mul(1_000_003).wrapping_add(j), mode: 0, stuck: 0, fail: None, how: 0 }),
                ..Inject::default()
            };
            self.w.step(&o, &inj)?;
            let v = if u.signed { self.w.model.ir(2) } else { Int::from_nat(self.w.model.ur(2)) };
            let off = v.sub(&u.lo).mag;
            let h = match small {
                Some(_) => off.to_u128().unwrap_or(0) as usize,
                None => off.shl(4).divrem(&u.range).0.to_u128().unwrap_or(0) as usize,
            };
            high[h.min(buckets - 1)] += 1;
            low[off.low_bits(4).to_u128().unwrap_or(0) as usize] += 1;
            if top > 0 {
                let x = off.low_bits(top);
                for (k, c) in SHIFTS.iter().zip(&mut coins) {
                    if *k < top {
                        let y = if *k == 0 { x.clone() } else { x.xor(&x.shr(*k)).low_bits(top - k) };
                        for (i, b) in y.to_le().iter().enumerate() {
                            for n in 0..8 {
                                if b >> n & 1 == 1 {
                                    c[8 * i + n] += 1;
                                }
                            }
                        }
                    }
                }
                let mut b = x.to_le();
                b.resize(top.div_ceil(8), 0);
                if let Some(l) = &last {
                    for (i, c) in serial.iter_mut().enumerate() {
                        *c += ((b[i / 8] ^ l[i / 8]) >> (i % 8) & 1) as u32;
                    }
                }
                last = Some(b);
            }
        }
        self.w.opts.twice = save;
        self.stats.add("rand.uniformity", 1);
        // expected shares
        let total = u.n as f64;
        let share = |k: usize| -> f64 {
            if small.is_some() {
                return 1.0 / buckets as f64;
            }
            // numbers with bucket k: ceil(range k / 16) .. ceil(range (k+1) / 16)
            let c = |k: usize| u.range.mul(&Nat::from_u128(k as u128)).add(&Nat::from_u128(15)).shr(4);
            let n = c(k + 1).sub(&c(k)).unwrap();
            ratio(&n, &u.range)
        };
        check_chi(&high, total, share, "position in the range")?;
        if u.range.bits() > 24 {
            check_chi(&low, total, |_| 1.0 / 16.0, "low bits")?;
        }
        // twelve standard deviations, and room for the ten-thousandths the top of the range adds
        let tossed = |c: u32| (c as f64 - total / 2.0).abs() > 6.0 * total.sqrt() + total / 1000.0 + 2.0;
        for (k, c) in SHIFTS.iter().zip(&coins) {
            if let Some(i) = c.iter().position(|c| tossed(*c)) {
                return Err(format!("sampling is not uniform: bit {} (with bit {}) is set in {} of {}", i, i + k, c[i], u.n));
            }
        }
        if let Some(i) = serial.iter().position(|c| tossed(*c)) {
            return Err(format!("samples are not independent: bit {} differs from the last one in {} of {}", i, serial[i], u.n));
        }
        Ok(())
    }

    /// Checks and empties the world, keeping its statistics.
    fn absorb(&mut self) -> Result<(), Viol> {
        let r = self.w.finish();
        self.stats.merge(&self.w.stats);
        self.w.stats = Stats::default();
        self.states.append(&mut self.w.states);
        self.log.add(self.w.log.0);
        self.ops += self.w.ops;
        r
    }
    pub fn end(mut self, failed: Option<Viol>) -> Result<Outcome, (Outcome, Viol)> {
        let r = match failed {
            Some(e) => {
                self.stats.merge(&self.w.stats);
                self.states.append(&mut self.w.states);
                self.log.add(self.w.log.0);
                self.ops += self.w.ops;
                // the process ends soon: nothing is trusted any more
                std::mem::forget(std::mem::replace(&mut self.w.env, sut::Env::new(0, 0, 0, 0)));
                Err(e)
            }
            None => self.absorb(),
        };
        let mut full = self.log;
        full.add(alloc::digest());
        let out = Outcome { stats: self.stats, log: self.log.0, full: full.0, states: self.states, ops: self.ops };
        match r {
            Ok(()) => Ok(out),
            Err(e) => Err((out, e)),
        }
    }
}

fn ratio(a: &Nat, b: &Nat) -> f64 {
    let s = b.bits().saturating_sub(900);
    a.shr(s).to_f64() / b.shr(s).to_f64()
}
fn check_chi(counts: &[u64], total: f64, share: impl Fn(usize) -> f64, what: &str) -> Result<(), Viol> {
    let mut chi = 0.0;
    let df = counts.len() as f64 - 1.0;
    for (k, c) in counts.iter().enumerate() {
        let e = total * share(k);
        if e < 5.0 {
            if *c > 60 {
                return Err(format!("sampling is not uniform in {}: {:?}", what, counts));
            }
            continue;
        }
        chi += (*c as f64 - e) * (*c as f64 - e) / e;
    }
    if chi > df + 14.0 * (2.0 * df.max(1.0)).sqrt() + 60.0 {
        return Err(format!("sampling is not uniform in {}: counts {:?}, chi-square {:.1}", what, counts, chi));
    }
    Ok(())
}

// ---- generation ---------------------------------------------------------------------------------------

type Sink<'a> = &'a mut dyn FnMut(&str);

pub fn config() -> &'static str {
    option_env!("SIM_CONFIG").unwrap_or("dev")
}

pub fn generate(t: &Table, prop: u8, seed: u64, idx: u64, sink: Sink) -> Result<Outcome, (Outcome, Viol)> {
    if prop == 3 {
        return crate::threads::generate(t, seed, idx, sink);
    }
    let sseed = mix(mix(seed ^ label("scenario")) ^ mix((prop as u64) << 48 ^ idx));
    let mut r = Prng::split(sseed, 1);
    let mut g = Gen::new(t, prop, sseed, false);
    let plans: Vec<u64> = match prop {
        2 => {
            let mut v = vec![1 + r.below(1 << 20)];
            while v.len() < 3 {
                v.push(1 + r.below(1 << 20));
            }
            v
        }
        // where space is handed out again
        _ if g.giant => vec![(0..).find(|p| Plan::numbered(*p).reuse).unwrap()],
        _ => vec![if r.chance(1, 2) { 0 } else { 1 + r.below(1 << 20) }],
    };
    sink(VERSION);
    sink(&format!("prop {}", prop));
    sink(&format!("config {}", config()));
    sink(&format!("origin {} {}", seed, idx));
    sink(&format!("plans {}", plans.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
    sink(&format!("slots {} {} {} {}", g.slots.0, g.slots.1, g.slots.2, g.slots.3));
    let mut run = Runner::new(t, prop, g.slots, plans[0]);
    let n = match prop {
        1 => r.range(20, 60),
        11 => r.range(30, 90),
        _ if g.giant => r.range(3, 6),
        _ => r.range(40, 160),
    };
    let mut lines: Vec<Line> = Vec::new();
    let mut failed = None;
    let mut pending: std::collections::VecDeque<Line> = Default::default();
    let mut k = 0;
    while k < n || !pending.is_empty() {
        let l = match pending.pop_front() {
            Some(l) => l,
            None => {
                k += 1;
                if prop == 7 && r.chance(1, 400) {
                    Line::Uniform(uniform(&mut g, &mut r))
                } else {
                    let (o, i) = g.next(&run.w.model);
                    if prop == 6 {
                        disk_lines(t, &o, &mut r, &mut pending);
                    }
                    Line::Op(o, i)
                }
            }
        };
        sink(&show_line(t, &l));
        if prop == 2 {
            lines.push(l.clone());
        }
        if let Err(e) = run.line(&l) {
            failed = Some(e);
            break;
        }
    }
    let first = run.end(failed)?;
    if plans.len() == 1 {
        return Ok(first);
    }
    repeat(t, prop, g.slots, &plans[1..], &lines, first)
}

/// The same operations under other allocators must have the same outcomes.
fn repeat(
    t: &Table,
    prop: u8,
    slots: (usize, usize, usize, usize),
    plans: &[u64],
    lines: &[Line],
    first: Outcome,
) -> Result<Outcome, (Outcome, Viol)> {
    let mut all = first;
    for p in plans {
        let mut run = Runner::new(t, prop, slots, *p);
        let mut failed = None;
        for l in lines {
            if let Err(e) = run.line(l) {
                failed = Some(format!("under allocator {}: {}", p, e));
                break;
            }
        }
        let o = run.end(failed)?;
        let (a, b) = (all.log, o.log);
        all.stats.merge(&o.stats);
        all.full = mix(all.full ^ o.full);
        all.ops += o.ops;
        all.stats.add("allocators.compared", 1);
        if a != b {
            return Err((all, format!("results differ between allocators (allocator {})", p)));
        }
    }
    Ok(all)
}

fn disk_lines(t: &Table, o: &Op, r: &mut Prng, pending: &mut std::collections::VecDeque<Line>) {
    let d = &t.ops[o.def as usize];
    if crate::gen::group(d) != G::Ser {
        return;
    }
    if r.chance(4, 5) {
        pending.push_back(Line::DiskAppend);
        if r.chance(1, 3) {
            pending.push_back(Line::DiskSync);
        }
        if r.chance(1, 6) {
            pending.push_back(Line::DiskCrash(r.u64() >> 20));
            pending.push_back(Line::DiskRecover);
        }
    }
}

fn uniform(g: &mut Gen, r: &mut Prng) -> Uniform {
    let signed = r.chance(1, 2);
    let range = match r.below(10) {
        // several words, the top one small or large, the others special or random
        6..=9 => {
            let n = 1 + r.usize(7);
            let mut b = Vec::new();
            for _ in 0..n {
                let w = match r.below(5) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1 << 63,
                    _ => r.u64(),
                };
                b.extend_from_slice(&w.to_le_bytes());
            }
            let lowest = 8 * n - r.usize(if n > 1 { 16 } else { 7 }).min(8 * n - 1);
            b.truncate(lowest);
            let x = Nat::from_le(&b);
            match r.below(3) {
                0 => x.add(&Nat::pow2(8 * lowest)),
                1 => x.add(&Nat::from_u128(1 + r.below(6) as u128).shl(8 * lowest)),
                _ => x.add(&Nat::one()),
            }
        }
        0 | 1 => Nat::from_u128(1 + r.below(40) as u128),
        // a little above a power of two, or three quarters of one: biased methods show
        2 => {
            let b = 2 + r.usize(200);
            Nat::pow2(b).add(&Nat::pow2(b - 1))
        }
        // as many numbers as some words have values, or about that many
        3 | 4 => {
            let b = (1 + r.usize(4)) * g.wb;
            let x = Nat::pow2(b);
            match r.below(8) {
                0 => x.sub(&Nat::one()).unwrap(),
                1 => x.add(&Nat::one()),
                2 => Nat::pow2(b + 1),
                3 => Nat::pow2(b - 1),
                4 => Nat::pow2(b + 1).add(&Nat::one()),
                _ => x,
            }
        }
        _ => g.random_bits(r.usize(300)).add(&Nat::one()),
    };
    let lo = match r.below(4) {
        0 => Int::zero(),
        1 => Int::from_nat(g.random_bits(r.usize(200))),
        2 => {
            // around zero
            let x = Int::from_nat(range.shr(1));
            if signed { x.neg() } else { x }
        }
        _ => {
            let x = Int::from_nat(g.value());
            if signed { x.neg() } else { x }
        }
    };
    Uniform { signed, k: r.below(8), n: 3000, seed: r.below(1 << 30), lo, range }
}

// ---- execution of a scenario text ------------------------------------------------------------------------

pub struct Header {
    pub prop: u8,
    pub plans: Vec<u64>,
    pub slots: (usize, usize, usize, usize),
    pub rest: Vec<String>,
    pub all: BTreeMap<String, String>,
}
pub fn header(text: &str) -> Option<Header> {
    let mut h = Header { prop: 0, plans: vec![0], slots: (5, 5, 5, 3), rest: Vec::new(), all: BTreeMap::new() };
    let mut it = text.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#'));
    if it.next()?.trim() != VERSION {
        return None;
    }
    let mut body = false;
    for l in it {
        let p: Vec<&str> = l.split_whitespace().collect();
        if !body {
            match p[0] {
                "prop" => {
                    h.prop = p.get(1)?.parse().ok()?;
                    continue;
                }
                "plans" => {
                    h.plans = p[1..].iter().filter_map(|x| x.parse().ok()).collect();
                    continue;
                }
                "slots" => {
                    let v: Vec<usize> = p[1..].iter().filter_map(|x| x.parse().ok()).collect();
                    if v.len() != 4 {
                        return None;
                    }
                    h.slots = (v[0], v[1], v[2], v[3]);
                    continue;
                }
                "config" | "origin" | "threads" => {
                    h.all.insert(p[0].into(), p[1..].join(" "));
                    continue;
                }
                _ => body = true,
            }
        }
        h.rest.push(l.to_string());
    }
    Some(h)
}

pub fn execute(t: &Table, text: &str) -> Result<Outcome, (Outcome, Viol)> {
    let Some(h) = header(text) else {
        println!("MALFORMED header");
        std::process::exit(2);
    };
    if h.prop == 3 {
        return crate::threads::execute(t, &h);
    }
    let mut lines = Vec::new();
    for l in &h.rest {
        match read_line(t, l) {
            Some(x) => lines.push(x),
            None => {
                println!("MALFORMED {}", l);
                std::process::exit(2);
            }
        }
    }
    let plans = if h.plans.is_empty() { vec![0] } else { h.plans.clone() };
    let mut run = Runner::new(t, h.prop, h.slots, plans[0]);
    let mut failed = None;
    for l in &lines {
        if let Err(e) = run.line(l) {
            failed = Some(e);
            break;
        }
    }
    let first = run.end(failed)?;
    repeat(t, h.prop, h.slots, &plans[1..], &lines, first)
}
