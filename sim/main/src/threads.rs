//! Scenarios with several threads (C03).
//!
//! A scenario is a sequence of phases. Before a phase the main thread works on the shared world
//! (numbers, rings, modular values); in the phase every thread runs operations on private values,
//! with shared ones as operands by reference, under the seeded scheduler; every thread checks each
//! of its outcomes against its own model. After a phase the shared world is checked, and private
//! values move on to the next thread.

use crate::gen::{Gen, G};
use crate::machine::*;
use crate::runner::*;
use simrt::alloc::{self, Plan};
use simrt::prng::{mix, Digest, Prng};
use simrt::sched::{self, Policy};
use std::sync::{Arc, Mutex};
use sut::{Op, Pool, Table};

const SHARED: (usize, usize, usize, usize) = (4, 4, 4, 3);
/// Rings a thread creates during a phase; they move to slots of their own after it.
const OWN: (usize, usize) = (3, 5);

#[derive(Clone, Debug)]
struct Phase {
    main: Vec<(Op, Inject)>,
    kind: u8,
    mean: u64,
    seed: u64,
    est: u64,
    switches: Option<Vec<(u64, u8)>>,
    ops: Vec<Vec<(Op, Inject)>>,
}
impl Phase {
    fn show(&self) -> String {
        format!("phase {} {} {} {}", self.kind, self.mean, self.seed, self.est)
    }
}

/// Where the operations of a thread come from.
enum Source<'t> {
    List(Vec<(Op, Inject)>),
    Fresh(Gen<'t>, usize),
    /// a few short sequences, again and again
    Loop(Vec<Vec<(Op, Inject)>>, Prng, usize),
}

/// What an operation costs, roughly, in word operations; too much if its result would be long.
fn cost(w: &World, o: &Op) -> u64 {
    let d = &w.t.ops[o.def as usize];
    let dom = d.dom.as_bytes();
    let bits = |kind: u8, k: u8| match kind {
        b'u' => w.model.ur(k).bits() as u64,
        b'i' => w.model.ir(k).mag.bits() as u64,
        b'm' => w.model.mr(k).map_or(0, |x| w.model.rings[x.0 as usize].as_ref().map_or(0, |n| n.bits() as u64)),
        _ => 0,
    };
    let (a, b) = (bits(dom[0], o.a), bits(dom[1], o.b));
    let (wa, wb) = (a / 64 + 1, b / 64 + 1);
    let name = &d.sem[2..];
    let result = match name {
        "pow" | "npow" if dom[0] != b'm' => a.saturating_sub(1).saturating_mul(o.k),
        "mul" => a + b,
        "shl" => a.saturating_add(o.k),
        "setbit" => o.k,
        _ => 0,
    };
    if result > 60_000 {
        return u64::MAX;
    }
    10 + match name {
        "gcd" | "egcd" => 8 * wa * wb.max(wa),
        _ if dom[0] == b'm' => 8 * wa * wa + if d.sem == "m.pow" { 64 * wa * wa } else { 0 },
        "add" | "sub" | "cmp" | "eq" | "clone" => wa + wb,
        _ => wa * wa.max(wb) + result / 64 * wa,
    }
}

type Sink<'a> = &'a mut dyn FnMut(&str);

/// A pointer handed to a simulated thread; the creating thread waits for all of them.
struct Ptr<T: ?Sized>(*mut T);
unsafe impl<T: ?Sized> Send for Ptr<T> {}
impl<T: ?Sized> Ptr<T> {
    fn get(&self) -> *mut T {
        self.0
    }
}

struct Cast<'t> {
    t: &'t Table,
    shared: World<'t>,
    private: Vec<World<'t>>,
    log: Digest,
    full: Digest,
    stats: Stats,
    states: Vec<u64>,
}

/// Loops of operations end when a phase has taken this many steps.
const LOOPS_END: u64 = 10_000_000;

impl<'t> Cast<'t> {
    fn new(t: &'t Table, slots: (usize, usize, usize, usize), n: usize, plan: u64) -> Cast<'t> {
        alloc::reset(if plan == 0 { Plan::DEFAULT } else { Plan::numbered(plan) });
        let opts = Opts { threads: true, ..Opts::default() };
        let rings = OWN.1 + 8 * n;
        let world = |s: (usize, usize, usize), own| {
            let mut w = World::new(t, s.0, s.1, s.2, rings, opts);
            w.model.own = Some(own);
            w
        };
        Cast {
            t,
            shared: world((SHARED.0, SHARED.1, SHARED.2), (0, SHARED.3)),
            private: (0..n).map(|_| world((slots.0, slots.1, slots.2), OWN)).collect(),
            log: Digest::new(),
            full: Digest::new(),
            stats: Stats::default(),
            states: Vec::new(),
        }
    }

    /// Threads see the shared world as it is now.
    fn share(&mut self) {
        let pu = Arc::new(self.shared.model.u.clone());
        let pi = Arc::new(self.shared.model.i.clone());
        let pm = Arc::new(self.shared.model.m.clone());
        for w in &mut self.private {
            w.env.pool = Pool { u: &self.shared.env.u[..], i: &self.shared.env.i[..], m: &self.shared.env.m[..] };
            w.env.rings = self.shared.env.rings.clone();
            w.model.rings = self.shared.model.rings.clone();
            w.model.sealed = w.model.rings.iter().map(|x| x.is_some()).collect();
            w.model.pu = pu.clone();
            w.model.pi = pi.clone();
            w.model.pm = pm.clone();
        }
    }

    /// Runs one phase; `sink` hears every line before it is executed.
    fn phase(&mut self, p: &Phase, sources: Vec<Source<'t>>, sink: Sink) -> Result<(), Viol> {
        let n = self.private.len();
        self.share();
        let mut ranges: Vec<(usize, usize)> = alloc::live_ranges();
        let own = |v: (usize, usize)| v.1 > v.0;
        ranges.push((self.shared.env.u.as_ptr() as usize, self.shared.env.u.as_ptr_range().end as usize));
        ranges.push((self.shared.env.i.as_ptr() as usize, self.shared.env.i.as_ptr_range().end as usize));
        ranges.push((self.shared.env.m.as_ptr() as usize, self.shared.env.m.as_ptr_range().end as usize));
        for r in self.shared.env.rings.iter().flatten() {
            let p = *r as usize;
            ranges.push((p, p + std::mem::size_of_val(unsafe { &**r })));
        }
        ranges.retain(|r| own(*r));
        let failed: Arc<Mutex<Option<Viol>>> = Arc::new(Mutex::new(None));
        let heard: Mutex<Sink> = Mutex::new(sink);
        let heard_ptr = &heard as *const Mutex<Sink> as usize;
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for (k, (w, s)) in self.private.iter_mut().zip(sources).enumerate() {
            let w = Ptr(w as *mut World<'t> as *mut World<'static>);
            let s = Ptr(Box::into_raw(Box::new(s)) as *mut Source<'static>);
            let failed = failed.clone();
            bodies.push(Box::new(move || {
                let w: &mut World = unsafe { &mut *w.get() };
                let mut s: Box<Source> = unsafe { Box::from_raw(s.get()) };
                let heard: &Mutex<Sink> = unsafe { &*(heard_ptr as *const Mutex<Sink>) };
                let mut j = 0;
                let mut budget = 200_000;
                let looping = matches!(&*s, Source::Loop(..));
                let mut queue = std::collections::VecDeque::new();
                loop {
                    if failed.lock().unwrap().is_some() {
                        break;
                    }
                    let (o, i) = match &mut *s {
                        Source::List(v) => match v.get(j) {
                            Some(x) => x.clone(),
                            None => break,
                        },
                        Source::Fresh(_, n) if j >= *n => break,
                        Source::Fresh(g, _) => g.next(&w.model),
                        Source::Loop(_, _, n) if j >= *n => break,
                        Source::Loop(v, r, _) => {
                            if queue.is_empty() {
                                queue.extend(r.pick(&v[..]).iter().cloned());
                            }
                            queue.pop_front().unwrap()
                        }
                    };
                    j += 1;
                    if looping && sched::time() > LOOPS_END {
                        break;
                    }
                    if looping {
                        // what repeats on its own results may cost ever more
                        let c = cost(w, &o);
                        if c > budget {
                            continue;
                        }
                        budget -= c;
                    }
                    (heard.lock().unwrap())(&format!("t{} {}", k, show_op(w.t, &o, &i)));
                    if let Err(e) = w.step(&o, &i) {
                        let mut f = failed.lock().unwrap();
                        if f.is_none() {
                            *f = Some(format!("thread {}: {}", k, e));
                        }
                        break;
                    }
                    // between operations another thread may go on, too
                    alloc::IN.set(true);
                    sched::yield_point(sched::Y_CALL);
                    alloc::IN.set(false);
                }
            }));
        }
        let policy = Policy { kind: p.kind, mean: p.mean, seed: p.seed, est: p.est, replay: p.switches.clone() };
        let info = sched::run(policy, ranges, bodies);
        self.stats.add("sched.steps", info.steps);
        self.stats.max("sched.steps.phase", info.steps);
        self.stats.add("sched.switches", (info.switches.len() as u64).saturating_sub(n as u64));
        self.stats.add(&format!("sched.phases.policy{}", p.kind), 1);
        for (name, k) in [("edges", 0), ("allocations", 1), ("releases", 2), ("accesses", 3), ("hot", 4), ("calls", 5), ("yields", 6)] {
            self.stats.add(&format!("sched.points.{}", name), info.kinds[k]);
        }
        self.full.add(info.digest);
        self.states.push(info.digest);
        sched::PAST.lock().unwrap().push(info.switches);
        if let Some(e) = failed.lock().unwrap().take() {
            return Err(e);
        }
        self.shared.check_all().map_err(|e| format!("after the threads: {}", e))?;
        for (k, w) in self.private.iter().enumerate() {
            w.check_all().map_err(|e| format!("after the threads: thread {}: {}", k, e))?;
        }
        if let Some(e) = alloc::take_errors().first() {
            return Err(format!("memory: {}", e));
        }
        self.adopt()
    }

    /// Rings the threads have created become known to all; no two of them are the same ring.
    fn adopt(&mut self) -> Result<(), Viol> {
        let mut new = vec![];
        for w in &mut self.private {
            for s in OWN.0..OWN.1 {
                let Some(n) = w.model.rings[s].take() else { continue };
                let Some(g) = (OWN.1..self.shared.model.rings.len()).find(|g| self.shared.model.rings[*g].is_none()) else {
                    return Err("simulator: too many rings".into());
                };
                self.shared.model.rings[g] = Some(n);
                self.shared.env.rings[g] = w.env.rings[s].take();
                for x in w.model.m.iter_mut().flatten() {
                    if x.0 as usize == s {
                        x.0 = g as u8;
                    }
                }
                new.push(g);
            }
        }
        self.stats.add("threads.rings", new.len() as u64);
        for a in &new {
            for b in 0..self.shared.env.rings.len() {
                if b != *a {
                    self.shared.check_apart(*a, b)?;
                }
            }
        }
        Ok(())
    }

    /// Private values move to the next thread.
    fn rotate(&mut self) {
        for k in 1..self.private.len() {
            let (a, b) = self.private.split_at_mut(k);
            let (a, b) = (&mut a[k - 1], &mut b[0]);
            std::mem::swap(&mut a.env.u, &mut b.env.u);
            std::mem::swap(&mut a.model.u, &mut b.model.u);
            std::mem::swap(&mut a.env.i, &mut b.env.i);
            std::mem::swap(&mut a.model.i, &mut b.model.i);
            std::mem::swap(&mut a.env.m, &mut b.env.m);
            std::mem::swap(&mut a.model.m, &mut b.model.m);
        }
    }

    fn main_op(&mut self, o: &Op, i: &Inject) -> Result<(), Viol> {
        // a ring with values on other threads stays
        let d = &self.t.ops[o.def as usize];
        if d.sem == "ring.drop" && self.private.iter().any(|w| w.model.m.iter().flatten().any(|x| x.0 as u64 == o.k)) {
            return Ok(());
        }
        self.shared.step(o, i).map_err(|e| format!("main thread: {}", e))
    }

    fn end(mut self, failed: Option<Viol>) -> Result<Outcome, (Outcome, Viol)> {
        let mut r = match failed {
            Some(e) => Err(e),
            None => Ok(()),
        };
        if r.is_ok() {
            for w in &mut self.private {
                w.env.rings.iter_mut().for_each(|x| *x = None);
                if r.is_ok() {
                    r = w.drop_all();
                }
            }
            if r.is_ok() {
                r = self.shared.finish();
            }
            if r.is_ok() {
                alloc::sweep();
                if let Some(e) = alloc::take_errors().first() {
                    r = Err(format!("memory: {}", e));
                }
            }
        }
        let mut ops = self.shared.ops;
        self.stats.merge(&self.shared.stats);
        self.log.add(self.shared.log.0);
        for w in &mut self.private {
            self.stats.merge(&w.stats);
            self.log.add(w.log.0);
            ops += w.ops;
            self.states.append(&mut w.states);
        }
        self.states.append(&mut self.shared.states);
        let mut full = self.full;
        full.add(self.log.0);
        full.add(alloc::digest());
        let out = Outcome {
            stats: std::mem::take(&mut self.stats),
            log: self.log.0,
            full: full.0,
            states: std::mem::take(&mut self.states),
            ops,
        };
        match r {
            Ok(()) => Ok(out),
            Err(e) => {
                // nothing is trusted any more
                std::mem::forget(self);
                Err((out, e))
            }
        }
    }
}

pub fn generate(t: &Table, seed: u64, idx: u64, sink: &mut dyn FnMut(&str)) -> Result<Outcome, (Outcome, Viol)> {
    let sseed = mix(mix(seed ^ label("scenario")) ^ mix((3u64) << 48 ^ idx));
    let mut r = Prng::split(sseed, 3);
    let n = *r.pick(&[2usize, 2, 2, 3, 3, 4, 5]);
    let plan = if r.chance(1, 2) { 0 } else { 1 + r.below(1 << 20) };
    sched::PAST.lock().unwrap().clear();
    let slots = (3, 3, 3, 2);
    sink(VERSION);
    sink("prop 3");
    sink(&format!("config {}", config()));
    sink(&format!("origin {} {}", seed, idx));
    sink(&format!("plans {}", plan));
    sink("slots 3 3 3 2");
    sink(&format!("threads {}", n));
    let mut c = Cast::new(t, slots, n, plan);
    let mut failed = None;
    let mut main = Gen::new(t, 3, mix(sseed ^ 7), false);
    main.slots = SHARED;
    let mut phases = r.range(1, 4);
    // what a process does first, all threads do at once
    let stampede = r.chance(2, 5);
    let mut focus = r.u64() >> 8;
    let rings = r.chance(2, 5);
    if rings {
        focus = main.group_index(if r.chance(1, 3) { G::Ring } else { G::Mod });
    }
    if stampede {
        phases = 1;
        main.only(if rings { &[G::Ring, G::Mod, G::Life] } else { &[G::Ring, G::Life] });
    }
    'all: for ph in 0..phases {
        for _ in 0..r.range(6, 20) {
            let (o, i) = main.next(&c.shared.model);
            sink(&format!("m {}", show_op(t, &o, &i)));
            if let Err(e) = c.main_op(&o, &i) {
                failed = Some(e);
                break 'all;
            }
        }
        let kind = *r.pick(&[0u8, 0, 0, 1, 1, 2, 2, 2, 3, 4]);
        let mean = match kind {
            1 => 1 + r.below(8),
            _ => 1u64 << r.below(if stampede { 9 } else { 12 }),
        };
        let p = Phase {
            main: vec![],
            kind,
            mean,
            seed: r.u64() >> 16,
            est: 1u64 << r.range(8, 20),
            switches: None,
            ops: vec![],
        };
        sink(&p.show());
        let same = stampede || r.chance(1, 3);
        let base = mix(sseed ^ ph << 32);
        let count = r.range(2, 12) as usize;
        let looping = r.chance(if stampede { 1 } else { 2 }, if stampede { 2 } else { 5 });
        let seqs = if looping { sequences(t, &mut c, base, stampede.then_some(focus), &mut r) } else { vec![] };
        let sources = (0..n)
            .map(|k| {
                if !seqs.is_empty() {
                    return Source::Loop(seqs.clone(), Prng::split(base, k as u64), 3 * count + 8);
                }
                // sometimes all threads do the same kinds of things
                let s = if same { base } else { mix(base ^ (k as u64 + 1)) };
                let mut g = Gen::new(t, 3, s, true);
                if stampede {
                    g.focus(focus);
                }
                Source::Fresh(g, count)
            })
            .collect();
        if let Err(e) = c.phase(&p, sources, sink) {
            failed = Some(e);
            break;
        }
        if r.chance(1, 2) {
            sink("rotate");
            c.rotate();
        }
    }
    if failed.is_none() {
        for _ in 0..r.below(8) {
            let (o, i) = main.next(&c.shared.model);
            sink(&format!("m {}", show_op(t, &o, &i)));
            if let Err(e) = c.main_op(&o, &i) {
                failed = Some(e);
                break;
            }
        }
    }
    c.end(failed)
}

/// One to four short sequences of operations, mostly on shared operands.
fn sequences(t: &Table, c: &mut Cast, base: u64, focus: Option<u64>, r: &mut Prng) -> Vec<Vec<(Op, Inject)>> {
    c.share();
    let mut g = Gen::new(t, 3, base, true);
    g.focus(focus.unwrap_or(base >> 8));
    let model = &c.private[0].model;
    let quiet = r.chance(1, 2);
    let alike = r.chance(1, 2);
    let mut out: Vec<Vec<(Op, Inject)>> = Vec::new();
    for _ in 0..r.range(1, 4) {
        let mut s = Vec::new();
        if let (true, Some(x)) = (alike, out.first().and_then(|x| x.last())) {
            let s = g.next_of(model, x.0.def);
            if !s.is_empty() {
                out.push(s);
            }
            continue;
        }
        loop {
            let (o, i) = g.next(model);
            s.push((o, if quiet { Inject { alloc: None, retry: false, every: 0, ..i } } else { i }));
            if !g.pending() || s.len() > 12 {
                break;
            }
        }
        out.push(s);
    }
    out
}

pub fn execute(t: &Table, h: &Header) -> Result<Outcome, (Outcome, Viol)> {
    let n: usize = h.all.get("threads").and_then(|x| x.parse().ok()).unwrap_or(2).clamp(1, 16);
    let bad = |l: &str| -> ! {
        println!("MALFORMED {}", l);
        std::process::exit(2);
    };
    sched::PAST.lock().unwrap().clear();
    // phases, each optionally followed by a rotation
    let mut phases: Vec<(Phase, bool)> = Vec::new();
    let blank = || Phase { main: vec![], kind: 4, mean: 1, seed: 0, est: 1, switches: None, ops: vec![vec![]; n] };
    let mut main: Vec<(Op, Inject)> = Vec::new();
    for l in &h.rest {
        let (w, rest) = l.split_once(' ').unwrap_or((l, ""));
        match w {
            "m" => match read_op(t, rest) {
                Some(x) => main.push(x),
                None => bad(l),
            },
            "phase" => {
                let v: Vec<u64> = rest.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                if v.len() != 4 {
                    bad(l);
                }
                let mut p = blank();
                (p.kind, p.mean, p.seed, p.est) = (v[0] as u8, v[1], v[2], v[3]);
                if p.kind == 9 {
                    p.switches = Some(vec![]);
                }
                p.main = std::mem::take(&mut main);
                phases.push((p, false));
            }
            "rotate" => {
                if let Some(p) = phases.last_mut() {
                    p.1 = true;
                }
            }
            "switch" => {
                let v: Vec<u64> = rest.split_whitespace().filter_map(|x| x.parse().ok()).collect();
                if let (Some((p, _)), &[a, b]) = (phases.last_mut(), &v[..]) {
                    p.switches.get_or_insert_default().push((a, b as u8));
                }
            }
            _ => {
                let k = w.strip_prefix('t').and_then(|x| x.parse::<usize>().ok());
                match (k, read_op(t, rest)) {
                    (Some(k), Some(x)) if k < n => {
                        if phases.is_empty() {
                            let mut p = blank();
                            p.main = std::mem::take(&mut main);
                            phases.push((p, false));
                        }
                        phases.last_mut().unwrap().0.ops[k].push(x)
                    }
                    _ => bad(l),
                }
            }
        }
    }
    let mut c = Cast::new(t, h.slots, n, h.plans.first().copied().unwrap_or(0));
    let mut failed = None;
    'all: for (p, rotate) in &phases {
        for (o, i) in &p.main {
            if let Err(e) = c.main_op(o, i) {
                failed = Some(e);
                break 'all;
            }
        }
        let sources = p.ops.iter().map(|v| Source::List(v.clone())).collect();
        if let Err(e) = c.phase(p, sources, &mut |_| {}) {
            failed = Some(e);
            break;
        }
        if *rotate {
            c.rotate();
        }
    }
    if failed.is_none() {
        for (o, i) in &main {
            if let Err(e) = c.main_op(o, i) {
                failed = Some(e);
                break;
            }
        }
    }
    c.end(failed)
}
