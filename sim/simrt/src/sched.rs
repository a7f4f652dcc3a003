//! Simulated threads, and the instrumentation callbacks that give the simulator its preemption
//! points, its step counter (hang detection) and its reach measurement.
//!
//! Every simulated thread is a real OS thread, but exactly one holds the token at any time. A
//! thread gives it up only at a yield point (an instrumented edge or memory access of the code
//! under test, an allocation, a release, a futex call, a callback into harness code) and only when
//! the seeded scheduler says so. A run is therefore determined by the seed, and replayed by the
//! list of (step, thread) switches it recorded.

use crate::alloc::{fatal, IN};
use crate::prng::{Digest, Prng};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::thread::Thread;

pub const Y_EDGE: u8 = 0;
pub const Y_ALLOC: u8 = 1;
pub const Y_FREE: u8 = 2;
pub const Y_MEM: u8 = 3;
pub const Y_HOT: u8 = 4;
pub const Y_CALL: u8 = 5;
pub const Y_YIELD: u8 = 6;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static CUR: AtomicUsize = AtomicUsize::new(usize::MAX);
const MAIN: usize = usize::MAX;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    /// Edges executed by code under test on this thread since the last reset.
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static STEP_CAP: Cell<u64> = const { Cell::new(u64::MAX) };
}

#[derive(Clone, Debug)]
pub struct Policy {
    pub kind: u8, // 0 geometric, 1 priorities with change points, 2 hot points, 3 stall a thread, 4 run to completion in turn
    pub mean: u64,
    pub seed: u64,
    pub est: u64, // estimated length in steps, for change points
    pub replay: Option<Vec<(u64, u8)>>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TS {
    Ready,
    Blocked(usize),
    Done,
}

struct Sched {
    policy: Policy,
    rng: Prng,
    state: Vec<TS>,
    handles: Vec<Thread>,
    main: Option<Thread>,
    step: u64,
    next: u64,
    last_switch: u64,
    prio: Vec<u64>,
    changes: Vec<u64>,
    stalled: Option<usize>,
    low: u64,
    pos: usize,
    pub switches: Vec<(u64, u8)>,
    digest: Digest,
    kinds: [u64; 8],
    limit: u64,
    shared: Vec<(usize, usize)>,
}

static mut S: Option<Sched> = None;
static mut SHARED_LO: usize = 0;
static mut SHARED_HI: usize = 0;

#[derive(Clone, Debug, Default)]
pub struct RunInfo {
    pub steps: u64,
    pub switches: Vec<(u64, u8)>,
    pub digest: u64,
    pub kinds: [u64; 8],
}

const STEP_LIMIT: u64 = 800_000_000;
/// A switch takes the time of this many steps.
const SWITCH_COST: u64 = 300;

/// A lower limit may be asked for while a hang is minimised.
fn limit(most: u64) -> u64 {
    static ASKED: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let asked = ASKED.get_or_init(|| std::env::var("SIM_STEPS").ok().and_then(|x| x.parse().ok()).unwrap_or(u64::MAX));
    most.min(*asked)
}
const FAIR: u64 = 300_000;

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}

impl Sched {
    fn ready_others(&self, me: usize) -> Vec<usize> {
        (0..self.state.len()).filter(|t| *t != me && self.state[*t] == TS::Ready && Some(*t) != self.stalled).collect()
    }
    /// Switches become rarer in very long runs.
    fn rarer(&self) -> u64 {
        match self.switches.len() as u64 / 20_000 {
            0 => 1,
            k => 64 * k,
        }
    }
    fn draw_next(&mut self) {
        let mean = self.policy.mean.max(1) * self.rarer();
        self.next = match self.policy.kind {
            0 | 3 => self.step + 1 + self.rng.below(2 * mean),
            2 => self.step + 1 + self.rng.below(40 * mean),
            1 => self.changes.pop().unwrap_or(u64::MAX),
            _ => u64::MAX,
        };
    }
    /// The thread to run when the current one cannot go on.
    fn choose(&mut self, me: usize) -> Option<usize> {
        let mut c = self.ready_others(me);
        if c.is_empty() {
            if let Some(t) = self.stalled {
                self.stalled = None;
                if t != me && self.state[t] == TS::Ready {
                    c.push(t);
                }
            }
        }
        if c.is_empty() {
            return None;
        }
        if self.policy.replay.is_some() {
            // an entry recorded at this step, else the lowest-numbered thread
            if let Some(t) = self.replay_entry() {
                if c.contains(&t) {
                    return Some(t);
                }
            }
            return Some(c[0]);
        }
        Some(match self.policy.kind {
            1 => *c.iter().max_by_key(|t| self.prio[**t]).unwrap(),
            4 => c[0],
            _ => *self.rng.pick(&c),
        })
    }
    fn replay_entry(&mut self) -> Option<usize> {
        let r = self.policy.replay.as_ref().unwrap();
        while self.pos < r.len() && r[self.pos].0 < self.step {
            self.pos += 1;
        }
        if self.pos < r.len() && r[self.pos].0 == self.step {
            let t = r[self.pos].1 as usize;
            self.pos += 1;
            return Some(t);
        }
        None
    }
    fn note(&mut self, to: usize) {
        self.switches.push((self.step, to as u8));
        self.last_switch = self.step;
        self.digest.add(self.step);
        self.digest.add(to as u64);
    }
}

fn hand_over(me: usize, to: usize) {
    let sc = s();
    sc.note(to);
    let h = sc.handles[to].clone();
    CUR.store(to, SeqCst);
    h.unpark();
    wait_for(me);
}
fn wait_for(me: usize) {
    while CUR.load(SeqCst) != me {
        std::thread::park();
    }
}

#[inline]
pub fn yield_point(kind: u8) {
    if !ACTIVE.load(Relaxed) {
        return;
    }
    yield_slow(kind)
}

#[inline(never)]
fn yield_slow(kind: u8) {
    let me = ME.get();
    if me == MAIN {
        return;
    }
    let sc = s();
    sc.step += 1;
    sc.kinds[kind as usize] += 1;
    if sc.policy.replay.is_some() {
        let was = IN.replace(false);
        if let Some(t) = sc.replay_entry() {
            if t != me && t < sc.state.len() && sc.state[t] == TS::Ready {
                hand_over(me, t);
            }
        } else if sc.step - sc.last_switch > FAIR {
            fair(me);
        }
        IN.set(was);
        if sc.step + SWITCH_COST * sc.switches.len() as u64 > sc.limit {
            stuck(sc);
        }
        return;
    }
    let hot = (kind == Y_HOT || kind == Y_YIELD || kind == Y_CALL) && sc.policy.kind != 4;
    if sc.step < sc.next && !hot && sc.step - sc.last_switch <= FAIR {
        return;
    }
    let was = IN.replace(false);
    if sc.step + SWITCH_COST * sc.switches.len() as u64 > sc.limit {
        stuck(sc);
    }
    if sc.step - sc.last_switch > FAIR {
        fair(me);
        IN.set(was);
        return;
    }
    let due = sc.step >= sc.next;
    let go = match (due, kind) {
        (true, _) => true,
        (_, Y_YIELD) => true,
        (_, Y_HOT) => sc.policy.kind == 2 && sc.rng.chance(1, 2 * sc.rarer()),
        (_, Y_CALL) => sc.rng.chance(1, 8 * sc.rarer()),
        _ => false,
    };
    if due {
        sc.draw_next();
        if sc.policy.kind == 1 {
            sc.low = sc.low.wrapping_sub(1);
            sc.prio[me] = sc.low;
        }
        if sc.policy.kind == 3 && sc.stalled.is_none() && sc.rng.chance(1, 4) {
            sc.stalled = Some(me);
        }
    }
    if go {
        let c = sc.ready_others(me);
        if !c.is_empty() {
            let t = match sc.policy.kind {
                1 => *c.iter().max_by_key(|t| sc.prio[**t]).unwrap(),
                _ => *sc.rng.pick(&c),
            };
            if sc.policy.kind != 1 || sc.prio[t] > sc.prio[me] || kind == Y_YIELD {
                hand_over(me, t);
            }
        }
    }
    IN.set(was);
}

/// A thread that has run for very long lets another one run, so that waiting in a loop for another
/// thread ends.
fn fair(me: usize) {
    let sc = s();
    sc.stalled = None;
    sc.last_switch = sc.step;
    let c = sc.ready_others(me);
    if !c.is_empty() {
        let t = if sc.policy.replay.is_some() { c[(sc.step / FAIR) as usize % c.len()] } else { *sc.rng.pick(&c) };
        hand_over(me, t);
    }
}

fn stuck(sc: &Sched) -> ! {
    fatal(&format!("no progress: threads still running after {} steps; states {:?}", sc.step, sc.state))
}

fn block_current() {
    let me = ME.get();
    let sc = s();
    match sc.choose(me) {
        Some(t) => hand_over(me, t),
        None => fatal(&format!("deadlock: every thread waits; states {:?}", sc.state)),
    }
}

/// The switches of the runs that have ended, for replay files.
pub static PAST: std::sync::Mutex<Vec<Vec<(u64, u8)>>> = std::sync::Mutex::new(Vec::new());

/// Writes the schedules so far to standard error, if asked for.
pub fn say_switches() {
    if std::env::var_os("SIM_SWITCHES").is_none() {
        return;
    }
    let mut all = PAST.try_lock().map(|x| x.clone()).unwrap_or_default();
    if ACTIVE.load(Relaxed) {
        all.push(s().switches.clone());
    }
    for (k, v) in all.iter().enumerate() {
        let mut l = format!("\nSWITCHES {}", k);
        for x in v {
            l += &format!(" {}:{}", x.0, x.1);
        }
        crate::alloc::say(&(l + "\n"));
    }
}

/// Runs the bodies as simulated threads until all have finished.
pub fn run(policy: Policy, shared: Vec<(usize, usize)>, bodies: Vec<Box<dyn FnOnce() + Send>>) -> RunInfo {
    let n = bodies.len();
    let mut rng = Prng::split(policy.seed, 0x5ced);
    let mut prio: Vec<u64> = (0..n as u64).map(|i| (1u64 << 40) + i).collect();
    for i in (1..n).rev() {
        let j = rng.usize(i + 1);
        prio.swap(i, j);
    }
    let mut changes: Vec<u64> = (0..policy.mean.max(1)).map(|_| 1 + rng.below(policy.est.max(1))).collect();
    changes.sort_unstable_by(|a, b| b.cmp(a));
    CUR.store(usize::MAX - 1, SeqCst);
    let mut joins = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        joins.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    ME.set(i);
                    wait_for(i);
                    b();
                    IN.set(false);
                    let sc = s();
                    sc.state[i] = TS::Done;
                    sc.step += 1;
                    ME.set(usize::MAX);
                    match sc.choose(i) {
                        Some(t) => {
                            sc.note(t);
                            let h = sc.handles[t].clone();
                            CUR.store(t, SeqCst);
                            h.unpark();
                        }
                        None => {
                            if sc.state.iter().any(|x| *x != TS::Done) {
                                fatal(&format!("deadlock: every thread waits; states {:?}", sc.state));
                            }
                            let h = sc.main.clone().unwrap();
                            CUR.store(MAIN, SeqCst);
                            h.unpark();
                        }
                    }
                })
                .expect("spawn"),
        );
    }
    let handles: Vec<Thread> = joins.iter().map(|j| j.thread().clone()).collect();
    unsafe {
        SHARED_LO = shared.iter().map(|x| x.0).min().unwrap_or(0);
        SHARED_HI = shared.iter().map(|x| x.1).max().unwrap_or(0);
        S = Some(Sched {
            rng,
            state: vec![TS::Ready; n],
            handles,
            main: Some(std::thread::current()),
            step: 0,
            next: 0,
            last_switch: 0,
            prio,
            changes,
            stalled: None,
            low: 1 << 30,
            pos: 0,
            switches: Vec::new(),
            digest: Digest::new(),
            kinds: [0; 8],
            limit: limit(STEP_LIMIT),
            shared,
            policy,
        });
    }
    let sc = s();
    sc.draw_next();
    let first = match (&sc.policy.replay, sc.policy.kind) {
        (Some(_), _) => sc.replay_entry().filter(|t| *t < n).unwrap_or(0),
        (_, 1) => (0..n).max_by_key(|t| sc.prio[*t]).unwrap(),
        (_, 4) => 0,
        _ => sc.rng.usize(n),
    };
    sc.note(first);
    ACTIVE.store(true, SeqCst);
    let h = sc.handles[first].clone();
    CUR.store(first, SeqCst);
    h.unpark();
    wait_for(MAIN);
    ACTIVE.store(false, SeqCst);
    for j in joins {
        let _ = j.join();
    }
    let sc = s();
    let info = RunInfo {
        steps: sc.step,
        switches: std::mem::take(&mut sc.switches),
        digest: sc.digest.0,
        kinds: sc.kinds,
    };
    unsafe {
        S = None;
    }
    info
}

/// Index of the current simulated thread.
pub fn me() -> usize {
    ME.get()
}

// ---- step counting -------------------------------------------------------------------------

pub fn steps_reset(cap: u64) {
    STEPS.set(0);
    crate::copy::reset();
    STEP_CAP.set(limit(cap));
}
pub fn steps() -> u64 {
    STEPS.get()
}
pub fn steps_uncap() {
    STEP_CAP.set(u64::MAX);
}

// ---- instrumentation callbacks -------------------------------------------------------------

const MAX_GUARDS: usize = 1 << 17;
static mut HITS: [u32; MAX_GUARDS] = [0; MAX_GUARDS];
static mut NGUARDS: usize = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS.min(MAX_GUARDS - 1) as u32;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !IN.get() {
        outside();
        return;
    }
    let i = *g as usize;
    HITS[i] = HITS[i].wrapping_add(1);
    let n = STEPS.get() + 1;
    STEPS.set(n);
    if n > STEP_CAP.get() {
        over_cap(n);
    }
    if ACTIVE.load(Relaxed) {
        yield_slow(Y_EDGE);
    }
}

thread_local! {
    /// Edges executed while the simulator looks at values.
    static OUTSIDE: Cell<u64> = const { Cell::new(0) };
}
/// A look at values takes that many edges by far never.
const OUTSIDE_CAP: u64 = 300_000_000;
const OUTSIDE_FAIR: u64 = 4096;
/// Steps of the phase so far.
pub fn time() -> u64 {
    s().step
}
pub fn outside_reset() {
    OUTSIDE.set(0);
}
#[inline]
fn outside() {
    let n = OUTSIDE.get() + 1;
    OUTSIDE.set(n);
    if n % OUTSIDE_FAIR == 0 {
        outside_slow(n);
    }
}
/// Looking at values may wait for another thread.
#[inline(never)]
fn outside_slow(n: u64) {
    if n > OUTSIDE_CAP {
        over_cap(n);
    }
    let me = ME.get();
    if !ACTIVE.load(Relaxed) || me == MAIN || CUR.load(SeqCst) != me {
        return;
    }
    let sc = s();
    sc.step += 1;
    if sc.step + SWITCH_COST * sc.switches.len() as u64 > sc.limit {
        stuck(sc);
    }
    if sc.policy.replay.is_some() {
        if let Some(t) = sc.replay_entry() {
            if t != me && t < sc.state.len() && sc.state[t] == TS::Ready {
                hand_over(me, t);
            }
        } else if sc.step - sc.last_switch > FAIR {
            fair(me);
        }
        return;
    }
    fair(me);
}

#[cold]
fn over_cap(n: u64) -> ! {
    fatal(&format!("hang: an operation has not finished after {} steps", n))
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline]
fn mem(p: usize, store: bool) {
    if !ACTIVE.load(Relaxed) || !IN.get() {
        return;
    }
    let lo = unsafe { &__data_start as *const u8 as usize };
    let hi = unsafe { &_end as *const u8 as usize };
    let hot = (p >= lo && p < hi) || (store && unsafe { p >= SHARED_LO && p < SHARED_HI } && in_shared(p));
    yield_slow(if hot { Y_HOT } else { Y_MEM });
}
fn in_shared(p: usize) -> bool {
    s().shared.iter().any(|r| p >= r.0 && p < r.1)
}

macro_rules! memcb {
    ($($l:ident $s:ident),*) => {$(
        #[no_mangle] pub extern "C" fn $l(p: usize) { mem(p, false) }
        #[no_mangle] pub extern "C" fn $s(p: usize) { mem(p, true) }
    )*};
}
memcb!(
    __sanitizer_cov_load1 __sanitizer_cov_store1, __sanitizer_cov_load2 __sanitizer_cov_store2,
    __sanitizer_cov_load4 __sanitizer_cov_store4, __sanitizer_cov_load8 __sanitizer_cov_store8,
    __sanitizer_cov_load16 __sanitizer_cov_store16
);

/// (edges hit at least once, edges)
pub fn reach() -> (usize, usize) {
    unsafe {
        let n = NGUARDS.min(MAX_GUARDS - 1);
        #[allow(static_mut_refs)]
        let hit = HITS[1..=n].iter().filter(|x| **x != 0).count();
        (hit, n)
    }
}
/// Bitmap of edges hit, as indexes.
pub fn reach_set() -> Vec<u32> {
    unsafe {
        let n = NGUARDS.min(MAX_GUARDS - 1);
        (1..=n).filter(|i| HITS[*i] != 0).map(|i| i as u32).collect()
    }
}

// ---- operating system seams ----------------------------------------------------------------

type CL = std::ffi::c_long;
type SyscallFn = unsafe extern "C" fn(CL, CL, CL, CL, CL, CL, CL) -> CL;
extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    fn __errno_location() -> *mut i32;
}
static REAL: AtomicUsize = AtomicUsize::new(0);

fn simulated() -> bool {
    ACTIVE.load(Relaxed) && IN.get() && ME.get() != MAIN
}

/// Interposed `syscall`: the futex calls of `std` locks, condition variables, `Once` and parking
/// made by code under test block and wake simulated threads instead of real ones.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: CL, a: CL, b: CL, c: CL, d: CL, e: CL, f: CL) -> CL {
    let futex = (cfg!(target_pointer_width = "64") && n == 202) || (!cfg!(target_pointer_width = "64") && (n == 240 || n == 422));
    if futex && !ACTIVE.load(Relaxed) && IN.get() && matches!((b as u32) & 0x7f, 0 | 9) && d == 0 && *(a as *const u32) == c as u32 {
        // one thread alone waits for a lock: nobody will ever release it
        fatal("deadlock: the operation waits for ever");
    }
    if futex && simulated() {
        let op = (b as u32) & 0x7f;
        let me = ME.get();
        match op {
            0 | 9 => {
                let cur = *(a as *const u32);
                if cur != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                let was = IN.replace(false);
                let timed = d != 0;
                let sc = s();
                sc.step += 1;
                if timed {
                    // virtual time: a timed wait may end as soon as nobody else can run
                    let c = sc.ready_others(me);
                    if c.is_empty() {
                        IN.set(was);
                        *__errno_location() = 110;
                        return -1;
                    }
                    let t = sc.choose(me).unwrap_or(me);
                    if t != me {
                        hand_over(me, t);
                    }
                    IN.set(was);
                    *__errno_location() = 110;
                    return -1;
                }
                sc.state[me] = TS::Blocked(a as usize);
                block_current();
                IN.set(was);
                return 0;
            }
            1 | 10 => {
                let sc = s();
                let mut woken = 0;
                for t in 0..sc.state.len() {
                    if woken < c && sc.state[t] == TS::Blocked(a as usize) {
                        sc.state[t] = TS::Ready;
                        woken += 1;
                    }
                }
                yield_slow(Y_YIELD);
                return woken;
            }
            _ => {}
        }
    }
    let mut r = REAL.load(Relaxed);
    if r == 0 {
        r = dlsym(-1isize as *mut u8, b"syscall\0".as_ptr()) as usize;
        REAL.store(r, Relaxed);
    }
    let f_: SyscallFn = std::mem::transmute(r);
    f_(n, a, b, c, d, e, f)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simulated() {
        yield_slow(Y_YIELD);
    }
    0
}

static REAL_NS: AtomicUsize = AtomicUsize::new(0);
/// Sleeping inside code under test takes no real time.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const u8, rem: *mut u8) -> i32 {
    if simulated() {
        yield_slow(Y_YIELD);
        return 0;
    }
    let mut r = REAL_NS.load(Relaxed);
    if r == 0 {
        r = dlsym(-1isize as *mut u8, b"nanosleep\0".as_ptr()) as usize;
        REAL_NS.store(r, Relaxed);
    }
    let f_: unsafe extern "C" fn(*const u8, *mut u8) -> i32 = std::mem::transmute(r);
    f_(req, rem)
}
