//! Simulated allocator: the seam between the code under test and memory.
//!
//! Requests made while the current thread is inside the code under test (`IN`) are served from an
//! arena at a fixed address by a policy the scenario chooses; everything else goes to the system
//! allocator. Faults are decided by the armed `Fault` of the current thread only.

use crate::prng::{mix, Digest};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{HashMap, VecDeque};
use std::hash::{BuildHasherDefault, Hasher};
use std::sync::atomic::{AtomicBool, Ordering::*};

thread_local! {
    /// The current thread is executing code under test.
    pub static IN: Cell<bool> = const { Cell::new(false) };
    /// A panic is unwinding: its own bookkeeping allocations are never failed.
    pub static ALLOW: Cell<bool> = const { Cell::new(false) };
    static FAULT: Cell<Fault> = const { Cell::new(Fault::NONE) };
    /// Allocation attempts by code under test since `arm`.
    static ATTEMPTS: Cell<u64> = const { Cell::new(0) };
    static FIRED: Cell<u64> = const { Cell::new(0) };
}

/// Largest request the simulated machine can serve.
pub const LIMIT: usize = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Fault {
    pub kind: u8,
    pub p: u64,
    pub q: u64,
}
pub mod fk {
    pub const NONE: u8 = 0;
    pub const KTH: u8 = 1; // attempt number p fails
    pub const FROM: u8 = 2; // attempt p and all later ones fail
    pub const SIZE: u8 = 3; // requests of >= p bytes fail
    pub const BUDGET: u8 = 4; // fails when live bytes would exceed p
    pub const PROB: u8 = 5; // each attempt fails with probability p/65536, stream q
}
impl Fault {
    pub const NONE: Fault = Fault { kind: 0, p: 0, q: 0 };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fill {
    Byte(u8),
    Random(u64),
    Stale,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Place {
    /// Red zones around the block; `min_align` makes the address aligned to exactly the requested
    /// alignment and nothing more.
    Red { min_align: bool },
    /// The block ends (or starts) at an unmapped page.
    Guard { at_end: bool },
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Plan {
    pub fill: Fill,
    pub place: Place,
    /// Freed blocks are handed out again at once (LIFO); otherwise never within a scenario.
    pub reuse: bool,
    /// Growing and shrinking always moves; otherwise in place when it fits.
    pub moving: bool,
    pub redzone: u8,
}
impl Plan {
    pub const DEFAULT: Plan = Plan {
        fill: Fill::Byte(0xa5),
        place: Place::Red { min_align: true },
        reuse: false,
        moving: true,
        redzone: 0xf1,
    };
    /// Plans numbered 0.., with the number recorded in scenarios.
    pub fn numbered(n: u64) -> Plan {
        let r = mix(n ^ 0xa110c);
        let fill = match n % 6 {
            0 => Fill::Byte(0xff),
            1 => Fill::Byte(0x00),
            2 => Fill::Random(r | 1),
            3 => Fill::Stale,
            4 => Fill::Byte((r >> 8) as u8),
            _ => Fill::Random(r | 1),
        };
        let place = match (n / 6) % 4 {
            0 | 1 => Place::Red { min_align: true },
            2 => Place::Red { min_align: false },
            _ => Place::Guard { at_end: (r >> 20) & 3 != 0 },
        };
        Plan {
            fill,
            place,
            reuse: n % 6 == 3 || (r >> 30) & 1 == 1,
            moving: (r >> 31) & 3 != 0,
            redzone: [0xff, 0x00, 0xf1, 0x5a][((r >> 40) & 3) as usize],
        }
    }
}

#[derive(Clone, Copy)]
struct Meta {
    slot: usize,
    slot_size: usize,
    size: usize,
    align: usize,
    seq: u64,
}

#[derive(Default)]
pub struct PtrHash(u64);
impl Hasher for PtrHash {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = mix(self.0 ^ *x as u64);
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = mix(x as u64);
    }
}
type Map<V> = HashMap<usize, V, BuildHasherDefault<PtrHash>>;

pub struct State {
    base: usize,
    end: usize,
    bump: usize,
    high: usize,
    plan: Plan,
    live: Option<Map<Meta>>,
    free: Option<Map<Vec<usize>>>,
    dead: Option<VecDeque<(usize, usize, usize)>>,
    seq: u64,
    pub live_bytes: usize,
    pub peak_bytes: usize,
    pub total_allocs: u64,
    pub total_frees: u64,
    pub errors: Vec<String>,
    pub digest: Digest,
}

static LOCK: AtomicBool = AtomicBool::new(false);
static mut ST: State = State {
    base: 0,
    end: 0,
    bump: 0,
    high: 0,
    plan: Plan::DEFAULT,
    live: None,
    free: None,
    dead: None,
    seq: 0,
    live_bytes: 0,
    peak_bytes: 0,
    total_allocs: 0,
    total_frees: 0,
    errors: Vec::new(),
    digest: Digest::new(),
};
#[cfg(target_pointer_width = "64")]
const BASE: usize = 0x2000_0000_0000;
#[cfg(target_pointer_width = "64")]
const SIZE: usize = 16 << 30;
#[cfg(not(target_pointer_width = "64"))]
const BASE: usize = 0x2000_0000;
#[cfg(not(target_pointer_width = "64"))]
const SIZE: usize = 768 << 20;
const PAGE: usize = 4096;
const RED: usize = 32;
const DEAD: u8 = 0xdd;

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, len: usize, advice: i32) -> i32;
    pub fn _exit(code: i32) -> !;
    fn write(fd: i32, b: *const std::ffi::c_void, n: usize) -> isize;
}

fn lock() {
    while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Release);
}
/// Runs with the table locked and allocations of the table itself going to the system.
fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let was = IN.replace(false);
    lock();
    #[allow(static_mut_refs)]
    let r = f(unsafe { &mut ST });
    unlock();
    IN.set(was);
    r
}

pub fn say(s: &str) {
    unsafe {
        write(2, s.as_ptr().cast(), s.len());
    }
}
/// Ends the process with a message that the driver reads as a violation.
pub fn fatal(s: &str) -> ! {
    let was = IN.replace(false);
    crate::sched::say_switches();
    let m = format!("\nSIM-FATAL {}\n", s);
    say(&m);
    IN.set(was);
    unsafe { _exit(97) }
}

fn init(st: &mut State) {
    if st.base != 0 {
        return;
    }
    // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
    let p = unsafe { mmap(BASE as *mut u8, SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    if p as usize != BASE {
        drop_lock_and_die("cannot reserve the arena");
    }
    st.base = BASE;
    st.end = BASE + SIZE;
    st.bump = BASE;
    st.high = BASE;
    st.live = Some(Map::default());
    st.free = Some(Map::default());
    st.dead = Some(VecDeque::new());
}
fn drop_lock_and_die(s: &str) -> ! {
    say(s);
    unsafe { _exit(98) }
}

/// Start of a scenario: empty arena, given policy.
pub fn reset(plan: Plan) {
    with(|st| {
        init(st);
        let used = st.high - st.base;
        if used > 0 {
            let len = (used + PAGE) & !(PAGE - 1);
            let len = len.min(SIZE);
            unsafe {
                mprotect(st.base as *mut u8, len, 3);
                madvise(st.base as *mut u8, len, 4);
            }
        }
        st.bump = st.base;
        st.high = st.base;
        st.plan = plan;
        st.live.as_mut().unwrap().clear();
        st.free.as_mut().unwrap().clear();
        st.dead.as_mut().unwrap().clear();
        st.seq = 0;
        st.live_bytes = 0;
        st.peak_bytes = 0;
        st.errors.clear();
        st.digest = Digest::new();
    })
}
pub fn set_plan(plan: Plan) {
    with(|st| {
        init(st);
        st.plan = plan
    })
}

pub fn arm(f: Fault) {
    FAULT.set(f);
    ATTEMPTS.set(0);
    FIRED.set(0);
}
/// (attempts, fired)
pub fn disarm() -> (u64, u64) {
    FAULT.set(Fault::NONE);
    (ATTEMPTS.get(), FIRED.get())
}
/// Runs `f` outside the fault plan: its allocations neither fail nor count.
pub fn calm<T>(f: impl FnOnce() -> T) -> T {
    let (fault, n) = (FAULT.replace(Fault::NONE), ATTEMPTS.get());
    let r = f();
    FAULT.set(fault);
    ATTEMPTS.set(n);
    r
}
pub fn live() -> (usize, usize) {
    with(|st| (st.live.as_ref().map_or(0, |m| m.len()), st.live_bytes))
}
pub fn peak_reset() {
    with(|st| st.peak_bytes = st.live_bytes)
}
pub fn peak() -> usize {
    with(|st| st.peak_bytes)
}
pub fn totals() -> (u64, u64) {
    with(|st| (st.total_allocs, st.total_frees))
}
/// Sizes of all live blocks, descending.
pub fn live_sizes() -> Vec<usize> {
    with(|st| {
        let mut v: Vec<usize> = st.live.as_ref().unwrap().values().map(|m| m.size).collect();
        v.sort_unstable_by(|a, b| b.cmp(a));
        v
    })
}
/// Blocks allocated since sequence number `since`, still live: (seq, size).
pub fn live_since(since: u64) -> Vec<(u64, usize)> {
    with(|st| {
        let mut v: Vec<(u64, usize)> = st
            .live
            .as_ref()
            .unwrap()
            .values()
            .filter(|m| m.seq >= since)
            .map(|m| (m.seq, m.size))
            .collect();
        v.sort_unstable();
        v
    })
}
pub fn seq() -> u64 {
    with(|st| st.seq)
}
pub fn digest() -> u64 {
    with(|st| st.digest.0)
}
pub fn take_errors() -> Vec<String> {
    with(|st| std::mem::take(&mut st.errors))
}
pub fn is_arena(p: usize) -> bool {
    (BASE..BASE + SIZE).contains(&p)
}
/// Address ranges of all live blocks.
pub fn live_ranges() -> Vec<(usize, usize)> {
    with(|st| {
        let mut v: Vec<_> = st.live.as_ref().unwrap().iter().map(|(p, m)| (*p, *p + m.size)).collect();
        v.sort_unstable();
        v
    })
}

fn check_red(st: &mut State, p: usize, m: &Meta) {
    let red = st.plan.redzone;
    let mut bad: Option<isize> = None;
    unsafe {
        let (lo, hi) = red_bounds(st, p, m);
        for a in lo..p {
            if *(a as *const u8) != red {
                bad = Some(a as isize - p as isize);
            }
        }
        if bad.is_none() {
            for a in p + m.size..hi {
                if *(a as *const u8) != red {
                    bad = Some(a as isize - p as isize);
                    break;
                }
            }
        }
    }
    if let Some(off) = bad {
        st.errors.push(format!(
            "wrote outside a block: offset {} of a block of {} bytes",
            off, m.size
        ));
    }
}
fn red_bounds(st: &State, p: usize, m: &Meta) -> (usize, usize) {
    match st.plan.place {
        Place::Red { .. } => (m.slot, m.slot + m.slot_size),
        Place::Guard { at_end: true } => (m.slot.max(p.saturating_sub(256)), m.slot + m.slot_size - PAGE),
        Place::Guard { at_end: false } => {
            (p, (m.slot + m.slot_size).min(p + m.size + 256))
        }
    }
}

/// Final sweep: red zones of live blocks, contents of freed blocks.
pub fn sweep() {
    with(|st| {
        let mut v: Vec<(usize, Meta)> = st.live.as_ref().unwrap().iter().map(|(a, b)| (*a, *b)).collect();
        v.sort_unstable_by_key(|x| x.1.seq);
        for (p, m) in v {
            check_red(st, p, &m);
        }
        if st.plan.reuse || st.plan.fill == Fill::Stale || matches!(st.plan.place, Place::Guard { .. }) {
            return;
        }
        let dead: Vec<_> = st.dead.as_ref().unwrap().iter().copied().collect();
        for (p, size, _) in dead {
            for a in p..p + size {
                if unsafe { *(a as *const u8) } != DEAD {
                    st.errors.push(format!("wrote to a released block of {} bytes at offset {}", size, a - p));
                    break;
                }
            }
        }
    })
}

unsafe fn sim_alloc(st: &mut State, layout: Layout, zeroed: bool) -> *mut u8 {
    init(st);
    let size = layout.size();
    let align = layout.align();
    let (slot, slot_size, p);
    match st.plan.place {
        Place::Red { min_align } => {
            let want = RED + 2 * align + size + RED;
            slot_size = (want + 63) & !63;
            let recycled =
                if st.plan.reuse { st.free.as_mut().unwrap().get_mut(&slot_size).and_then(|v| v.pop()) } else { None };
            slot = match recycled {
                Some(s) => s,
                None => {
                    let s = (st.bump + 63) & !63;
                    if s + slot_size + PAGE > st.end {
                        return std::ptr::null_mut();
                    }
                    st.bump = s + slot_size;
                    s
                }
            };
            let mut q = (slot + RED + align - 1) & !(align - 1);
            if min_align && q % (2 * align) == 0 {
                q += align;
            }
            p = q;
        }
        Place::Guard { at_end } => {
            let body = (size + align + PAGE - 1) & !(PAGE - 1);
            slot_size = body + PAGE;
            let s = (st.bump + PAGE - 1) & !(PAGE - 1);
            if s + slot_size + PAGE > st.end {
                return std::ptr::null_mut();
            }
            st.bump = s + slot_size;
            slot = s;
            if at_end {
                p = (s + body - size) & !(align - 1);
                mprotect((s + body) as *mut u8, PAGE, 0);
            } else {
                p = s + PAGE;
                mprotect(s as *mut u8, PAGE, 0);
            }
        }
    }
    st.high = st.high.max(st.bump);
    st.seq += 1;
    let m = Meta { slot, slot_size, size, align, seq: st.seq };
    let red = st.plan.redzone;
    let (lo, hi) = red_bounds(st, p, &m);
    std::ptr::write_bytes(lo as *mut u8, red, p - lo);
    std::ptr::write_bytes((p + size) as *mut u8, red, hi - (p + size));
    if zeroed {
        std::ptr::write_bytes(p as *mut u8, 0, size);
    } else {
        match st.plan.fill {
            Fill::Byte(b) => std::ptr::write_bytes(p as *mut u8, b, size),
            Fill::Random(r) => {
                let mut z = mix(r ^ st.seq);
                for a in 0..size {
                    if a % 8 == 0 {
                        z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    }
                    *((p + a) as *mut u8) = (z >> (8 * (a % 8))) as u8;
                }
            }
            Fill::Stale => {}
        }
    }
    st.live.as_mut().unwrap().insert(p, m);
    st.live_bytes += size;
    st.peak_bytes = st.peak_bytes.max(st.live_bytes);
    st.total_allocs += 1;
    st.digest.add(size as u64);
    st.digest.add(p as u64);
    p as *mut u8
}

unsafe fn sim_dealloc(st: &mut State, p: usize, layout: Layout) {
    st.digest.add(p as u64 ^ 0x5555);
    let m = match st.live.as_mut().unwrap().remove(&p) {
        Some(m) => m,
        None => {
            st.errors.push(format!("released a block that is not allocated (twice, or a wrong address), {} bytes", layout.size()));
            return;
        }
    };
    if m.size != layout.size() || m.align != layout.align() {
        st.errors.push(format!(
            "released with size {} align {}, allocated with size {} align {}",
            layout.size(),
            layout.align(),
            m.size,
            m.align
        ));
    }
    check_red(st, p, &m);
    st.live_bytes -= m.size;
    st.total_frees += 1;
    match st.plan.place {
        Place::Red { .. } => {
            if st.plan.fill != Fill::Stale {
                std::ptr::write_bytes(p as *mut u8, DEAD, m.size);
            }
            if st.plan.reuse {
                st.free.as_mut().unwrap().entry(m.slot_size).or_default().push(m.slot);
            } else {
                st.dead.as_mut().unwrap().push_back((p, m.size, m.slot_size));
            }
        }
        Place::Guard { .. } => {
            mprotect(m.slot as *mut u8, m.slot_size, 0);
        }
    }
}

/// Decides whether this attempt fails.
fn fault_fires(size: usize) -> bool {
    let n = ATTEMPTS.get();
    ATTEMPTS.set(n + 1);
    if size > LIMIT {
        return true;
    }
    let f = FAULT.get();
    if f.kind == fk::NONE || ALLOW.get() {
        return false;
    }
    let fire = match f.kind {
        fk::KTH => n == f.p,
        fk::FROM => n >= f.p,
        fk::SIZE => size as u64 >= f.p,
        fk::BUDGET => with(|st| (st.live_bytes + size) as u64 > f.p),
        fk::PROB => (mix(f.q ^ n.wrapping_mul(0x9e3779b9)) & 0xffff) < f.p,
        _ => false,
    };
    // the runtime's own allocation of a panic message: an abort there is not the library's doing
    if fire && std::thread::panicking() {
        return false;
    }
    if fire {
        FIRED.set(FIRED.get() + 1);
    }
    fire
}

pub struct SimAlloc;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !IN.get() {
            return System.alloc(l);
        }
        crate::sched::yield_point(crate::sched::Y_ALLOC);
        if fault_fires(l.size()) {
            return std::ptr::null_mut();
        }
        with(|st| sim_alloc(st, l, false))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !IN.get() {
            return System.alloc_zeroed(l);
        }
        crate::sched::yield_point(crate::sched::Y_ALLOC);
        if fault_fires(l.size()) {
            return std::ptr::null_mut();
        }
        with(|st| sim_alloc(st, l, true))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !is_arena(p as usize) {
            if IN.get() && !ALLOW.get() {
                // A block the harness allocated is released by code under test (for example a
                // caller-supplied object dropped inside): legitimate.
            }
            return System.dealloc(p, l);
        }
        if IN.get() {
            crate::sched::yield_point(crate::sched::Y_FREE);
        }
        with(|st| sim_dealloc(st, p as usize, l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        if !is_arena(p as usize) {
            return System.realloc(p, l, new_size);
        }
        let in_sut = IN.get();
        if in_sut {
            crate::sched::yield_point(crate::sched::Y_ALLOC);
            if fault_fires(new_size) {
                return std::ptr::null_mut();
            }
        }
        crate::copy::add(l.size().min(new_size));
        with(|st| {
            if !st.plan.moving {
                if let Place::Red { .. } = st.plan.place {
                    let m = st.live.as_ref().unwrap().get(&(p as usize)).copied();
                    if let Some(m) = m {
                        if m.size == l.size()
                            && m.align == l.align()
                            && p as usize + new_size + RED <= m.slot + m.slot_size
                        {
                            check_red(st, p as usize, &m);
                            let red = st.plan.redzone;
                            if new_size > m.size {
                                let b = match st.plan.fill {
                                    Fill::Byte(b) => Some(b),
                                    Fill::Random(r) => Some(r as u8),
                                    Fill::Stale => None,
                                };
                                if let Some(b) = b {
                                    std::ptr::write_bytes(p.add(m.size), b, new_size - m.size);
                                }
                            } else {
                                std::ptr::write_bytes(p.add(new_size), red, m.size - new_size);
                            }
                            st.live_bytes = st.live_bytes - m.size + new_size;
                            st.peak_bytes = st.peak_bytes.max(st.live_bytes);
                            st.total_allocs += 1;
                            st.total_frees += 1;
                            st.live.as_mut().unwrap().get_mut(&(p as usize)).unwrap().size = new_size;
                            return p;
                        }
                    }
                }
            }
            let n = sim_alloc(st, Layout::from_size_align_unchecked(new_size, l.align()), false);
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(p, n, l.size().min(new_size));
                sim_dealloc(st, p as usize, l);
            }
            n
        })
    }
}

/// Runs harness code called from inside code under test (callbacks).
pub struct Harness(bool);
impl Harness {
    pub fn new() -> Harness {
        Harness(IN.replace(false))
    }
}
impl Default for Harness {
    fn default() -> Self {
        Harness::new()
    }
}
impl Drop for Harness {
    fn drop(&mut self) {
        IN.set(self.0);
    }
}
