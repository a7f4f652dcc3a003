#![allow(unexpected_cfgs)]
#![feature(alloc_error_hook)]
//! Simulator runtime: allocator, scheduler, caller-supplied objects. Not instrumented.
pub mod alloc;
pub mod copy;
pub mod io;
pub mod prng;
pub mod sched;

use std::cell::{Cell, RefCell};

#[global_allocator]
static GLOBAL: alloc::SimAlloc = alloc::SimAlloc;

/// Payload of a panic raised because a simulated allocation failed through the allocation error
/// handler (the no_std default: a panic that unwinds).
pub struct OomPanic(pub usize);
/// Payload of a panic injected by caller-supplied simulated code.
pub struct CallerPanic(pub u64);

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    static PANICS: Cell<u64> = const { Cell::new(0) };
}

pub fn install_hooks() {
    std::alloc::set_alloc_error_hook(|l| {
        alloc::ALLOW.set(true);
        std::panic::panic_any(OomPanic(l.size()));
    });
    std::panic::set_hook(Box::new(|info| {
        let _h = alloc::Harness::new();
        alloc::ALLOW.set(true);
        PANICS.set(PANICS.get() + 1);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<OomPanic>() {
            "allocation failed".to_string()
        } else if info.payload().is::<CallerPanic>() {
            "caller code panicked".to_string()
        } else {
            info.payload_as_str().unwrap_or("?").to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("SIM_SHOW_PANICS").is_some() {
            alloc::say(&format!("panic: {} at {}\n", msg, loc));
        }
        LAST.with(|x| {
            if let Ok(mut x) = x.try_borrow_mut() {
                *x = format!("{} ({})", msg, loc);
            }
        });
        if NEST_HOOK.replace(false) {
            // the caller's panic hook, too, uses the library (not the operands: they may be in use)
            let (stride, seed, n, k) = NEST.replace((0, 0, 0, 0));
            alloc::IN.set(true);
            alloc::calm(|| (NESTED.get().unwrap())(prng::mix(seed ^ 0x9a1c) & !(1 << 40)));
            alloc::IN.set(false);
            NEST.set((stride, seed, n, k + 1));
        }
    }));
}

#[derive(Clone, Debug, PartialEq)]
pub enum PanicKind {
    /// allocation failure
    Oom,
    /// injected by caller-supplied code
    Caller,
    /// any other panic, with its message
    Other(String),
}

/// Runs `f` as code under test. The panic, if any, is classified.
pub fn in_sut<R>(f: impl FnOnce() -> R) -> Result<R, PanicKind> {
    alloc::IN.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    alloc::IN.set(false);
    match r {
        Ok(r) => Ok(r),
        Err(p) => {
            alloc::ALLOW.set(false);
            let last = LAST.with(|x| x.borrow().clone());
            let k = if p.is::<OomPanic>() {
                PanicKind::Oom
            } else if p.is::<CallerPanic>() {
                PanicKind::Caller
            } else if last.starts_with("out of memory") {
                PanicKind::Oom
            } else {
                PanicKind::Other(last)
            };
            drop(p);
            Err(k)
        }
    }
}

thread_local! {
    /// (every how many calls, seed, calls so far, operations run)
    static NEST: Cell<(u64, u64, u64, u64)> = const { Cell::new((0, 0, 0, 0)) };
    /// so does the caller's panic hook
    static NEST_HOOK: Cell<bool> = const { Cell::new(false) };
}
static NESTED: std::sync::OnceLock<fn(u64)> = std::sync::OnceLock::new();
/// Registers what the caller's code does with the library in the middle of an operation.
pub fn set_nested(f: fn(u64)) {
    let _ = NESTED.set(f);
}
/// From now on the caller's code uses the library itself at every `stride`-th call.
pub fn nest_arm(stride: u64, seed: u64) {
    NEST.set((stride, seed, 0, 0));
    NEST_HOOK.set(seed & 1 == 1);
}
/// Operations run inside callers' code.
pub fn nest_disarm() -> u64 {
    NEST_HOOK.set(false);
    NEST.replace((0, 0, 0, 0)).3
}
pub(crate) fn nest() {
    let (stride, seed, n, k) = NEST.get();
    if stride == 0 || !alloc::IN.get() || std::thread::panicking() {
        return;
    }
    let n = n + 1;
    if n % stride != 0 || k >= 6 {
        NEST.set((stride, seed, n, k));
        return;
    }
    NEST.set((0, 0, 0, 0));
    alloc::calm(|| (NESTED.get().unwrap())(prng::mix(seed ^ n)));
    NEST.set((stride, seed, n, k + 1));
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, ...) -> i32;
}

/// Forks. `None` in the child; in the parent, the status the child ended with.
pub fn in_child() -> Option<i32> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe {
        let pid = fork();
        if pid == 0 {
            // dies with its parent
            prctl(1, 9usize, 0usize, 0usize, 0usize);
            return None;
        }
        assert!(pid > 0, "cannot fork");
        let mut st = 0;
        while waitpid(pid, &mut st, 0) != pid {}
        if st & 0x7f == 0 {
            return Some(st >> 8 & 0xff);
        }
        alloc::say(&format!("\nSIM-FATAL process ended by signal {}\n", st & 0x7f));
        Some(97)
    }
}
