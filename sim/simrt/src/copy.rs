//! Copying memory is work, too: the process's `memcpy` and relatives, which count what the code
//! under test moves.
use crate::alloc::IN;
use std::arch::asm;
use std::cell::Cell;

thread_local! {
    static MOVED: Cell<u64> = const { Cell::new(0) };
}
pub fn reset() {
    MOVED.set(0);
}
/// Bytes moved by the code under test on this thread since the last reset.
pub fn moved() -> u64 {
    MOVED.get()
}
#[inline]
pub(crate) fn add(n: usize) {
    if IN.get() {
        MOVED.set(MOVED.get().wrapping_add(n as u64));
    }
}

#[inline(always)]
unsafe fn up(d: *mut u8, s: *const u8, n: usize) {
    #[cfg(target_arch = "x86_64")]
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
    #[cfg(target_arch = "x86")]
    asm!("xchg esi, {s}", "rep movsb", "mov esi, {s}", s = inout(reg) s => _, inout("ecx") n => _, inout("edi") d => _, options(nostack, preserves_flags));
}
#[inline(always)]
unsafe fn down(d: *mut u8, s: *const u8, n: usize) {
    let (d, s) = (d.wrapping_add(n).wrapping_sub(1), s.wrapping_add(n).wrapping_sub(1));
    #[cfg(target_arch = "x86_64")]
    asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack));
    #[cfg(target_arch = "x86")]
    asm!("xchg esi, {s}", "std", "rep movsb", "cld", "mov esi, {s}", s = inout(reg) s => _, inout("ecx") n => _, inout("edi") d => _, options(nostack));
}
#[inline(always)]
unsafe fn set(d: *mut u8, c: i32, n: usize) {
    #[cfg(target_arch = "x86_64")]
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
    #[cfg(target_arch = "x86")]
    asm!("rep stosb", inout("ecx") n => _, inout("edi") d => _, in("al") c as u8, options(nostack, preserves_flags));
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    add(n);
    up(d, s, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    add(n);
    if (d as usize).wrapping_sub(s as usize) >= n {
        up(d, s, n);
    } else {
        down(d, s, n);
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    add(n);
    set(d, c, n);
    d
}
