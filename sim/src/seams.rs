//! The rest of the outside world: locks, clocks, randomness and sleep, as the standard library
//! reaches them.  The crate under test uses none of them today; code that comes to use them
//! stays under the simulator, and one seed stays one execution.
//!
//! These are the C library's names; the standard library's calls resolve to them because the
//! executable defines them.  Calls by the simulator itself go on to the kernel.
use crate::rt::*;
use crate::sched;
use std::arch::asm;

extern "C" { fn __errno_location() -> *mut i32; }
const EAGAIN: i32 = 11;
const ETIMEDOUT: i32 = 110;

unsafe fn kernel(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn result(r: isize) -> isize { if r < 0 && r > -4096 { *__errno_location() = -r as i32; -1 } else { r } }
fn simulated() -> bool { in_sut() && unsafe { !SHM.is_null() && !SIM.is_null() } }

#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == 202 && simulated() {
        let _o = Out::new();
        match b & 0x7f {
            0 | 9 => {
                if std::ptr::read_volatile(a as *const u32) != c as u32 { return result(-(EAGAIN as isize)); }
                count("lock_waits");
                if d != 0 { sched::yield_now(); return result(-(ETIMEDOUT as isize)); }
                sched::wait_on(a);
                return 0;
            }
            1 | 10 => return sched::wake(a, c) as isize,
            _ => {}
        }
    }
    result(kernel(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if !simulated() { return result(kernel(318, p as usize, n, flags as usize, 0, 0, 0)); }
    let mut i = 0;
    while i < n { *p.add(i) = ch(S::Alloc, 256) as u8; i += 1; }
    count("random_bytes_drawn");
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    if !simulated() { return result(kernel(228, id as usize, t as usize, 0, 0, 0, 0)) as i32; }
    // time passes with the steps of the run; now and then the wall clock jumps
    static mut SKEW: i64 = 0;
    if id == 0 && chance(S::Fault, 1, 8) { SKEW = pick(S::Fault, &[0i64, 3600, -3600, 86400 * 400, -86400 * 400]); }
    *t = [1_700_000_000 + TICKS as i64 / 1_000_000 + if id == 0 { SKEW } else { 0 }, (TICKS % 1_000_000) as i64 * 1000];
    count("clock_reads");
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if simulated() { sched::yield_now(); return 0; }
    result(kernel(24, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, t: usize, rest: usize) -> i32 {
    if simulated() { TICKS += 1000; sched::yield_now(); return 0; }
    -kernel(230, id as usize, flags as usize, t, rest, 0, 0) as i32
}
