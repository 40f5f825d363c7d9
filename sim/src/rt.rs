//! The simulator's run time: the choice streams that decide everything, the simulated
//! allocator, the scheduler, and the call-backs compiled into the code under test.
//!
//! Exactly one thread runs at any moment (see `sched`), so the global state is plain data.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::os::raw::{c_int, c_long, c_void};

extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: c_long) -> *mut c_void;
    pub fn fork() -> c_int;
    pub fn waitpid(p: c_int, st: *mut c_int, o: c_int) -> c_int;
    pub fn kill(p: c_int, s: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn usleep(u: u32) -> c_int;
    pub fn personality(p: u64) -> c_int;
    pub fn prctl(o: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn write(fd: c_int, b: *const u8, n: usize) -> isize;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
}

// ---------------------------------------------------------------- shared memory

pub const NS: usize = 5;
/// The choice streams: what the clients do, the data they use, the faults, who runs next,
/// and what the allocator does.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(usize)]
pub enum S { Ops = 0, Data = 1, Fault = 2, Sched = 3, Alloc = 4 }
pub const SNAMES: [&str; NS] = ["OPS", "DATA", "FAULT", "SCHED", "ALLOC"];
pub const CAP: usize = 1 << 18;

#[repr(C)]
pub struct Shm {
    pub heartbeat: u64,
    pub status: u32, // 0 idle, 1 run in progress, 2 tick limit reached, 3 finished
    pub pad: u32,
    pub run_index: u64,
    pub run_seed: u64,
    pub ticks: u64,
    pub lens: [u32; NS],
    pub has_viol: u32,
    pub viol_len: u32,
    pub class_len: u32,
    pub class: [u8; 256],
    pub viol: [u8; 8192],
    pub trace_hash: u64,
    pub where_len: u32,
    pub where_: [u8; 128],
    pub data: [[u32; CAP]; NS],
}

pub static mut SHM: *mut Shm = std::ptr::null_mut();
pub fn shm() -> &'static mut Shm { unsafe { &mut *SHM } }

/// Maps the block shared with the parent process (or a private one).
pub fn map_shm(path: Option<&str>) {
    use std::os::unix::io::AsRawFd;
    let len = std::mem::size_of::<Shm>();
    unsafe {
        let p = match path {
            Some(p) => {
                let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("shm file");
                f.set_len(len as u64).expect("shm size");
                let m = mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0);
                m
            }
            None => mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0),
        };
        assert!(p as isize != -1, "mmap");
        SHM = p as *mut Shm;
    }
}

// ---------------------------------------------------------------- PRNG and choices

#[derive(Clone, Copy, Default)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 } }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93)); r.next() ^ b.rotate_left(17) }

#[derive(Clone, Copy, PartialEq)]
pub enum Tail { Prng, Zero }

pub struct Sim {
    pub rng: [Rng; NS],
    pub pos: [usize; NS],
    /// choices to follow first (replay or mutation); after their end: PRNG or zero
    pub script: [Vec<u32>; NS],
    pub tail: Tail,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub events: u64,
    pub violation: Option<(String, String)>,
    pub counts: BTreeMap<&'static str, u64>,
    pub obs: u64,
    pub mem: bool,
    /// where the text lies that is being parsed, with what is around it
    pub text: (usize, usize),
    /// this check decides memory safety (C12): only `memory:` classes count
    pub memory_prop: bool,
    /// Memory and everything else are what the check decides.
    pub both: bool,
    pub soft: bool,
    /// choices are written to the shared log
    pub recording: bool,
    /// the trace is printed as it grows (replay of a run that does not return)
    pub live_trace: bool,
    /// how many bytes of long strings and long keys the run may still use
    pub room: u64,
    /// ALLOC choices are pseudo-random whatever the script says
    pub alloc_prng: bool,
}
impl Sim { fn trace_line(&mut self, s: String) { if self.live_trace { println!("{}", s); } self.trace.push(s); } }
pub static mut SIM: *mut Sim = std::ptr::null_mut();
#[inline]
pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }
pub fn init_sim() {
    let s = Box::new(Sim {
        rng: [Rng(0); NS], pos: [0; NS], script: Default::default(), tail: Tail::Zero, tracing: false, trace: vec![],
        hash: 0, events: 0, violation: None, counts: BTreeMap::new(), obs: 0, mem: false, memory_prop: false, text: (0, 0), both: false, soft: false, recording: true, alloc_prng: false, room: 0, live_trace: false,
    });
    unsafe { SIM = Box::into_raw(s); }
}

#[inline]
fn record(i: usize, p: usize, v: u32) {
    let h = shm();
    h.heartbeat += 1;
    if sim().recording { h.data[i][p] = v; h.lens[i] = (p + 1) as u32; }
}
/// A choice in 0..n; 0 is always the simplest.
pub fn ch(s: S, n: u32) -> u32 {
    if n <= 1 { return 0; }
    let _o = Out::new();
    let m = sim();
    let i = s as usize;
    let p = m.pos[i];
    if p >= CAP { return 0; }
    let v = if p < m.script[i].len() { let v = m.script[i][p]; if v < n { v } else { v % n } }
            else if m.tail == Tail::Prng || (m.alloc_prng && i == S::Alloc as usize) { m.rng[i].below(n as u64) as u32 }
            else { 0 };
    m.pos[i] = p + 1;
    record(i, p, v);
    v
}
/// True with probability num/den; logged as 0/1 so that 0 means "does not happen".
pub fn chance(s: S, num: u32, den: u32) -> bool {
    let _o = Out::new();
    let m = sim();
    let i = s as usize;
    let p = m.pos[i];
    if p >= CAP { return false; }
    let v = if p < m.script[i].len() { (m.script[i][p] != 0) as u32 }
            else if m.tail == Tail::Prng || (m.alloc_prng && i == S::Alloc as usize) { (m.rng[i].below(den as u64) < num as u64) as u32 }
            else { 0 };
    m.pos[i] = p + 1;
    record(i, p, v);
    v == 1
}
/// Index chosen with the given weights.
pub fn weighted(s: S, w: &[u32]) -> usize {
    let _o = Out::new();
    let m = sim();
    let i = s as usize;
    let p = m.pos[i];
    if p >= CAP { return 0; }
    let v = if p < m.script[i].len() { m.script[i][p] % w.len() as u32 }
            else if m.tail == Tail::Prng || (m.alloc_prng && i == S::Alloc as usize) {
                let t: u64 = w.iter().map(|x| *x as u64).sum();
                let mut r = m.rng[i].below(t);
                let mut k = 0;
                while r >= w[k] as u64 { r -= w[k] as u64; k += 1; }
                k as u32
            } else { 0 };
    m.pos[i] = p + 1;
    record(i, p, v);
    v as usize
}
/// May the run use a string of `n` bytes (again)?  Short ones are free.
pub fn room(n: usize) -> bool {
    if n < 2000 { return true; }
    let m = sim();
    if m.room < n as u64 { return false; }
    m.room -= n as u64;
    true
}
pub fn range(s: S, lo: u32, hi: u32) -> u32 { lo + ch(s, hi - lo + 1) }
pub fn pick<T: Copy>(s: S, xs: &[T]) -> T { xs[ch(s, xs.len() as u32) as usize] }
pub fn bits64(s: S) -> u64 { ((ch(s, 1 << 31) as u64) << 33) ^ ((ch(s, 1 << 31) as u64) << 12) ^ ch(s, 1 << 12) as u64 }

// ---------------------------------------------------------------- events and violations

fn fold(h: u64, x: u64) -> u64 { (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ (x >> 31) }
/// Records an event of the run: always in the run's hash, as text only while replaying.
pub fn ev(code: &'static str, a: u64, b: u64) {
    let _o = Out::new();
    let m = sim();
    m.events += 1;
    let mut h = m.hash;
    for c in code.bytes() { h = fold(h, c as u64); }
    m.hash = fold(fold(h, a), b);
    if m.tracing && m.trace.len() < 20000 {
        let t = unsafe { TICKS };
        m.trace_line(format!("t={} {} {} {}", t, code, a, b));
    }
}
/// Text for a replayed run only.
pub fn note(f: impl FnOnce() -> String) {
    let _o = Out::new();
    let m = sim();
    if m.tracing && m.trace.len() < 20000 {
        let mut s = f();
        if s.len() > 600 { let mut e = 600; while !s.is_char_boundary(e) { e -= 1; } s.truncate(e); s.push_str("..."); }
        let t = unsafe { TICKS };
        m.trace_line(format!("t={} {}", t, s));
    }
}
/// Folds something the code under test returned into the run's observation hash.
pub fn obs_bytes(b: &[u8]) {
    let m = sim();
    let mut h = fold(m.obs, b.len() as u64);
    for c in b.chunks(8) { let mut x = 0u64; for y in c { x = x << 8 | *y as u64; } h = fold(h, x); }
    m.obs = h;
}
pub fn count(name: &'static str) { let _o = Out::new(); *sim().counts.entry(name).or_insert(0) += 1; }
pub fn count_n(name: &'static str, n: u64) { let _o = Out::new(); *sim().counts.entry(name).or_insert(0) += n; }

/// Reports a violation; the first of a run counts.
pub fn viol(class: &str, detail: String) {
    let _o = Out::new();
    let m = sim();
    note(|| format!("VIOLATION {}: {}", class, detail));
    let memory = class.starts_with("memory:");
    if !m.both && m.memory_prop != memory {
        // not what this check decides: the run stops at its next look, without an alarm
        // (the check of memory safety compares where runs stop under different allocators)
        if !memory { m.soft = true; m.obs = fold(m.obs, 0xbad); }
        return;
    }
    if m.violation.is_none() { m.violation = Some((class.to_string(), detail)); }
}
pub fn failed() -> bool { sim().violation.is_some() || sim().soft }

/// Marks where the run is, for the report of a crash or hang.
pub fn at(s: &'static str) {
    let h = shm();
    let n = s.len().min(128);
    h.where_[..n].copy_from_slice(&s.as_bytes()[..n]);
    h.where_len = n as u32;
}

// ---------------------------------------------------------------- inside / outside the code under test

thread_local! {
    static IN_SUT: Cell<u32> = const { Cell::new(0) };
    pub static MYID: Cell<usize> = const { Cell::new(0) };
}
#[inline] pub fn in_sut() -> bool { IN_SUT.with(|c| c.get() != 0) }

/// While alive, the current thread is outside the code under test (harness code).
pub struct Out(u32);
impl Out {
    #[inline] pub fn new() -> Out { IN_SUT.with(|c| { let v = c.get(); c.set(0); Out(v) }) }
}
impl Drop for Out { #[inline] fn drop(&mut self) { IN_SUT.with(|c| c.set(self.0)); } }
/// While alive, the current thread is inside the code under test.
pub struct In(u32);
impl In { #[inline] pub fn new() -> In { IN_SUT.with(|c| { let v = c.get(); c.set(v + 1); In(v) }) } }
impl Drop for In { #[inline] fn drop(&mut self) { IN_SUT.with(|c| c.set(self.0)); } }

pub fn reset_in() { IN_SUT.with(|c| c.set(0)); }
/// Runs harness code from inside a call-back of the code under test.
pub fn harness<T>(f: impl FnOnce() -> T) -> T { let _o = Out::new(); f() }
/// Allocates with the simulated allocator without being "in" the code under test's control flow.
pub fn in_arena<T>(f: impl FnOnce() -> T) -> T { let _i = In::new(); f() }

/// A panic injected by the simulator into caller-supplied code.
pub struct Injected(pub u64);

#[derive(Debug, Clone)]
pub struct Panic { pub injected: Option<u64>, pub msg: String }

pub static mut LAST_PANIC: Option<(String, bool)> = None;
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was_in = in_sut();
        let _o = Out::new();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                  else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe { LAST_PANIC = Some((format!("{}{}", msg, loc), was_in)); }
        if std::env::var_os("JSONSIM_PANICS").is_some() { eprintln!("panic: {}{} (in sut: {})", msg, loc, was_in); }
    }));
}

/// Calls into the code under test.
pub fn sut<T>(name: &'static str, f: impl FnOnce() -> T) -> Result<T, Panic> {
    at(name);
    let before = IN_SUT.with(|c| c.get());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _i = In::new(); f() }));
    IN_SUT.with(|c| c.set(before));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            unwound();
            let _o = Out::new();
            if let Some(i) = p.downcast_ref::<Injected>() { let i = i.0; drop(p); return Err(Panic { injected: Some(i), msg: "injected".into() }); }
            let msg = unsafe { (*(&raw mut LAST_PANIC)).take() }.map(|x| x.0).unwrap_or_else(|| "panic without message".into());
            drop(p);
            Err(Panic { injected: None, msg })
        }
    }
}
/// As `sut`, but a panic is a violation.
pub fn call<T>(name: &'static str, f: impl FnOnce() -> T) -> Option<T> {
    match sut(name, f) {
        Ok(v) => Some(v),
        Err(p) => { viol(&format!("panic:{}", name), format!("{} panicked: {}", name, p.msg)); None }
    }
}
pub fn inject_panic(id: u64) -> ! { std::panic::resume_unwind(Box::new(Injected(id))) }

// ---------------------------------------------------------------- call-backs from instrumented code

pub static mut TICKS: u64 = 0;
pub static mut NEXT: u64 = u64::MAX;
pub static mut LIMIT: u64 = u64::MAX;
pub static mut THREADED: bool = false;
pub static mut STACK_LOW: usize = usize::MAX;
pub static mut NGUARDS: u32 = 0;
pub const MAXG: usize = 1 << 16;
pub static mut HIT: [u8; MAXG] = [0; MAXG];

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop { if *p == 0 { NGUARDS += 1; *p = NGUARDS.min(MAXG as u32 - 1); } p = p.add(1); }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !in_sut() { return; }
    TICKS += 1;
    let h = &mut *(&raw mut HIT[*g as usize & (MAXG - 1)]);
    *h = h.saturating_add(1);
    let here = &g as *const _ as usize;
    if here < STACK_LOW { STACK_LOW = here; }
    #[cfg(jsonsim_mem)] asan::low(here);
    if TICKS >= NEXT { tick_slow(*g); }
}
#[cold] #[inline(never)]
fn tick_slow(g: u32) {
    let _o = Out::new();
    unsafe {
        if TICKS >= LIMIT {
            shm().status = 2;
            shm().ticks = TICKS;
            _exit(77);
        }
        if THREADED { crate::sched::preempt(g); } else { NEXT = LIMIT; }
    }
}
/// A scheduling point outside straight-line code: allocator calls and writer calls.
pub fn sched_point(weight: u64) {
    unsafe {
        TICKS += weight;
        if TICKS >= NEXT { tick_slow(0); }
    }
}

// ---------------------------------------------------------------- the memory-checking build
//
// There the crate under test calls these for every access to memory.  Blocks of the simulated
// allocator have a shadow of one byte each, kept by the arena.  For stack frames and statics,
// compiled-in code keeps the usual shadow of one byte for eight at STACK_SHADOW.

pub static mut MEM_ACCESSES: u64 = 0;
pub const STACK_SHADOW: usize = 0x1000_0000_0000;
#[cfg(jsonsim_mem)]
mod asan {
    use super::*;
    #[no_mangle] pub static __asan_shadow_memory_dynamic_address: usize = STACK_SHADOW;
    #[no_mangle] pub unsafe extern "C" fn __asan_init() {
        static mut DONE: bool = false;
        if DONE { return; }
        DONE = true;
        let p = mmap(STACK_SHADOW as *mut c_void, 1 << 44, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0);
        if p as usize != STACK_SHADOW { let m = b"cannot map the shadow memory\n"; write(2, m.as_ptr(), m.len()); _exit(3); }
    }
    #[no_mangle] pub extern "C" fn __asan_version_mismatch_check_v8() {}
    #[no_mangle] pub extern "C" fn __asan_handle_no_return() {}
    thread_local! { static LOW: Cell<usize> = const { Cell::new(usize::MAX) }; }
    #[inline] pub fn low(a: usize) { LOW.with(|l| if a < l.get() { l.set(a) }) }
    /// After a panic has been caught: the frames below this one are gone.
    #[inline(never)]
    pub fn unwound() {
        let x = 0u8; let here = &x as *const u8 as usize;
        let from = LOW.with(|l| l.replace(usize::MAX));
        if from < here { let from = (from - 4096) >> 3; unsafe { std::ptr::write_bytes((STACK_SHADOW + from) as *mut u8, 0, (here >> 3) - from); } }
    }
    #[inline]
    unsafe fn check(a: usize, n: usize, store: bool) {
        if !in_sut() || n == 0 { return; }
        MEM_ACCESSES += 1;
        // whoever shares this memory may come in between
        if THREADED && a.wrapping_sub(&a as *const usize as usize) > 4 << 20 { sched_point(1); }
        if a.wrapping_sub(ARENA_BASE) < ARENA_SIZE {
            let sh = (SHADOW + (a - ARENA_BASE)) as *const u8;
            let mut i = 0;
            while i < n { if *sh.add(i) == 0 { mem_bad(a + i, n - i, store); return; } i += 1; }
        } else if a >> 47 == 0 {
            let mut g = a >> 3;
            let last = a + n - 1;
            while g <= last >> 3 {
                let s = *((STACK_SHADOW + g) as *const i8);
                if s != 0 && (s < 0 || (last.min(g * 8 + 7) & 7) as i8 >= s) { other_bad(s, n, store); return; }
                g += 1;
            }
        }
    }
    #[cold] #[inline(never)]
    fn other_bad(s: i8, n: usize, store: bool) {
        let _o = Out::new();
        let what = match s as u8 { 0xf9 => "beside a static", 0xfa => "beside a block of the caller's", 0xf8 => "of a local variable whose life has ended", 0xf1..=0xf5 => "beside a local variable", 1..=7 => "reaching over the end of a local variable, a static or a block of the caller's", _ => "of memory that is not handed out" };
        let rw = if store { "write" } else { "read" };
        viol(&format!("memory:{}-{}", rw, match s as u8 { 0xf8 => "after-scope", 0xfa => "outside-callers", _ => "outside-local" }), format!("{} of {} bytes {} (shadow {:#x})", rw, n, what, s as u8));
    }
    macro_rules! memcb { ($($l:ident $s:ident $n:expr;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $l(a: usize) { check(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $s(a: usize) { check(a, $n, true) }
    )* } }
    memcb! {
        __asan_load1 __asan_store1 1;
        __asan_load2 __asan_store2 2;
        __asan_load4 __asan_store4 4;
        __asan_load8 __asan_store8 8;
        __asan_load16 __asan_store16 16;
    }
    #[no_mangle] pub unsafe extern "C" fn __asan_loadN(a: usize, n: usize) { check(a, n, false) }
    #[no_mangle] pub unsafe extern "C" fn __asan_storeN(a: usize, n: usize) { check(a, n, true) }
    #[no_mangle] pub unsafe extern "C" fn __asan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { super::blocks::memcpy(d, s, n) }
    #[no_mangle] pub unsafe extern "C" fn __asan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { super::blocks::memmove(d, s, n) }
    #[no_mangle] pub unsafe extern "C" fn __asan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 { super::blocks::memset(d, c, n) }
    pub unsafe fn range(a: usize, n: usize, store: bool) { check(a, n, store) }

    unsafe fn paint(a: usize, n: usize, v: u8) { std::ptr::write_bytes((STACK_SHADOW + (a >> 3)) as *mut u8, v, (n + 7) >> 3); }
    /// A block of the simulator's own: `head` bytes, then `n` that count, then the rest.
    pub unsafe fn surround(p: usize, whole: usize, head: usize, n: usize) { paint(p, head, 0xfa); allow(p + head, n); let used = (n + 7) & !7; paint(p + head + used, whole - head - used, 0xfa); }
    pub unsafe fn clear(p: usize, whole: usize) { paint(p, whole, 0); }
    unsafe fn allow(a: usize, n: usize) { paint(a, n & !7, 0); if n & 7 != 0 { *((STACK_SHADOW + ((a + n) >> 3)) as *mut u8) = (n & 7) as u8; } }
    #[no_mangle] pub unsafe extern "C" fn __asan_poison_stack_memory(a: usize, n: usize) { paint(a, n, 0xf8) }
    #[no_mangle] pub unsafe extern "C" fn __asan_unpoison_stack_memory(a: usize, n: usize) { allow(a, n) }
    macro_rules! set { ($($f:ident $v:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $f(a: usize, n: usize) { std::ptr::write_bytes(a as *mut u8, $v, n) })* } }
    set! { __asan_set_shadow_00 0; __asan_set_shadow_01 1; __asan_set_shadow_02 2; __asan_set_shadow_03 3; __asan_set_shadow_04 4; __asan_set_shadow_05 5; __asan_set_shadow_06 6; __asan_set_shadow_07 7;
        __asan_set_shadow_f1 0xf1; __asan_set_shadow_f2 0xf2; __asan_set_shadow_f3 0xf3; __asan_set_shadow_f5 0xf5; __asan_set_shadow_f8 0xf8; }
    #[repr(C)] pub struct Global { beg: usize, size: usize, with_red: usize, name: usize, module: usize, init: usize, loc: usize, odr: usize }
    unsafe fn globals(mut g: *const Global, end: *const Global) {
        while g < end {
            let x = &*g; g = g.add(1);
            if x.beg == 0 || x.beg & 7 != 0 { continue; }
            let whole = (x.size + 7) & !7;
            paint(x.beg + whole, x.with_red - whole, 0xf9);
            if x.size & 7 != 0 { *((STACK_SHADOW + ((x.beg + x.size) >> 3)) as *mut u8) = (x.size & 7) as u8; }
        }
    }
    #[no_mangle] pub unsafe extern "C" fn __asan_register_globals(g: *const Global, n: usize) { globals(g, g.add(n)) }
    #[no_mangle] pub unsafe extern "C" fn __asan_unregister_globals(_: *const Global, _: usize) {}
    #[no_mangle] pub unsafe extern "C" fn __asan_register_elf_globals(flag: *mut usize, start: *const Global, stop: *const Global) { if *flag == 0 { *flag = 1; globals(start, stop); } }
    #[no_mangle] pub unsafe extern "C" fn __asan_unregister_elf_globals(_: *mut usize, _: *const Global, _: *const Global) {}
    #[no_mangle] pub unsafe extern "C" fn __asan_before_dynamic_init(_: usize) {}
    #[no_mangle] pub unsafe extern "C" fn __asan_after_dynamic_init() {}
}
/// Work that no call-back sees: so many bytes moved or compared.
#[cfg(jsonsim_cost)]
#[inline] pub fn moved(n: usize) { if in_sut() { unsafe { TICKS += n as u64 / 16; } } }
#[cfg(not(jsonsim_cost))]
#[inline] pub fn moved(_: usize) {}
/// Bytes the code under test hands over to a caller: it must own them.
#[inline] pub fn seen(_b: &[u8]) { #[cfg(jsonsim_mem)] { let _i = In::new(); unsafe { asan::range(_b.as_ptr() as usize, _b.len(), false) } } }
#[inline] pub fn unwound() { #[cfg(jsonsim_mem)] asan::unwound(); }
/// The block operations of the C library, for the memory-checking build: the compiler
/// turns copies and comparisons of slices into these, which no call-back would see.  And for
/// the build that counts work.
#[cfg(any(jsonsim_mem, jsonsim_cost))]
pub mod blocks {
    use super::*;
    use std::arch::asm;
    #[cfg(jsonsim_mem)]
    use super::asan::range;
    /// In the build that counts work, a step for every 16 bytes copied.
    #[cfg(jsonsim_cost)]
    #[inline]
    unsafe fn range(_: usize, n: usize, store: bool) { if store { moved(n); } }
    #[inline]
    unsafe fn forward(d: *mut u8, s: *const u8, n: usize) { asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags)); }
    #[no_mangle] pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 { range(s as usize, n, false); range(d as usize, n, true); forward(d, s, n); d }
    #[no_mangle] pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        range(s as usize, n, false); range(d as usize, n, true);
        if (d as usize).wrapping_sub(s as usize) >= n { forward(d, s, n); }
        else if n > 0 { asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n - 1) => _, inout("rsi") s.add(n - 1) => _, options(nostack)); }
        d
    }
    #[no_mangle] pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        range(d as usize, n, true);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8, options(nostack, preserves_flags));
        d
    }
    #[inline]
    unsafe fn compare(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        while i < n {
            let (x, y): (u8, u8);
            asm!("mov {}, byte ptr [{}]", out(reg_byte) x, in(reg) a.add(i), options(nostack, readonly, preserves_flags));
            asm!("mov {}, byte ptr [{}]", out(reg_byte) y, in(reg) b.add(i), options(nostack, readonly, preserves_flags));
            if x != y { break; }
            i += 1;
        }
        #[cfg(jsonsim_cost)] moved(i);
        if i < n { *a.add(i) as i32 - *b.add(i) as i32 } else { 0 }
    }
    #[no_mangle] pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 { range(a as usize, n, false); range(b as usize, n, false); compare(a, b, n) }
    #[no_mangle] pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 { range(a as usize, n, false); range(b as usize, n, false); compare(a, b, n) }
}
#[cold] #[inline(never)]
fn mem_bad(a: usize, n: usize, store: bool) {
    let _o = Out::new();
    let st = arena();
    let what = st.describe(a);
    let text = sim().text;
    if !store && !sim().memory_prop && text.0 < text.1 && a + 64 >= text.0 && a < text.1 + 64 {
        viol("text:read-outside", format!("{} bytes next to the text being parsed are read: {}", n, what.1));
        return;
    }
    viol(&format!("memory:{}-{}", if store { "write" } else { "read" }, what.0),
         format!("{} of {} bytes at arena offset {:#x}: {}", if store { "write" } else { "read" }, n, a - ARENA_BASE, what.1));
}

// ---------------------------------------------------------------- the simulated allocator

pub const ARENA_BASE: usize = 0x2000_0000_0000;
pub const ARENA_SIZE: usize = 1 << 30;
pub const SHADOW: usize = 0x2100_0000_0000;
const BLOCKS: usize = 0x2200_0000_0000;
const MAXBLOCKS: usize = 1 << 22;
const RED: usize = 24;

#[repr(C)]
struct Block { addr: usize, size: usize, align: usize, cap: usize, state: u8 /*0 none 1 live 2 freed 3 reused-slot*/, class: u8, next: u32 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum APolicy { Fresh, Lifo, InPlace, Mixed }

pub struct Arena {
    pub top: usize,
    pub floor: usize,
    nblocks: usize,
    base_block: usize,
    heads: [u32; 64],
    pub policy: APolicy,
    pub fill: u8,
    pub poison: u8,
    pub live: u64,
    pub live_bytes: u64,
    pub peak: u64,
    pub total: u64,
    pub allocs: u64,
    pub frees: u64,
    pub moved: u64,
    pub inplace: u64,
    pub reused: u64,
    pub odd: bool,
    pub exhausted: bool,
}
pub static mut ARENA: Arena = Arena {
    top: ARENA_BASE, floor: ARENA_BASE, nblocks: 1, base_block: 1, heads: [0; 64], policy: APolicy::Fresh, fill: 0xA5, poison: 0xDD, live: 0, live_bytes: 0,
    peak: 0, total: 0, allocs: 0, frees: 0, moved: 0, inplace: 0, reused: 0, odd: true, exhausted: false,
};
pub fn arena() -> &'static mut Arena { unsafe { &mut *(&raw mut ARENA) } }
static mut ARENA_READY: bool = false;

pub fn init_arena() {
    unsafe {
        // PROT_READ|WRITE, MAP_PRIVATE|ANON|NORESERVE|FIXED_NOREPLACE
        for (a, l) in [(ARENA_BASE, ARENA_SIZE), (SHADOW, ARENA_SIZE), (BLOCKS, MAXBLOCKS * std::mem::size_of::<Block>())] {
            let p = mmap(a as *mut c_void, l, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0);
            assert!(p as usize == a, "cannot map the arena");
        }
        ARENA_READY = true;
        handle_refusals();
    }
}
#[inline] fn blk(i: usize) -> &'static mut Block { unsafe { &mut *((BLOCKS + i * std::mem::size_of::<Block>()) as *mut Block) } }
#[inline] pub fn in_arena_range(p: usize) -> bool { p.wrapping_sub(ARENA_BASE) < ARENA_SIZE }

fn class_of(cap: usize) -> u8 { (usize::BITS - cap.max(1).leading_zeros()) as u8 } // blocks of class c have cap < 2^c

impl Arena {
    /// Starts a run: everything below `top` is recycled if no block is live any more.
    pub fn begin(&mut self, policy: APolicy, fill: u8, poison: u8, odd: bool) {
        if self.live == 0 {
            self.recycle();
        } else {
            // blocks of an earlier run are still live: keep them, start above
            self.floor = self.top;
            self.base_block = self.nblocks;
        }
        self.heads = [0; 64];
        self.policy = policy; self.fill = fill; self.poison = poison; self.odd = odd;
        self.peak = self.live_bytes; self.total = 0; self.allocs = 0; self.frees = 0; self.moved = 0; self.inplace = 0; self.reused = 0;
        self.exhausted = false;
    }
    fn recycle(&mut self) {
        unsafe {
            if sim().mem && self.top > ARENA_BASE { std::ptr::write_bytes(SHADOW as *mut u8, 0, (self.top - ARENA_BASE + RED).min(ARENA_SIZE)); }
        }
        self.top = ARENA_BASE + 64; self.floor = self.top;
        self.nblocks = 1; self.base_block = 1;
    }
    fn shadow(&self, a: usize, n: usize, v: u8) {
        if sim().mem { unsafe { std::ptr::write_bytes((SHADOW + (a - ARENA_BASE)) as *mut u8, v, n); } }
    }
    unsafe fn set_red(&self, b: &Block) {
        std::ptr::write_bytes((b.addr + b.size) as *mut u8, 0xFB, RED.min(b.cap + RED - b.size));
    }
    unsafe fn red_ok(&self, b: &Block) -> bool {
        let hdr = std::ptr::read_unaligned((b.addr - 16) as *const u64);
        if hdr != 0x5AFE_B10C_0000_0000 ^ b.addr as u64 { return false; }
        let q = std::slice::from_raw_parts((b.addr + b.size) as *const u8, RED.min(b.cap + RED - b.size));
        q.iter().all(|x| *x == 0xFB)
    }
    unsafe fn alloc(&mut self, size: usize, align: usize) -> *mut u8 {
        self.allocs += 1;
        self.total += size as u64;
        let reuse = match self.policy {
            APolicy::Fresh => false,
            APolicy::Lifo => true,
            APolicy::InPlace => false,
            APolicy::Mixed => ch(S::Alloc, 2) == 1,
        };
        if reuse {
            let c = class_of(size) as usize;
            // the most recently freed block that fits
            for k in [c, c + 1] {
                if k >= 64 { break; }
                let h = self.heads[k] as usize;
                if h != 0 {
                    let b = blk(h);
                    if b.cap >= size && b.addr % align == 0 {
                        self.heads[k] = b.next;
                        self.check_poison(b);
                        b.size = size; b.align = align; b.state = 1;
                        std::ptr::write_bytes(b.addr as *mut u8, self.fill, size);
                        self.set_red(b);
                        self.shadow(b.addr, size, 1);
                        self.reused += 1;
                        self.live += 1; self.live_bytes += size as u64; if self.live_bytes > self.peak { self.peak = self.live_bytes; }
                        return b.addr as *mut u8;
                    }
                }
            }
        }
        let slack = match self.policy { APolicy::InPlace => size, APolicy::Mixed => if ch(S::Alloc, 3) == 2 { size } else { 0 }, _ => 0 };
        let cap = size + slack;
        let mut a = (self.top + 16 + RED + align - 1) & !(align - 1);
        if self.odd && (a / align) % 2 == 0 { a += align; }
        let end = a + cap + RED;
        if end + 4096 > ARENA_BASE + ARENA_SIZE || self.nblocks + 1 >= MAXBLOCKS {
            self.exhausted = true;
            return Own.alloc(Layout::from_size_align_unchecked(size, align));
        }
        self.top = end;
        let id = self.nblocks;
        self.nblocks += 1;
        let b = blk(id);
        *b = Block { addr: a, size, align, cap, state: 1, class: class_of(cap), next: 0 };
        std::ptr::write_unaligned((a - 16) as *mut u64, 0x5AFE_B10C_0000_0000 ^ a as u64);
        std::ptr::write_unaligned((a - 8) as *mut u64, id as u64);
        std::ptr::write_bytes(a as *mut u8, self.fill, size);
        self.set_red(b);
        self.shadow(a, size, 1);
        self.live += 1; self.live_bytes += size as u64; if self.live_bytes > self.peak { self.peak = self.live_bytes; }
        a as *mut u8
    }
    unsafe fn find(&self, p: usize) -> Option<&'static mut Block> {
        let hdr = std::ptr::read_unaligned((p.wrapping_sub(16)) as *const u64);
        if hdr == 0x5AFE_B10C_0000_0000 ^ p as u64 {
            let id = std::ptr::read_unaligned((p - 8) as *const u64) as usize;
            if id > 0 && id < self.nblocks { let b = blk(id); if b.addr == p { return Some(b); } }
        }
        (1..self.nblocks).rev().map(blk).find(|b| b.addr == p)
    }
    unsafe fn check_poison(&self, b: &Block) {
        let q = std::slice::from_raw_parts(b.addr as *const u8, b.size);
        if !q.iter().all(|x| *x == self.poison) {
            viol("memory:write-after-free", format!("a released block of {} bytes was written to", b.size));
        }
    }
    unsafe fn free(&mut self, p: usize, size: usize, align: usize) {
        let b = match self.find(p) {
            Some(b) => b,
            None => { viol("memory:bad-free", format!("release of an address that is no block (size {})", size)); return; }
        };
        if b.state != 1 { viol("memory:double-free", format!("block of {} bytes released twice", b.size)); return; }
        if b.size != size || b.align != align {
            viol("memory:size-mismatch", format!("block of {} bytes (align {}) released as {} bytes (align {})", b.size, b.align, size, align));
        }
        if !self.red_ok(b) { viol("memory:overrun", format!("bytes around a block of {} bytes were overwritten", b.size)); }
        self.frees += 1;
        self.live -= 1; self.live_bytes -= b.size as u64;
        std::ptr::write_bytes(p as *mut u8, self.poison, b.size);
        self.shadow(p, b.size, 0);
        b.state = 2;
        if self.policy == APolicy::Lifo || self.policy == APolicy::Mixed {
            let id = std::ptr::read_unaligned((p - 8) as *const u64) as usize;
            if id < self.nblocks && blk(id).addr == p && id >= self.base_block {
                b.next = self.heads[b.class as usize];
                self.heads[b.class as usize] = id as u32;
            }
        }
    }
    unsafe fn realloc(&mut self, p: usize, layout: Layout, new: usize) -> *mut u8 {
        let b = match self.find(p) { Some(b) if b.state == 1 => b, _ => {
            viol("memory:bad-realloc", "growing a block that is not allocated".into());
            return self.alloc(new, layout.align());
        } };
        if b.size != layout.size() || b.align != layout.align() {
            viol("memory:size-mismatch", format!("block of {} bytes grown as if it had {} bytes", b.size, layout.size()));
        }
        if !self.red_ok(b) { viol("memory:overrun", format!("bytes around a block of {} bytes were overwritten", b.size)); }
        let stay = b.cap >= new && match self.policy {
            APolicy::InPlace => true,
            APolicy::Mixed => ch(S::Alloc, 2) == 1,
            _ => false,
        };
        if stay {
            self.inplace += 1;
            self.live_bytes = self.live_bytes - b.size as u64 + new as u64; if self.live_bytes > self.peak { self.peak = self.live_bytes; }
            if new > b.size { std::ptr::write_bytes((p + b.size) as *mut u8, self.fill, new - b.size); self.shadow(p + b.size, new - b.size, 1); }
            else { self.shadow(p + new, b.size - new, 0); }
            b.size = new;
            self.set_red(b);
            return p as *mut u8;
        }
        self.moved += 1;
        let old = b.size;
        let q = self.alloc(new, layout.align());
        std::ptr::copy_nonoverlapping(p as *const u8, q, old.min(new));
        self.free(p, old, layout.align());
        q
    }
    /// End-of-run sweep over every block of this run.
    pub fn sweep(&mut self) {
        unsafe {
            for i in self.base_block..self.nblocks {
                let b = blk(i);
                match b.state {
                    1 => if !self.red_ok(b) { viol("memory:overrun", format!("bytes around a block of {} bytes were overwritten", b.size)); return; },
                    2 => {
                        self.check_poison(b);
                        if !self.red_ok(b) { viol("memory:overrun", format!("bytes around a released block of {} bytes were overwritten", b.size)); return; }
                    }
                    _ => {}
                }
            }
        }
    }
    fn describe(&self, a: usize) -> (&'static str, String) {
        for i in (1..self.nblocks).rev() {
            let b = blk(i);
            if a >= b.addr && a < b.addr + b.cap.max(b.size) {
                return if b.state == 2 { ("after-free", format!("inside a released block of {} bytes", b.size)) }
                       else if a >= b.addr + b.size { ("outside", format!("{} bytes behind the end of a block of {} bytes", a - b.addr - b.size, b.size)) }
                       else { ("hidden", format!("offset {} of a live block of {} bytes, outside the part handed out", a - b.addr, b.size)) };
            }
            if a >= b.addr + b.size && a < b.addr + b.size + RED { return ("outside", format!("{} bytes behind the end of a block of {} bytes", a - b.addr - b.size, b.size)); }
            if a < b.addr && a + 16 + RED >= b.addr { return ("outside", format!("{} bytes in front of a block of {} bytes", b.addr - a, b.size)); }
        }
        ("outside", "in no block".into())
    }
    pub fn hide(&self, a: usize, n: usize) { if in_arena_range(a) { self.shadow(a, n, 0) } }
    pub fn unhide(&self, a: usize, n: usize) { if in_arena_range(a) { self.shadow(a, n, 1) } }
}

/// What the simulator itself, its clients above all, allocates from: the system's allocator.
/// In the memory-checking build its blocks have surroundings that the code under test must
/// not touch either.
struct Own;
#[cfg(not(jsonsim_mem))]
impl Own {
    #[inline] unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    #[inline] unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { System.alloc_zeroed(l) }
    #[inline] unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    #[inline] unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 { System.realloc(p, l, new) }
}
#[cfg(jsonsim_mem)]
impl Own {
    fn outer(l: Layout) -> (Layout, usize) {
        let a = l.align().max(16);
        (unsafe { Layout::from_size_align_unchecked(a + ((l.size() + 7) & !7) + 16, a) }, a)
    }
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        asan::__asan_init();
        let (o, a) = Own::outer(l);
        let p = System.alloc(o);
        if p.is_null() { return p; }
        asan::surround(p as usize, o.size(), a, l.size());
        p.add(a)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        asan::__asan_init();
        let (o, a) = Own::outer(l);
        let p = System.alloc_zeroed(o);
        if p.is_null() { return p; }
        asan::surround(p as usize, o.size(), a, l.size());
        p.add(a)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (o, a) = Own::outer(l);
        let p = p.sub(a);
        asan::clear(p as usize, o.size());
        System.dealloc(p, o)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let (o, a) = Own::outer(l);
        asan::clear(p as usize - a, o.size());
        let (n, _) = Own::outer(Layout::from_size_align_unchecked(new, l.align()));
        let q = System.realloc(p.sub(a), o, n.size());
        if q.is_null() { asan::surround(p as usize - a, o.size(), a, l.size()); return q; }
        asan::surround(q as usize, n.size(), a, new);
        q.add(a)
    }
}

/// Which requests for memory are refused, while armed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Refuse { Never, One(u64), From(u64), Larger(usize), Quota(u64) }
static mut REFUSE: Refuse = Refuse::Never;
static mut ASKED: u64 = 0;
static mut REFUSED: u64 = 0;
static mut LEVEL: u64 = 0;
/// What the refused allocation becomes: a panic that nothing but the harness catches.
pub const OUT_OF_MEMORY: u64 = 0x00f_0f00;
/// Performs `f` with some requests refused; how many requests there were, and how many were refused.
pub fn refusing<T>(r: Refuse, f: impl FnOnce() -> T) -> (T, u64, u64) {
    unsafe {
        ASKED = 0; REFUSED = 0; LEVEL = arena().live_bytes; REFUSE = r;
        let x = f();
        REFUSE = Refuse::Never;
        (x, ASKED, REFUSED)
    }
}
#[inline]
unsafe fn refused(size: usize, old: usize) -> bool {
    // counted even if nothing is refused
    ASKED += 1;
    let no = match REFUSE {
        Refuse::Never => return false,
        Refuse::One(k) => ASKED == k + 1,
        Refuse::From(k) => ASKED > k,
        Refuse::Larger(n) => size > n,
        Refuse::Quota(n) => arena().live_bytes - old as u64 + size as u64 > LEVEL + n,
    };
    if no { REFUSED += 1; let _o = Out::new(); count("allocations_refused"); ev("refused", size as u64, ASKED); note(|| format!("a request for {} bytes is refused", size)); }
    no
}
/// The process-wide handler: unwinds out of the operation, as a handler may.
fn memory_is_out(_: Layout) {
    unsafe {
        if REFUSED == 0 { return; }
        // what unwinding releases is there again
        REFUSE = Refuse::Never;
        let _o = Out::new();
        inject_panic(OUT_OF_MEMORY)
    }
}
pub fn handle_refusals() { std::alloc::set_alloc_error_hook(memory_is_out); }

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if in_sut() && ARENA_READY {
            sched_point(3);
            if refused(l.size(), 0) { return std::ptr::null_mut(); }
            let _o = Out::new();
            arena().alloc(l.size(), l.align())
        } else { Own.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if in_sut() && ARENA_READY {
            sched_point(3);
            if refused(l.size(), 0) { return std::ptr::null_mut(); }
            let _o = Out::new();
            let p = arena().alloc(l.size(), l.align());
            std::ptr::write_bytes(p, 0, l.size());
            p
        } else { Own.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena_range(p as usize) {
            if in_sut() { sched_point(3); }
            let _o = Out::new();
            arena().free(p as usize, l.size(), l.align())
        } else if p.is_null() { viol("memory:bad-free", format!("a block of {} bytes at address 0 is released", l.size())) }
        else { Own.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if in_arena_range(p as usize) {
            if in_sut() {
                sched_point(3); moved(l.size().min(new));
                if refused(new, l.size()) { return std::ptr::null_mut(); }
            }
            let _o = Out::new();
            arena().realloc(p as usize, l, new)
        } else if in_sut() && ARENA_READY {
            // a block the caller handed over: it moves into the arena
            if refused(new, 0) { return std::ptr::null_mut(); }
            moved(l.size().min(new));
            let _o = Out::new();
            let q = arena().alloc(new, l.align());
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            Own.dealloc(p, l);
            q
        } else { Own.realloc(p, l, new) }
    }
}
