//! Real OS threads, of which exactly one runs at any moment.  Who runs next, and for how
//! many ticks, is decided by the SCHED stream.  Threads give up the processor at coverage
//! call-backs of the instrumented code, at allocator calls and at writer calls.
use crate::rt::*;
use std::sync::{Condvar, Mutex};

const MAX: usize = 9;
static CUR: Mutex<usize> = Mutex::new(0);
static CVS: [Condvar; MAX] = [const { Condvar::new() }; MAX];
static mut RUNNABLE: [bool; MAX] = [false; MAX];
/// what a thread waits for: the address of a lock, or 0
static mut WAITS: [usize; MAX] = [0; MAX];
/// clients that have stopped in their own code (a slow disk, a full pipe) for as long as anyone
/// else can go on
static mut STALLED: [bool; MAX] = [false; MAX];
unsafe fn ready(i: usize) -> bool { RUNNABLE[i] && WAITS[i] == 0 && !STALLED[i] }
/// Who runs next when the current thread cannot.
unsafe fn next_one() -> usize {
    let mut cand: Vec<usize> = (1..MAX).filter(|i| ready(*i)).collect();
    if cand.is_empty() {
        // only clients that wait for the outside world are left, and whoever waits for them
        cand = (1..MAX).filter(|i| RUNNABLE[*i] && STALLED[*i] && WAITS[*i] == 0).collect();
        if cand.is_empty() { deadlock(); }
        if (1..MAX).any(|i| RUNNABLE[i] && WAITS[i] != 0) { viol("overlap:waits", "an operation waits for another one whose writer, iterator or conversion is held up".into()); }
        for i in 1..MAX { STALLED[i] = false; }
    }
    cand[ch(S::Sched, cand.len() as u32) as usize]
}
static mut PACE: u32 = 0;
pub static mut SWITCHES: u64 = 0;

fn wait_turn(me: usize) {
    let mut g = CUR.lock().unwrap();
    while *g != me { g = CVS[me].wait(g).unwrap(); }
}
fn hand_over(me: usize, to: usize) {
    let mut g = CUR.lock().unwrap();
    *g = to;
    CVS[to].notify_one();
    if me != usize::MAX { while *g != me { g = CVS[me].wait(g).unwrap(); } }
}
/// How many ticks the next thread runs before it can be preempted again.  The first pace
/// stands for "until it ends or reaches a call-back of ours", but whoever waits in a loop for
/// another thread gets there.
fn next_slice() -> u64 {
    let base: u64 = match unsafe { PACE } { 0 => return 500_000, 1 => 4, 2 => 30, 3 => 250, _ => 2000 };
    1 + ch(S::Sched, (base * 2) as u32) as u64
}
fn arm() {
    unsafe {
        NEXT = TICKS.saturating_add(next_slice()).min(LIMIT);
    }
}
/// A thread may be switched here.
pub fn preempt(guard: u32) {
    unsafe {
        let me = MYID.with(|c| c.get());
        if me == 0 { NEXT = LIMIT; return; }
        let mut cand = [0usize; MAX];
        let mut n = 0;
        cand[n] = me; n += 1;
        for i in 1..MAX { if i != me && ready(i) { cand[n] = i; n += 1; } }
        let k = ch(S::Sched, n as u32) as usize;
        let to = cand[k];
        if to != me {
            SWITCHES += 1;
            ev("switch", (me * 16 + to) as u64, guard as u64);
            arm();
            hand_over(me, to);
        } else { arm(); }
    }
}
/// The calling thread waits for a lock (or the like) that another one has to hand over.
pub fn wait_on(a: usize) {
    unsafe {
        let me = if THREADED { MYID.with(|c| c.get()) } else { 0 };
        if me == 0 { deadlock(); }
        WAITS[me] = a;
        let to = next_one();
        SWITCHES += 1;
        ev("blocked", (me * 16 + to) as u64, 0);
        arm();
        if to != me { hand_over(me, to); }
    }
}
/// Up to `n` threads that wait there can go on.
pub fn wake(a: usize, n: usize) -> usize {
    let mut woken = 0;
    unsafe { for i in 1..MAX { if woken < n && WAITS[i] == a { WAITS[i] = 0; woken += 1; } } }
    woken
}
/// Everyone waits for someone else.
fn deadlock() -> ! {
    ev("deadlock", 0, 0);
    shm().status = 2;
    unsafe { shm().ticks = TICKS; _exit(78) }
}
/// A voluntary scheduling point (writer calls and the like).
pub fn yield_now() {
    let _o = Out::new();
    unsafe { if THREADED && MYID.with(|c| c.get()) != 0 { preempt(1); } }
}

/// A client's own code runs: others may come in between, and now and then it is held up.
pub fn client() {
    let _o = Out::new();
    unsafe {
        if !THREADED { return; }
        let me = MYID.with(|c| c.get());
        if me == 0 { return; }
        if !chance(S::Fault, 1, 16) { preempt(1); return; }
        count("client_stalled");
        STALLED[me] = true;
        let to = next_one();
        ev("stalled", (me * 16 + to) as u64, 0);
        if to != me { SWITCHES += 1; arm(); hand_over(me, to); }
    }
}
/// Runs the jobs as overlapping threads; returns when all have ended.  Threads end one by
/// one, so that their thread-local destructors do not overlap anything either.
pub fn run_threads(jobs: Vec<Box<dyn FnOnce() + Send + '_>>) {
    let n = jobs.len();
    assert!(n < MAX);
    unsafe {
        PACE = weighted(S::Sched, &[1, 3, 4, 3, 2]) as u32;
        SWITCHES = 0;
        RUNNABLE = [false; MAX];
        WAITS = [0; MAX];
        STALLED = [false; MAX];
        *CUR.lock().unwrap() = 0;
        for i in 1..=n { RUNNABLE[i] = true; }
        THREADED = true;
    }
    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for (i, job) in jobs.into_iter().enumerate() {
            let id = i + 1;
            hs.push(Some(std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, move || {
                MYID.with(|c| c.set(id));
                wait_turn(id);
                // a job reports its own failures; anything else is a harness error
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
                if r.is_err() { unwound(); viol("harness:thread", "a simulated client panicked outside the code under test".into()); }
                unsafe { RUNNABLE[id] = false; }
                ev("exit", id as u64, 0);
                hand_over(usize::MAX, 0);
            }).expect("thread")));
        }
        let mut last = 0;
        loop {
            let alive: Vec<usize> = (1..=n).filter(|i| unsafe { RUNNABLE[*i] }).collect();
            if last != 0 { let h: Option<std::thread::ScopedJoinHandle<()>> = hs[last - 1].take(); let _ = h.unwrap().join(); }
            if alive.is_empty() { break; }
            let to = unsafe { next_one() };
            arm();
            ev("run", to as u64, 0);
            hand_over(0, to);
            last = (1..=n).find(|i| unsafe { !RUNNABLE[*i] } && hs[*i - 1].is_some()).unwrap();
        }
    });
    unsafe { THREADED = false; NEXT = LIMIT; }
    count_n("sched_switches", unsafe { SWITCHES });
}
