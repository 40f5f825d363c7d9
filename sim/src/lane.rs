//! One simulated run, and a worker that performs many of them.
use crate::rt::*;
use std::collections::BTreeMap;

pub const PROPS: [&str; 18] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C17", "C18", "C19", "C20"];

fn scenario(prop: &str) -> fn() -> Option<()> {
    match prop {
        "C01" => crate::stream::c01, "C02" => crate::stream::c02, "C03" => crate::stream::c03,
        "C04" => crate::damage::c04, "C05" => crate::damage::c05, "C06" => crate::damage::c06, "C07" => crate::damage::c07,
        "C08" => crate::history::c08, "C09" => crate::history::c09, "C10" => crate::history::c10, "C11" => crate::history::c11,
        "C13" => crate::threads::c13, "C14" => crate::depth::c14, "C17" => crate::macros::c17, "C18" => crate::shown::c18, "C19" => crate::work::c19, "C20" => crate::refused::c20,
        _ => panic!("no such property"),
    }
}

pub const TICK_LIMIT: u64 = 1_000_000_000;

pub struct Outcome { pub violation: Option<(String, String)>, pub hash: u64, pub ticks: u64, pub events: u64 }

fn reset(tail: Tail, script: [Vec<u32>; NS], seed: u64) {
    let m = sim();
    m.script = script;
    m.tail = tail;
    m.pos = [0; NS];
    for i in 0..NS { m.rng[i] = Rng(mix(seed, 0x1000 + i as u64)); }
    m.hash = 0x9e37; m.events = 0; m.violation = None; m.obs = 0; m.soft = false; m.room = 300_000;
    unsafe { TICKS = 0; LIMIT = TICK_LIMIT; NEXT = TICK_LIMIT; THREADED = false; STACK_LOW = usize::MAX; }
}
fn set_up_memory() {
    let policy = [APolicy::Fresh, APolicy::Lifo, APolicy::InPlace, APolicy::Mixed][weighted(S::Alloc, &[2, 3, 2, 4])];
    let fill = pick(S::Alloc, &[0xA5u8, 0x00, 0xFF, b'"', b'9', b' ']);
    let poison = pick(S::Alloc, &[0xDDu8, 0x00, 0xFF, b']', b'1']);
    let odd = chance(S::Alloc, 1, 2);
    arena().begin(policy, fill, poison, odd);
    ev("memory", policy as u64, (fill as u64) << 8 | poison as u64);
    note(|| format!("allocator {:?}, fresh memory holds {:#04x}, released memory {:#04x}", policy, fill, poison));
}
/// Runs the scenario; nothing of it is left behind.
fn go(f: fn() -> Option<()>) {
    let r = std::panic::catch_unwind(|| { let _ = f(); });
    IN_RESET();
    if r.is_err() {
        unwound();
        let msg = unsafe { (*(&raw mut LAST_PANIC)).take() }.map(|x| x.0).unwrap_or_default();
        viol("panic:client", format!("the client cannot go on with what it was given: {}", msg));
    }
    drop(r);
}
#[allow(non_snake_case)]
fn IN_RESET() { crate::rt::reset_in(); }

/// Performs one run.  The choices made are left in the shared block.
pub fn run_once(prop: &str, seed: u64, tail: Tail, script: [Vec<u32>; NS]) -> Outcome {
    let h = shm();
    h.has_viol = 0; h.viol_len = 0; h.class_len = 0; h.lens = [0; NS]; h.where_len = 0; h.ticks = 0;
    reset(tail, script, seed);
    sim().trace.clear();
    h.status = 1;
    sim().both = prop == "C20";
    if prop == "C12" || prop == "C20" { memory_run(prop == "C20"); } else {
        sim().memory_prop = false;
        set_up_memory();
        go(scenario(prop));
    }
    let m = sim();
    let a = arena();
    let c = &mut m.counts;
    *c.entry("alloc_blocks").or_insert(0) += a.allocs;
    *c.entry("alloc_grown_moved").or_insert(0) += a.moved;
    *c.entry("alloc_grown_in_place").or_insert(0) += a.inplace;
    *c.entry("alloc_block_reused").or_insert(0) += a.reused;
    let out = Outcome { violation: m.violation.clone(), hash: m.hash ^ m.obs, ticks: unsafe { TICKS }, events: m.events };
    h.ticks = out.ticks;
    if out.ticks > TICK_LIMIT / 4 && std::env::var_os("JSONSIM_LONG").is_some() { eprintln!("LONG {} {:#x} {} ticks", prop, seed, out.ticks); }
    h.trace_hash = out.hash;
    if let Some((c, d)) = &out.violation {
        let n = c.len().min(256); h.class[..n].copy_from_slice(&c.as_bytes()[..n]); h.class_len = n as u32;
        let n = d.len().min(8192); h.viol[..n].copy_from_slice(&d.as_bytes()[..n]); h.viol_len = n as u32;
        h.has_viol = 1;
    }
    h.status = 0;
    out
}

/// The check of memory safety: any of the other scenarios, with memory as the subject.
/// (or, where memory is refused, that scenario, with memory and content as the subjects).
fn memory_run(refused: bool) {
    sim().memory_prop = !refused;
    let subs: [(fn() -> Option<()>, u32); 15] = [(crate::stream::c01, 3), (crate::stream::c02, 2), (crate::stream::c03, 4), (crate::damage::c04, 2), (crate::damage::c05, 2), (crate::damage::c06, 4), (crate::damage::c07, 1),
        (crate::history::c08, 6), (crate::history::c09, 5), (crate::history::c10, 6), (crate::history::c11, 3), (crate::threads::c13, 2), (crate::depth::c14, 1), (crate::macros::c17, 2), (crate::shown::c18, 1)];
    let w: Vec<u32> = subs.iter().map(|s| s.1).collect();
    let first = || if refused { ev("refusals", 0, 0); subs.len() } else { let k = weighted(S::Ops, &w); ev("scenario", k as u64, 0); k };
    let k = first();
    if !refused { note(|| format!("scenario {}", ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C17", "C18"][k])); }
    set_up_memory();
    let f = if refused { crate::refused::c20 } else { subs[k].0 };
    let h0 = sim().hash;
    sim().hash = 1;
    let live0 = arena().live;
    go(f);
    arena().sweep();
    let m = sim();
    let (hash, obs, soft, viol0) = (m.hash, m.obs, m.soft, m.violation.clone());
    if viol0.is_some() { return; }
    let log: [Vec<u32>; NS] = std::array::from_fn(|i| shm().data[i][..shm().lens[i] as usize].to_vec());
    let (ticks, events, trace) = (unsafe { TICKS }, m.events, std::mem::take(&mut m.trace));
    let counts = m.counts.clone();
    let stats = (arena().allocs, arena().moved, arena().inplace, arena().reused);
    m.recording = false;
    let tracing = std::mem::replace(&mut m.tracing, false);
    let mut found = None;
    let live1 = arena().live;
    if live1 > live0 {
        // the same once more: does it retain as much again?
        reset(Tail::Zero, log.clone(), 0);
        first();
        set_up_memory();
        go(f);
        let live2 = arena().live;
        if live2 > live1 { found = Some(("memory:leak".to_string(), format!("{} blocks of memory were never released; the same run again retains {} more", live1 - live0, live2 - live1))); }
        else { *sim().counts.entry("retained_once").or_insert(0) += 1; }
    }
    if found.is_none() && k != 11 && !refused {
        // the same run with another allocator
        let mut other = log.clone();
        let alt = other[S::Alloc as usize].iter().fold(17u64, |a, b| mix(a, *b as u64)) ^ log[0].len() as u64;
        other[S::Alloc as usize].clear();
        reset(Tail::Zero, other, 0);
        sim().rng[S::Alloc as usize] = Rng(alt);
        sim().alloc_prng = true;
        first();
        set_up_memory();
        sim().hash = 1;
        go(f);
        arena().sweep();
        let second = (sim().hash, sim().obs, sim().soft);
        let v2 = sim().violation.clone();
        sim().alloc_prng = false;
        if v2.is_some() { found = v2; }
        else {
            let one = (hash, obs, soft);
            if one != second { found = Some(("memory:depends-on-allocator".into(), format!("the same calls give different results when the allocator places blocks differently ({:x?} and {:x?})", one, second))); }
            *sim().counts.entry("allocator_differentials").or_insert(0) += 1;
        }
    }
    let m = sim();
    let extra: Vec<(&'static str, u64)> = m.counts.iter().filter(|(k, _)| matches!(**k, "allocator_differentials" | "retained_once")).map(|(k, v)| (*k, *v)).collect();
    m.counts = counts;
    for (k, v) in extra { m.counts.insert(k, v); }
    m.recording = true; m.tracing = tracing; m.trace = trace;
    m.hash = mix(h0, hash); m.obs = obs; m.soft = soft; m.violation = found; m.events = events;
    unsafe { TICKS = ticks; }
    let a = arena(); a.allocs = stats.0; a.moved = stats.1; a.inplace = stats.2; a.reused = stats.3;
    if let Some((c, d)) = m.violation.clone() { note(|| format!("VIOLATION {}: {}", c, d)); }
}

/// The choices of the run that has just been performed.
pub fn choices() -> [Vec<u32>; NS] { let h = shm(); std::array::from_fn(|i| h.data[i][..(h.lens[i] as usize).min(CAP)].to_vec()) }

fn mutate(rng: &mut Rng, base: &[Vec<u32>; NS], other: &[Vec<u32>; NS]) -> [Vec<u32>; NS] {
    let mut s = base.clone();
    // cut somewhere, or change a few choices
    for _ in 0..1 + rng.below(3) {
        let w = [3u64, 3, 3, 1, 1];
        let mut r = rng.below(11); let mut i = 0; while r >= w[i] { r -= w[i]; i += 1; }
        let v = &mut s[i];
        if v.is_empty() { continue; }
        let p = rng.below(v.len() as u64) as usize;
        match rng.below(6) {
            0 => v.truncate(p),
            1 => v[p] = rng.next() as u32,
            2 => v[p] = rng.below(8) as u32,
            3 => { v.insert(p, rng.below(16) as u32); }
            4 => { v.remove(p); }
            _ => { let o = &other[i]; if !o.is_empty() { let q = rng.below(o.len() as u64) as usize; v.truncate(p); v.extend_from_slice(&o[q..]); } }
        }
    }
    s
}

pub struct LaneArgs { pub prop: String, pub seed: u64, pub lane: u64, pub lanes: u64, pub start: u64, pub runs: u64, pub wall: f64, pub out: String, pub known: Vec<(String, String)> }

/// A worker: runs `lane`, `lane + lanes`, ... of the sequence that VERIF_SEED stands for.
pub fn lane(a: &LaneArgs) -> i32 {
    let t0 = std::time::Instant::now();
    let mut hashes: Vec<u64> = Vec::new();
    let mut total_ticks = 0u64;
    let mut events = 0u64;
    let mut done = 0u64;
    let mut guided = 0u64;
    let mut seen = vec![0u8; MAXG];
    let mut pool: Vec<[Vec<u32>; NS]> = vec![];
    let mut edges = 0u64;
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut k = a.start;
    let mut code = 0;
    while k < a.runs {
        let index = k * a.lanes + a.lane;
        let seed = run_seed(a.seed, &a.prop, index);
        let h = shm();
        h.run_index = index; h.run_seed = seed;
        let mut rng = Rng(mix(seed, 77));
        let script = if pool.len() > 4 && rng.below(4) == 0 {
            guided += 1;
            let (x, y) = (rng.below(pool.len() as u64) as usize, rng.below(pool.len() as u64) as usize);
            mutate(&mut rng, &pool[x], &pool[y])
        } else { Default::default() };
        unsafe { (*(&raw mut HIT)).fill(0); }
        let o = run_once(&a.prop, seed, Tail::Prng, script);
        done += 1; k += 1;
        total_ticks += o.ticks; events += o.events;
        hashes.push(o.hash);
        if let Some((c, d)) = &o.violation {
            if let Some(kf) = a.known.iter().find(|(kc, t)| c == kc && d.contains(t.as_str())) { *known_hits.entry(format!("{} {}", kf.0, kf.1)).or_insert(0) += 1; }
            else { code = 10; break; }
        }
        // new reach?
        let mut fresh = false;
        unsafe {
            let n = (NGUARDS as usize + 1).min(MAXG);
            for g in 0..n {
                let x = (*(&raw const HIT))[g];
                if x == 0 { continue; }
                let b = match x { 1 => 1u8, 2..=3 => 2, 4..=15 => 4, 16..=127 => 8, _ => 16 };
                if seen[g] & b == 0 { if seen[g] == 0 { edges += 1; } seen[g] |= b; fresh = true; }
            }
        }
        if fresh && pool.len() < 400 { let c = choices(); if c.iter().map(|v| v.len()).sum::<usize>() < 6000 { pool.push(c); } }
        if done % 16 == 0 && t0.elapsed().as_secs_f64() > a.wall { break; }
    }
    let h = shm();
    if a.out.is_empty() { return code; }
    let mut js = String::new();
    js.push_str(&format!("{{\"done\":{},\"ticks\":{},\"events\":{},\"guided\":{},\"edges\":{},\"guards\":{},\"mem_accesses\":{},\"wall\":{:.3},\"index\":{},\"counts\":{{", done, total_ticks, events, guided, edges, unsafe { NGUARDS }, unsafe { MEM_ACCESSES }, t0.elapsed().as_secs_f64(), h.run_index));
    for (i, (k, v)) in sim().counts.iter().enumerate() { if i > 0 { js.push(','); } js.push_str(&format!("\"{}\":{}", k, v)); }
    js.push_str("},\"known\":{");
    for (i, (k, v)) in known_hits.iter().enumerate() { if i > 0 { js.push(','); } js.push_str(&format!("{:?}:{}", k, v)); }
    js.push_str("}}\n");
    std::fs::write(format!("{}.json", a.out), js).expect("summary");
    hashes.sort_unstable(); hashes.dedup();
    let bytes: Vec<u8> = hashes.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{}.hashes", a.out), bytes).expect("hashes");
    let bytes: Vec<u8> = (0..(unsafe { NGUARDS } as usize + 1).min(MAXG)).map(|g| (seen[g] != 0) as u8).collect();
    std::fs::write(format!("{}.edges", a.out), bytes).expect("edges");
    h.status = 3;
    code
}
pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let p = prop.bytes().fold(0xcbf2u64, |a, b| mix(a, b as u64));
    mix(mix(seed, p), index)
}
