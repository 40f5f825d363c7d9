//! The driver: worker processes, recovery after crashes and hangs, shrinking, replay files,
//! evidence.
use crate::lane::*;
use crate::rt::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write as _;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct Opt(BTreeMap<String, String>);
impl Opt {
    fn parse(a: &[String]) -> Opt {
        let mut m = BTreeMap::new();
        let mut i = 0;
        while i < a.len() {
            if let Some(k) = a[i].strip_prefix("--") {
                if i + 1 < a.len() && !a[i + 1].starts_with("--") { m.insert(k.to_string(), a[i + 1].clone()); i += 2; continue; }
                m.insert(k.to_string(), "1".into());
            } else { m.insert("file".into(), a[i].clone()); }
            i += 1;
        }
        Opt(m)
    }
    fn get(&self, k: &str) -> Option<&str> { self.0.get(k).map(|s| s.as_str()) }
    fn str(&self, k: &str, d: &str) -> String { self.get(k).unwrap_or(d).to_string() }
    fn num(&self, k: &str, d: u64) -> u64 { self.get(k).map(|s| s.parse().unwrap_or(d)).unwrap_or(d) }
    fn f(&self, k: &str, d: f64) -> f64 { self.get(k).map(|s| s.parse().unwrap_or(d)).unwrap_or(d) }
}

fn set_up(shm_path: Option<&str>, mem: bool) {
    map_shm(shm_path);
    init_sim();
    init_arena();
    install_panic_hook();
    sim().mem = mem;
    unsafe {
        prctl(1, 9, 0, 0, 0); // die with the parent
        let room = (12u64 << 30) + if cfg!(jsonsim_mem) { 1 << 44 } else { 0 }; // the shadow of all memory is reserved there
        setrlimit(9, &[room, room]); // address space
        setrlimit(4, &[0, 0]); // no core files
    }
}
/// On a thread with room for the simulator's own recursion.
fn big<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, f).expect("thread").join().unwrap_or_else(|_| { eprintln!("harness error: the simulator panicked: {:?}", unsafe { (*(&raw mut LAST_PANIC)).take() }); unsafe { _exit(3) } }))
}

// ---------------------------------------------------------------- workers

pub fn lane_main(a: &[String]) -> i32 {
    let o = Opt::parse(a);
    set_up(o.get("shm"), o.get("mem").is_some());
    let la = LaneArgs {
        prop: o.str("prop", ""), seed: o.num("seed", 1), lane: o.num("lane", 0), lanes: o.num("lanes", 1), start: o.num("start", 0), runs: o.num("runs", 100), wall: o.f("wall", 60.0),
        out: o.str("out", ""), known: read_known(&o.str("known", ""), &o.str("prop", "")),
    };
    big(|| lane(&la))
}

pub fn trace_main(a: &[String]) -> i32 {
    let o = Opt::parse(a);
    set_up(None, o.get("mem").is_some());
    let prop = o.str("prop", "C01");
    let seed = run_seed(o.num("seed", 1), &prop, o.num("index", 0));
    sim().tracing = true;
    let out = big(|| run_once(&prop, seed, Tail::Prng, Default::default()));
    for l in &sim().trace { println!("{}", l); }
    println!("run {:016x} {:?} ticks {} events {}", out.hash, out.violation, out.ticks, out.events);
    0
}

/// `known: property=C01 class=x match=text` lines of the known-findings file.
fn read_known(path: &str, prop: &str) -> Vec<(String, String)> {
    let mut r = vec![];
    if let Ok(t) = std::fs::read_to_string(path) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("known: ") {
                let mut it = x.splitn(3, ' ');
                let (p, c, m) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == format!("property={}", prop) { r.push((c.trim_start_matches("class=").to_string(), m.trim_start_matches("match=").to_string())); }
            }
        }
    }
    r
}

// ---------------------------------------------------------------- processes and their ends

#[derive(Clone, Debug, PartialEq)]
enum End { Code(i32), Signal(i32), Hang, Endless }

fn cpu_and_state(pid: u32) -> Option<(u64, bool)> {
    // (jiffies, any task runnable)
    let st = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &st[st.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let cpu = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    let mut runnable = false;
    if let Ok(d) = std::fs::read_dir(format!("/proc/{}/task", pid)) {
        for t in d.flatten() {
            if let Ok(s) = std::fs::read_to_string(t.path().join("stat")) {
                if let Some(i) = s.rfind(')') { let c = s.as_bytes().get(i + 2).copied().unwrap_or(b'S'); if c != b'S' { runnable = true; } }
            }
        }
    }
    Some((cpu, runnable))
}
/// Watches one process that runs simulations over the given shared block.
struct Watch { pid: u32, beat: u64, run: u64, cpu: u64, since: Instant, quiet: u32 }
impl Watch {
    fn new(pid: u32) -> Watch { Watch { pid, beat: u64::MAX, run: u64::MAX, cpu: 0, since: Instant::now(), quiet: 0 } }
    /// Some(end) if it will make no more progress.
    fn look(&mut self, h: &Shm) -> Option<End> {
        let (beat, run) = (h.heartbeat, h.run_index);
        let (cpu, runnable) = cpu_and_state(self.pid)?;
        if beat != self.beat || run != self.run || h.status != 1 {
            self.beat = beat; self.run = run; self.cpu = cpu; self.since = Instant::now(); self.quiet = 0;
            return None;
        }
        if runnable || cpu > self.cpu + 1 { self.quiet = 0; } else { self.quiet += 1; }
        // every task asleep at every look for four seconds
        if self.quiet >= 40 && self.since.elapsed() > Duration::from_secs(4) { return Some(End::Hang); }
        // or busy for a minute of processor time without a single event of the simulation
        if cpu > self.cpu + 6000 { return Some(End::Endless); }
        if runnable && cpu > self.cpu { self.quiet = 0; }
        None
    }
}
fn status_of(st: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    match st.signal() { Some(s) => End::Signal(s), None => match st.code() { Some(77) => End::Endless, Some(78) => End::Hang, c => End::Code(c.unwrap_or(-1)) } }
}
fn class_of_end(e: &End, h: &Shm) -> Option<(String, String)> {
    let at = String::from_utf8_lossy(&h.where_[..(h.where_len as usize).min(128)]).into_owned();
    match e {
        End::Signal(9) => None,
        End::Signal(s) => { let n = match s { 11 => "segmentation fault", 7 => "bus error", 6 => "abort", 4 => "illegal instruction", 8 => "arithmetic trap", _ => "signal" }; Some((format!("crash:{}", n.replace(' ', "-")), format!("the process died of signal {} ({}) during {}", s, n, at))) }
        End::Hang => Some(("hang".into(), format!("every thread of the run waits for ever during {}", at))),
        End::Endless => Some(("endless".into(), format!("{} does not come to an end (more than {} steps)", at, TICK_LIMIT))),
        End::Code(_) => None,
    }
}
/// Does this kind of ending count for the check of memory safety?
fn counts_for(prop: &str, class: &str) -> bool { prop != "C12" || class.starts_with("crash") || class.starts_with("memory:") }
fn shm_at(path: &str) -> &'static mut Shm {
    // several blocks are mapped in the parent; only this one is needed here
    let keep = unsafe { SHM };
    map_shm(Some(path));
    let r = shm();
    unsafe { SHM = keep; }
    r
}
fn choices_of(h: &Shm) -> [Vec<u32>; NS] { std::array::from_fn(|i| h.data[i][..(h.lens[i] as usize).min(CAP)].to_vec()) }

// ---------------------------------------------------------------- replay files

struct Replay { prop: String, build: String, class: String, hash: u64, seed: u64, index: u64, detail: String, script: [Vec<u32>; NS], before: Option<[u64; 4]> }
fn write_replay(path: &str, r: &Replay, trace: &[String]) {
    let mut s = format!("jsonsim-replay 1\nproperty {}\nbuild {}\nclass {}\nhash {:016x}\nseed {}\nindex {}\n", r.prop, r.build, r.class, r.hash, r.seed, r.index);
    for i in 0..NS { s.push_str(SNAMES[i]); for x in &r.script[i] { s.push_str(&format!(" {}", x)); } s.push('\n'); }
    if let Some([lane, lanes, start, vseed]) = r.before { s.push_str(&format!("before {} {} {} {}\n", lane, lanes, start, vseed)); }
    s.push_str(&format!("detail {}\n", r.detail.replace('\n', "\\n")));
    for l in trace { s.push_str("# "); s.push_str(&l.replace('\n', "\\n")); s.push('\n'); }
    // code that breaks the rules of the language may have put anything into a string
    std::fs::write(path, String::from_utf8_lossy(s.as_bytes()).as_bytes()).expect("replay file");
}
fn read_replay(path: &str) -> Option<Replay> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut r = Replay { prop: String::new(), build: String::new(), class: String::new(), hash: 0, seed: 0, index: 0, detail: String::new(), script: Default::default(), before: None };
    if !t.starts_with("jsonsim-replay 1") { return None; }
    for l in t.lines() {
        if l.starts_with("# ") { continue; }
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "property" => r.prop = v.into(), "build" => r.build = v.into(), "class" => r.class = v.into(), "hash" => r.hash = u64::from_str_radix(v, 16).ok()?,
            "seed" => r.seed = v.parse().ok()?, "index" => r.index = v.parse().ok()?, "detail" => r.detail = v.into(),
            "before" => { let n: Vec<u64> = v.split(' ').filter_map(|x| x.parse().ok()).collect(); r.before = n.try_into().ok(); }
            _ => if let Some(i) = SNAMES.iter().position(|n| *n == k) { r.script[i] = v.split_whitespace().filter_map(|x| x.parse().ok()).collect(); },
        }
    }
    Some(r)
}

/// Runs a script in a child process of this one.
fn attempt(prop: &str, script: &[Vec<u32>; NS], hash: Option<&mut u64>) -> Option<String> {
    attempt_of(prop, hash, 60, &mut || { let s = script.clone(); let p = prop.to_string(); big(move || { run_once(&p, 0, Tail::Zero, s); }); })
}
/// The same for a run that needs those performed before it in its process (code that reads
/// memory it does not own finds there what earlier runs have left).
fn attempt_lane(r: &Replay, b: [u64; 4], hash: Option<&mut u64>) -> Option<String> {
    let la = LaneArgs { prop: r.prop.clone(), seed: b[3], lane: b[0], lanes: b[1], start: b[2], runs: r.index / b[1] + 1, wall: 1e9, out: String::new(), known: vec![] };
    attempt_of(&r.prop, hash, 400, &mut || { big(|| lane(&la)); })
}
fn attempt_of(_prop: &str, hash: Option<&mut u64>, seconds: u64, f: &mut dyn FnMut()) -> Option<String> {
    let h = shm();
    h.has_viol = 0; h.status = 1; h.run_index = h.run_index.wrapping_add(1); h.where_len = 0; h.lens = [0; NS];
    let _ = std::io::stdout().flush();
    let pid = unsafe { fork() };
    if pid == 0 {
        f();
        unsafe { _exit(0) }
    }
    let mut w = Watch::new(pid as u32);
    let mut st = 0;
    let t0 = Instant::now();
    let mut n = 0u32;
    let end = loop {
        let r = unsafe { waitpid(pid, &mut st, 1) };
        if r == pid { break if st & 0x7f != 0 { End::Signal(st & 0x7f) } else if (st >> 8) & 0xff == 77 { End::Endless } else if (st >> 8) & 0xff == 78 { End::Hang } else { End::Code((st >> 8) & 0xff) }; }
        if r < 0 { break End::Code(99); }
        n += 1;
        if n < 200 { unsafe { usleep(50 + n * 5); } } else {
            unsafe { usleep(100_000); }
            if let Some(e) = w.look(h) { unsafe { kill(pid, 9); waitpid(pid, &mut st, 0); } break e; }
            if t0.elapsed() > Duration::from_secs(seconds) { unsafe { kill(pid, 9); waitpid(pid, &mut st, 0); } break End::Code(98); }
        }
    };
    if let Some(x) = hash { *x = h.trace_hash; }
    if h.has_viol == 1 { return Some(String::from_utf8_lossy(&h.class[..h.class_len as usize]).into_owned()); }
    class_of_end(&end, h).map(|c| c.0)
}

/// Shrinks a script while the violation stays of the same class.
fn shrink(prop: &str, class: &str, script: [Vec<u32>; NS], budget: Duration) -> ([Vec<u32>; NS], u64) {
    let t0 = Instant::now();
    let mut best = script;
    let mut tries = 0u64;
    let slow = class == "hang" || class == "endless";
    let max = if slow { 12 } else { u64::MAX };
    let ok = |s: &[Vec<u32>; NS], tries: &mut u64| -> bool { *tries += 1; attempt(prop, s, None).as_deref() == Some(class) };
    let left = |tries: u64| t0.elapsed() < budget && tries < max;
    loop {
        let before: usize = best.iter().map(|v| v.len() + v.iter().map(|x| (32 - x.leading_zeros()) as usize).sum::<usize>()).sum();
        // whole streams to zero, then the shortest sufficient prefix
        for i in 0..NS {
            if best[i].is_empty() || !left(tries) { continue; }
            let mut c = best.clone(); c[i].clear();
            if ok(&c, &mut tries) { best = c; continue; }
            let (mut lo, mut hi) = (0, best[i].len());
            while lo + 1 < hi && left(tries) { let mid = (lo + hi) / 2; let mut c = best.clone(); c[i].truncate(mid); if ok(&c, &mut tries) { best = c; hi = mid; } else { lo = mid; } }
        }
        // remove and zero pieces
        for i in [0usize, 2, 3, 1, 4] {
            let mut n = best[i].len().div_ceil(2).max(1);
            while n >= 1 && left(tries) {
                let mut p = 0;
                while p < best[i].len() && left(tries) {
                    let e = (p + n).min(best[i].len());
                    let mut c = best.clone(); c[i].drain(p..e);
                    if ok(&c, &mut tries) { best = c; continue; }
                    if best[i][p..e].iter().any(|x| *x != 0) {
                        let mut c = best.clone(); for x in &mut c[i][p..e] { *x = 0; }
                        if ok(&c, &mut tries) { best = c; }
                    }
                    p = e;
                }
                if n == 1 { break; }
                n /= 2;
            }
        }
        // smaller choices
        for i in 0..NS {
            for p in 0..best[i].len() {
                if p >= best[i].len() { break; }
                let mut v = best[i][p];
                while v > 0 && left(tries) {
                    let mut c = best.clone(); c[i][p] = v / 2;
                    if ok(&c, &mut tries) { best = c; v /= 2; continue; }
                    let mut c = best.clone(); c[i][p] = v - 1;
                    if ok(&c, &mut tries) { best = c; v -= 1; if v < 20 { continue; } }
                    break;
                }
            }
        }
        for v in best.iter_mut() { while v.last() == Some(&0) { v.pop(); } }
        let after: usize = best.iter().map(|v| v.len() + v.iter().map(|x| (32 - x.leading_zeros()) as usize).sum::<usize>()).sum();
        if after >= before || !left(tries) { break; }
    }
    (best, tries)
}

/// Reads a raw replay file, shrinks it and writes it back (if it is reproducible).
pub fn shrink_main(a: &[String]) -> i32 {
    let o = Opt::parse(a);
    set_up(None, o.get("mem").is_some());
    let path = o.str("file", "");
    let Some(r) = read_replay(&path) else { eprintln!("no replay file"); return 2 };
    let mut hash = 0;
    if attempt(&r.prop, &r.script, Some(&mut hash)).as_deref() != Some(r.class.as_str()) { eprintln!("not reproducible: {} gives {:?}", r.class, attempt(&r.prop, &r.script, None)); return 4; }
    let (script, tries) = shrink(&r.prop, &r.class, r.script, Duration::from_secs_f64(o.f("budget", 20.0)));
    // once more, for its hash and its words
    let mut hash = 0;
    if attempt(&r.prop, &script, Some(&mut hash)).as_deref() != Some(r.class.as_str()) { return 4; }
    let h = shm();
    let detail = if h.has_viol == 1 { String::from_utf8_lossy(&h.viol[..h.viol_len as usize]).into_owned() } else { r.detail.clone() };
    if h.has_viol == 0 { hash = 0; }
    let lens: Vec<usize> = script.iter().map(|v| v.len()).collect();
    let rep = Replay { script, hash, detail, ..r };
    // its trace, if the run survives
    let mut trace = vec![format!("minimised in {} attempts; choices per stream {:?}", tries, lens)];
    if hash != 0 { sim().tracing = true; let (p, s) = (rep.prop.clone(), rep.script.clone()); big(move || { run_once(&p, 0, Tail::Zero, s); }); trace.append(&mut sim().trace); }
    write_replay(&path, &rep, &trace);
    0
}

pub fn replay_main(a: &[String]) -> i32 {
    let o = Opt::parse(a);
    let path = o.str("file", "");
    let Some(r) = read_replay(&path) else { eprintln!("no replay file"); return 2 };
    if o.get("build-of").is_some() { println!("{}", r.build); return 0; }
    set_up(None, r.build == "mem");
    let quiet = o.get("quiet").is_some();
    let mut hash = 0;
    let class = match r.before { Some(b) => attempt_lane(&r, b, Some(&mut hash)), None => attempt(&r.prop, &r.script, Some(&mut hash)) };
    if o.get("settle").is_some() {
        // the record becomes what a fresh process makes of it
        let Some(c) = class else { return 0 };
        if !counts_for(&r.prop, &c) { return 0; }
        let h = shm();
        let (detail, hash) = if h.has_viol == 1 { (String::from_utf8_lossy(&h.viol[..h.viol_len as usize]).into_owned(), hash) } else { (r.detail.clone(), 0) };
        write_replay(&path, &Replay { class: c, detail, hash, ..r }, &["not minimised: the run reads memory that is not its own".to_string()]);
        return 1;
    }
    let exact = class.as_deref() == Some(r.class.as_str()) && (r.hash == 0 || r.hash == hash);
    if !quiet {
        if r.before.is_some() {
            println!("{}: {}", r.class, r.detail);
        } else if shm().has_viol == 1 {
            sim().tracing = true;
            let (p, s) = (r.prop.clone(), r.script.clone());
            big(move || { run_once(&p, 0, Tail::Zero, s); });
            for l in &sim().trace { println!("{}", l); }
            if let Some((c, d)) = &sim().violation { println!("{}: {}", c, d); }
        } else {
            sim().tracing = true; sim().live_trace = true;
            attempt(&r.prop, &r.script, None);
            sim().tracing = false; sim().live_trace = false;
            println!("ended as {:?}", class);
        }
        println!("{}", if exact { "reproduced exactly" } else { "NOT reproduced as recorded" });
    }
    match class {
        Some(c) if counts_for(&r.prop, &c) => { println!("VIOLATION property={} replay={}", r.prop, path); if exact { 1 } else { 5 } }
        _ => 0,
    }
}

// ---------------------------------------------------------------- the check

struct Worker { child: Child, watch: Watch, build: String, lane: u64, dir: String, h: &'static mut Shm, segments: u32, start: u64, done: bool }

pub fn check(a: &[String]) -> i32 {
    let o = Opt::parse(a);
    let prop = o.str("prop", "C01");
    let tier = o.str("tier", "quick");
    let seed = o.num("seed", 1);
    let runs = o.num("runs", 1000);
    let wall = o.f("wall", 60.0);
    let out = o.str("out", "/verif/out");
    let evidence = o.str("evidence", "/verif/evidence");
    let known_file = o.str("known", "/verif/known_findings.txt");
    let builds: Vec<(String, String)> = o.str("bins", "").split(',').filter_map(|x| x.split_once('=').map(|(a, b)| (a.to_string(), b.to_string()))).collect();
    let plan: Vec<String> = o.str("plan", "dev,release").split(',').map(|s| s.to_string()).collect();
    let bin = |b: &str| builds.iter().find(|x| x.0 == b).map(|x| x.1.clone()).unwrap_or_else(|| panic!("no binary for {}", b));
    let t0 = Instant::now();
    let work = format!("{}/work-{}-{}", out, prop, std::process::id());
    std::fs::create_dir_all(&work).expect("work directory");
    std::fs::create_dir_all(&evidence).expect("evidence directory");
    let lanes = plan.len() as u64;
    let spawn = |lane: u64, build: &str, start: u64, seg: u32, wall: f64| -> Child {
        let dir = format!("{}/lane{}", work, lane);
        let mut c = Command::new(bin(build));
        c.arg("lane").args(["--prop", &prop, "--seed", &seed.to_string(), "--lane", &lane.to_string(), "--lanes", &lanes.to_string(), "--start", &start.to_string(), "--runs", &runs.to_string(),
            "--wall", &format!("{}", wall), "--shm", &format!("{}.shm", dir), "--out", &format!("{}.{}", dir, seg), "--known", &known_file]);
        if build == "mem" { c.arg("--mem"); }
        c.stdin(Stdio::null()).stdout(Stdio::null());
        c.spawn().expect("worker")
    };
    let mut ws: Vec<Worker> = vec![];
    for (i, b) in plan.iter().enumerate() {
        let dir = format!("{}/lane{}", work, i);
        let h = shm_at(&format!("{}.shm", dir));
        h.status = 0; h.run_index = 0; h.has_viol = 0;
        let child = spawn(i as u64, b, 0, 0, wall);
        let pid = child.id();
        ws.push(Worker { child, watch: Watch::new(pid), build: b.clone(), lane: i as u64, dir, h, segments: 1, start: 0, done: false });
    }
    // until all have ended or one has found something
    let mut found: Option<Replay> = None;
    let mut harness: Option<String> = None;
    let mut lost = 0u64;
    'all: loop {
        std::thread::sleep(Duration::from_millis(100));
        let mut alive = false;
        for w in ws.iter_mut() {
            if w.done { continue; }
            let end = match w.child.try_wait() {
                Ok(Some(st)) => Some(status_of(st)),
                Ok(None) => match w.watch.look(w.h) { Some(e) => { let _ = w.child.kill(); let _ = w.child.wait(); Some(e) } None => None },
                Err(e) => { harness = Some(format!("cannot wait for a worker: {}", e)); break 'all; }
            };
            let Some(end) = end else { alive = true; continue };
            let rep = |class: String, detail: String, h: &Shm| Replay { prop: prop.clone(), build: w.build.clone(), class, hash: 0, seed: h.run_seed, index: h.run_index, detail, script: choices_of(h), before: Some([w.lane, lanes, w.start, seed]) };
            match &end {
                End::Code(0) => { w.done = true; }
                End::Code(10) => {
                    let h = &*w.h;
                    found = Some(rep(String::from_utf8_lossy(&h.class[..h.class_len as usize]).into_owned(), String::from_utf8_lossy(&h.viol[..h.viol_len as usize]).into_owned(), h));
                    break 'all;
                }
                e => match class_of_end(e, w.h) {
                    Some((c, d)) if w.h.status == 1 || w.h.status == 2 => {
                        if counts_for(&prop, &c) { found = Some(rep(c, d, w.h)); break 'all; }
                        // not what this check decides: go on behind that run
                        lost += 1;
                        let next = w.h.run_index / lanes + 1;
                        if w.segments < 20 && t0.elapsed().as_secs_f64() < wall {
                            let child = spawn(w.lane, &w.build, next, w.segments, wall - t0.elapsed().as_secs_f64());
                            w.watch = Watch::new(child.id()); w.child = child; w.segments += 1; w.start = next; alive = true;
                        } else { w.done = true; }
                    }
                    _ => { harness = Some(format!("worker {} ended as {:?} outside a run", w.lane, e)); break 'all; }
                },
            }
        }
        if !alive && ws.iter().all(|w| w.done) { break; }
        if t0.elapsed().as_secs_f64() > wall + 120.0 {
            // slow, but the watch saw it move: a run without a verdict, as the evidence says
            for w in ws.iter().filter(|w| !w.done) { lost += 1; println!("{}: run {} of seed {} (build {}) takes too long and is given up", prop, w.h.run_index, seed, w.build); }
            break;
        }
    }
    for w in ws.iter_mut() { if !w.done { let _ = w.child.kill(); let _ = w.child.wait(); } }
    let mut code = 0;
    let mut lines: Vec<String> = vec![];
    let mut violations = 0;
    if let Some(r) = &found {
        if r.class.starts_with("harness:") { harness = Some(format!("{}: {}", r.class, r.detail)); }
        else {
            let path = format!("{}/{}-{}.replay", out, prop, r.class.replace(|c: char| !c.is_ascii_alphanumeric(), "-"));
            let alone = Replay { before: None, script: r.script.clone(), prop: r.prop.clone(), build: r.build.clone(), class: r.class.clone(), detail: r.detail.clone(), ..*r };
            write_replay(&path, &alone, &["as found, not minimised".to_string()]);
            let mut c = Command::new(bin(&r.build));
            c.arg("shrink").arg(&path).args(["--budget", &format!("{}", o.f("shrink", 20.0))]);
            if r.build == "mem" { c.arg("--mem"); }
            let st = c.stdin(Stdio::null()).stderr(Stdio::null()).status();
            let mini = matches!(&st, Ok(s) if s.success());
            // it must happen again in a fresh process
            let replay = |extra: &[&str]| -> bool {
                let mut c = Command::new(bin(&r.build));
                let st = c.arg("replay").arg(&path).args(extra).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
                matches!(st.ok().and_then(|s| s.code()), Some(1))
            };
            let mut again = replay(&["--quiet"]);
            if !again {
                // Code that reads what is not its own need not fail the same way in another
                // process: take down how it fails there, alone or behind the runs before it.
                for before in [None, r.before] {
                    let rec = Replay { before, script: r.script.clone(), prop: r.prop.clone(), build: r.build.clone(), class: r.class.clone(), detail: r.detail.clone(), ..*r };
                    write_replay(&path, &rec, &[]);
                    again = (replay(&["--quiet", "--settle"]) && replay(&["--quiet"])) || (replay(&["--quiet", "--settle"]) && replay(&["--quiet"]));
                    if again { break; }
                }
            }
            if !again { harness = Some(format!("{} ({}) was found in run {} but does not replay", r.class, r.detail, r.index)); }
            else {
                let fin = read_replay(&path).map(|x| x.detail).unwrap_or_default();
                violations = 1;
                code = 1;
                lines.push(format!("{} build, run {} of seed {}: {}: {}{}", r.build, r.index, seed, r.class, clip(&fin, 1500), if mini { "" } else { " (not minimised)" }));
                lines.push(format!("VIOLATION property={} replay={}", prop, path));
            }
        }
    }
    // what was covered
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let (mut done, mut ticks, mut events, mut guided, mut guards, mut memacc) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut edges: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut busy = 0.0f64;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for w in &ws {
        for s in 0..w.segments {
            let base = format!("{}.{}", w.dir, s);
            let Ok(j) = std::fs::read_to_string(format!("{}.json", base)) else { continue };
            let num = |k: &str| -> f64 { j.find(&format!("\"{}\":", k)).map(|i| { let t = &j[i + k.len() + 3..]; let e = t.find([',', '}']).unwrap_or(t.len()); t[..e].parse().unwrap_or(0.0) }).unwrap_or(0.0) };
            done += num("done") as u64; ticks += num("ticks") as u64; events += num("events") as u64; guided += num("guided") as u64; memacc += num("mem_accesses") as u64; busy += num("wall");
            guards = guards.max(num("guards") as u64);
            for (part, to) in [("\"counts\":{", &mut counts), ("\"known\":{", &mut known)] {
                if let Some(i) = j.find(part) {
                    let t = &j[i + part.len()..];
                    let e = t.find('}').unwrap_or(0);
                    for kv in t[..e].split(',') { if let Some((k, v)) = kv.rsplit_once(':') { *to.entry(k.trim_matches('"').to_string()).or_insert(0) += v.parse::<u64>().unwrap_or(0); } }
                }
            }
            if let Ok(b) = std::fs::read(format!("{}.hashes", base)) { for c in b.chunks_exact(8) { hashes.insert(u64::from_le_bytes(c.try_into().unwrap())); } }
            if let Ok(b) = std::fs::read(format!("{}.edges", base)) { let e = edges.entry(w.build.clone()).or_insert_with(|| vec![0; b.len()]); for (x, y) in e.iter_mut().zip(b) { *x |= y; } }
        }
    }
    for (k, n) in &known { println!("KNOWN-FINDING: property={} {} (met {} times)", prop, k, n); }
    // two runs written out
    let mut samples: Vec<String> = vec![];
    for i in 0..2u64 {
        let b = &plan[0];
        let mut c = Command::new(bin(b));
        c.arg("trace").args(["--prop", &prop, "--seed", &seed.to_string(), "--index", &(i * 3 + 1).to_string()]);
        if b == "mem" { c.arg("--mem"); }
        if let Ok(x) = c.stdin(Stdio::null()).output() {
            let t = String::from_utf8_lossy(&x.stdout).into_owned();
            let ls: Vec<&str> = t.lines().filter(|l| !l.is_empty()).collect();
            let mut s: Vec<String> = ls.iter().take(14).map(|l| clip(l, 160)).collect();
            if ls.len() > 15 { s.push(format!("... {} more events", ls.len() - 15)); }
            if let Some(l) = ls.last() { s.push(l.to_string()); }
            samples.push(format!("run {} of seed {}: {}", i * 3 + 1, seed, s.join(" | ")));
        }
    }
    let el = t0.elapsed().as_secs_f64();
    let fault_names = ["allocations_refused", "writer_interrupted", "short_writes", "writer_failures", "writer_panics", "generator_errors", "generator_panics", "conversion_panics", "key_panics", "iterator_panics", "comparison_panics", "loop_panics",
        "cuts", "hostile_neighbours", "crashes", "crash_lost_tail", "crash_torn_tail", "crash_zero_sectors", "crash_stale_tail", "crash_all_arrived", "disk_syncs", "torn_records", "damage_bit_flip", "damage_lost_byte", "damage_byte", "damage_lost_run", "damage_zeroed",
        "damage_duplicated", "damage_spliced", "damage_cut", "damage_inserted", "damage_swapped", "damage_tail", "damage_not_text", "sched_switches", "reentrant_calls", "client_stalled", "lock_waits", "alloc_grown_moved", "alloc_grown_in_place", "alloc_block_reused", "beyond_limit", "expression_panics", "sink_failures", "sink_panics"];
    let mut js = String::new();
    js.push_str(&format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n", q(&prop), q(&tier), seed));
    js.push_str(&format!("  \"evaluations\": {}, \"distinct_nontrivial\": {},\n", done, hashes.len()));
    js.push_str(&format!("  \"rule\": {},\n", q("one evaluation is one simulated run, decided entirely by its seed (or, for guided runs, by a mutated record of an earlier run's choices followed by its seed); two runs count as distinct when the hashes of their histories of events (operations, faults, scheduling switches, results) differ; runs whose set-up was abandoned have no operations and all hash alike")));
    js.push_str(&format!("  \"samples\": [{}],\n", samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")));
    js.push_str(&format!("  \"runs_per_hour\": {}, \"seeds_per_hour\": {}, \"guided_runs\": {}, \"runs_ended_outside_this_property\": {},\n", (done as f64 / el.max(0.001) * 3600.0) as u64, ((done - guided.min(done)) as f64 / el.max(0.001) * 3600.0) as u64, guided, lost));
    js.push_str(&format!("  \"simulated_time\": {}, \"simulated_ticks\": {}, \"events\": {}, \"distinct_histories\": {},\n", q("one tick per basic block of the code under test, plus allocator and writer calls; the library has no clock of its own"), ticks, events, hashes.len()));
    js.push_str(&format!("  \"faults_injected\": {{{}}},\n", fault_names.iter().filter_map(|n| counts.get(*n).map(|v| format!("{}: {}", q(n), v))).collect::<Vec<_>>().join(", ")));
    js.push_str(&format!("  \"other_counts\": {{{}}},\n", counts.iter().filter(|(k, _)| !fault_names.contains(&k.as_str())).map(|(k, v)| format!("{}: {}", q(k), v)).collect::<Vec<_>>().join(", ")));
    js.push_str(&format!("  \"basic_blocks_reached\": {{{}}}, \"basic_blocks_total_last_build\": {}, \"checked_memory_accesses\": {},\n", edges.iter().map(|(k, v)| format!("{}: {}", q(k), v.iter().filter(|x| **x != 0).count())).collect::<Vec<_>>().join(", "), guards, memacc));
    js.push_str(&format!("  \"workers\": {}, \"worker_seconds\": {:.1},\n", q(&plan.join(",")), busy));
    js.push_str(&format!("  \"real_components\": {}, \"simulated_components\": {}\n }},\n", q("the whole json crate, compiled from /repo's working tree, with the standard library's collections and real OS threads"), q("the callers (clients, conversions, iterators, keys, comparisons, generators), their writers, the disk, the global allocator, the scheduler that decides which thread runs, hash-map seeds")));
    js.push_str(&format!(" \"assumptions\": [{}],\n", q("preemption happens at basic-block boundaries of the json crate, at allocator calls and at call-backs; memory is sequentially consistent between them")));
    js.push_str(&format!(" \"wall_s\": {:.2}, \"violations\": {}\n}}\n", el, violations));
    std::fs::write(format!("{}/{}.json", evidence, prop), js).expect("evidence");
    let _ = std::fs::remove_dir_all(&work);
    for l in lines { println!("{}", l); }
    if let Some(h) = harness { eprintln!("harness error: {}", h); return 2; }
    if code == 0 { println!("{}: held on {} simulated runs ({} distinct histories, {} s)", prop, done, hashes.len(), el as u64); }
    code
}
fn clip(s: &str, n: usize) -> String { if s.len() <= n { return s.to_string(); } let mut e = n; while !s.is_char_boundary(e) { e -= 1; } format!("{}...", &s[..e]) }
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"'); o
}
