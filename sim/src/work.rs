//! C19: the work and the memory that calls take grow with the data and no faster.
//!
//! A run draws a kind of document or history and carries it out twice, the second time eight
//! times as large.  Work is counted in basic blocks entered and memory moved (the "cost" build
//! compiles the standard library's `core` and `alloc` with the call-backs too), so the figures
//! are exact and the same on every machine.  What is linear stays so; what is not shows in the
//! ratio.  An alarm needs both a ratio well above the sizes' and work far above what that kind
//! of call takes today.
use crate::rt::*;
use json::object::Object;
use json::JsonValue;
use std::io::{self, Write};
use surface as f;

struct Stage { name: &'static str, work: u64, peak: u64, size: f64 }
/// Stages of one pass; the peak of memory is measured within the stage.
struct Meter { stages: Vec<Stage> }
impl Meter {
    fn stage<T>(&mut self, name: &'static str, size: impl FnOnce(&T) -> f64, g: impl FnOnce() -> T) -> Option<T> {
        let a = arena();
        let live = a.live_bytes;
        a.peak = live;
        let t = unsafe { TICKS };
        let r = g();
        let work = unsafe { TICKS } - t;
        if failed() { return None; }
        self.stages.push(Stage { name, work, peak: arena().peak.saturating_sub(live), size: size(&r).max(64.0) });
        Some(r)
    }
}
/// Ticks and bytes of memory per unit of size that a kind of call may take at most, however it is
/// written: several times what it takes today.
fn allowed(name: &str) -> (f64, f64) {
    match name {
        "parse" => (160.0, 480.0),
        "dump" | "display" | "display-pretty" | "pretty" | "write" | "write_pretty" | "stringify" => (14.0, 64.0),
        "clone" | "clone_from" | "drop" | "eq" => (16.0, 40.0),
        "walk" | "index" | "long-keys" | "clone-long-keys" | "dump-long-keys" | "drop-long-keys" => (6.0, 8.0),
        "from-string" | "from-str" | "eq-string" | "clone-string" | "drop-string" => (2.0, 8.0),
        "string-history" => (6.0, 8.0),
        "fill-array" | "clone-array" | "from-slice" | "from-vec" | "array-history" | "eq-array" | "drop-array" | "clear-array" => (64.0, 480.0),
        "dump-array" | "dump-object" => (24.0, 64.0),
        "clone-object" | "drop-object" | "clear-object" | "walk-object" => (100.0, 480.0),
        "fill-object" | "collect" | "from-map" | "eq-object" | "refill" => (24.0, 32.0),
        "object-history" => (50.0, 32.0),
        "nested-push" | "turns" => (16.0, 24.0),
        "remove" => (24.0, 100.0),
        "array_remove" | "contains" => (32.0, 100.0),
        "debug" => (24.0, 64.0),
        "numbers" => (2000.0, 100.0),
        _ => panic!("no figure for {}", name),
    }
}
/// What a lookup among `n` entries may cost.  Keys that end in numbers that count up make trees of
/// about the square of the logarithm in depth.
fn depth(n: usize) -> f64 { let l = ((n + 4) as f64).log2(); l * l }

pub fn c19() -> Option<()> {
    // choices of the allocator would be too many to write down
    if arena().policy == APolicy::Mixed { arena().policy = pick(S::Alloc, &[APolicy::Lifo, APolicy::Fresh, APolicy::InPlace]); }
    let calibrate = std::env::var_os("JSONSIM_WORK").is_some();
    let what = weighted(S::Ops, &[5, 3, 3, 2]);
    // sizes spread evenly over the orders of magnitude
    let e = range(S::Data, 0, 63);
    let top = match what { 0 => 600_000.0, _ => 60_000.0 };
    let n0 = (400.0 * (top / 8.0 / 400.0f64).powf(e as f64 / 63.0)) as usize;
    let seed = mix(bits64(S::Data), 19);
    let plan: Box<dyn Fn(usize, usize, &mut Meter) -> Option<()>> = match what {
        0 => document(seed), 1 => array_history(seed), 2 => object_history(seed), _ => conversions(seed),
    };
    ev("work", what as u64, n0 as u64);
    let mut small = Meter { stages: vec![] };
    plan(n0, 1, &mut small)?;
    let mut large = Meter { stages: vec![] };
    plan(n0 * 8, 8, &mut large)?;
    for (i, b) in large.stages.iter().enumerate() {
        count("stages_measured");
        ev(b.name, b.work, b.peak);
        if calibrate { println!("WORK {} {:.3} {:.3} {}", b.name, b.work as f64 / b.size, b.peak as f64 / b.size, b.size as u64); }
        let (kw, km) = allowed(b.name);
        // stages come in the same order; what the small pass did not reach says nothing
        let Some(a) = small.stages.get(i).filter(|a| a.name == b.name) else { continue };
        let r = b.size / a.size;
        if calibrate && a.size > 500.0 && (b.work as f64 / a.work.max(1) as f64 / r > 1.3) { println!("RATIO {} {:.3} work {} {} sizes {} {}", b.name, b.work as f64 / a.work.max(1) as f64 / r, a.work, b.work, a.size as u64, b.size as u64); }
        note(|| format!("{}: {} steps and {} bytes of memory for a size of {:.0}, {} steps and {} bytes for a size of {:.0}", b.name, a.work, a.peak, a.size, b.work, b.peak, b.size));
        ck!(calibrate || !(b.work as f64 > kw * b.size && b.work as f64 > 2.0 * r * a.work as f64), &format!("work:{}", b.name),
            "{} takes {} steps for a size of {:.0}, but {} steps for {:.0} ({:.0} times the work for {:.1} times the data)", b.name, a.work, a.size, b.work, b.size, b.work as f64 / a.work.max(1) as f64, r);
        ck!(calibrate || !(b.peak as f64 > km * b.size + 4096.0 && b.peak as f64 > 2.0 * r * a.peak as f64), &format!("work:memory-{}", b.name),
            "{} needs {} bytes of memory at a time for a size of {:.0}, but {} bytes for {:.0}", b.name, a.peak, a.size, b.peak, b.size);
    }
    Some(())
}

// ---------------------------------------------------------------- documents

fn digits(r: &mut Rng, n: usize, t: &mut String) { for i in 0..n { t.push((b'0' + if i == 0 { 1 + r.below(9) } else { r.below(10) } as u8) as char); } }
/// A key of the given family; different for different `i`.
fn key(family: u64, i: u64, t: &mut String) {
    use std::fmt::Write as W;
    let _ = match family {
        0 => write!(t, "k{}", i),
        1 => write!(t, "{}", i),
        2 => write!(t, "{:08}", i),
        3 => write!(t, "item-{}-of-the-collection", i),
        4 => { let mut x = i; loop { t.push((b'a' + (x % 26) as u8) as char); x /= 26; if x == 0 { break; } } Ok(()) }
        5 => write!(t, "{:016x}{:016x}", mix(i, 5), mix(i, 6)),
        6 => write!(t, "é{}€", i),
        7 => write!(t, "{:o}.name", i),
        8 => { let s: String = i.to_string().chars().rev().collect(); write!(t, "{}_", s) }
        _ => write!(t, "{:032}", i),
    };
}
const FAMILIES: u64 = 10;
fn piece(r: &mut Rng, kind: u64, t: &mut String) {
    match kind {
        0 => { let n = 1 + r.below(19) as usize; digits(r, n, t); }
        1 => { let n = 1 + r.below(4) as usize; digits(r, n, t); t.push('.'); let n = 1 + r.below(12) as usize; digits(r, n, t); }
        2 => { t.push('-'); let n = 1 + r.below(25) as usize; digits(r, n, t); t.push_str("e-"); let n = 1 + r.below(3) as usize; digits(r, n, t); }
        3 => t.push_str(["true", "false", "null"][r.below(3) as usize]),
        4 => { t.push('"'); for _ in 0..r.below(30) { t.push((b'a' + r.below(26) as u8) as char); } t.push('"'); }
        5 => { t.push('"'); for _ in 0..1 + r.below(20) { t.push_str(["\\n", "a", "\\\"", "\\u0041", "\\\\", "é"][r.below(6) as usize]); } t.push('"'); }
        6 => { t.push('"'); for _ in 0..r.below(90) { t.push(['é', '€', '😀', 'x'][r.below(4) as usize]); } t.push('"'); }
        7 => t.push_str("[]"),
        8 => t.push_str("{}"),
        9 => t.push_str("[1,2,3]"),
        10 => t.push_str("{\"id\":1,\"name\":\"x\"}"),
        11 => { t.push_str("\n    1"); }
        12 => { t.push_str("\"\\ud83d\\ude00 and more than thirty bytes of text here\""); }
        13 => { let d = 1 + r.below(40) as usize; for _ in 0..d { t.push('['); } for _ in 0..d { t.push(']'); } }
        _ => { t.push('"'); for _ in 0..200 + r.below(400) { t.push('y'); } t.push('"'); }
    }
}
const PIECES: u64 = 15;

/// A document of about `n` bytes, the number of containers' entries it has, and whether it is one.
fn text(seed: u64, n: usize, scale: usize) -> (String, usize) {
    let mut r = Rng(seed);
    let shape = r.below(22);
    let mut t = String::with_capacity(n + 64);
    let mut keys = 0;
    let fam = r.below(FAMILIES);
    let (pa, pb, pc) = (r.below(PIECES), r.below(PIECES), r.below(PIECES));
    let mut some = |r: &mut Rng, i: usize, t: &mut String| piece(r, [pa, pb, pc][i % 3], t);
    match shape {
        0..=4 => {
            t.push('[');
            let mut i = 0;
            while t.len() + 2 < n { if i > 0 { t.push(','); } some(&mut r, i, &mut t); i += 1; }
            t.push(']');
        }
        5..=7 => {
            t.push('{');
            let mut i = 0;
            while t.len() + 2 < n { if i > 0 { t.push(','); } t.push('"'); key(fam, i as u64, &mut t); t.push_str("\":"); some(&mut r, i, &mut t); i += 1; }
            keys = i;
            t.push('}');
        }
        8 => {
            // a few keys, again and again
            let m = 1 + r.below(40);
            t.push('{');
            let mut i = 0;
            while t.len() + 2 < n { if i > 0 { t.push(','); } t.push('"'); let j = r.below(m); key(fam, j, &mut t); t.push_str("\":"); some(&mut r, i, &mut t); i += 1; }
            t.push('}');
        }
        9 => { t.push('"'); while t.len() + 1 < n { t.push((b'a' + r.below(26) as u8) as char); } t.push('"'); }
        10 => { t.push('"'); let k = r.below(5); while t.len() + 8 < n { t.push_str(["\\n", "\\u20ac", "é", "\\\"x", "\\ud83d\\ude00"][k as usize]); } t.push('"'); }
        11 => { t.push('"'); while t.len() + 8 < n { t.push_str(["\\n", "\\u0000", "aé", "plain text in between", "\\ud83d\\ude00"][r.below(5) as usize]); } t.push('"'); }
        12 => { let k = r.below(4); while t.len() < n / 2 { t.push([' ', '\n', '\t', '\r'][k as usize]); } t.push_str("[1]"); while t.len() < n { t.push([' ', '\n', '\t', '\r'][k as usize]); } }
        13 => { digits(&mut r, n, &mut t); if r.below(2) == 0 { t.push_str("e3"); } }
        14 => { t.push_str(["0.", "-1.", "123.", "0.000"][r.below(4) as usize]); let z = r.below(2) == 0; if z { while t.len() < n { t.push('0'); } } else { digits(&mut r, n, &mut t); } }
        15 => { t.push_str(["1e", "1E-", "0.5e+", "7e-00"][r.below(4) as usize]); digits(&mut r, n, &mut t); }
        16 => {
            t.push('[');
            let d = 1 + r.below(505) as usize;
            let obj = r.below(2) == 0;
            let mut first = true;
            // printed with indentation this is hundreds of times as long
            while t.len() < n / 32 { if !first { t.push(','); } first = false; for _ in 0..d { t.push_str(if obj { "{\"k\":" } else { "[" }); } t.push('1'); for _ in 0..d { t.push(if obj { '}' } else { ']' }); } }
            t.push(']');
        }
        17 => { let k = r.below(3); while t.len() < n { t.push_str(["[", "{\"a\":", "[{\"\":[0,"][k as usize]); } }
        18 => { t.push_str("{\""); let k = r.below(2) == 0; while t.len() + 8 < n { t.push_str(if k { "k" } else { "\\t" }); } t.push_str("\":{}}"); }
        19 | 20 => {
            // as many nests, but deeper
            let d = (8 + r.below(55)) as usize * scale;
            let m = 1 + r.below(3) as usize;
            let (style, beside) = (r.below(3), r.below(4));
            let pieces = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14][r.below(14) as usize];
            t.push('[');
            for i in 0..m {
                if i > 0 { t.push(','); }
                let obj = |j: usize| match style { 0 => false, 1 => true, _ => j % 2 == 0 };
                for j in 0..d {
                    t.push(if obj(j) { '{' } else { '[' });
                    if beside == 1 { if obj(j) { t.push_str("\"a\":"); } piece(&mut r, pieces, &mut t); t.push(','); }
                    if obj(j) { t.push('"'); key(fam, j as u64, &mut t); t.push_str("\":"); }
                }
                piece(&mut r, pieces % 9, &mut t);
                for j in (0..d).rev() {
                    if beside == 2 { t.push(','); if obj(j) { t.push_str("\"z\":"); } piece(&mut r, pieces, &mut t); }
                    t.push(if obj(j) { '}' } else { ']' });
                }
            }
            t.push(']');
        }
        _ => {
            // records
            t.push('[');
            let mut i = 0u64;
            while t.len() + 2 < n { if i > 0 { t.push_str(",\n "); } t.push('{'); for j in 0..4 { if j > 0 { t.push_str(", "); } t.push('"'); key(fam, j, &mut t); t.push_str("\": "); some(&mut r, j as usize, &mut t); } t.push('}'); i += 1; }
            t.push(']');
        }
    }
    (t, keys)
}
/// A writer that takes what it is given in pieces of a fixed pattern.
struct Pieces { every: usize, interrupt: u64, calls: u64, got: usize, fail_at: usize }
impl Write for Pieces {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let _o = Out::new();
        self.calls += 1;
        if self.interrupt > 0 && self.calls % self.interrupt == 0 { return Err(io::ErrorKind::Interrupted.into()); }
        if self.got >= self.fail_at { return Err(io::ErrorKind::StorageFull.into()); }
        let n = b.len().min(self.every);
        self.got += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn document(seed: u64) -> Box<dyn Fn(usize, usize, &mut Meter) -> Option<()>> {
    let damaged = weighted(S::Fault, &[6, 2, 2, 1]);
    let place = range(S::Fault, 0, 1000) as usize;
    let junk = ch(S::Fault, 256) as u8;
    let every = pick(S::Fault, &[usize::MAX, 1, 2, 7, 64, 1000, 4096]);
    let interrupt = pick(S::Fault, &[0u64, 0, 2, 3, 50]);
    let fail = if chance(S::Fault, 1, 5) { range(S::Fault, 0, 1000) as usize } else { 2000 };
    let indent = pick(S::Data, &[0u16, 1, 2, 4, 9]);
    let ops: Vec<usize> = (0..range(S::Ops, 1, 5)).map(|_| ch(S::Ops, 12) as usize).collect();
    if damaged > 0 { count("damaged_documents"); }
    note(|| format!("a document (seed {:#x}), damage {} at {} of 1000, then {:?}; the writer takes {} at a time, interrupts every {}, fails at {} of 1000", seed, damaged, place, ops, every, interrupt, fail));
    Box::new(move |n, scale, m| {
        let (t, keys) = text(seed, n, scale);
        let mut b = t.into_bytes();
        let p = (b.len() as u64 * place as u64 / 1001) as usize;
        match damaged { 0 => {} 1 => b.truncate(p), 2 => b[p] = junk, _ => { b.insert(p, junk); } }
        let t = String::from_utf8_lossy(&b).into_owned();
        drop(b);
        let lookups = keys as f64 * depth(keys);
        let v = m.stage("parse", |_| t.len() as f64 + lookups, || call("parse", || f::parse(&t)))??;
        let mut v = match v { Ok(v) => v, Err(_) => return Some(()) };
        let out = m.stage("dump", |s: &Option<String>| t.len() as f64 + s.as_ref().map_or(0.0, |s| s.len() as f64), || call("dump", || f::dump(&v)))??;
        let size = (t.len() + out.len()) as f64;
        for op in &ops {
            match op {
                0 => { m.stage("pretty", |s: &Option<String>| size + s.as_ref().map_or(0.0, |s| s.len() as f64), || call("pretty", || f::pretty(&v, indent)))??; }
                1 => { m.stage("display", |_| size, || call("display", || f::display(&v, false)))??; }
                2 => { m.stage("display-pretty", |s: &Option<String>| size + s.as_ref().map_or(0.0, |s| s.len() as f64), || call("display", || f::display(&v, true)))??; }
                3 | 4 => {
                    let at = if fail > 1000 { usize::MAX } else { out.len() * fail / 1000 };
                    let mut w = Pieces { every, interrupt, calls: 0, got: 0, fail_at: at };
                    if *op == 3 { m.stage("write", |x: &(Option<io::Result<()>>, u64, usize)| size + x.1 as f64, || { let r = call("write", || f::write(&v, &mut w)); (r, w.calls, w.got) })?.0?.is_ok(); }
                    else { m.stage("write_pretty", |x: &(Option<io::Result<()>>, u64, usize)| size + x.1 as f64 + x.2 as f64, || { let r = call("write_pretty", || f::write_pretty(&v, &mut w, indent)); (r, w.calls, w.got) })?.0?.is_ok(); }
                    if w.calls > 0 && every < 5000 { count("writers_in_pieces"); }
                    if at != usize::MAX { count("writer_failures"); }
                }
                5 => { let c = m.stage("clone", |_| size, || call("clone", || f::clone_value(&v)))??; m.stage("drop", |_| size, || call("drop", || f::drop_value(c)))??; }
                6 => {
                    let c = m.stage("clone", |_| size, || call("clone", || f::clone_value(&v)))??;
                    let same = m.stage("eq", |_| size + lookups, || call("eq", || f::eq(&c, &v)))??;
                    note(|| format!("equal: {}", same));
                    // the copy may be what lives on
                    let old = std::mem::replace(&mut v, c);
                    m.stage("drop", |_| size, || call("drop", || f::drop_value(old)))??;
                }
                7 => { let mut n = 0; m.stage("walk", |_| size, || call("walk", || { f::v_walk(&v, 0x5a5a_0000_ffff_a5a5, &mut |_, _, x| n += x.is_some() as usize); f::members_mut(&mut v, true, &mut |_, _| n += 1) }))??; note(|| format!("{} members", n)); }
                8 => {
                    let len = call("len", || v.len())?;
                    m.stage("index", |_| 10.0 * len as f64, || { for i in 0..len { call("index", || { f::index_usize(&v, i).is_null(); })?; } Some(()) })??;
                }
                9 => { let mut c = JsonValue::Null; m.stage("clone_from", |_| size, || call("clone_from", || f::clone_from(&mut c, &v)))??; m.stage("drop", |_| size, || call("drop", || f::drop_value(c)))??; }
                10 => { let c = m.stage("clone", |_| size, || call("clone", || f::clone_value(&v)))??; m.stage("stringify", |_| 2.0 * size, || call("stringify", || f::stringify(c)))??; }
                _ => { let s = call("display", || f::display(&v, false))?; m.stage("parse", |_| s.len() as f64 + lookups, || call("parse", || f::parse(&s).is_ok()))??; }
            }
        }
        drop(out);
        m.stage("drop", |_| size, || call("drop", || f::drop_value(v)))??;
        Some(())
    })
}

// ---------------------------------------------------------------- histories

fn small(r: &mut Rng) -> JsonValue {
    match r.below(6) {
        0 => f::from_str("short"), 1 => f::from_str("a string that is longer than the inline ones"), 2 => JsonValue::Null,
        3 => JsonValue::from(r.next() >> 12), 4 => JsonValue::from(true), _ => f::from_vec(vec![JsonValue::from(1)]),
    }
}
const ARRAY_OPS: u32 = 20;
fn array_op(op: u32, v: &mut JsonValue, r: &mut Rng) -> Option<()> {
    match op {
        0 | 1 | 2 => { call("push", || { let x = small(r); let _ = f::push(v, x); })?; }
        3 => { call("pop", || drop(f::pop(v)))?; }
        4 => { call("index", || { let n = v.len(); if n > 0 { f::index_usize(v, r.below(n as u64) as usize).is_number(); } })?; }
        5 => { call("index_mut", || { let n = v.len(); if n > 0 { *f::index_usize_mut(v, r.below(n as u64) as usize) = small(r); } })?; }
        6 => { call("index_mut", || { let n = v.len(); if v.is_array() { *f::index_usize_mut(v, n) = small(r); } })?; }
        7 => { call("first", || { v.members().next().map(|x| x.is_null()); })?; }
        8 => { call("last", || { v.members().rev().next().map(|x| x.is_null()); })?; }
        9 => { call("first_mut", || { v.members_mut().next().map(|x| { *x = JsonValue::Null; }); })?; }
        10 => { call("len", || (v.len(), v.is_empty(), v.is_array(), v.is_object(), v.is_string()))?; }
        11 => { let x = call("take", || f::take(v))?; *v = x; }
        12 => { call("take_member", || { let n = v.len(); if n > 0 { drop(f::take(f::index_usize_mut(v, r.below(n as u64) as usize))); } })?; }
        13 => { call("take_string", || { let n = v.len(); if n > 0 { drop(f::take_string(f::index_usize_mut(v, r.below(n as u64) as usize))); } })?; }
        14 => { call("insert", || { let _ = f::insert(v, "key", JsonValue::Null); })?; }
        15 => { call("has_key", || { f::has_key(v, "key"); f::index_str(v, "key", 0).is_null(); })?; }
        16 => { call("as", || { v.as_str(); v.as_f64(); v.as_bool(); v.as_i64(); })?; }
        17 => { call("entries", || { v.entries().next(); v.entries_mut().next(); })?; }
        18 => { call("eq", || { f::eq(v, &JsonValue::Null); *v == "text"; *v == 3; })?; }
        _ => { call("beyond", || { let n = v.len(); f::index_usize(v, n).is_null(); f::index_usize(v, usize::MAX).is_null(); })?; }
    }
    Some(())
}
fn array_history(seed: u64) -> Box<dyn Fn(usize, usize, &mut Meter) -> Option<()>> {
    let cycle: Vec<u32> = (0..range(S::Ops, 1, 6)).map(|_| ch(S::Ops, ARRAY_OPS)).collect();
    let filled = ch(S::Ops, 3);
    let burst = pick(S::Ops, &[1usize, 1, 2, 9, 100]);
    let clears = chance(S::Ops, 1, 6);
    note(|| format!("an array, filled {} first, then {:?} each {} times, again and again", filled, cycle, burst));
    Box::new(move |n, _, m| {
        let mut r = Rng(seed);
        let mut v = call("new", || JsonValue::new_array())?;
        if filled > 0 { m.stage("fill-array", |_| n as f64, || { for _ in 0..n { array_op(0, &mut v, &mut r)?; } Some(()) })??; }
        if filled == 2 { v = m.stage("clone-array", |_| n as f64, || call("clone", || f::clone_value(&v)))??; }
        m.stage("array-history", |d: &Option<usize>| 2.0 * d.unwrap_or(n) as f64, || {
            let mut done = 0;
            while done < n { for op in &cycle { for _ in 0..burst { array_op(*op, &mut v, &mut r)?; done += 1; } } }
            Some(done)
        })??;
        if clears { m.stage("clear-array", |_| 2.0 * n as f64, || call("clear", || f::clear(&mut v)))??; }
        let s = m.stage("dump-array", |s: &Option<String>| n as f64 + s.as_ref().map_or(0.0, |s| s.len() as f64), || call("dump", || f::dump(&v)))??;
        drop(s);
        m.stage("drop-array", |_| 2.0 * n as f64, || call("drop", || f::drop_value(v)))??;
        Some(())
    })
}
const OBJECT_OPS: u32 = 20;
fn object_op(op: u32, v: &mut JsonValue, r: &mut Rng, fam: u64, next: &mut u64, k: &mut String) -> Option<()> {
    k.clear();
    match op {
        0 | 1 | 2 | 6 => key(fam, *next, k),
        _ => key(fam, if *next > 0 { r.below(*next) } else { 0 }, k),
    }
    match op {
        0 | 1 | 2 => { *next += 1; call("insert", || { let x = small(r); let _ = f::insert(v, k, x); })?; }
        3 => { call("insert", || { let x = small(r); let _ = f::insert(v, k, x); })?; }
        4 => { call("index", || { f::index_str(v, k, r.below(3) as u32).is_null(); })?; }
        5 => { call("index_mut", || { *f::index_str_mut(v, k, 0) = JsonValue::Null; })?; }
        6 => { *next += 1; call("index_mut", || { *f::index_str_mut(v, k, 0) = JsonValue::from(1); })?; }
        7 => { call("has_key", || f::has_key(v, k))?; }
        8 => { k.push('?'); call("has_key", || f::has_key(v, k))?; }
        9 => { call("get", || if let JsonValue::Object(o) = v { f::o_get(o, k).is_some(); })?; }
        10 => { call("get_mut", || if let JsonValue::Object(o) = v { if let Some(x) = f::o_get_mut(o, k) { *x = JsonValue::Null; } })?; }
        11 => { call("first", || { v.entries().next(); v.entries().rev().next(); })?; }
        12 => { call("first_mut", || { v.entries_mut().next(); v.entries_mut().rev().next(); })?; }
        13 => { call("len", || (v.len(), v.is_empty(), v.is_array(), v.is_object()))?; }
        14 => { let x = call("take", || f::take(v))?; *v = x; }
        15 => { call("take_member", || { if f::has_key(v, k) { drop(f::take(f::index_str_mut(v, k, 0))); } })?; }
        16 => { call("push", || { let _ = f::push(v, JsonValue::Null); f::pop(v); })?; }
        17 => { call("as", || { v.as_str(); v.as_f64(); f::take_string(v); v.members().next(); })?; }
        18 => { call("eq", || { f::eq(v, &JsonValue::Null); *v == "text"; })?; }
        _ => { call("override_last", || if let JsonValue::Object(o) = v { f::o_override_last(o, JsonValue::from(2)); })?; }
    }
    Some(())
}
fn object_history(seed: u64) -> Box<dyn Fn(usize, usize, &mut Meter) -> Option<()>> {
    let cycle: Vec<u32> = (0..range(S::Ops, 1, 6)).map(|_| ch(S::Ops, OBJECT_OPS)).collect();
    let filled = ch(S::Ops, 4);
    let burst = pick(S::Ops, &[1usize, 1, 2, 9, 100]);
    let fam = ch(S::Data, FAMILIES as u32) as u64;
    let clears = chance(S::Ops, 1, 6);
    note(|| format!("an object, filled {} first, then {:?} each {} times, again and again, keys of kind {}", filled, cycle, burst, fam));
    Box::new(move |n, _, m| {
        let mut r = Rng(seed);
        let mut next = 0;
        let mut k = String::new();
        let size = n as f64 * depth(n);
        let mut v = call("new", || if filled == 3 { f::from_object(f::o_new(Some(n))) } else { JsonValue::new_object() })?;
        if filled > 0 { m.stage("fill-object", |_| size, || { for _ in 0..n { object_op(0, &mut v, &mut r, fam, &mut next, &mut k)?; } Some(()) })??; }
        if filled == 2 { v = m.stage("clone-object", |_| n as f64, || call("clone", || f::clone_value(&v)))??; }
        m.stage("object-history", |d: &Option<usize>| d.unwrap_or(n) as f64 * depth(n + d.unwrap_or(n)), || {
            let mut done = 0;
            while done < n { for op in &cycle { for _ in 0..burst { object_op(*op, &mut v, &mut r, fam, &mut next, &mut k)?; done += 1; } } }
            Some(done)
        })??;
        if clears { m.stage("clear-object", |_| 2.0 * n as f64, || call("clear", || f::clear(&mut v)))??; }
        let s = m.stage("dump-object", |s: &Option<String>| n as f64 + s.as_ref().map_or(0.0, |s| s.len() as f64), || call("dump", || f::dump(&v)))??;
        drop(s);
        m.stage("drop-object", |_| 2.0 * n as f64, || call("drop", || f::drop_value(v)))??;
        Some(())
    })
}

// ---------------------------------------------------------------- conversions and long strings

fn conversions(seed: u64) -> Box<dyn Fn(usize, usize, &mut Meter) -> Option<()>> {
    let kind = ch(S::Ops, 11);
    let fam = ch(S::Data, FAMILIES as u32) as u64;
    let again = ch(S::Data, 5);
    note(|| format!("conversion {} (keys of kind {}, repeated in way {})", kind, fam, again));
    Box::new(move |n, _, m| {
        let mut r = Rng(seed);
        let size = n as f64 * depth(n);
        let name = |i: usize| { let mut k = String::new(); key(fam, i as u64, &mut k); k };
        // distinct, one after the other, all over again, or a few again and again
        let dup = |i: usize| name(match again { 0 | 1 => i, 2 => i / 2, 3 => i % (n / 2 + 1), _ => i % (n / 8 + 1) });
        match kind {
            0 => {
                let mut x = call("values", || (0..n).map(|_| small(&mut r)).collect::<Vec<_>>())?;
                let v = m.stage("from-slice", |_| n as f64, || call("from", || f::from_slice(&x)))??;
                let w = m.stage("from-vec", |_| n as f64, || call("from", || f::from_vec(std::mem::take(&mut x))))??;
                let same = m.stage("eq-array", |_| n as f64, || call("eq", || f::eq(&v, &w)))??;
                ck!(same, "work:copy", "an array and its copy differ");
                m.stage("drop-array", |_| n as f64, || call("drop", || { f::drop_value(v); f::drop_value(w) }))??;
            }
            1 | 2 => {
                let pairs: Vec<(String, JsonValue)> = call("values", || (0..n).map(|i| (dup(i), small(&mut r))).collect::<Vec<_>>())?;
                let v = if kind == 1 {
                    let b: std::collections::BTreeMap<_, _> = pairs.into_iter().collect();
                    m.stage("from-map", |_| size, || call("from", || f::from_btree(b)))??
                } else {
                    let mut it = pairs.into_iter();
                    m.stage("collect", |_| size, || call("collect", || f::from_object(f::object_collect(&mut it))))??
                };
                let c = m.stage("clone-object", |_| n as f64, || call("clone", || f::clone_value(&v)))??;
                let same = m.stage("eq-object", |_| size, || call("eq", || f::eq(&v, &c)))??;
                ck!(same, "work:copy", "an object and its copy differ");
                let mut visited = 0;
                m.stage("walk-object", |_| n as f64, || call("walk", || f::v_walk(&v, seed, &mut |_, _, x| visited += x.is_some() as usize)))??;
                m.stage("drop-object", |_| n as f64, || call("drop", || { f::drop_value(v); f::drop_value(c) }))??;
            }
            3 => {
                // a long string and the calls that need not look at it
                let s: String = (0..n * 8).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                let bytes = s.len() as f64;
                let v = m.stage("from-str", |_| bytes, || call("from", || f::from_str(&s)))??;
                let mut w = m.stage("from-string", |_| bytes, || call("from", || f::from_string(s)))??;
                let k = n / 4 + 1;
                m.stage("string-history", |_| 40.0 * k as f64, || {
                    for _ in 0..k {
                        call("as_str", || { w.as_str().map(|s| s.len()); w.is_string(); w.len(); w.is_empty(); w.as_f64(); })?;
                        call("take", || { let x = f::take(&mut w); w = x; })?;
                        call("take_string", || { let x = f::take_string(&mut w); if let Some(x) = x { w = f::from_string(x); } })?;
                        call("other", || { let _ = f::push(&mut w, JsonValue::Null); f::pop(&mut w); f::has_key(&w, "a"); f::eq(&w, &JsonValue::Null); let _ = w == "b"; })?;
                    }
                    Some(())
                })??;
                let same = m.stage("eq-string", |_| bytes, || call("eq", || f::eq(&v, &w)))??;
                ck!(same, "work:copy", "a string and its copy differ");
                let c = m.stage("clone-string", |_| bytes, || call("clone", || f::clone_value(&v)))??;
                m.stage("drop-string", |_| bytes, || call("drop", || { f::drop_value(v); f::drop_value(w); f::drop_value(c) }))??;
            }
            4 => {
                // long keys
                let mut o = f::o_new(None);
                let ks: Vec<String> = (0..20).map(|i| { let mut k = "k".repeat(n / 4); k.push_str(&name(i)); k }).collect();
                let bytes: f64 = ks.iter().map(|k| k.len() as f64).sum::<f64>() * 5.0;
                m.stage("long-keys", |_| bytes, || { for k in &ks { call("insert", || f::o_insert(&mut o, k, JsonValue::Null))?; } for k in &ks { call("get", || f::o_get(&o, k).is_some())?; } Some(()) })??;
                let c = m.stage("clone-long-keys", |_| bytes, || call("clone", || f::clone_object(&o)))??;
                m.stage("dump-long-keys", |_| bytes, || call("dump", || f::object_dump(&c)))??;
                m.stage("drop-long-keys", |_| bytes, || call("drop", || { f::drop_object(c); f::drop_object(o) }))??;
            }
            5 => {
                // filled and emptied again and again
                let mut o: Object = f::o_new(None);
                m.stage("refill", |_| size, || {
                    let mut done = 0;
                    let per = (n / 50).max(8);
                    while done < n { for i in 0..per { let k = dup(i); call("insert", || f::o_insert(&mut o, &k, JsonValue::Null))?; done += 1; } call("clear", || f::o_clear(&mut o))?; }
                    Some(())
                })??;
                call("drop", || f::drop_object(o))?;
            }
            6 => {
                // a value that takes turns at being what it is
                let mut v = call("new", || JsonValue::new_array())?;
                let mut d = call("new", || JsonValue::new_object())?;
                m.stage("turns", |_| 20.0 * n as f64, || {
                    for i in 0..n { call("turn", || { let x = small(&mut r); let _ = f::push(&mut v, x); if i % 7 == 0 { let y = f::take(&mut v); let _ = f::insert(&mut d, "held", y); v = JsonValue::new_array(); } })?; }
                    Some(())
                })??;
                call("drop", || { f::drop_value(v); f::drop_value(d) })?;
            }
            7 => {
                // an array within an object, reached by its key
                let mut d = call("new", || JsonValue::new_object())?;
                call("insert", || { let _ = f::insert(&mut d, "list", JsonValue::new_array()); })?;
                m.stage("nested-push", |_| 20.0 * n as f64, || {
                    for _ in 0..n { call("push", || { let x = small(&mut r); let _ = f::push(f::index_str_mut(&mut d, "list", 0), x); f::index_usize(f::index_str(&d, "list", 0), 0).is_null(); })?; }
                    Some(())
                })??;
                call("drop", || f::drop_value(d))?;
            }
            8 => {
                // a few removals from an object
                let mut v = call("new", || JsonValue::new_object())?;
                m.stage("fill-object", |_| size, || { for i in 0..n { let k = dup(i); call("insert", || { let x = small(&mut r); let _ = f::insert(&mut v, &k, x); })?; } Some(()) })??;
                m.stage("remove", |_| 6.0 * size, || {
                    for i in 0..6 { let k = name(if i == 5 { n } else { r.below(n as u64) as usize }); call("remove", || drop(f::remove(&mut v, &k)))?; }
                    Some(())
                })??;
                m.stage("drop-object", |_| n as f64, || call("drop", || f::drop_value(v)))??;
            }
            9 => {
                // a few looks through an array, and a few removals
                let x = call("values", || (0..n).map(|_| small(&mut r)).collect::<Vec<_>>())?;
                let mut v = m.stage("from-vec", |_| n as f64, || call("from", || f::from_vec(x)))??;
                m.stage("array_remove", |_| 6.0 * n as f64, || { for _ in 0..6 { call("array_remove", || drop(f::array_remove(&mut v, r.below(n as u64 + 2) as usize)))?; } Some(()) })??;
                m.stage("contains", |_| 4.0 * n as f64, || { for _ in 0..2 { call("contains", || (f::contains_str(&v, "a string that is not there, and longer"), f::contains(&v, JsonValue::from(0.5))))?; } Some(()) })??;
                m.stage("debug", |t: &Option<String>| n as f64 + t.as_ref().map_or(0.0, |t| t.len() as f64), || call("debug", || f::debug(&v)))??;
                m.stage("drop-array", |_| n as f64, || call("drop", || f::drop_value(v)))??;
            }
            _ => {
                // numbers as whatever they are asked for
                let mut t = String::from("[");
                for i in 0..n / 8 { if i > 0 { t.push(','); } let k = r.below(3); piece(&mut r, k, &mut t); if r.below(5) == 0 && k == 0 { t.push_str(["e5", "e-30", "e300", "e-32000", "e32000"][r.below(5) as usize]); } }
                t.push(']');
                let v = m.stage("parse", |_| t.len() as f64, || call("parse", || f::parse(&t)))??;
                let v = match v { Ok(v) => v, Err(_) => return Some(()) };
                let len = call("len", || v.len())?;
                m.stage("numbers", |_| len as f64, || {
                    for i in 0..len { call("numbers", || { let x = f::index_usize(&v, i); f::all_ints(x); x.as_f64(); x.as_f32(); x.as_fixed_point_u64(2); x.as_fixed_point_i64(9); })?; }
                    Some(())
                })??;
                m.stage("drop", |_| t.len() as f64, || call("drop", || f::drop_value(v)))??;
            }
        }
        Some(())
    })
}
