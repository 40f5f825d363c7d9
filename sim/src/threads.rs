//! C13: several clients on their own threads, and operations started from call-backs, all
//! overlapping as the SCHED stream decides.  What each operation returned alone (measured
//! beforehand, one after the other) is what it must return overlapped.
use crate::model::*;
use crate::refjson::*;
use crate::rt::*;
use crate::sched;
use crate::world::*;
use json::JsonValue;
use std::cell::RefCell;
use std::rc::Rc;
use surface as f;

/// Operations with everything they need decided beforehand, so that their result cannot
/// depend on when they run.
#[derive(Clone, Debug)]
enum Step {
    Parse(String),
    Dump(usize),
    Pretty(usize, u16),
    Write { doc: usize, pretty: Option<u16>, chunk: usize, fail: Option<u64>, nested: Vec<Step> },
    ReadAll(usize),
    Equal(usize, usize),
    CopyChange(usize, Vec<Micro>),
    Own(Vec<Micro>),
    Collect { items: Vec<(String, Mv)>, nested: Vec<Step> },
    Convert { items: Vec<Mv>, nested: Vec<Step> },
    Custom { doc: usize, nested: Vec<Step> },
    Walk(usize, Vec<Step>),
    Native(i64),
    /// the same few questions, again and again
    Lookup(usize, Vec<(String, u32)>),
}
#[derive(Clone, Debug)]
enum Micro { Insert(String, Mv), Remove(String), Index(String, Mv), Push(Mv), Pop, At(usize, Mv), Clear, Get(String), Show }

fn gen_micros(keys: &Keys, n: u32) -> Vec<Micro> {
    (0..n).map(|_| {
        let k = keys.any(S::Ops).to_string();
        match weighted(S::Ops, &[5, 3, 3, 2, 1, 1, 1, 2, 1]) {
            0 => Micro::Insert(k, leaf()), 1 => Micro::Remove(k), 2 => Micro::Index(k, leaf()), 3 => Micro::Push(leaf()), 4 => Micro::Pop,
            5 => Micro::At(ch(S::Ops, 5) as usize, leaf()), 6 => if ch(S::Ops, 4) == 3 { Micro::Clear } else { Micro::Show }, 7 => Micro::Get(k), _ => Micro::Show,
        }
    }).collect()
}
fn leaf() -> Mv {
    match ch(S::Data, 5) { 0 => Mv::Null, 1 => Mv::Bool(true), 2 => Mv::Num(N::int(ch(S::Data, 1000) as i128)), 3 => Mv::Str(gen_string(S::Data)), _ => { let (p, m, e) = gen_parts(S::Data); Mv::Num(if e.unsigned_abs() > 1000 { N::int(7) } else { N::parts(p, m, e as i64) }) } }
}
fn gen_text(keys: &Keys) -> String {
    let m = gen_tree(S::Data, keys).stored();
    let mut t = String::new();
    spell(S::Data, &m, &mut t);
    match ch(S::Fault, 4) {
        0 => { let mut b = t.clone().into_bytes(); damage(&mut b); String::from_utf8(b).unwrap_or(t) }
        1 => { let mut c = ch(S::Fault, t.len() as u32 + 1) as usize; while !t.is_char_boundary(c) { c -= 1; } t.truncate(c); t }
        _ => t,
    }
}
fn gen_step(keys: &Keys, docs: usize, depth: u32) -> Step {
    let doc = ch(S::Ops, docs as u32) as usize;
    let nested = |n: u32| -> Vec<Step> { if depth >= 2 { vec![] } else { (0..range(S::Ops, 0, n)).map(|_| gen_step(keys, docs, depth + 1)).collect() } };
    match weighted(S::Ops, &[4, 2, 2, 4, 2, 2, 3, 4, 2, 2, 2, 2, 1, 3]) {
        0 => Step::Parse(gen_text(keys)),
        1 => Step::Dump(doc),
        2 => Step::Pretty(doc, ch(S::Data, 6) as u16),
        3 => Step::Write { doc, pretty: if ch(S::Ops, 2) == 0 { None } else { Some(ch(S::Data, 6) as u16) }, chunk: pick(S::Fault, &[1000usize, 7, 1, 3, 30]), fail: if ch(S::Fault, 4) == 3 { Some(ch(S::Fault, 60) as u64) } else { None }, nested: nested(3) },
        4 => Step::ReadAll(doc),
        5 => Step::Equal(doc, ch(S::Ops, docs as u32) as usize),
        6 => { let n = range(S::Ops, 1, 5); Step::CopyChange(doc, gen_micros(keys, n)) }
        7 => { let n = range(S::Ops, 1, 10); Step::Own(gen_micros(keys, n)) }
        8 => { let n = range(S::Ops, 1, 6); let items = (0..n).map(|_| (keys.any(S::Data).to_string(), leaf())).collect(); Step::Collect { items, nested: nested(3) } }
        9 => { let n = range(S::Ops, 1, 5); let items = (0..n).map(|_| leaf()).collect(); Step::Convert { items, nested: nested(3) } }
        10 => Step::Custom { doc, nested: nested(3) },
        11 => Step::Walk(doc, nested(3)),
        13 => { let few: Vec<(String, u32)> = (0..range(S::Ops, 1, 4)).map(|_| (if ch(S::Ops, 5) == 4 { keys.near(S::Ops) } else { keys.any(S::Ops).to_string() }, ch(S::Ops, 3))).collect(); let n = range(S::Ops, 1, 12) as usize; Step::Lookup(doc, (0..n).map(|i| few[i % few.len()].clone()).collect()) }
        _ => Step::Native(pick(S::Data, &[0i64, -1, 127, i64::MAX, -(1 << 31), 1 << 40])),
    }
}
/// A value built without drawing from any stream.
fn plain(m: &Mv) -> JsonValue {
    match m {
        Mv::Null => JsonValue::Null,
        Mv::Bool(b) => f::from_bool(*b),
        Mv::Num(n) => f::from_number(number_of(n)),
        Mv::Str(s) => f::from_str(s),
        Mv::Arr(a) => { let mut v = JsonValue::new_array(); for x in a { let _ = f::push(&mut v, plain(x)); } v }
        Mv::Obj(o) => { let mut v = JsonValue::new_object(); for (k, x) in o { let _ = f::insert(&mut v, k, plain(x)); } v }
    }
}
struct Shared { docs: Vec<(JsonValue, Mv)> }
unsafe impl Sync for Shared {}

/// Runs one step; the result says everything the caller could observe.
fn run(st: &Step, sh: &Shared) -> String {
    let _o = Out::new();
    sched::client();
    let show = |r: Result<String, Panic>| match r { Ok(s) => s, Err(p) => format!("PANIC {}", p.msg) };
    let inner: RefCell<String> = RefCell::new(String::new());
    let go = |steps: &[Step], i: usize| { if !steps.is_empty() && i < steps.len() * 2 { let s = run(&steps[i % steps.len()], sh); inner.borrow_mut().push_str(&format!("<{}>", s)); count("reentrant_calls"); } };
    let out = match st {
        Step::Parse(t) => show(sut("parse", || match f::parse(t) { Ok(v) => { let _o = Out::new(); let s = read(&v).show_all(); drop(v); s } Err(e) => { let _o = Out::new(); format!("{:?}", e) } })),
        Step::Dump(d) => show(sut("dump", || f::dump(&sh.docs[*d].0))),
        Step::Pretty(d, n) => show(sut("pretty", || f::pretty(&sh.docs[*d].0, *n))),
        Step::Write { doc, pretty, chunk, fail, nested } => {
            let mut hook = |c: u64| { if c <= 40 && c % 3 == 1 { go(nested, (c / 3) as usize) } };
            let mut w = SimWriter::new();
            w.accept = Accept::Chunk(*chunk);
            w.yields = true;
            if let Some(at) = fail { w = w.fails_at(*at, Fail::Tagged(std::io::ErrorKind::Other), 5); }
            w.hook = Some(&mut hook);
            let v = &sh.docs[*doc].0;
            let r = sut("write", || match pretty { None => f::write(v, &mut w), Some(n) => f::write_pretty(v, &mut w, *n) });
            let got = std::mem::take(&mut w.got);
            drop(w);
            show(r.map(|r| format!("{:?} {}", r.map_err(|e| e.kind()), String::from_utf8_lossy(&got))))
        }
        Step::ReadAll(d) => {
            let (v, m) = &sh.docs[*d];
            show(sut("read", || {
                let a = differs(v, m, Num::Exact);
                let mut s = String::new();
                probe(v, m, &mut s, 0);
                format!("{:?} {}", a, s)
            }))
        }
        Step::Equal(a, b) => show(sut("eq", || format!("{} {}", f::eq(&sh.docs[*a].0, &sh.docs[*b].0), f::ne(&sh.docs[*b].0, &sh.docs[*a].0)))),
        Step::CopyChange(d, ms) => {
            match sut("clone", || f::clone_value(&sh.docs[*d].0)) { Ok(v) => micros(v, ms), Err(p) => format!("PANIC {}", p.msg) }
        }
        Step::Own(ms) => micros(JsonValue::Null, ms),
        Step::Collect { items, nested } => {
            let mut i = 0;
            let inner2 = Rc::new(RefCell::new(String::new()));
            // the key and the value call back as well
            let mut it = std::iter::from_fn(|| {
                let _o = Out::new();
                if i >= items.len() { return None; }
                go(nested, i);
                sched::client();
                let (k, m) = items[i].clone();
                i += 1;
                let x = inner2.clone();
                let n2 = nested.clone();
                let shp = sh as *const Shared;
                Some((f::CbKey { s: k, cb: Rc::new(|| { let _o = Out::new(); sched::client(); }) },
                      f::CbVal(Box::new(move || { let _o = Out::new(); sched::client(); if let Some(s) = n2.first() { if i % 2 == 0 { let r = run(s, unsafe { &*shp }); x.borrow_mut().push_str(&r); } } let _i = In::new(); plain(&m) }))))
            });
            let r = sut("collect", || { let o = f::object_collect_cb(&mut it); let t = f::object_dump(&o); f::drop_object(o); t });
            let s = inner2.borrow().clone();
            format!("{} {}", show(r), s)
        }
        Step::Convert { items, nested } => {
            let acc = Rc::new(RefCell::new(String::new()));
            let v: Vec<f::CbVal> = items.iter().enumerate().map(|(i, m)| {
                let m = m.clone(); let acc = acc.clone(); let n2 = nested.clone(); let shp = sh as *const Shared;
                f::CbVal(Box::new(move || { let _o = Out::new(); sched::client(); if !n2.is_empty() { let r = run(&n2[i % n2.len()], unsafe { &*shp }); acc.borrow_mut().push_str(&r); } let _i = In::new(); plain(&m) }))
            }).collect();
            let r = sut("from_vec", || { let v = f::from_vec_cb(v); let t = f::dump(&v); f::drop_value(v); t });
            let s = acc.borrow().clone();
            format!("{} {}", show(r), s)
        }
        Step::Custom { doc, nested } => {
            let mut w = SimWriter::new();
            w.yields = true;
            let n = std::cell::Cell::new(0usize);
            let style = f::GenStyle { spaced: true, newline: "\n", indent: "  ", own_write: true };
            let v = &sh.docs[*doc].0;
            let r = sut("generator", || f::custom(&[v], &mut w, style, b"", &mut |_| { let _o = Out::new(); n.set(n.get() + 1); if n.get() <= 30 && n.get() % 5 == 2 { go(nested, n.get() / 5); } sched::client(); Ok(()) }));
            show(r.map(|r| format!("{:?} {}", r.map_err(|e| e.kind()), String::from_utf8_lossy(&w.got))))
        }
        Step::Walk(d, nested) => {
            let v = &sh.docs[*d].0;
            let mut i = 0;
            let acc: RefCell<String> = RefCell::new(String::new());
            let r = sut("entries", || f::v_walk(v, 0b1010_0110_1101, &mut |b, l, item| { let _o = Out::new(); i += 1; if i < 12 { go(nested, i); } sched::client(); acc.borrow_mut().push_str(&format!("{}{}{:?};", b, l, item.map(|x| x.0))); }));
            show(r.map(|_| acc.borrow().clone()))
        }
        Step::Lookup(d, ks) => {
            let v = &sh.docs[*d].0;
            show(sut("lookups", || { let mut s = String::new(); for (k, how) in ks {
                match how {
                    0 => s.push(if f::has_key(v, k) { '+' } else { '-' }),
                    1 => s.push_str(kind_of(f::index_str(v, k, 0))),
                    _ => match v { JsonValue::Object(o) => s.push_str(f::o_get(o, k).map(kind_of).unwrap_or("none")), _ => s.push('?') },
                }
                s.push(' ');
            } s }))
        }
        Step::Native(i) => show(sut("from_native", || { let v = f::from_i64(*i); let s = format!("{} {:?} {:?}", f::dump(&v), f::all_ints(&v), f::eq_i64(&v, *i)); f::drop_value(v); s })),
    };
    let nested = inner.into_inner();
    // the caller owns the text; nothing of the arena is kept
    let mut s = String::with_capacity(out.len() + nested.len() + 1);
    s.push_str(&out); s.push('|'); s.push_str(&nested);
    s
}
fn probe(v: &JsonValue, m: &Mv, s: &mut String, depth: u32) {
    if depth > 8 { return; }
    match m {
        Mv::Obj(o) => for (k, x) in o.iter().take(8) { let r = f::index_str(v, k, 0); s.push(if differs(r, x, Num::Exact).is_none() { '+' } else { '-' }); probe(r, x, s, depth + 1); },
        Mv::Arr(a) => for (i, x) in a.iter().enumerate().take(8) { probe(f::index_usize(v, i), x, s, depth + 1); },
        _ => {}
    }
}
fn micros(v: JsonValue, ms: &[Micro]) -> String {
    let mut v = v;
    let mut out = String::new();
    for m in ms {
        sched::client();
        let r = sut("micro", || micro(&mut v, m));
        match r { Ok(s) => { out.push_str(&s); drop(s); } Err(p) => out.push_str(&format!("PANIC {}", p.msg)) }
        out.push(';');
    }
    match sut("dump", || f::dump(&v)) { Ok(t) => { out.push_str(&t); drop(t); } Err(p) => out.push_str(&format!("PANIC {}", p.msg)) }
    if let Err(p) = sut("drop", || f::drop_value(v)) { out.push_str(&format!("PANIC {}", p.msg)); }
    out
}
fn micro(v: &mut JsonValue, m: &Micro) -> String {
    match m {
        Micro::Insert(k, x) => format!("{}", f::insert(v, k, plain(x)).is_ok()),
        Micro::Remove(k) => { let r = f::remove(v, k); f::dump(&r) }
        Micro::Index(k, x) => { *f::index_str_mut(v, k, 0) = plain(x); String::new() }
        Micro::Push(x) => format!("{}", f::push(v, plain(x)).is_ok()),
        Micro::Pop => { let r = f::pop(v); f::dump(&r) }
        Micro::At(i, x) => { if v.is_array() || *i == 0 { *f::index_usize_mut(v, *i) = plain(x); } String::new() }
        Micro::Clear => { f::clear(v); String::new() }
        Micro::Get(k) => f::dump(f::index_str(v, k, 0)),
        Micro::Show => f::dump(v),
    }
}

struct Mail(Vec<Option<(JsonValue, Mv)>>);
struct Cellish<T>(std::cell::UnsafeCell<T>);
// exactly one simulated client runs at any moment
unsafe impl<T> Sync for Cellish<T> {}
impl<T> Cellish<T> { #[allow(clippy::mut_from_ref)] fn get(&self) -> &mut T { unsafe { &mut *self.0.get() } } }

#[derive(Clone, Debug)]
enum Act { Do(Step, String), Take(usize, Vec<(bool, String, Mv)>, usize), Put(usize, Mv) }

pub fn c13() -> Option<()> {
    let keys = Keys::new(S::Data);
    let mut docs = vec![];
    for _ in 0..range(S::Ops, 1, 3) {
        let m = { let mut sh = match ch(S::Data, 3) { 0 => Shape { depth: 2, width: 3, nan: true, budget: 10 }, 1 => Shape { depth: 3, width: 5, nan: true, budget: 30 }, _ => Shape { depth: 2, width: 20, nan: true, budget: 60 } }; gen_value(S::Data, &keys, &mut sh, 0) };
        docs.push(make(S::Data, &m)?);
    }
    if ch(S::Ops, 3) == 2 { let (v, m) = &docs[0]; let d = (call("clone", || f::clone_value(v))?, m.clone()); docs.push(d); }
    for d in &docs { note(|| format!("shared document: {}", d.1.show())); }
    let sh = Shared { docs };
    let n = range(S::Ops, 1, 4) as usize;
    let mut plans: Vec<Vec<Act>> = vec![];
    let boxes = range(S::Ops, 1, 2) as usize;
    for t in 0..n {
        let mut acts = vec![];
        for _ in 0..range(S::Ops, 1, 4) {
            if ch(S::Ops, 5) == 4 {
                let edits = (0..range(S::Ops, 1, 3)).map(|_| (ch(S::Ops, 3) != 2, keys.any(S::Ops).to_string(), leaf())).collect();
                acts.push(if ch(S::Ops, 2) == 0 { Act::Put(ch(S::Ops, boxes as u32) as usize, gen_tree(S::Data, &keys)) } else { Act::Take(ch(S::Ops, boxes as u32) as usize, edits, ch(S::Ops, boxes as u32) as usize) });
            } else {
                let s = gen_step(&keys, sh.docs.len(), 0);
                note(|| format!("client {}: {:?}", t + 1, s));
                acts.push(Act::Do(s, String::new()));
            }
        }
        plans.push(acts);
    }
    // every operation alone
    for p in plans.iter_mut() { for a in p.iter_mut() { if let Act::Do(s, r) = a { *r = run(s, &sh); obs_bytes(r.as_bytes()); if failed() { return None; } } } }
    // all of them overlapping
    ev("overlap", n as u64, plans.iter().map(|p| p.len() as u64).sum());
    let mail = Cellish(std::cell::UnsafeCell::new(Mail((0..boxes).map(|_| None).collect())));
    {
        let (sh, mail) = (&sh, &mail);
        let jobs: Vec<Box<dyn FnOnce() + Send + '_>> = plans.into_iter().map(|p| -> Box<dyn FnOnce() + Send + '_> { Box::new(move || client(p, sh, mail)) }).collect();
        sched::run_threads(jobs);
    }
    if failed() { return None; }
    // the shared documents and whatever was handed over are as they should be
    for (v, m) in sh.docs.iter() { if !expect("overlap:shared", "a document shared for reading", v, m) { return None; } }
    for e in mail.0.into_inner().0.into_iter().flatten() { if !expect("overlap:handed-over", "a value handed from thread to thread", &e.0, &e.1) { return None; } call("drop", || f::drop_value(e.0))?; }
    let _ = sut("drop", || drop(sh));
    Some(())
}
fn client(plan: Vec<Act>, sh: &Shared, mail: &Cellish<Mail>) {
    for a in plan {
        if failed() { return; }
        match a {
            Act::Do(s, alone) => {
                let r = run(&s, sh);
                if r != alone {
                    viol("overlap:result", format!("{:?} gives {:.300?} although it gives {:.300?} alone ({})", short(&s), r, alone, crate::stream::diff_bytes(r.as_bytes(), alone.as_bytes())));
                    return;
                }
                count("overlapped_calls");
            }
            Act::Put(i, m) => {
                let v = match sut("build", || plain(&m)) { Ok(v) => v, Err(_) => return };
                let m = read(&v);
                let old = mail.get().0[i].replace((v, m));
                if let Some((v, m)) = old { if !expect("overlap:handed-over", "a value handed over", &v, &m) { return; } if call("drop", || f::drop_value(v)).is_none() { return; } }
                count("values_handed_over");
            }
            Act::Take(i, edits, j) => {
                let e = mail.get().0[i].take();
                if let Some((mut v, mut m)) = e {
                    for (ins, k, x) in edits {
                        if ins { if call("insert", || { f::insert(&mut v, &k, plain(&x)).ok(); f::push(&mut v, plain(&x)).ok() }).is_none() { return; } match &mut m { Mv::Obj(o) => obj_set(o, &k, x), Mv::Arr(a) => a.push(x), _ => {} } }
                        else { if call("remove", || { let r = f::remove(&mut v, &k); f::drop_value(r) }).is_none() { return; } if let Mv::Obj(o) = &mut m { o.retain(|e| e.0 != k); } }
                    }
                    if !expect("overlap:handed-over", "a value handed over and changed", &v, &m) { return; }
                    count("values_handed_over");
                    let old = mail.get().0[j].replace((v, m));
                    if let Some((v, m)) = old { if !expect("overlap:handed-over", "a value handed over", &v, &m) { return; } if call("drop", || f::drop_value(v)).is_none() { return; } }
                }
            }
        }
    }
}
fn short(s: &Step) -> String { let mut t = format!("{:?}", s); if t.len() > 200 { let mut e = 200; while !t.is_char_boundary(e) { e -= 1; } t.truncate(e); } t }
