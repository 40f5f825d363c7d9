//! C17: the construction macros, with expressions that are call-backs of the client's: they
//! say when they are evaluated, fail, and start further constructions.
use crate::model::*;
use crate::rt::*;
use std::cell::{Cell, RefCell};
use json::JsonValue;
use surface as f;
use surface::{Kind, Ky, Sh};

#[derive(Clone, Copy, Debug, PartialEq)]
enum E { Key(usize), Val(Kind, usize) }

/// What the leaves and keys of one macro use are made of.
struct Parts { vals: Vec<Mv>, keys: Vec<String>, order: Vec<E>, convs: Vec<usize> }

fn leaf_of(k: Kind, keys: &Keys) -> Mv {
    match k {
        Kind::V | Kind::C => match ch(S::Data, 4) { 0 => { let mut sh = Shape { depth: 2, width: 3, nan: true, budget: 8 }; gen_value(S::Data, keys, &mut sh, 0) } 1 => Mv::Str(gen_string(S::Data)), 2 => Mv::Null, _ => Mv::Num(gen_number(S::Data)) },
        Kind::I | Kind::Inc => Mv::Num(N::int(pick(S::Data, &[0i128, 1, -1, 9, 10, -128, 65535, 1 << 40, i64::MAX as i128 - 1, i64::MIN as i128]))),
        Kind::S => Mv::Str(gen_string(S::Data)),
        Kind::O => if ch(S::Data, 2) == 0 { Mv::Null } else { Mv::Str(gen_string(S::Data)) },
        Kind::B => Mv::Bool(ch(S::Data, 2) == 1),
        Kind::F => Mv::Num(N::int(ch(S::Data, 1000) as i128)),
        Kind::L => Mv::Arr((0..ch(S::Data, 4)).map(|_| Mv::Num(N::int(ch(S::Data, 300) as i128 - 100))).collect()),
        Kind::M => { let mut m = std::collections::BTreeMap::new(); for _ in 0..ch(S::Data, 4) { m.insert(keys.any(S::Data).to_string(), ch(S::Data, 2) == 1); } Mv::Obj(m.into_iter().map(|(k, b)| (k, Mv::Bool(b))).collect()) }
    }
}
fn collect(s: &Sh, p: &mut Parts, keys: &Keys) {
    match s {
        Sh::Leaf(k, i) => { while p.vals.len() <= *i { p.vals.push(Mv::Null); p.keys.push(String::new()); } p.vals[*i] = leaf_of(*k, keys); p.order.push(E::Val(*k, *i)); if *k == Kind::C { p.convs.push(*i); } }
        Sh::Arr(a) => for x in a.iter() { collect(x, p, keys) },
        Sh::Obj(o) => for (k, x) in o.iter() {
            if let Ky::Made(i) = k { while p.vals.len() <= *i { p.vals.push(Mv::Null); p.keys.push(String::new()); } p.keys[*i] = keys.any(S::Data).to_string(); p.order.push(E::Key(*i)); }
            collect(x, p, keys)
        },
        _ => {}
    }
}
/// The value that is spelled, by the model's rules.
fn spelled(s: &Sh, p: &Parts) -> Mv {
    match s {
        Sh::Null => Mv::Null, Sh::Bool(b) => Mv::Bool(*b), Sh::Int(i) => Mv::Num(N::int(*i as i128)), Sh::Str(s) => Mv::Str(s.to_string()),
        Sh::Leaf(Kind::Inc, i) => match &p.vals[*i] { Mv::Num(n) => Mv::Num(N::int(n.as_int().unwrap_or(0) + 1)), x => x.clone() },
        Sh::Leaf(_, i) => p.vals[*i].clone(),
        Sh::Arr(a) => Mv::Arr(a.iter().map(|x| spelled(x, p)).collect()),
        Sh::Obj(o) => { let mut r = vec![]; for (k, x) in o.iter() { let k = match k { Ky::Is(k) => k.to_string(), Ky::Made(i) => p.keys[*i].clone() }; obj_set(&mut r, &k, spelled(x, p)); } Mv::Obj(r) }
    }
}
fn int_of(m: &Mv) -> i64 { match m { Mv::Num(n) => n.as_int().unwrap_or(0) as i64, _ => 0 } }

struct Ev<'a> {
    p: &'a Parts,
    made: RefCell<Vec<Option<JsonValue>>>,
    log: RefCell<Vec<E>>,
    convs: RefCell<Vec<usize>>,
    /// panics at this evaluation or conversion
    fault: Option<u64>,
    calls: Cell<u64>,
    inner: Option<(&'a dyn Fn(u64), u64)>,
}
impl<'a> Ev<'a> {
    fn new(p: &'a Parts, fault: Option<u64>) -> Option<Ev<'a>> {
        let mut made = vec![];
        for m in &p.vals { let v = make(S::Data, m)?; made.push(Some(v.0)); }
        Some(Ev { p, made: RefCell::new(made), log: RefCell::new(vec![]), convs: RefCell::new(vec![]), fault, calls: Cell::new(0), inner: None })
    }
    fn happens(&self, e: E) { let _o = Out::new(); self.log.borrow_mut().push(e); self.step(); }
    fn step(&self) {
        let n = self.calls.get(); self.calls.set(n + 1);
        if let Some((g, every)) = &self.inner { if n % every == 0 { g(n); } }
        if self.fault == Some(n) { count("expression_panics"); ev("expression-panic", n, 0); inject_panic(n); }
    }
    fn val(&self, k: Kind, i: usize) -> &Mv { self.happens(E::Val(k, i)); &self.p.vals[i] }
    fn text(&self, i: usize) -> String { match &self.p.vals[i] { Mv::Str(s) => in_arena(|| s.as_str().into()), _ => String::new() } }
}
impl<'a> f::Leaves for Ev<'a> {
    fn v(&self, i: usize) -> JsonValue { self.val(Kind::V, i); let _o = Out::new(); self.made.borrow_mut()[i].take().unwrap_or(JsonValue::Null) }
    fn c(&self, i: usize) -> f::CbVal {
        self.val(Kind::C, i);
        let me: &'static Ev<'static> = unsafe { std::mem::transmute(self) }; // called before the macro use ends, or not at all
        f::CbVal(Box::new(move || { let _o = Out::new(); me.convs.borrow_mut().push(i); me.step(); me.made.borrow_mut()[i].take().unwrap_or(JsonValue::Null) }))
    }
    fn i(&self, i: usize) -> i64 { let k = if self.p.order.contains(&E::Val(Kind::Inc, i)) { Kind::Inc } else { Kind::I }; int_of(self.val(k, i)) }
    fn s(&self, i: usize) -> String { self.val(Kind::S, i); self.text(i) }
    fn o(&self, i: usize) -> Option<String> { match self.val(Kind::O, i) { Mv::Null => None, _ => Some(self.text(i)) } }
    fn b(&self, i: usize) -> bool { matches!(self.val(Kind::B, i), Mv::Bool(true)) }
    fn f(&self, i: usize) -> f64 { int_of(self.val(Kind::F, i)) as f64 }
    fn l(&self, i: usize) -> Vec<i64> { match self.val(Kind::L, i) { Mv::Arr(a) => in_arena(|| a.iter().map(int_of).collect()), _ => vec![] } }
    fn m(&self, i: usize) -> std::collections::BTreeMap<String, bool> { match self.val(Kind::M, i) { Mv::Obj(o) => in_arena(|| o.iter().map(|(k, v)| (k.clone(), matches!(v, Mv::Bool(true)))).collect()), _ => Default::default() } }
    fn t(&self, i: usize) -> &str { match self.val(Kind::S, i) { Mv::Str(s) => s, _ => "" } }
    fn k(&self, i: usize) -> &str { self.happens(E::Key(i)); &self.p.keys[i] }
}

fn parts(k: usize, keys: &Keys) -> (Parts, Mv) {
    let mut p = Parts { vals: vec![], keys: vec![], order: vec![], convs: vec![] };
    collect(&f::SHAPES[k].is, &mut p, keys);
    let m = spelled(&f::SHAPES[k].is, &p);
    (p, m)
}
/// What is evaluated, in what order; `whole` if nothing interrupted it.
fn orderly(k: usize, e: &Ev, whole: bool) -> Option<()> {
    let log = e.log.borrow();
    let want = &e.p.order;
    let n = log.len();
    ck!(n <= want.len() && log[..] == want[..n] && (!whole || n == want.len()), "macro:evaluation", "{:.200} evaluates {:?}, it spells {:?}", f::SHAPES[k].text, *log, want);
    let c = e.convs.borrow();
    ck!(c.len() <= e.p.convs.len() && c[..] == e.p.convs[..c.len()] && (!whole || c.len() == e.p.convs.len()), "macro:conversion", "{:.200} converts the values {:?}, it spells {:?}", f::SHAPES[k].text, *c, e.p.convs);
    Some(())
}

pub fn c17() -> Option<()> {
    if f::SHAPES.is_empty() { return None; }
    let keys = Keys::new(S::Data);
    // something that exists already, and goes into what is built
    let (bystander, bm) = make(S::Data, &crate::history::small(&keys))?;
    for _ in 0..range(S::Ops, 1, 4) {
        let k = ch(S::Ops, f::SHAPES.len() as u32) as usize;
        let (p, m) = parts(k, &keys);
        let events = (p.order.len() + p.convs.len()) as u64;
        ev("macro", k as u64, events);
        note(|| format!("{:.300}", f::SHAPES[k].text));
        // one of the expressions panics
        if events > 0 && ch(S::Ops, 3) == 2 {
            let at = ch(S::Fault, events as u32) as u64;
            let mut held = vec![];
            for again in 0..3 {
                let live0 = arena().live;
                let e = Ev::new(&p, Some(at))?;
                match sut("macro", || f::shape(k, &e)) {
                    Err(x) if x.injected == Some(at) => {}
                    Err(x) => { viol("panic:macro", format!("{:.200}: panicked: {}", f::SHAPES[k].text, x.msg)); return None; }
                    Ok(_) => { viol("macro:panic", format!("{:.200} goes on although an expression in it panicked", f::SHAPES[k].text)); return None; }
                }
                orderly(k, &e, false)?;
                ck!(e.calls.get() == at + 1, "macro:after-panic", "{:.200} evaluates {} expressions more after one has panicked", f::SHAPES[k].text, e.calls.get() - at - 1);
                if !expect("macro:bystander", "a value that had nothing to do with the construction that failed", &bystander, &bm) { return None; }
                call("drop", || drop(e))?;
                // nothing of it stays behind (what is set up once, may)
                held.push(arena().live as i64 - live0 as i64);
                if again == 0 && held[0] <= 0 { break; }
            }
            ck!(held.iter().any(|h| *h <= 0), "macro:left-behind", "{:.200}: after a panic of an expression {:?} blocks of memory stay behind", f::SHAPES[k].text, held);
        }
        // undisturbed, or with other constructions inside
        let mut e = Ev::new(&p, None)?;
        let k2 = ch(S::Ops, f::SHAPES.len() as u32) as usize;
        let nested = events > 0 && ch(S::Ops, 3) == 2;
        let (p2, m2) = if nested { parts(k2, &keys) } else { (Parts { vals: vec![], keys: vec![], order: vec![], convs: vec![] }, Mv::Null) };
        let inside = |_n: u64| {
            if failed() { return; }
            count("reentrant_calls");
            let go = || -> Option<()> {
                let e2 = Ev::new(&p2, None)?;
                let v = call("macro", || f::shape(k2, &e2))?;
                orderly(k2, &e2, true)?;
                if !expect("macro:value", f::SHAPES[k2].text, &v, &m2) { return None; }
                call("drop", || { f::drop_value(v); drop(e2) })
            };
            go();
        };
        if nested { e.inner = Some((&inside, range(S::Ops, 1, 5) as u64)); }
        let v = call("macro", || f::shape(k, &e))?;
        if failed() { return None; }
        orderly(k, &e, true)?;
        if !expect("macro:value", f::SHAPES[k].text, &v, &m) { return None; }
        // the same by calls
        let (w, _) = make(S::Data, &m)?;
        let r = call("eq", || (f::eq(&v, &w), f::eq(&w, &v)))?;
        ck!(r == (true, true), "macro:equal", "{:.200} and the same value built by calls compare as {:?}", f::SHAPES[k].text, r);
        // and it is a value like any other
        let (mut v, mut m) = (v, m);
        if ch(S::Ops, 2) == 1 { crate::history::mutate(&mut v, &mut m, &keys, 0)?; if !expect("macro:changed", "after a change of a value built by a macro", &v, &m) { return None; } }
        call("drop", || { f::drop_value(v); f::drop_value(w); drop(e) })?;
        count("macro_uses");
    }
    if !expect("macro:bystander", "a value that had nothing to do with the constructions", &bystander, &bm) { return None; }
    call("drop", || f::drop_value(bystander))?;
    Some(())
}
