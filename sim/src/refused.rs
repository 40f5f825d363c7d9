//! C20: a request for memory that is refused stops the call and damages nothing.
//!
//! The process has a handler for refused allocations that unwinds, as a server's may.  Every step
//! is done twice or three times: on a copy with nothing refused (what it gives, and how many
//! requests it makes), then on the value itself with requests refused, then once more undisturbed.
use crate::model::*;
use crate::refjson::*;
use crate::rt::*;
use crate::stream::{gen_doc, Doc};
use crate::world::*;
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};
use std::hash::RandomState;
use surface as f;

#[derive(Clone, Debug)]
enum Op {
    Dump, Pretty(u16), Display(bool), Debug, Clone, Eq, Write(Option<u16>), Stringify(bool), Parse(String), Contains,
    FromVec, FromSlice, FromHash, FromBtree, Collect, FromStr(String), FromString(String), Capacity(usize),
    Push, Pop, Insert(String), ObjectInsert(String), Remove(String), ObjectRemove(String), ArrayRemove(usize), Clear, Take, TakeString,
    IndexStr(String, u32), IndexStrMut(String, u32), ObjectIndexMut(String, u32), IndexMut(usize), CloneFrom, CloneObjectFrom,
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Dump => "dump", Op::Pretty(_) => "pretty", Op::Display(_) => "display", Op::Debug => "debug", Op::Clone => "clone", Op::Eq => "eq",
            Op::Write(None) => "write", Op::Write(_) => "write_pretty", Op::Stringify(_) => "stringify", Op::Parse(_) => "parse", Op::Contains => "contains",
            Op::FromVec => "from-vec", Op::FromSlice => "from-slice", Op::FromHash | Op::FromBtree => "from-map", Op::Collect => "collect",
            Op::FromStr(_) => "from-str", Op::FromString(_) => "from-string", Op::Capacity(_) => "with_capacity",
            Op::Push => "push", Op::Pop => "pop", Op::Insert(_) => "insert", Op::ObjectInsert(_) => "Object::insert", Op::Remove(_) => "remove", Op::ObjectRemove(_) => "Object::remove",
            Op::ArrayRemove(_) => "array_remove", Op::Clear => "clear", Op::Take => "take", Op::TakeString => "take_string",
            Op::IndexStr(..) => "index", Op::IndexStrMut(..) | Op::ObjectIndexMut(..) => "index_mut", Op::IndexMut(_) => "index_mut-number", Op::CloneFrom | Op::CloneObjectFrom => "clone_from",
        }
    }
    fn changes(&self) -> bool {
        use Op::*;
        matches!(self, Push | Pop | Insert(_) | ObjectInsert(_) | Remove(_) | ObjectRemove(_) | ArrayRemove(_) | Clear | Take | TakeString | IndexStrMut(..) | ObjectIndexMut(..) | IndexMut(_) | CloneFrom | CloneObjectFrom)
    }
    fn gives(&self) -> bool { use Op::*; matches!(self, FromVec | FromSlice | FromHash | FromBtree | Collect | FromStr(_) | FromString(_) | Clone | Parse(_)) }
}

/// What the caller hands over; made anew for every attempt.
enum Arg { No, V(JsonValue), S(String), Vec(Vec<JsonValue>), Hash(HashMap<String, JsonValue>), Btree(BTreeMap<String, JsonValue>), Pairs(Vec<(String, JsonValue)>) }
struct Given { pairs: Vec<(String, JsonValue)>, state: RandomState, room: usize }
fn arg(op: &Op, g: &Given, at: &JsonValue) -> Arg {
    in_arena(|| match op {
        Op::Stringify(_) => Arg::V(f::clone_value(at)),
        Op::FromVec => { let mut v = Vec::with_capacity(g.room); v.extend(g.pairs.iter().map(|p| f::clone_value(&p.1))); Arg::Vec(v) }
        Op::FromSlice => Arg::Vec(g.pairs.iter().map(|p| f::clone_value(&p.1)).collect()),
        Op::FromHash => { let mut m = HashMap::with_hasher(g.state.clone()); for p in &g.pairs { m.insert(p.0.clone(), f::clone_value(&p.1)); } Arg::Hash(m) }
        Op::FromBtree => Arg::Btree(g.pairs.iter().map(|p| (p.0.clone(), f::clone_value(&p.1))).collect()),
        Op::Collect => Arg::Pairs(g.pairs.iter().map(|p| (p.0.clone(), f::clone_value(&p.1))).collect()),
        Op::FromString(s) => { let mut t = String::with_capacity(s.len() + g.room); t.push_str(s); Arg::S(t) }
        Op::Push | Op::Insert(_) | Op::ObjectInsert(_) | Op::Contains => Arg::V(f::clone_value(&g.pairs[0].1)),
        _ => Arg::No,
    })
}

enum Ret { Unit, V(JsonValue), S(String), B(bool), MaybeV(Option<JsonValue>), MaybeS(Option<String>), P(json::Result<JsonValue>), Done(json::Result<()>), W(std::io::Result<()>), O(Object) }
#[derive(Debug, Clone)]
enum Seen { Unit, V(Mv), T(String), B(bool), Nothing, E(String) }
impl PartialEq for Seen {
    fn eq(&self, o: &Seen) -> bool {
        match (self, o) { (Seen::V(a), Seen::V(b)) => a.same(b), (Seen::T(a), Seen::T(b)) => a == b, (Seen::B(a), Seen::B(b)) => a == b, (Seen::E(a), Seen::E(b)) => a == b, (Seen::Unit, Seen::Unit) | (Seen::Nothing, Seen::Nothing) => true, _ => false }
    }
}
impl Seen {
    fn show(&self) -> String { match self { Seen::V(m) => m.show(), Seen::T(t) => format!("{:.80?}", t), Seen::B(b) => b.to_string(), Seen::E(e) => format!("the error {}", e), Seen::Unit => "()".into(), Seen::Nothing => "None".into() } }
}
fn see(r: &Ret) -> Seen {
    match r {
        Ret::Unit | Ret::Done(Ok(())) | Ret::W(Ok(())) => Seen::Unit,
        Ret::V(v) | Ret::MaybeV(Some(v)) | Ret::P(Ok(v)) => Seen::V(read(v)),
        Ret::S(s) | Ret::MaybeS(Some(s)) => Seen::T(s.clone()),
        Ret::B(b) => Seen::B(*b),
        Ret::MaybeV(None) | Ret::MaybeS(None) => Seen::Nothing,
        Ret::P(Err(e)) | Ret::Done(Err(e)) => Seen::E(format!("{:?}", e)),
        Ret::W(Err(e)) => Seen::E(e.to_string()),
        Ret::O(o) => Seen::V(Mv::Obj(o.iter().map(|(k, x)| (k.to_string(), read(x))).collect())),
    }
}

/// The value that a path of positions leads to.
fn at_path<'a>(mut v: &'a JsonValue, path: &[usize]) -> &'a JsonValue {
    for i in path { v = if v.is_array() { v.members().nth(*i).unwrap() } else { v.entries().nth(*i).unwrap().1 }; }
    v
}
fn at_path_mut<'a>(mut v: &'a mut JsonValue, path: &[usize]) -> &'a mut JsonValue {
    for i in path { v = if v.is_array() { v.members_mut().nth(*i).unwrap() } else { v.entries_mut().nth(*i).unwrap().1 }; }
    v
}
fn model_at<'a>(mut m: &'a mut Mv, path: &[usize]) -> &'a mut Mv {
    for i in path { m = match m { Mv::Arr(a) => &mut a[*i], Mv::Obj(o) => &mut o[*i].1, _ => unreachable!() }; }
    m
}

fn perform(op: &Op, v: &mut JsonValue, other: &JsonValue, a: Arg, w: &mut SimWriter) -> Ret {
    match (op, a) {
        (Op::Dump, _) => Ret::S(f::dump(v)),
        (Op::Pretty(n), _) => Ret::S(f::pretty(v, *n)),
        (Op::Display(alt), _) => Ret::S(f::display(v, *alt)),
        (Op::Debug, _) => Ret::S(f::debug(v)),
        (Op::Clone, _) => Ret::V(f::clone_value(v)),
        (Op::Eq, _) => Ret::B(f::eq(v, other)),
        (Op::Write(None), _) => Ret::W(f::write(v, w)),
        (Op::Write(Some(n)), _) => Ret::W(f::write_pretty(v, w, *n)),
        (Op::Stringify(false), Arg::V(x)) => Ret::S(f::stringify(x)),
        (Op::Stringify(true), Arg::V(x)) => Ret::S(f::stringify_pretty(x, 2)),
        (Op::Parse(t), _) => Ret::P(f::parse(t)),
        (Op::Contains, Arg::V(x)) => Ret::B(f::contains(v, x)),
        (Op::FromVec, Arg::Vec(x)) => Ret::V(f::from_vec(x)),
        (Op::FromSlice, Arg::Vec(x)) => Ret::V(f::from_slice(&x)),
        (Op::FromHash, Arg::Hash(x)) => Ret::V(f::from_hash(x)),
        (Op::FromBtree, Arg::Btree(x)) => Ret::V(f::from_btree(x)),
        (Op::Collect, Arg::Pairs(x)) => Ret::O(f::object_collect(&mut x.into_iter())),
        (Op::FromStr(s), _) => Ret::V(f::from_str(s)),
        (Op::FromString(_), Arg::S(s)) => Ret::V(f::from_string(s)),
        (Op::Capacity(n), _) => Ret::O(f::o_new(Some(*n))),
        (Op::Push, Arg::V(x)) => Ret::Done(f::push(v, x)),
        (Op::Pop, _) => Ret::V(f::pop(v)),
        (Op::Insert(k), Arg::V(x)) => Ret::Done(f::insert(v, k, x)),
        (Op::ObjectInsert(k), Arg::V(x)) => { if let JsonValue::Object(o) = v { f::o_insert(o, k, x) } Ret::Unit }
        (Op::Remove(k), _) => Ret::V(f::remove(v, k)),
        (Op::ObjectRemove(k), _) => if let JsonValue::Object(o) = v { Ret::MaybeV(f::o_remove(o, k)) } else { Ret::Unit },
        (Op::ArrayRemove(i), _) => Ret::V(f::array_remove(v, *i)),
        (Op::Clear, _) => { f::clear(v); Ret::Unit }
        (Op::Take, _) => Ret::V(f::take(v)),
        (Op::TakeString, _) => Ret::MaybeS(f::take_string(v)),
        (Op::IndexStr(k, form), _) => Ret::B(f::index_str(v, k, *form).is_null()),
        (Op::IndexStrMut(k, form), _) => Ret::B(f::index_str_mut(v, k, *form).is_null()),
        (Op::ObjectIndexMut(k, form), _) => if let JsonValue::Object(o) = v { Ret::B(f::o_index_mut(o, k, *form).is_null()) } else { Ret::Unit },
        (Op::IndexMut(i), _) => Ret::B(f::index_usize_mut(v, *i).is_null()),
        (Op::CloneFrom, _) => { f::clone_from(v, other); Ret::Unit }
        (Op::CloneObjectFrom, _) => { if let (JsonValue::Object(d), JsonValue::Object(o)) = (v, other) { f::clone_object_from(d, o) } Ret::Unit }
        _ => unreachable!(),
    }
}

fn gen_op(at: &Mv, keys: &Keys, docs: &[Doc]) -> Op {
    let key = || match ch(S::Ops, 5) {
        0 => keys.near(S::Ops),
        1 => match at { Mv::Obj(o) if !o.is_empty() => o[ch(S::Ops, o.len() as u32) as usize].0.clone(), _ => keys.any(S::Ops).to_string() },
        2 => { let n = pick(S::Ops, &[33usize, 40, 64, 100, 32, 31]); str_of(S::Ops, n, 0) }
        _ => keys.any(S::Ops).to_string(),
    };
    let present = || match at { Mv::Obj(o) if !o.is_empty() && !chance(S::Ops, 1, 8) => o[ch(S::Ops, o.len() as u32) as usize].0.clone(), _ => key() };
    let spaces = || pick(S::Data, &[0u16, 1, 2, 4, 8, 40]);
    loop {
        let obj = matches!(at, Mv::Obj(_));
        let arr = matches!(at, Mv::Arr(_));
        return match weighted(S::Ops, &[10, 10, 12, 4]) {
            0 => match ch(S::Ops, 13) {
                0 => Op::Dump, 1 => Op::Pretty(spaces()), 2 => Op::Display(chance(S::Ops, 1, 2)), 3 => Op::Debug, 4 | 5 => Op::Clone, 6 => Op::Eq,
                7 => Op::Write(if chance(S::Ops, 1, 2) { None } else { Some(spaces()) }), 8 => Op::Stringify(chance(S::Ops, 1, 2)), 9 => Op::Contains,
                10 => Op::IndexStr(key(), ch(S::Ops, 3)),
                _ => {
                    let mut t = String::new();
                    let m = &docs[ch(S::Data, docs.len() as u32) as usize].m;
                    if chance(S::Data, 1, 2) { spell(S::Data, m, &mut t); } else { Printer { spaced: chance(S::Data, 1, 2), newline: "\n", indent: "" }.print(&docs[0].v, 0, &mut t); }
                    if chance(S::Fault, 1, 3) { let mut b = t.into_bytes(); damage(&mut b); t = String::from_utf8_lossy(&b).into_owned(); count("damaged_documents"); }
                    Op::Parse(t)
                }
            },
            1 => match ch(S::Ops, 9) { 0 => Op::FromVec, 1 => Op::FromSlice, 2 => Op::FromHash, 3 => Op::FromBtree, 4 | 5 => Op::Collect, 6 => Op::FromStr(gen_string(S::Data)), 7 => Op::FromString(gen_string(S::Data)), _ => Op::Capacity(range(S::Data, 0, 40) as usize) },
            2 => match ch(S::Ops, 10) {
                0 | 1 | 2 if obj => Op::Insert(key()), 3 if obj => Op::ObjectInsert(key()), 4 if obj => Op::Remove(present()), 5 if obj => Op::ObjectRemove(present()),
                6 if obj => Op::IndexStrMut(key(), ch(S::Ops, 3)), 7 if obj => Op::ObjectIndexMut(key(), ch(S::Ops, 3)),
                0 | 1 | 2 | 3 if arr => Op::Push, 4 if arr => Op::ArrayRemove(range(S::Ops, 0, at.len() as u32) as usize), 5 if arr => Op::Pop, 6 | 7 if arr => Op::IndexMut(range(S::Ops, 0, at.len() as u32 + 2) as usize),
                8 if obj || arr => Op::CloneFrom, 9 if obj => Op::CloneObjectFrom,
                _ => continue,
            },
            _ => match ch(S::Ops, 8) { 0 => Op::Clear, 1 => Op::Take, 2 => Op::TakeString, 3 => Op::IndexStrMut(key(), ch(S::Ops, 3)), 4 => Op::IndexMut(range(S::Ops, 0, 4) as usize), 5 => Op::Push, 6 => Op::Insert(key()), _ => Op::Remove(present()) },
        };
    }
}
/// The content after the copy has been worked on tells what the value itself must become.
fn whole(v: &JsonValue) -> Option<Mv> { match sut("read", || { let _o = Out::new(); read(v) }) { Ok(m) => Some(m), Err(p) => { viol("refused:content", format!("reading panics: {}", p.msg)); None } } }
fn all_intact(docs: &[Doc], others: &[(JsonValue, Mv)], what: &str) -> Option<()> {
    for (k, d) in docs.iter().enumerate() { if !expect("refused:content", &format!("{}: document {}", what, k), &d.v, &d.m) { return None; } }
    for (v, m) in others { if !expect("refused:content", &format!("{}: a value that was only handed over by reference", what), v, m) { return None; } }
    Some(())
}

/// A container that grows and shrinks step by step, with requests refused along the way: whatever
/// room it has of its own is part of the story, which a copy does not tell.
fn grow_and_shrink(d: &mut Doc, keys: &Keys) -> Option<()> {
    if d.m.len() > 100 || !matches!(d.m, Mv::Arr(_) | Mv::Obj(_)) {
        let m = if chance(S::Ops, 1, 2) { Mv::Arr(vec![]) } else { Mv::Obj(vec![]) };
        let (v, m) = make(S::Data, &m)?;
        let old = std::mem::replace(d, Doc { v, m });
        call("drop", move || f::drop_value(old.v))?;
    }
    for _ in 0..range(S::Ops, 1, 3) {
        for grow in [true, false] {
            let n = range(S::Ops, 1, 80);
            let often = pick(S::Fault, &[2u32, 1, 4]);
            ev("burst", n as u64, grow as u64);
            for k in 0..n {
                let len = d.m.len();
                let op = match (&d.m, grow) {
                    (Mv::Arr(_), true) => Op::Push,
                    (Mv::Arr(a), false) => if a.is_empty() || chance(S::Ops, 7, 8) { Op::Pop } else { Op::ArrayRemove(ch(S::Ops, len as u32) as usize) },
                    (Mv::Obj(_), true) => { let mut key = keys.any(S::Ops).to_string(); if chance(S::Ops, 3, 4) { key = format!("{}{}", &key[..key.char_indices().nth(40).map_or(key.len(), |c| c.0)], len); } Op::Insert(key) }
                    (Mv::Obj(o), false) => { if o.is_empty() { break; } let i = if chance(S::Ops, 1, 2) { o.len() - 1 } else { ch(S::Ops, len as u32) as usize }; Op::Remove(o[i].0.clone()) }
                    _ => return Some(()),
                };
                let mut pairs = vec![];
                if grow { let m = match ch(S::Data, 4) { 0 => Mv::Str("a string that is too long to be a short one".into()), 1 => Mv::Arr(vec![Mv::Num(N::int(k as i128))]), _ => Mv::Num(N::int(k as i128)) }; let (v, _) = make(S::Data, &m)?; pairs.push((String::new(), v)); }
                let given = pairs.first().map(|p| read(&p.1));
                let g = Given { pairs, state: hash_state(S::Data), room: 0 };
                // what it becomes, and what it gives
                let (mut after, mut want) = (d.m.clone(), Seen::Unit);
                match (&op, &mut after) {
                    (Op::Push, Mv::Arr(a)) => a.push(given?),
                    (Op::Pop, Mv::Arr(a)) => want = Seen::V(a.pop().unwrap_or(Mv::Null)),
                    (Op::ArrayRemove(i), Mv::Arr(a)) => want = Seen::V(a.remove(*i)),
                    (Op::Insert(key), Mv::Obj(o)) => { let x = given?; match o.iter_mut().find(|e| e.0 == *key) { Some(e) => e.1 = x, None => o.push((key.clone(), x)) } }
                    (Op::Remove(key), Mv::Obj(o)) => { let i = o.iter().position(|e| e.0 == *key)?; want = Seen::V(o.remove(i).1) }
                    _ => return Some(()),
                }
                let refuse = match ch(S::Fault, often + 1) { 0 => Refuse::Never, 1 => Refuse::One(0), _ => if chance(S::Fault, 1, 4) { Refuse::One(range(S::Fault, 0, 3) as u64) } else { Refuse::One(0) } };
                let a = arg(&op, &g, &d.v);
                let mut w = SimWriter::working();
                let (r, _, refused) = refusing(refuse, || sut(op.name(), || perform(&op, &mut d.v, &JsonValue::Null, a, &mut w)));
                match r {
                    Ok(r) => {
                        let got = match sut("read", || { let _o = Out::new(); see(&r) }) { Ok(s) => s, Err(p) => { viol("refused:result", format!("{}: reading the result panics: {}", op.name(), p.msg)); return None } };
                        ck!(got == want, "refused:result", "{:.200?} on {} members, with {} requests refused, returns {} instead of {}", op, len, refused, got.show(), want.show());
                        call("drop", move || drop(r))?;
                        d.m = after;
                        if refused > 0 { count("refusals_survived"); if !expect("refused:content", op.name(), &d.v, &d.m) { return None; } }
                    }
                    Err(p) => {
                        ck!(refused > 0, "refused:panic", "{:.200?} panics although nothing is refused: {}", op, p.msg);
                        count("calls_stopped_for_memory");
                        let now = whole(&d.v)?;
                        ck!(now.same(&d.m) || grow && now.same(&after), "refused:content", "{:.200?} was stopped for want of memory and left {} where {} was and {} would have been", op, now.show(), d.m.show(), after.show());
                        d.m = now;
                    }
                }
                call("drop", move || drop(g))?;
            }
            if !expect("refused:content", if grow { "after growing" } else { "after shrinking" }, &d.v, &d.m) { return None; }
        }
    }
    Some(())
}

pub fn c20() -> Option<()> {
    let keys = Keys::new(S::Data);
    let n = range(S::Ops, 1, 3) as usize;
    let mut docs = vec![];
    for _ in 0..n { docs.push(gen_doc(&keys)?); }
    let state = hash_state(S::Data);
    for _ in 0..range(S::Ops, 2, 9) {
        let i = ch(S::Ops, docs.len() as u32) as usize;
        if chance(S::Ops, 1, 40) { grow_and_shrink(&mut docs[i], &keys)?; all_intact(&docs, &[], "growing and shrinking")?; continue; }
        // somewhere in the document
        let mut path = vec![];
        { let mut m = &docs[i].m;
          while m.len() > 0 && chance(S::Ops, 2, 5) { let k = ch(S::Ops, m.len() as u32) as usize; path.push(k); m = match m { Mv::Arr(a) => &a[k], Mv::Obj(o) => &o[k].1, _ => unreachable!() }; } }
        let op = { let d = &mut docs[i]; let at = model_at(&mut d.m, &path).clone(); gen_op(&at, &keys, &docs) };
        // what is handed over
        let mut pairs = vec![];
        for _ in 0..range(S::Data, 1, 5) { let m = crate::history::small(&keys); let (v, _) = make(S::Data, &m)?; let k = if chance(S::Data, 1, 3) { let n = pick(S::Data, &[33usize, 50]); str_of(S::Data, n, 0) } else { keys.any(S::Data).to_string() }; pairs.push((k, v)); }
        if matches!(op, Op::Contains) && chance(S::Data, 1, 2) { if let Some(x) = at_path(&docs[i].v, &path).members().last() { pairs[0].1 = in_arena(|| f::clone_value(x)); } }
        let g = Given { pairs, state: state.clone(), room: pick(S::Data, &[0usize, 0, 1, 9, 100]) };
        let j = ch(S::Ops, docs.len() as u32) as usize;
        let mut other = (JsonValue::Null, Mv::Null);
        if matches!(op, Op::Eq | Op::CloneFrom | Op::CloneObjectFrom) {
            let v = match sut("clone", || f::clone_value(&docs[j].v)) { Ok(v) => v, Err(_) => { count("setup_abandoned"); return None } };
            let m = whole(&v)?; other = (v, m);
        }
        // undisturbed, on a copy: what is to be expected
        let mut copy = match sut("clone", || f::clone_value(&docs[i].v)) { Ok(v) => v, Err(_) => { count("setup_abandoned"); return None } };
        let a = arg(&op, &g, at_path(&copy, &path));
        let mut w0 = SimWriter::new();
        let (r, asked, _) = refusing(Refuse::Never, || sut(op.name(), || perform(&op, at_path_mut(&mut copy, &path), &other.0, a, &mut w0)));
        let r = match r { Ok(r) => r, Err(_) => { count("setup_abandoned"); return None } };
        let want = match sut("read", || { let _o = Out::new(); see(&r) }) { Ok(s) => s, Err(_) => { count("setup_abandoned"); return None } };
        let after = whole(&copy)?;
        call("drop", move || { drop(r); drop(copy) })?;
        let before = docs[i].m.clone();
        // the same with requests refused
        for turn in 0..range(S::Fault, 1, 3) {
            let refuse = match weighted(S::Fault, &[8, 2, 2, 2]) {
                0 => Refuse::One(ch(S::Fault, asked.min(3000) as u32 + 2) as u64),
                1 => Refuse::From(ch(S::Fault, asked.min(3000) as u32 + 2) as u64),
                2 => Refuse::Larger(pick(S::Fault, &[0usize, 8, 31, 32, 33, 64, 100, 500, 1024, 4000])),
                _ => Refuse::Quota(pick(S::Fault, &[0u64, 1, 40, 100, 200, 1000, 5000])),
            };
            note(|| format!("{:.200?} at {:?} of document {}, refusing {:?} (it makes {} requests)", op, path, i, refuse, asked));
            ev(op.name(), i as u64, asked);
            let a = arg(&op, &g, at_path(&docs[i].v, &path));
            let mut w = SimWriter::working();
            let (r, _, refused) = refusing(refuse, || sut(op.name(), || perform(&op, at_path_mut(&mut docs[i].v, &path), &other.0, a, &mut w)));
            match r {
                Ok(r) => {
                    let got = match sut("read", || { let _o = Out::new(); see(&r) }) { Ok(s) => s, Err(p) => { viol("refused:result", format!("{}: reading the result panics: {}", op.name(), p.msg)); return None } };
                    if refused > 0 { count("refusals_survived"); }
                    // what cannot be written for want of memory may be reported
                    if let (Ret::W(Err(e)), true) = (&r, refused > 0) { if e.kind() == std::io::ErrorKind::OutOfMemory { call("drop", move || drop(r))?; all_intact(&docs, std::slice::from_ref(&other), op.name())?; continue; } }
                    ck!(got == want, "refused:result", "{:.200?}, with {} requests refused, returns {} instead of {}", op, refused, got.show(), want.show());
                    ck!(!matches!(op, Op::Write(_)) || w.got == w0.got, "refused:result", "{:?}, with {} requests refused, writes other bytes", op, refused);
                    docs[i].m = after.clone();
                    all_intact(&docs, std::slice::from_ref(&other), op.name())?;
                    // go on with what was made
                    if op.gives() && chance(S::Ops, 1, 3) {
                        if let (Ret::V(v) | Ret::P(Ok(v)), Seen::V(m)) = (r, got) { let old = std::mem::replace(&mut docs[i], Doc { v, m }); call("drop", move || f::drop_value(old.v))?; }
                    } else { call("drop", move || drop(r))?; }
                    break;
                }
                Err(p) => {
                    ck!(refused > 0, "refused:panic", "{:.200?} panics although nothing is refused: {}", op, p.msg);
                    count("calls_stopped_for_memory");
                    ck!(!matches!(op, Op::Write(_)) || w0.got.starts_with(&w.got), "refused:content", "{:?} stopped after writing something else", op);
                    let now = whole(&docs[i].v)?;
                    if op.changes() {
                        let mut fine = now.same(&before) || now.same(&after);
                        // what it would have handed out must not be lost
                        if matches!(op, Op::Pop | Op::Remove(_) | Op::ObjectRemove(_) | Op::ArrayRemove(_) | Op::Take | Op::TakeString) { fine = now.same(&before); }
                        // halfway: a container, still without the entry, in the place of something else
                        if !fine { for m in [Mv::Obj(vec![]), Mv::Arr(vec![]), Mv::Arr(vec![Mv::Null])] {
                            let mut h = before.clone();
                            let here = model_at(&mut h, &path);
                            if matches!((&op, &m), (Op::IndexStrMut(..) | Op::ObjectIndexMut(..) | Op::Insert(_), Mv::Obj(_)) | (Op::IndexMut(_), Mv::Arr(_))) && !matches!((&*here, &m), (Mv::Obj(_), Mv::Obj(_)) | (Mv::Arr(_), Mv::Arr(_))) { *here = m; if now.same(&h) { fine = true; } }
                        } }
                        if matches!(op, Op::CloneFrom | Op::CloneObjectFrom) {
                            // the destination may hold anything; the rest of its document may not
                            let mut h = now.clone(); let mut b = before.clone();
                            if shape_at(&h, &path) { *model_at(&mut h, &path) = Mv::Null; *model_at(&mut b, &path) = Mv::Null; fine = h.same(&b); }
                        }
                        ck!(fine, "refused:content", "{:.200?} at {:?} was stopped for want of memory and left {} where {} was and {} would have been", op, path, now.show(), before.show(), after.show());
                    }
                    if op.changes() { docs[i].m = now; }
                    all_intact(&docs, std::slice::from_ref(&other), op.name())?;
                    if op.changes() && !docs[i].m.same(&before) { break; }
                    if turn > 0 || chance(S::Ops, 2, 3) {
                        // memory is there again
                        let a = arg(&op, &g, at_path(&docs[i].v, &path));
                        let mut w = SimWriter::new();
                        let r = call(op.name(), || perform(&op, at_path_mut(&mut docs[i].v, &path), &other.0, a, &mut w))?;
                        let got = match sut("read", || { let _o = Out::new(); see(&r) }) { Ok(s) => s, Err(p) => { viol("refused:retry", format!("{}: reading the result panics: {}", op.name(), p.msg)); return None } };
                        ck!(got == want && (w.got == w0.got), "refused:retry", "{:.200?}, once memory is there again, returns {} instead of {}", op, got.show(), want.show());
                        docs[i].m = after.clone();
                        if !expect("refused:retry", op.name(), &docs[i].v, &after) { return None; }
                        all_intact(&docs, std::slice::from_ref(&other), op.name())?;
                        call("drop", move || drop(r))?;
                        count("repeated_undisturbed");
                        break;
                    }
                }
            }
        }
        call("drop", move || { drop(g); drop(other) })?;
    }
    call("drop", move || drop(docs))?;
    Some(())
}
fn shape_at(m: &Mv, path: &[usize]) -> bool {
    let mut m = m;
    for i in path { m = match m { Mv::Arr(a) if *i < a.len() => &a[*i], Mv::Obj(o) if *i < o.len() => &o[*i].1, _ => return false }; }
    true
}
