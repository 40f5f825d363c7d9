//! C08, C09, C10, C11: long histories of operations on objects, trees, copies and pairs of
//! values, each step checked against the reference model, while the allocator moves,
//! reuses and poisons memory as the ALLOC stream decides.
use crate::model::*;
use crate::refjson::*;
use crate::rt::*;
use json::object::Object;
use json::JsonValue;
use std::cell::RefCell;
use surface as f;

pub fn small(keys: &Keys) -> Mv {
    match weighted(S::Data, &[3, 2, 2, 2, 1]) {
        0 => Mv::Num(N::int(ch(S::Data, 100) as i128)),
        1 => Mv::Str(gen_string(S::Data)),
        2 => Mv::Bool(ch(S::Data, 2) == 1),
        3 => Mv::Null,
        _ => { let mut sh = Shape { depth: 2, width: 4, nan: true, budget: 8 }; gen_value(S::Data, keys, &mut sh, 0) }
    }
}
fn built(m: &Mv) -> Option<(JsonValue, Mv)> { make(S::Data, m) }

// ---------------------------------------------------------------- C08

fn show_keys(m: &[(String, Mv)]) -> String { let v: Vec<String> = m.iter().take(12).map(|e| format!("{:.24?}", e.0)).collect(); format!("[{}{}]", v.join(", "), if m.len() > 12 { ", ..." } else { "" }) }

/// Everything the object shows must be what the model says.
fn object_check(o: &Object, m: &[(String, Mv)], keys: &Keys, full: bool) -> Option<()> {
    let (len, empty) = call("len", || (o.len(), o.is_empty()))?;
    ck!(len == m.len() && empty == m.is_empty(), "map:len", "len() is {} (is_empty() {}) with keys {}", len, empty, show_keys(m));
    let pats: &[u64] = if full { &[0, u64::MAX, 2] } else { &[0] };
    for p in pats {
        let pattern = if *p == 2 { bits64(S::Ops) } else { *p };
        let (mut a, mut b) = (0usize, m.len());
        let bad: RefCell<Option<String>> = RefCell::new(None);
        let mut steps = 0;
        call("iter", || f::o_walk(o, pattern, &mut |back, len, item| {
            let _o = Out::new();
            steps += 1;
            if bad.borrow().is_some() { return; }
            if len != b - a { *bad.borrow_mut() = Some(format!("iterator length {} with {} entries left", len, b - a)); return; }
            match item {
                None => if a != b { *bad.borrow_mut() = Some(format!("iteration ends with {} entries left", b - a)); },
                Some((k, v)) => {
                    if a == b { *bad.borrow_mut() = Some(format!("iteration yields {:?} although nothing is left", k)); return; }
                    let e = if back { b -= 1; &m[b] } else { a += 1; &m[a - 1] };
                    if k != e.0 { *bad.borrow_mut() = Some(format!("iteration ({}) yields key {:?} instead of {:?}", if back { "from the back" } else { "from the front" }, k, e.0)); return; }
                    if let Some(d) = differs(v, &e.1, Num::Exact) { *bad.borrow_mut() = Some(format!("iteration yields a wrong value for {:?}: {}", k, d)); }
                }
            }
        }))?;
        let bad = bad.into_inner();
        if let Some(b) = bad { viol("map:iteration", format!("{} (pattern {:#x}) with keys {}", b, pattern, show_keys(m))); return None; }
    }
    if full {
        let (op, i) = (ch(S::Ops, f::ADAPTS), ch(S::Ops, m.len() as u32 + 2) as usize);
        let mut want = vec![]; let wn = f::adapt(0..m.len(), op, i, &mut |j| want.push(j));
        let mut k = 0; let mut bad = false;
        let n = call("iter", || f::o_adapt(o, op, i, &mut |(key, v)| { let _o = Out::new(); match want.get(k) { Some(j) if m[*j].0 == key && differs(v, &m[*j].1, Num::Exact).is_none() => {} _ => bad = true } k += 1; }))?;
        ck!(!bad && k == want.len() && n == wn, "map:iteration", "an adapter (kind {}, {}) of iter() gives other entries or lengths; keys {}", op, i, show_keys(m));
        let probe = |k: &str| -> Option<()> {
            let want = m.iter().find(|e| e.0 == k).map(|e| &e.1);
            let got = call("get", || f::o_get(o, k))?;
            match (got, want) {
                (None, None) => {}
                (Some(v), Some(w)) => if let Some(d) = differs(v, w, Num::Exact) { viol("map:lookup", format!("get({:?}): {}", k, d)); return None; },
                (g, w) => { viol("map:lookup", format!("get({:?}) finds {} but the key is {}; keys {}", k, g.map(|v| read(v).show()).unwrap_or("nothing".into()), if w.is_some() { "present" } else { "absent" }, show_keys(m))); return None; }
            }
            Some(())
        };
        if m.len() <= 40 { for e in m { probe(&e.0)?; } } else { for _ in 0..20 { probe(&m[ch(S::Ops, m.len() as u32) as usize].0)?; } }
        for _ in 0..4 { probe(keys.any(S::Ops))?; let k = keys.near(S::Ops); probe(&k)?; }
        // the serialised form lists the same
        let t = call("Object::dump", || f::object_dump(o))?;
        obs_bytes(t.as_bytes());
        let mut want = String::new();
        let p = Printer { spaced: false, newline: "", indent: "" };
        want.push('{');
        for (i, (k, _)) in m.iter().enumerate() {
            if i > 0 { want.push(','); }
            esc(k, &mut want); want.push(':');
            match f::o_get(o, k) { Some(v) => { call("read", || { let _o = Out::new(); p.print(v, 0, &mut want) })?; } None => {} }
        }
        want.push('}');
        ck!(t == want, "map:serialisation", "dump gives {} with keys {}", crate::stream::diff_bytes(t.as_bytes(), want.as_bytes()), show_keys(m));
    }
    Some(())
}

/// How many entries a large container has: around the sizes of counters and buffers.
fn bulk_size() -> usize {
    match weighted(S::Ops, &[12, 8, 4, 2, 1]) {
        0 => range(S::Ops, 100, 600) as usize,
        1 => pick(S::Ops, &[127usize, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]),
        2 => range(S::Ops, 1000, 5000) as usize,
        3 => pick(S::Ops, &[4095usize, 4096, 4097, 10_000, 32_767, 32_768, 32_769]),
        _ => pick(S::Ops, &[65_535usize, 65_536, 65_537, 70_000]),
    }
}
/// A large object: the same promises, with counters and indexes beyond every small size.
fn bulk_object() -> Option<()> {
    let n = bulk_size();
    let style = ch(S::Data, 5);
    let (mul, add) = (bits64(S::Data) | 1, bits64(S::Data));
    let key = |i: u64| -> String { match style {
        0 => format!("{}", i), 1 => format!("key-{:06}", i), 2 => format!("a-key-that-does-not-fit-the-inline-buffer-{}", i),
        3 => { let h = i.wrapping_mul(mul).wrapping_add(add); if h % 3 == 0 { format!("{:040x}", h) } else { format!("{:x}", h) } }
        _ => { let (a, b) = COLLIDING[(i % 3) as usize]; format!("{}{}", if i % 2 == 0 { a } else { b }, i / 2) }
    } };
    note(|| format!("an object of {} entries, keys like {:?}", n, key(7)));
    ev("bulk", n as u64, style as u64);
    count("bulk_containers");
    let mut keys: Vec<String> = (0..n as u64).map(key).collect();
    { let mut seen = std::collections::BTreeSet::new(); keys.retain(|k| seen.insert(k.clone())); }
    // model: value number under every key, in order
    let mut vals: Vec<u64> = (0..keys.len() as u64).collect();
    let mut o = match ch(S::Ops, 4) {
        0 => { let mut o = call("with_capacity", || f::o_new(Some(keys.len())))?; call("insert", || for (k, v) in keys.iter().zip(&vals) { f::o_insert(&mut o, k, f::from_u64(*v)) })?; o }
        1 => { let mut t = String::from("{"); for (i, k) in keys.iter().enumerate() { if i > 0 { t.push(','); } esc(k, &mut t); t.push_str(&format!(":{}", vals[i])); } t.push('}');
               match call("parse", || f::parse(&t))? { Ok(JsonValue::Object(o)) => o, r => { viol("map:lookup", format!("an object of {} entries is parsed as {:?}", keys.len(), r.map(|v| kind_of(&v)))); return None } } }
        2 => { let mut it = keys.iter().zip(&vals).map(|(k, v)| (k.clone(), f::from_u64(*v))); call("collect", || f::object_collect(&mut it))? }
        _ => { let mut o = call("new", || f::o_new(None))?; call("insert", || for (k, v) in keys.iter().zip(&vals) { f::o_insert(&mut o, k, f::from_u64(*v)) })?; o }
    };
    for round in 0..range(S::Ops, 1, 4).min((60_000 / keys.len().max(1)).max(1) as u32) {
        if round > 0 { match ch(S::Ops, 6) {
            0 => { let step = range(S::Ops, 1, 300) as usize; note(|| format!("every {}th entry is overwritten", step));
                   call("insert", || for i in (0..keys.len()).step_by(step) { f::o_insert(&mut o, &keys[i], f::from_u64(1_000_000 + i as u64)) })?;
                   for i in (0..keys.len()).step_by(step) { vals[i] = 1_000_000 + i as u64; } }
            1 => for _ in 0..2 { if keys.is_empty() { break; } let i = match ch(S::Ops, 4) { 0 => 0, 1 => keys.len() - 1, _ => ch(S::Ops, keys.len() as u32) as usize };
                   note(|| format!("remove {:?}", keys[i]));
                   let r = call("remove", || f::o_remove(&mut o, &keys[i]))?;
                   ck!(r.as_ref().and_then(|v| v.as_u64()) == Some(vals[i]), "map:remove", "remove({:?}) from {} entries returns {:?}", keys[i], keys.len(), r.map(|v| read(&v).show()));
                   keys.remove(i); vals.remove(i); },
            2 => { note(|| "continue with a copy".into()); let c = call("clone", || f::clone_object(&o))?;
                   ck!(call("eq", || f::object_eq(&c, &o))?, "map:lookup", "a copy of an object of {} entries is not equal to it", keys.len());
                   let old = std::mem::replace(&mut o, c); call("drop", || f::drop_object(old))?; }
            3 => { note(|| "stored and read back".into()); let t = call("Object::dump", || f::object_dump(&o))?;
                   match call("parse", || f::parse(&t))? { Ok(JsonValue::Object(p)) => { let old = std::mem::replace(&mut o, p); call("drop", || f::drop_object(old))?; } r => { viol("map:lookup", format!("an object of {} entries is read back as {:?}", keys.len(), r.map(|v| kind_of(&v)))); return None } } }
            4 => { note(|| "every value through iter_mut".into()); let mut i = 0;
                   call("iter_mut", || f::o_walk_mut(&mut o, 0, &mut |_, _, item| { if let Some((_, v)) = item { if i < vals.len() { *v = f::from_u64(vals[i] + 5); } i += 1; } }))?;
                   for v in vals.iter_mut() { *v += 5; } }
            _ => { note(|| "clear, then filled again".into()); call("clear", || f::o_clear(&mut o))?; ck!(o.len() == 0 && o.is_empty(), "map:len", "after clear len() is {}", o.len());
                   call("insert", || for (k, v) in keys.iter().zip(&vals) { *f::o_index_mut(&mut o, k, 0) = f::from_u64(*v) })?; }
        } }
        ck!(o.len() == keys.len(), "map:len", "len() is {} with {} entries", o.len(), keys.len());
        let bad: RefCell<Option<String>> = RefCell::new(None);
        let pattern = match ch(S::Ops, 3) { 0 => 0, 1 => u64::MAX, _ => bits64(S::Ops) };
        let (mut a, mut b) = (0usize, keys.len());
        call("iter", || f::o_walk(&o, pattern, &mut |back, len, item| {
            let _o = Out::new();
            if bad.borrow().is_some() { return; }
            if len != b - a { *bad.borrow_mut() = Some(format!("iterator length {} with {} entries left", len, b - a)); return; }
            match item {
                None => if a != b { *bad.borrow_mut() = Some(format!("iteration ends with {} entries left", b - a)); },
                Some((k, v)) => {
                    if a == b { *bad.borrow_mut() = Some("iteration does not end".into()); return; }
                    let e = if back { b -= 1; b } else { a += 1; a - 1 };
                    if k != keys[e] || v.as_u64() != Some(vals[e]) { *bad.borrow_mut() = Some(format!("entry {} is {:?}: {} instead of {:?}: {}", e, k, read(v).show(), keys[e], vals[e])); }
                }
            }
        }))?;
        if let Some(b) = bad.into_inner() { viol("map:iteration", format!("{} (of {})", b, keys.len())); return None; }
        let mut wrong = None;
        call("get", || for i in 0..keys.len() { if f::o_get(&o, &keys[i]).and_then(|v| v.as_u64()) != Some(vals[i]) { wrong = Some(i); break; } })?;
        if let Some(i) = wrong { viol("map:lookup", format!("get({:?}) among {} entries finds {:?} instead of {}", keys[i], keys.len(), f::o_get(&o, &keys[i]).map(|v| read(v).show()), vals[i])); return None; }
        for i in 0..20u64 { let k = key(n as u64 + 1 + i) + "?"; if !keys.contains(&k) { let r = call("get", || f::o_get(&o, &k).is_some())?; ck!(!r, "map:lookup", "get({:?}) finds a key that was never stored", k); } }
    }
    call("drop", || f::drop_object(o))?;
    Some(())
}
/// A large array, and a large array of arrays and objects.
fn bulk_array() -> Option<()> {
    let n = bulk_size();
    note(|| format!("an array of {} members", n));
    ev("bulk", n as u64, 9);
    count("bulk_containers");
    let mut m: Vec<u64> = (0..n as u64).collect();
    let mut v = match ch(S::Ops, 4) {
        0 => { let mut v = call("new_array", JsonValue::new_array)?; call("push", || for x in &m { let _ = f::push(&mut v, f::from_u64(*x)); })?; v }
        1 => { let xs: Vec<JsonValue> = m.iter().map(|x| f::from_u64(*x)).collect(); call("from_vec", || f::from_vec(xs))? }
        2 => { let mut t = String::from("["); for (i, x) in m.iter().enumerate() { if i > 0 { t.push(','); } t.push_str(&x.to_string()); } t.push(']');
               match call("parse", || f::parse(&t))? { Ok(v) => v, Err(e) => { viol("access:content", format!("an array of {} numbers cannot be parsed: {:?}", n, e)); return None } } }
        _ => { let mut v = call("new_array", JsonValue::new_array)?; call("index_mut", || for (i, x) in m.iter().enumerate() { *f::index_usize_mut(&mut v, i) = f::from_u64(*x); })?; v }
    };
    for _ in 0..range(S::Ops, 1, 6) {
        let i = if m.is_empty() { 0 } else { match ch(S::Ops, 4) { 0 => m.len() - 1, 1 => m.len() / 2, _ => ch(S::Ops, m.len() as u32) as usize } };
        match ch(S::Ops, 7) {
            0 => { note(|| format!("array_remove {}", i)); let r = call("array_remove", || f::array_remove(&mut v, i))?; let want = if i < m.len() { Some(m.remove(i)) } else { None };
                   ck!(r.as_u64() == want, "access:result", "array_remove({}) of {} members returns {}, not {:?}", i, m.len() + 1, read(&r).show(), want); }
            1 => { let k = range(S::Ops, 1, 300); note(|| format!("{} pops", k)); for _ in 0..k { let r = call("pop", || f::pop(&mut v))?; let want = m.pop(); ck!(r.as_u64() == want, "access:result", "pop of {} members returns {}", m.len() + 1, read(&r).show()); } }
            2 => { let k = range(S::Ops, 1, 300); note(|| format!("{} pushes", k)); for x in 0..k as u64 { call("push", || f::push(&mut v, f::from_u64(x)))?.ok(); m.push(x); } }
            3 => { call("index_mut", || *f::index_usize_mut(&mut v, i) = f::from_u64(77))?; if i < m.len() { m[i] = 77 } else { m.push(77) } }
            4 => { let past = m.len() + ch(S::Ops, 3) as usize; call("index_mut", || *f::index_usize_mut(&mut v, past) = f::from_u64(78))?; m.push(78); }
            5 => { let c = call("clone", || f::clone_value(&v))?; ck!(call("eq", || f::eq(&c, &v))?, "access:content", "a copy of an array of {} members is not equal to it", m.len()); let old = std::mem::replace(&mut v, c); call("drop", || f::drop_value(old))?; }
            _ => { let t = call("dump", || f::dump(&v))?; match call("parse", || f::parse(&t))? { Ok(p) => { let old = std::mem::replace(&mut v, p); call("drop", || f::drop_value(old))?; } Err(e) => { viol("access:content", format!("an array of {} numbers cannot be read back: {:?}", m.len(), e)); return None } } }
        }
        ck!(v.len() == m.len() && v.members().len() == m.len(), "access:len", "len() is {} and members() has {} with {} members", v.len(), v.members().len(), m.len());
        for (k, (x, y)) in v.members().zip(&m).enumerate() { ck!(x.as_u64() == Some(*y), "access:content", "member {} of {} is {} instead of {}", k, m.len(), read(x).show(), y); }
        let last = call("index", || f::index_usize(&v, m.len()).is_null())?; ck!(last, "access:index", "the member behind the last of {} is not null", m.len());
        if let Some(x) = m.get(i) { let r = call("index", || f::index_usize(&v, i).as_u64())?; ck!(r == Some(*x), "access:index", "[{}] of {} members is {:?}", i, m.len(), r); let h = call("contains", || f::contains(&v, f::from_u64(*x)))?; ck!(h, "access:contains", "contains({}) of {} members is false", x, m.len()); }
        let h = call("contains", || f::contains(&v, f::from_u64(u64::MAX)))?; ck!(!h, "access:contains", "contains() finds what is not there");
    }
    call("drop", || f::drop_value(v))?;
    Some(())
}

pub fn c08() -> Option<()> {
    if weighted(S::Ops, &[120, 1]) == 1 { return bulk_object(); }
    let keys = Keys::new(S::Data);
    let heavy = ch(S::Ops, 6) == 5;
    let mut o = match ch(S::Ops, 4) {
        0 => call("new", || f::o_new(None))?,
        1 => { let n = pick(S::Ops, &[1usize, 0, 2, 4, 5, 16, 100]); call("with_capacity", || f::o_new(Some(n)))? }
        2 => match call("new_object", JsonValue::new_object)? { JsonValue::Object(o) => o, _ => { viol("map:new", "new_object is no object".into()); return None } },
        _ => { // parsed: the parser fills objects by its own path
            let n = ch(S::Ops, 8); let mut t = String::from("{");
            for i in 0..n { if i > 0 { t.push(','); } spell_str(S::Data, keys.any(S::Data), &mut t); t.push_str(&format!(":{}", i)); }
            t.push('}');
            match call("parse", || f::parse(&t))? { Ok(JsonValue::Object(o)) => o, _ => { count("setup_abandoned"); return None } }
        }
    };
    let mut m: Vec<(String, Mv)> = match call("read", || { let _o = Out::new(); o.iter().map(|(k, v)| (k.to_string(), read(v))).collect::<Vec<_>>() }) { Some(m) => m, None => return None };
    // a parsed object must already be right
    {
        let mut seen = vec![]; for e in &m { if seen.contains(&&e.0) { viol("map:iteration", format!("a parsed object lists {:?} twice", e.0)); return None; } seen.push(&e.0); }
    }
    object_check(&o, &m, &keys, true)?;
    let steps = if heavy { range(S::Ops, 60, 200) } else { range(S::Ops, 4, 40) };
    // swarm: which operations this run uses
    let mut w = [8u32, 4, 3, 1, 2, 2, 2, 2, 1, 1, 1, 1];
    for i in 0..w.len() { if i > 0 && ch(S::Ops, 4) == 3 { w[i] = 0; } }
    for step in 0..steps {
        let k = keys.any(S::Ops).to_string();
        let op = weighted(S::Ops, &w);
        ev("op", op as u64, m.len() as u64);
        match op {
            0 => { let (v, x) = built(&small(&keys))?; note(|| format!("insert {:?} = {}", k, x.show())); call("insert", || f::o_insert(&mut o, &k, v))?; obj_set(&mut m, &k, x); }
            1 => {
                // any key, near misses included
                let k = if ch(S::Ops, 4) == 3 { keys.near(S::Ops) } else if ch(S::Ops, 2) == 1 && !m.is_empty() { m[ch(S::Ops, m.len() as u32) as usize].0.clone() } else { k };
                note(|| format!("remove {:?}", k));
                let r = call("remove", || f::o_remove(&mut o, &k))?;
                let at = m.iter().position(|e| e.0 == k);
                match (&r, at) {
                    (None, None) => {}
                    (Some(v), Some(i)) => { if let Some(d) = differs(v, &m[i].1, Num::Exact) { viol("map:remove", format!("remove({:?}) returns the wrong value: {}", k, d)); return None; } }
                    (r, at) => { viol("map:remove", format!("remove({:?}) returns {:?}, but the key was {}", k, r.as_ref().map(|v| read(v).show()), if at.is_some() { "present" } else { "absent" })); return None; }
                }
                if let Some(i) = at { m.remove(i); }
                let _ = sut("drop", || drop(r));
            }
            2 => { let (v, x) = built(&small(&keys))?; let form = ch(S::Ops, 3); note(|| format!("object[{:?}] = {} (form {})", k, x.show(), form)); call("index_mut", || { *f::o_index_mut(&mut o, &k, form) = v; })?; obj_set(&mut m, &k, x); }
            3 => if ch(S::Ops, 3) == 2 { note(|| "clear".into()); call("clear", || f::o_clear(&mut o))?; m.clear(); },
            4 => { // through get_mut
                let (v, x) = built(&small(&keys))?;
                let had = m.iter().any(|e| e.0 == k);
                note(|| format!("get_mut {:?} = {}", k, x.show()));
                let got = call("get_mut", || match f::o_get_mut(&mut o, &k) { Some(r) => { *r = v; true } None => false })?;
                ck!(got == had, "map:lookup", "get_mut({:?}) finds {}; keys {}", k, got, show_keys(&m));
                if had { obj_set(&mut m, &k, x); }
            }
            5 if ch(S::Ops, 3) == 2 => { // through an adapter of iter_mut
                let (op, i) = (ch(S::Ops, f::ADAPTS), ch(S::Ops, m.len() as u32 + 2) as usize);
                note(|| format!("iter_mut under adapter {} ({})", op, i));
                let mut want = vec![]; let wn = f::adapt(0..m.len(), op, i, &mut |j| want.push(j));
                let mut k = 0; let mut bad = false;
                let n = call("iter_mut", || f::o_adapt_mut(&mut o, op, i, &mut |(key, v)| { match want.get(k) { Some(j) if m[*j].0 == key => *v = f::from_u64(7000 + k as u64), _ => bad = true } k += 1; }))?;
                ck!(!bad && k == want.len() && n == wn, "map:iteration", "an adapter (kind {}, {}) of iter_mut() gives other entries or lengths; keys {}", op, i, show_keys(&m));
                for (k, j) in want.iter().enumerate() { m[*j].1 = Mv::Num(N::int(7000 + k as i128)); }
            }
            5 => { // through iter_mut, some entries
                let pattern = if ch(S::Ops, 2) == 0 { 0 } else { bits64(S::Ops) };
                note(|| format!("iter_mut, pattern {:#x}", pattern));
                let n = m.len();
                let fresh: Vec<Option<(JsonValue, Mv)>> = (0..n).map(|i| if i < 30 && ch(S::Ops, 3) == 2 { built(&small(&keys)) } else { None }).collect();
                if failed() { return None; }
                let mut fresh = fresh;
                let (mut a, mut b) = (0usize, n);
                let bad: RefCell<Option<String>> = RefCell::new(None);
                {
                    let m = &mut m;
                    call("iter_mut", || f::o_walk_mut(&mut o, pattern, &mut |back, len, item| {
                        let _o = Out::new();
                        if len != b - a { *bad.borrow_mut() = Some(format!("iterator length {} with {} entries left", len, b - a)); }
                        if bad.borrow().is_some() { return; }
                        match item {
                            None => if a != b { *bad.borrow_mut() = Some("ends early".into()); },
                            Some((k, v)) => {
                                if a == b { *bad.borrow_mut() = Some("does not end".into()); return; }
                                let i = if back { b -= 1; b } else { a += 1; a - 1 };
                                if m[i].0 != k { *bad.borrow_mut() = Some(format!("yields key {:?} instead of {:?}", k, m[i].0)); return; }
                                if let Some((y, x)) = fresh[i].take() { let _i = In::new(); *v = y; m[i].1 = x; }
                            }
                        }
                    }))?;
                }
                let bad = bad.into_inner();
                if let Some(b) = bad { viol("map:iteration", format!("iter_mut (pattern {:#x}) {} with keys {}", pattern, b, show_keys(&m))); return None; }
            }
            6 => { // collected again from a selection of its entries
                if m.len() <= 60 {
                    let mut items = vec![];
                    let n = range(S::Ops, 0, 10);
                    for _ in 0..n { let (v, x) = built(&small(&keys))?; items.push((keys.any(S::Ops).to_string(), v, x)); }
                    note(|| format!("collect from {} entries", items.len()));
                    m.clear();
                    for (k, _, x) in &items { obj_set(&mut m, k, x.clone()); }
                    let mut it = items.into_iter().map(|(k, v, _)| (k, v));
                    let hint = ch(S::Ops, 2);
                    let n = if hint == 0 { call("collect", || f::object_collect(&mut it))? } else {
                        // an iterator that does not know its length
                        let mut it2 = std::iter::from_fn(|| it.next());
                        call("collect", || f::object_collect(&mut it2))?
                    };
                    let old = std::mem::replace(&mut o, n);
                    call("drop", || f::drop_object(old))?;
                }
            }
            7 => { // read through Index
                let form = ch(S::Ops, 3);
                let kk = if ch(S::Ops, 3) == 2 { keys.near(S::Ops) } else { k };
                let want = m.iter().find(|e| e.0 == kk).map(|e| e.1.clone()).unwrap_or(Mv::Null);
                let r = call("index", || f::o_index(&o, &kk, form))?;
                if let Some(d) = differs(r, &want, Num::Exact) { viol("map:lookup", format!("object[{:?}]: {}", kk, d)); return None; }
            }
            8 => { // the deprecated way to change the last entry
                let (v, x) = built(&small(&keys))?;
                note(|| format!("override_last = {}", x.show()));
                call("override_last", || f::o_override_last(&mut o, v))?;
                if let Some(e) = m.last_mut() { e.1 = x; }
            }
            9 => { // continue with a copy
                note(|| "continue with a copy".into());
                let c = call("clone", || f::clone_object(&o))?;
                let old = std::mem::replace(&mut o, c);
                call("drop", || f::drop_object(old))?;
            }
            10 => { // move it around
                let moved = call("move", || { let mut v = Vec::with_capacity(1); v.push(o); v.push(f::o_new(None)); v.insert(0, f::o_new(None)); let r = v.swap_remove(1); drop(v); Box::new(r) })?;
                o = *moved;
            }
            _ => { // stored and read back
                if m.len() <= 60 {
                    let t = match sut("dump", || f::object_dump(&o)) { Ok(t) => t, Err(_) => return None };
                    if let Ok(Ok(JsonValue::Object(n))) = sut("parse", || f::parse(&t)) {
                        for e in m.iter_mut() { e.1 = match f::o_get(&n, &e.0) { Some(v) => read(v), None => { viol("map:lookup", format!("{:?} is lost by parsing {:.200}", e.0, t)); return None } }; }
                        let old = std::mem::replace(&mut o, n);
                        call("drop", || f::drop_object(old))?;
                    }
                }
            }
        }
        let full = m.len() <= 12 || step + 1 == steps || step % 8 == 7;
        object_check(&o, &m, &keys, full)?;
    }
    call("drop", || f::drop_object(o))?;
    Some(())
}

// ---------------------------------------------------------------- C09

/// One mutation of a value, mirrored on its model.  Returns None to stop.
pub fn mutate(v: &mut JsonValue, m: &mut Mv, keys: &Keys, depth: u32) -> Option<()> {
    // descend to some member first
    if depth < 6 && ch(S::Ops, 3) == 2 {
        match m {
            Mv::Arr(a) if !a.is_empty() => {
                let i = ch(S::Ops, a.len() as u32) as usize;
                note(|| format!("  in member {}", i));
                let form = ch(S::Ops, 3);
                let r = match form {
                    0 => call("index_mut", || f::index_usize_mut(v, i))?,
                    _ => match call("members_mut", || v.members_mut().nth(i))? { Some(r) => r, None => { viol("access:members", format!("members_mut() has no member {} of {}", i, a.len())); return None } },
                };
                return mutate(r, &mut a[i], keys, depth + 1);
            }
            Mv::Obj(o) if !o.is_empty() => {
                let i = ch(S::Ops, o.len() as u32) as usize;
                let k = o[i].0.clone();
                note(|| format!("  in {:?}", k));
                let form = ch(S::Ops, 5);
                let r = match form {
                    0 | 1 | 2 => call("index_mut", || f::index_str_mut(v, &k, form))?,
                    _ => match call("entries_mut", || v.entries_mut().nth(i))? { Some((kk, r)) => { ck!(kk == k, "access:entries", "entries_mut() yields {:?} at position {}, expected {:?}", kk, i, k); r } None => { viol("access:entries", format!("entries_mut() has no entry {}", i)); return None } },
                };
                return mutate(r, &mut o[i].1, keys, depth + 1);
            }
            _ => {}
        }
    }
    let op = weighted(S::Ops, &[5, 3, 5, 4, 3, 2, 2, 3, 4, 4, 3, 2, 2]);
    ev("mutate", op as u64, m.kind());
    macro_rules! same { ($got:expr, $want:expr, $($fmt:tt)*) => { if let Some(d) = differs($got, $want, Num::Exact) { viol("access:result", format!("{} returns the wrong value: {}", format!($($fmt)*), d)); return None; } } }
    match op {
        0 => { // push
            let (x, y) = built(&small(keys))?;
            note(|| format!("push {} to {}", y.show(), m.show()));
            let r = call("push", || f::push(v, x))?;
            match m { Mv::Arr(a) => { ck!(r.is_ok(), "access:push", "push to an array fails: {:?}", r); a.push(y); } _ => wrong_type("push", r, "Array")? }
        }
        1 => { // pop
            note(|| format!("pop from {}", m.show()));
            let r = call("pop", || f::pop(v))?;
            let want = match m { Mv::Arr(a) => a.pop().unwrap_or(Mv::Null), _ => Mv::Null };
            same!(&r, &want, "pop");
            call("drop", || f::drop_value(r))?;
        }
        2 => { // insert
            let k = keys.any(S::Ops).to_string();
            let (x, y) = built(&small(keys))?;
            note(|| format!("insert {:?} = {} in {}", k, y.show(), m.show()));
            let r = call("insert", || f::insert(v, &k, x))?;
            match m { Mv::Obj(o) => { ck!(r.is_ok(), "access:insert", "insert into an object fails: {:?}", r); obj_set(o, &k, y); } _ => wrong_type("insert", r, "Object")? }
        }
        3 => { // remove
            let k = some_key(m, keys);
            note(|| format!("remove {:?} from {}", k, m.show()));
            let r = call("remove", || f::remove(v, &k))?;
            let want = match m { Mv::Obj(o) => match o.iter().position(|e| e.0 == k) { Some(i) => o.remove(i).1, None => Mv::Null }, _ => Mv::Null };
            same!(&r, &want, "remove({:?})", k);
            call("drop", || f::drop_value(r))?;
        }
        4 => { // array_remove
            let n = m.len();
            let i = match ch(S::Ops, 4) { 0 | 1 if n > 0 => ch(S::Ops, n as u32) as usize, 2 => n, _ => pick(S::Ops, &[0usize, 1, 1000, usize::MAX]) };
            note(|| format!("array_remove {} from {}", i, m.show()));
            let r = call("array_remove", || f::array_remove(v, i))?;
            let want = match m { Mv::Arr(a) if i < a.len() => a.remove(i), _ => Mv::Null };
            same!(&r, &want, "array_remove({})", i);
            call("drop", || f::drop_value(r))?;
        }
        5 => { note(|| format!("clear {}", m.show())); call("clear", || f::clear(v))?; match m { Mv::Arr(a) => a.clear(), Mv::Obj(o) => o.clear(), Mv::Str(s) => s.clear(), _ => *m = Mv::Null } }
        6 => { // take
            note(|| format!("take {}", m.show()));
            let r = call("take", || f::take(v))?;
            let want = std::mem::replace(m, Mv::Null);
            same!(&r, &want, "take");
            ck!(v.is_null(), "access:result", "take leaves {}", kind_of(v));
            // sometimes it goes back where it was
            if ch(S::Ops, 2) == 1 { call("assign", || { *v = r; })?; *m = want; } else { call("drop", || f::drop_value(r))?; }
        }
        7 => { // take_string
            note(|| format!("take_string {}", m.show()));
            let r = call("take_string", || f::take_string(v))?;
            match m {
                Mv::Str(s) => { ck!(r.as_deref() == Some(s.as_str()), "access:result", "take_string of {:?} returns {:?}", s, r); *m = Mv::Null; }
                _ => ck!(r.is_none(), "access:result", "take_string of {} returns {:?}", m.show(), r),
            }
        }
        8 => { // v[key] = x, or v[key] alone
            let k = some_key(m, keys);
            let form = ch(S::Ops, 3);
            let bare = ch(S::Ops, 5) == 4;
            let (x, y) = built(&small(keys))?;
            note(|| format!("[{:?}] = {} (form {}{}) in {}", k, y.show(), form, if bare { ", only touched" } else { "" }, m.show()));
            if !matches!(m, Mv::Obj(_)) { *m = Mv::Obj(vec![]); }
            if bare {
                call("index_mut", || { f::index_str_mut(v, &k, form); })?;
                if m.get(&k).is_none() { m.set(&k, Mv::Null); }
                call("drop", || f::drop_value(x))?;
            } else {
                call("index_mut", || { *f::index_str_mut(v, &k, form) = x; })?;
                m.set(&k, y);
            }
        }
        9 => { // v[i] = x
            let n = m.len();
            let arr = matches!(m, Mv::Arr(_));
            let i = match ch(S::Ops, 4) { 0 | 1 if n > 0 && arr => ch(S::Ops, n as u32) as usize, 2 if arr => n, _ => if arr { pick(S::Ops, &[n + 1, 0, 1000, usize::MAX]) } else { pick(S::Ops, &[0usize, 0, 1, 7]) } };
            let (x, y) = built(&small(keys))?;
            note(|| format!("[{}] = {} in {}", i, y.show(), m.show()));
            call("index_mut", || { *f::index_usize_mut(v, i) = x; })?;
            match m {
                Mv::Arr(a) => if i < a.len() { a[i] = y } else { a.push(y) },
                _ if i == 0 => *m = Mv::Arr(vec![y]),
                _ => { // a non-array becomes an array with the value behind nothing but nulls
                    let got = read(v);
                    let ok = match &got { Mv::Arr(a) => a.len() >= 1 && a.len() <= i + 1 && a[a.len() - 1].same(&y) && a[..a.len() - 1].iter().all(|x| matches!(x, Mv::Null)), _ => false };
                    ck!(ok, "access:index-mut", "index {} of {} leaves {}", i, m.show(), got.show());
                    *m = got;
                }
            }
        }
        10 => { // assignment in place
            let (x, y) = built(&small(keys))?;
            note(|| format!("{} = {}", m.show(), y.show()));
            call("assign", || { *v = x; })?;
            *m = y;
        }
        11 => { // all members or entries
            let pattern = if ch(S::Ops, 2) == 0 { 0 } else { bits64(S::Ops) };
            note(|| format!("walk {} mutably, pattern {:#x}", m.show(), pattern));
            walk_mut(v, m, keys, pattern)?;
        }
        _ => { // members change places
            if let (JsonValue::Array(a), Mv::Arr(b)) = (&mut *v, &mut *m) {
                if a.len() >= 2 && a.len() == b.len() { let i = ch(S::Ops, a.len() as u32) as usize; let j = ch(S::Ops, a.len() as u32) as usize; note(|| format!("swap members {} and {}", i, j)); a.swap(i, j); b.swap(i, j); }
            }
        }
    }
    Some(())
}
fn wrong_type(op: &str, r: json::Result<()>, want: &str) -> Option<()> {
    match r {
        Err(json::Error::WrongType(s)) => { ck!(s == want, "access:wrong-type", "{} on the wrong type reports that {:?} was expected", op, s); }
        r => { viol("access:wrong-type", format!("{} on the wrong type returns {:?}", op, r)); return None; }
    }
    Some(())
}
fn some_key(m: &Mv, keys: &Keys) -> String {
    match ch(S::Ops, 4) {
        0 | 1 => if let Mv::Obj(o) = m { if !o.is_empty() { return o[ch(S::Ops, o.len() as u32) as usize].0.clone(); } },
        2 => return keys.near(S::Ops),
        _ => {}
    }
    keys.any(S::Ops).to_string()
}
fn walk_mut(v: &mut JsonValue, m: &mut Mv, keys: &Keys, pattern: u64) -> Option<()> {
    let n = m.len();
    if ch(S::Ops, 3) == 2 {
        let (op, i) = (ch(S::Ops, f::ADAPTS), ch(S::Ops, n as u32 + 2) as usize);
        note(|| format!("  under adapter {} ({})", op, i));
        let reference = |n: usize| { let mut w = vec![]; let k = f::adapt(0..n, op, i, &mut |j| w.push(j)); (w, k) };
        let (w, wn) = reference(if let Mv::Obj(o) = m { o.len() } else { 0 });
        let (mut k, mut bad) = (0, false);
        let r = call("entries_mut", || f::entries_adapt_mut(v, op, i, &mut |(key, x)| { match (w.get(k), &*m) { (Some(j), Mv::Obj(o)) if o[*j].0 == key => *x = f::from_u64(8000 + k as u64), _ => bad = true } k += 1; }))?;
        ck!(!bad && k == w.len() && r == wn, "access:walk", "an adapter (kind {}, {}) of entries_mut() of {} gives other entries or lengths", op, i, m.show());
        if let Mv::Obj(o) = m { for (k, j) in w.iter().enumerate() { o[*j].1 = Mv::Num(N::int(8000 + k as i128)); } }
        let (w, wn) = reference(if let Mv::Arr(a) = m { a.len() } else { 0 });
        let mut k = 0;
        let r = call("members_mut", || f::members_adapt_mut(v, op, i, &mut |x| { *x = f::from_u64(9000 + k as u64); k += 1; }))?;
        ck!(k == w.len() && r == wn, "access:walk", "an adapter (kind {}, {}) of members_mut() of {} gives other members or lengths", op, i, m.show());
        if let Mv::Arr(a) = m { for (k, j) in w.iter().enumerate() { a[*j] = Mv::Num(N::int(9000 + k as i128)); } }
        return Some(());
    }
    let mut fresh: Vec<Option<(JsonValue, Mv)>> = vec![];
    for i in 0..n { fresh.push(if i < 20 && ch(S::Ops, 3) == 2 { Some(built(&small(keys))?) } else { None }); }
    let bad: RefCell<Option<String>> = RefCell::new(None);
    match m {
        Mv::Obj(o) => {
            let (mut a, mut b) = (0usize, n);
            call("entries_mut", || f::v_walk_mut(v, pattern, &mut |back, len, item| {
                let _o = Out::new();
                if len != b - a { *bad.borrow_mut() = Some(format!("length {} with {} left", len, b - a)); }
                if bad.borrow().is_some() { return; }
                match item {
                    None => if a != b { *bad.borrow_mut() = Some("ends early".into()); },
                    Some((k, r)) => {
                        if a == b { *bad.borrow_mut() = Some("does not end".into()); return; }
                        let i = if back { b -= 1; b } else { a += 1; a - 1 };
                        if k != o[i].0 { *bad.borrow_mut() = Some(format!("yields {:?} instead of {:?}", k, o[i].0)); return; }
                        if let Some((x, y)) = fresh[i].take() { let _i = In::new(); *r = x; o[i].1 = y; }
                    }
                }
            }))?;
        }
        _ => {
            let mut k = 0;
            let rev = pattern & 1 == 1;
            let is = matches!(m, Mv::Arr(_));
            call("members_mut", || f::members_mut(v, rev, &mut |_, r| {
                let _o = Out::new();
                if !is || k >= n { *bad.borrow_mut() = Some("members_mut() yields too much".into()); return; }
                let i = if rev { n - 1 - k } else { k };
                k += 1;
                if let (Some((x, y)), Mv::Arr(a)) = (fresh[i].take(), &mut *m) { let _i = In::new(); *r = x; a[i] = y; }
            }))?;
            if is && k != n { *bad.borrow_mut() = Some("members_mut() yields too little".into()); }
            // and entries_mut() of something that has none
            let mut e = 0;
            call("entries_mut", || f::v_walk_mut(v, pattern, &mut |_, len, item| { if len != 0 || item.is_some() { e += 1; } }))?;
            if e > 0 { *bad.borrow_mut() = Some("entries_mut() of something that is no object yields entries".into()); }
        }
    }
    let bad = bad.into_inner();
    if let Some(b) = bad { viol("access:walk", format!("{} (pattern {:#x}) in {}", b, pattern, m.show())); return None; }
    Some(())
}

/// The accessors of a number: integers and fixed-point integers exactly, floats to the last digit where one rounding of exact
/// operands gives it and closely elsewhere.
fn numeric(v: &JsonValue, m: &Mv) -> Option<()> {
    let n = call("accessors", || v.as_number())??;
    let (pos, mant, e) = n.as_parts();
    let e = e as i64;
    // the scale: any, but most often one that moves the point into or next to the digits
    let point: u16 = match ch(S::Ops, 4) { 0 => ch(S::Ops, 4) as u16, 1 => bits64(S::Ops) as u16, _ => (-e).saturating_add(range(S::Ops, 0, 44) as i64 - 22).clamp(0, 65535) as u16 };
    let (ints, (a, b, u, i)) = call("accessors", || (f::all_ints(v), (v.as_f64(), v.as_f32(), v.as_fixed_point_u64(point), v.as_fixed_point_i64(point))))?;
    if n.is_nan() {
        ck!(ints.iter().all(|i| i.is_none()) && u.is_none() && i.is_none(), "access:as", "an integer accessor of not-a-number yields something");
        ck!(a.map_or(false, |x| x.is_nan()) && b.map_or(false, |x| x.is_nan()), "access:as", "the floats of not-a-number are {:?} and {:?}", a, b);
        return Some(());
    }
    const FITS: [(i128, i128); 10] = [(i8::MIN as i128, i8::MAX as i128), (i16::MIN as i128, i16::MAX as i128), (i32::MIN as i128, i32::MAX as i128), (i64::MIN as i128, i64::MAX as i128), (isize::MIN as i128, isize::MAX as i128),
        (0, u8::MAX as i128), (0, u16::MAX as i128), (0, u32::MAX as i128), (0, u64::MAX as i128), (0, usize::MAX as i128)];
    let exact = N::of(&n).as_int();
    for (got, (lo, hi)) in ints.iter().zip(FITS) {
        let fits = exact.map_or(false, |x| x >= lo && x <= hi);
        ck!(if got.is_some() { *got == exact && fits } else { !fits || e != 0 || (mant == 0 && !pos) }, "access:as", "{} read as an integer of {}..={} is {:?}", m.show(), lo, hi, got);
    }
    // scaled and truncated
    let d = e + point as i64;
    let want: Option<u128> = if mant == 0 || d < -19 { Some(0) } else if d < 0 { Some(mant as u128 / 10u128.pow(-d as u32)) } else if d < 20 { Some(mant as u128 * 10u128.pow(d as u32)) } else { None };
    if let Some(w) = want {
        let neg = !pos && mant != 0;
        if neg { ck!(u.is_none(), "access:as", "{} read as an unsigned fixed-point number of {} places is {:?}", m.show(), point, u); }
        else if w <= u64::MAX as u128 { ck!(u == Some(w as u64) || (!pos && u.is_none()), "access:as", "{} read as an unsigned fixed-point number of {} places is {:?}", m.show(), point, u); }
        let w = if neg { -(w as i128) } else { w as i128 };
        if w >= i64::MIN as i128 && w <= i64::MAX as i128 { ck!(i == Some(w as i64), "access:as", "{} read as a signed fixed-point number of {} places is {:?}", m.show(), point, i); }
    }
    let near: f64 = { let _o = Out::new(); format!("{}{}e{}", if pos { "" } else { "-" }, mant, e).parse().unwrap_or(f64::NAN) };
    let near32: f32 = { let _o = Out::new(); format!("{}{}e{}", if pos { "" } else { "-" }, mant, e).parse().unwrap_or(f32::NAN) };
    ck!(a.is_some() && b.is_some(), "access:as", "a float accessor of {} yields nothing", m.show());
    let (a, b) = (a?, b?);
    let small = mant <= 1 << 53 && e.abs() <= 22;
    let normal = near.abs() > 1e-290 && near.abs() < 1e290;
    ck!(if small || mant == 0 { a == near } else if normal { (a - near).abs() <= near.abs() * 1e-13 } else { !a.is_nan() && (a == 0.0 || (a < 0.0) == !pos) }, "access:as", "{} read as f64 is {:e}, not {:e}", m.show(), a, near);
    let small = mant <= 1 << 24 && e.abs() <= 7;
    let normal = near.abs() > 1e-36 && near.abs() < 1e36;
    ck!(if small || mant == 0 { b == near32 } else if normal { (b - near32).abs() <= near32.abs() * 1e-6 } else { !b.is_nan() && (b == 0.0 || (b < 0.0) == !pos) }, "access:as", "{} read as f32 is {:e}, not {:e}", m.show(), b, near32);
    Some(())
}

/// Questions that must change nothing.
fn question(v: &JsonValue, m: &Mv, keys: &Keys) -> Option<()> {
    ev("ask", m.kind(), m.len() as u64);
    let k = m.kind();
    let p = call("predicates", || [v.is_null(), v.is_boolean(), v.is_number(), v.is_string(), v.is_array(), v.is_object()])?;
    for (i, b) in p.iter().enumerate() { ck!(*b == (i as u64 == k), "access:predicate", "{} of {} is {}", ["is_null", "is_boolean", "is_number", "is_string", "is_array", "is_object"][i], m.show(), b); }
    let (len, empty) = call("len", || (v.len(), v.is_empty()))?;
    ck!(len == m.len(), "access:len", "len() of {} is {}", m.show(), len);
    ck!(empty == m.is_empty(), "access:empty", "is_empty() of {} is {}", m.show(), empty);
    let (s, b, n) = call("accessors", || (v.as_str(), v.as_bool(), v.as_number()))?;
    ck!(s == (if let Mv::Str(t) = m { Some(t.as_str()) } else { None }), "access:as", "as_str() of {} is {:?}", m.show(), s);
    ck!(b == (if let Mv::Bool(t) = m { Some(*t) } else { None }), "access:as", "as_bool() of {} is {:?}", m.show(), b);
    ck!(n.map(|n| N::of(&n)) == (if let Mv::Num(t) = m { Some(t.clone()) } else { None }), "access:as", "as_number() of {} is {:?}", m.show(), n);
    if !matches!(m, Mv::Num(_)) {
        let (a, x) = call("accessors", || (f::all_ints(v), (v.as_f64(), v.as_f32(), v.as_fixed_point_u64(2), v.as_fixed_point_i64(2))))?;
        ck!(a.iter().all(|i| i.is_none()) && x == (None, None, None, None), "access:as", "a number accessor of {} yields something", m.show());
    }
    else { numeric(v, m)?; }
    // absent and present members
    let i = match ch(S::Ops, 3) { 0 => m.len(), 1 => pick(S::Ops, &[usize::MAX, 1 << 40, 100]), _ => ch(S::Ops, m.len() as u32 + 1) as usize };
    let r = call("index", || f::index_usize(v, i))?;
    let want = match m { Mv::Arr(a) => a.get(i).cloned().unwrap_or(Mv::Null), _ => Mv::Null };
    if let Some(d) = differs(r, &want, Num::Exact) { viol("access:index", format!("[{}] of {}: {}", i, m.show(), d)); return None; }
    let key = some_key(m, keys);
    let form = ch(S::Ops, 3);
    let r = call("index", || f::index_str(v, &key, form))?;
    let want = m.get(&key).cloned();
    if let Some(d) = differs(r, want.as_ref().unwrap_or(&Mv::Null), Num::Exact) { viol("access:index", format!("[{:?}] of {}: {}", key, m.show(), d)); return None; }
    let h = call("has_key", || f::has_key(v, &key))?;
    ck!(h == want.is_some(), "access:has-key", "has_key({:?}) of {} is {}", key, m.show(), h);
    // contains
    let (x, y) = match m { Mv::Arr(a) if !a.is_empty() && ch(S::Ops, 2) == 1 => { let y = a[ch(S::Ops, a.len() as u32) as usize].clone(); built(&y)? } _ => built(&small(keys))? };
    let want = match m { Mv::Arr(a) => a.iter().any(|z| z.same(&y)), _ => false };
    let got = match &y {
        Mv::Str(t) if ch(S::Ops, 2) == 1 => call("contains", || f::contains_str(v, t))?,
        _ => call("contains", || f::contains(v, x))?,
    };
    ck!(got == want, "access:contains", "contains({}) of {} is {}", y.show(), m.show(), got);
    // members and entries from either end
    let mem = call("members", || { let _o = Out::new(); let mut a: Vec<Mv> = v.members().rev().map(read).collect(); a.reverse(); a })?;
    let want: &[Mv] = if let Mv::Arr(a) = m { a } else { &[] };
    ck!(mem.len() == want.len() && mem.iter().zip(want).all(|(a, b)| a.same(b)), "access:members", "members() of {} from the back differ", m.show());
    let pattern = bits64(S::Ops);
    let want: &[(String, Mv)] = if let Mv::Obj(o) = m { o } else { &[] };
    let (mut a, mut b) = (0, want.len());
    let mut bad = false;
    call("entries", || f::v_walk(v, pattern, &mut |back, len, item| {
        let _o = Out::new();
        if bad || len != b - a { bad = true; return; }
        match item {
            None => if a != b { bad = true },
            Some((k, x)) => { if a == b { bad = true; return; } let e = if back { b -= 1; &want[b] } else { a += 1; &want[a - 1] }; if e.0 != k || differs(x, &e.1, Num::Exact).is_some() { bad = true; } }
        }
    }))?;
    ck!(!bad, "access:entries", "entries() of {} (pattern {:#x}) differ", m.show(), pattern);
    let (op, i) = (ch(S::Ops, f::ADAPTS), ch(S::Ops, m.len() as u32 + 2) as usize);
    let reference = |n: usize| { let mut w = vec![]; let k = f::adapt(0..n, op, i, &mut |j| w.push(j)); (w, k) };
    let (w, wn) = reference(want.len());
    let (mut k, mut bad) = (0, false);
    let n = call("entries", || f::entries_adapt(v, op, i, &mut |(key, x)| { let _o = Out::new(); match w.get(k) { Some(j) if want[*j].0 == key && differs(x, &want[*j].1, Num::Exact).is_none() => {} _ => bad = true } k += 1; }))?;
    ck!(!bad && k == w.len() && n == wn, "access:entries", "an adapter (kind {}, {}) of entries() of {} gives other entries or lengths", op, i, m.show());
    let want: &[Mv] = if let Mv::Arr(a) = m { a } else { &[] };
    let (w, wn) = reference(want.len());
    let (mut k, mut bad) = (0, false);
    let n = call("members", || f::members_adapt(v, op, i, &mut |x| { let _o = Out::new(); match w.get(k) { Some(j) if differs(x, &want[*j], Num::Exact).is_none() => {} _ => bad = true } k += 1; }))?;
    ck!(!bad && k == w.len() && n == wn, "access:members", "an adapter (kind {}, {}) of members() of {} gives other members or lengths", op, i, m.show());
    Some(())
}
/// A member of the tree, at random.
fn somewhere<'a>(v: &'a JsonValue, m: &'a Mv, depth: u32) -> Option<(&'a JsonValue, &'a Mv)> {
    if depth < 6 && ch(S::Ops, 2) == 1 {
        match m {
            Mv::Arr(a) if !a.is_empty() => { let i = ch(S::Ops, a.len() as u32) as usize; let r = call("index", || f::index_usize(v, i))?; return somewhere(r, &a[i], depth + 1); }
            Mv::Obj(o) if !o.is_empty() => { let i = ch(S::Ops, o.len() as u32) as usize; let k = &o[i].0; let r = call("index", || f::index_str(v, k, 0))?; return somewhere(r, &o[i].1, depth + 1); }
            _ => {}
        }
    }
    Some((v, m))
}
/// A flat container of some length with members that cost little.
fn flat(keys: &Keys) -> Mv {
    let n = match ch(S::Data, 4) { 0 => range(S::Data, 9, 20), 1 => pick(S::Data, &[15u32, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]), _ => range(S::Data, 20, 100) };
    let shape = ch(S::Data, 4);
    let seed = bits64(S::Data);
    let one = |i: u64| -> Mv { let h = crate::rt::mix(seed, i); match if shape == 3 { h % 5 } else { shape as u64 } { 0 => Mv::Num(N::int((h >> 8) as i128 % 1000)), 1 => Mv::Null, 2 => Mv::Str(format!("{:x}", h % 50)), 3 => Mv::Bool(h & 256 == 0), _ => Mv::Arr(vec![]) } };
    if ch(S::Data, 3) != 2 { Mv::Arr((0..n as u64).map(one).collect()) } else {
        let mut o = vec![];
        for i in 0..n as u64 { let k = if ch(S::Data, 3) == 2 { keys.any(S::Data).to_string() } else { format!("k{}", i) }; obj_set(&mut o, &k, one(i)); }
        Mv::Obj(o)
    }
}
fn start(keys: &Keys) -> Option<(JsonValue, Mv)> {
    match ch(S::Ops, 7) {
        5 => make(S::Data, &flat(keys)),
        0 => Some((JsonValue::Null, Mv::Null)),
        1 => Some((call("new_array", JsonValue::new_array)?, Mv::Arr(vec![]))),
        2 => Some((call("new_object", JsonValue::new_object)?, Mv::Obj(vec![]))),
        3 => { // parsed
            let m = gen_tree(S::Data, keys).stored();
            let mut t = String::new(); spell(S::Data, &m, &mut t);
            match sut("parse", || f::parse(&t)) { Ok(Ok(v)) => { let m = read(&v); Some((v, m)) } _ => { count("setup_abandoned"); None } }
        }
        4 => { let mut sh = Shape { depth: 2, width: 4, nan: true, budget: 8 }; make(S::Data, &gen_value(S::Data, keys, &mut sh, 0)) }
        _ => make(S::Data, &gen_tree(S::Data, keys)),
    }
}

pub fn c09() -> Option<()> {
    if weighted(S::Ops, &[400, 1]) == 1 { return bulk_array(); }
    let keys = Keys::new(S::Data);
    let (mut v, mut m) = start(&keys)?;
    note(|| format!("start: {}", m.show()));
    let steps = range(S::Ops, 3, 25);
    for _ in 0..steps {
        mutate(&mut v, &mut m, &keys, 0)?;
        if !expect("access:content", "after the operation", &v, &m) { return None; }
        if ch(S::Ops, 3) == 2 {
            let (r, x) = somewhere(&v, &m, 0)?;
            question(r, x, &keys)?;
            if !expect("access:content", "after questions only", &v, &m) { return None; }
        }
        if m.size() > 600 { break; }
    }
    let t = call("dump", || f::dump(&v))?;
    obs_bytes(t.as_bytes());
    call("drop", || f::drop_value(v))?;
    Some(())
}

// ---------------------------------------------------------------- C10

pub fn c10() -> Option<()> {
    let keys = Keys::new(S::Data);
    let mut slots: Vec<(JsonValue, Mv)> = vec![start(&keys)?];
    note(|| format!("start: {}", slots[0].1.show()));
    let steps = range(S::Ops, 4, 30);
    for step in 0..steps {
        if slots.is_empty() { slots.push(start(&keys)?); }
        let n = slots.len() as u32;
        let i = ch(S::Ops, n) as usize;
        let op = weighted(S::Ops, &[6, 6, 3, 2, 2, 2, 2, 1]);
        ev("copy-op", op as u64, i as u64);
        match op {
            0 => if slots.len() < 7 { // copy a whole value or a part of it
                let (r, x) = somewhere(&slots[i].0, &slots[i].1, 0)?;
                note(|| format!("copy of {} (value {})", x.show(), i));
                let c = match r {
                    JsonValue::Object(o) if ch(S::Ops, 3) == 2 => JsonValue::Object(call("clone", || f::clone_object(o))?),
                    r => call("clone", || f::clone_value(r))?,
                };
                let x = x.clone();
                if !expect("copy:content", "a fresh copy", &c, &x) { return None; }
                let (a, b) = (call("dump", || f::dump(&c))?, call("dump", || f::dump(r))?);
                ck!(a == b, "copy:content", "a copy prints differently: {}", crate::stream::diff_bytes(a.as_bytes(), b.as_bytes()));
                lookups(&c, &x)?;
                slots.push((c, x));
            },
            1 => {
                note(|| format!("change value {}", i));
                let s = &mut slots[i]; mutate(&mut s.0, &mut s.1, &keys, 0)?;
            }
            2 => if slots.len() > 1 || step > 2 { note(|| format!("drop value {}", i)); let s = slots.swap_remove(i); call("drop", || f::drop_value(s.0))?; },
            3 => { // clone_from over another
                let j = ch(S::Ops, n) as usize;
                let likeness = ch(S::Ops, 4);
                if i != j || likeness >= 2 {
                    let src = if likeness >= 2 && slots[j].1.size() < 300 {
                        // over something that resembles it already
                        let x = match ch(S::Ops, 4) { 0 => shuffled(&slots[j].1), 1 => nudge(&slots[j].1, &keys), 2 => reordered(&slots[j].1), _ => nudge(&reordered(&slots[j].1), &keys) };
                        let d = make(S::Data, &x)?;
                        if i == j { slots.push(d); let l = slots.len() - 1; slots.swap(i, l); l } else { slots[i] = d; j }
                    } else { j };
                    if i == src { continue; }
                    let j = src;
                    note(|| format!("value {}, {}, becomes a copy of value {}, {} (clone_from)", i, slots[i].1.show(), j, slots[j].1.show()));
                    let (a, b) = if i < j { let (x, y) = slots.split_at_mut(j); (&mut x[i], &y[0]) } else { let (x, y) = slots.split_at_mut(i); (&mut y[0], &x[j]) };
                    match (&mut a.0, &b.0) {
                        (JsonValue::Object(d), JsonValue::Object(o)) if ch(S::Ops, 4) != 0 => call("clone_from", || f::clone_object_from(d, o))?,
                        (JsonValue::Array(d), JsonValue::Array(o)) if ch(S::Ops, 2) == 0 => call("clone_from", || f::clone_vec_from(d, o))?,
                        (d, o) => call("clone_from", || f::clone_from(d, o))?,
                    }
                    a.1 = b.1.clone();
                    if !expect("copy:content", "after clone_from", &a.0, &a.1) { return None; }
                    lookups(&a.0, &a.1)?;
                    if let (JsonValue::Object(o), Mv::Obj(m)) = (&a.0, &a.1) { object_check(o, m, &keys, true)?; }
                }
            }
            4 => { let j = ch(S::Ops, n) as usize; note(|| format!("swap values {} and {}", i, j)); slots.swap(i, j); }
            5 => { // a copy goes into another value
                let j = ch(S::Ops, n) as usize;
                let (c, x) = { let (r, x) = somewhere(&slots[j].0, &slots[j].1, 0)?; (call("clone", || f::clone_value(r))?, x.clone()) };
                if x.size() + slots[i].1.size() < 400 {
                    note(|| format!("a copy of {} goes into value {}", x.show(), i));
                    let s = &mut slots[i];
                    match &mut s.1 {
                        Mv::Arr(a) => { call("push", || f::push(&mut s.0, c))?.ok(); a.push(x); }
                        Mv::Obj(o) => { let k = keys.any(S::Ops).to_string(); call("insert", || f::insert(&mut s.0, &k, c))?.ok(); obj_set(o, &k, x); }
                        _ => { call("assign", || { s.0 = c; })?; s.1 = x; }
                    }
                } else { call("drop", || f::drop_value(c))?; }
            }
            6 => { // memory is taken and given back in between
                let k = range(S::Ops, 1, 6) as usize;
                let sizes: Vec<usize> = (0..k).map(|_| pick(S::Ops, &[40usize, 33, 112, 448, 96, 16, 1000])).collect();
                note(|| format!("other memory is used: {:?}", sizes));
                let r = sut("churn", || { let mut v: Vec<Vec<u8>> = vec![]; for n in &sizes { v.push(vec![b'#'; *n]); } v });
                drop(r);
            }
            _ => { // values move in memory
                let r = call("move", || { let mut w: Vec<JsonValue> = Vec::new(); for s in slots.iter_mut() { w.push(f::take(&mut s.0)); } w.reverse(); for s in slots.iter_mut() { s.0 = w.pop().unwrap(); } })?;
                let _: () = r;
            }
        }
        for (k, s) in slots.iter().enumerate() {
            if !expect("copy:independence", &format!("value {} of {} after that", k, slots.len()), &s.0, &s.1) { return None; }
            if step % 4 == 3 { lookups(&s.0, &s.1)?; }
        }
        if slots.iter().map(|s| s.1.size()).sum::<usize>() > 900 { break; }
    }
    while !slots.is_empty() {
        let i = ch(S::Ops, slots.len() as u32) as usize;
        let s = slots.swap_remove(i);
        call("drop", || f::drop_value(s.0))?;
        for (k, s) in slots.iter().enumerate() { if !expect("copy:independence", &format!("value {} after another was dropped", k), &s.0, &s.1) { return None; } }
    }
    Some(())
}
/// Every key can be looked up (iteration alone does not use the keys' search structure).
fn lookups(v: &JsonValue, m: &Mv) -> Option<()> {
    match m {
        Mv::Arr(a) => for (i, x) in a.iter().enumerate().take(30) { lookups(&v[i], x)?; },
        Mv::Obj(o) => for (k, x) in o.iter().take(60) {
            let r = call("index", || f::index_str(v, k, 0))?;
            if let Some(d) = differs(r, x, Num::Exact) { viol("copy:lookup", format!("[{:?}] of {}: {}", k, m.show(), d)); return None; }
        },
        _ => {}
    }
    Some(())
}

// ---------------------------------------------------------------- C11

/// The same content with a different history, or almost the same content.
fn twin(m: &Mv, keys: &Keys) -> Option<(JsonValue, &'static str)> {
    Some(match ch(S::Ops, 8) {
        0 | 1 => (make(S::Data, m)?.0, "built again"),
        2 => { let mut t = String::new(); spell(S::Data, &m.stored(), &mut t); match sut("parse", || f::parse(&t)) { Ok(Ok(v)) => (v, "parsed from another spelling"), _ => { count("setup_abandoned"); return None } } }
        3 => { let s = shuffled(m); (make(S::Data, &s)?.0, "in another order") }
        4 => { let (v, _) = make(S::Data, m)?; (call("clone", || f::clone_value(&v))?, "copied") }
        5 => { // with detours
            let (mut v, mut x) = make(S::Data, m)?;
            detour(&mut v, &mut x, keys)?;
            (v, "after detours")
        }
        6 => { let s = nudge(&shuffled(m), keys); (make(S::Data, &s)?.0, "nudged") }
        _ => { // through a hash map
            if let Mv::Obj(o) = m {
                let mut h = std::collections::HashMap::with_hasher(hash_state(S::Data));
                for (k, x) in o { h.insert(k.clone(), make(S::Data, x)?.0); }
                (call("from_hash", || f::from_hash(h))?, "from a hash map")
            } else { (make(S::Data, m)?.0, "built again") }
        }
    })
}
fn shuffled(m: &Mv) -> Mv {
    match m {
        Mv::Arr(a) => Mv::Arr(a.iter().map(shuffled).collect()),
        Mv::Obj(o) => { let mut p: Vec<(String, Mv)> = o.iter().map(|(k, v)| (k.clone(), shuffled(v))).collect(); for i in (1..p.len()).rev() { let j = i - ch(S::Data, i as u32 + 1) as usize; p.swap(i, j); } Mv::Obj(p) }
        x => x.clone(),
    }
}
/// Another order of the members behind the first one.
fn reordered(m: &Mv) -> Mv {
    match m {
        Mv::Obj(o) if o.len() > 2 => { let mut o = o.clone(); for i in (2..o.len()).rev() { let j = i - ch(S::Data, i as u32) as usize; o.swap(i, j.max(1)); } Mv::Obj(o) }
        Mv::Arr(a) if a.len() > 2 => { let mut a = a.clone(); a[1..].reverse(); Mv::Arr(a) }
        x => shuffled(x),
    }
}
/// Insertions and removals, copies and moves that leave the content as it was.
fn detour(v: &mut JsonValue, m: &mut Mv, keys: &Keys) -> Option<()> {
    match m {
        Mv::Obj(o) => {
            for _ in 0..range(S::Ops, 1, 3) {
                let k = keys.any(S::Ops).to_string();
                match o.iter().position(|e| e.0 == k) {
                    Some(i) => { // out and in again: it is listed last from now on
                        let r = call("remove", || f::remove(v, &k))?;
                        call("insert", || f::insert(v, &k, r))?.ok();
                        let e = o.remove(i); o.push(e);
                    }
                    None => {
                        call("insert", || f::insert(v, &k, JsonValue::Boolean(true)))?.ok();
                        let r = call("remove", || f::remove(v, &k))?;
                        call("drop", || f::drop_value(r))?;
                    }
                }
            }
        }
        Mv::Arr(_) => { call("push", || f::push(v, JsonValue::Null))?.ok(); let r = call("pop", || f::pop(v))?; call("drop", || f::drop_value(r))?; }
        Mv::Str(_) => { let r = call("take", || f::take(v))?; call("assign", || { *v = r; })?; }
        _ => {}
    }
    Some(())
}
/// A small change of content.
fn nudge(m: &Mv, keys: &Keys) -> Mv {
    match m {
        Mv::Null => pick(S::Data, &[0u8, 1, 2]).into_mv(),
        Mv::Bool(b) => if ch(S::Data, 3) == 2 { Mv::Null } else { Mv::Bool(!b) },
        Mv::Num(n) => Mv::Num(nudge_num(n)),
        Mv::Str(s) => {
            let mut s = s.clone();
            match ch(S::Data, 8) {
                5 | 6 | 7 if !s.is_empty() => { // one character, anywhere, by one of the same length
                    let p: Vec<char> = s.chars().collect();
                    let i = ch(S::Data, p.len() as u32) as usize;
                    let c = match p[i] { c if c.is_ascii() => if ch(S::Data, 2) == 0 { char::from(c as u8 ^ 1) } else { char::from(c as u8 ^ 0x20) }, c => char::from_u32(c as u32 ^ 1).unwrap_or('\u{fffd}') };
                    s = p[..i].iter().collect::<String>() + &c.to_string() + &p[i + 1..].iter().collect::<String>();
                }
                0 => s.push('x'), 1 => { s.pop(); } 2 => s = s.to_uppercase(), 3 => s.push('\0'), _ => { if let Some(c) = s.chars().last() { s.pop(); s.push(if c == 'z' { 'y' } else { 'z' }); } } }
            Mv::Str(s)
        }
        Mv::Arr(a) => {
            let mut a = a.clone();
            let n = a.len();
            match ch(S::Data, 5) {
                0 => a.push(Mv::Null),
                1 if n > 0 => { a.pop(); }
                2 if n > 1 => { let i = ch(S::Data, n as u32) as usize; let j = ch(S::Data, n as u32) as usize; a.swap(i, j); }
                _ if n > 0 => { let i = ch(S::Data, n as u32) as usize; a[i] = nudge(&a[i], keys); }
                _ => return Mv::Obj(vec![]),
            }
            Mv::Arr(a)
        }
        Mv::Obj(o) => {
            let mut o = o.clone();
            let n = o.len();
            match ch(S::Data, 5) {
                0 => { let k = keys.any(S::Data).to_string(); obj_set(&mut o, &k, Mv::Null); }
                1 if n > 0 => { let i = ch(S::Data, n as u32) as usize; o.remove(i); }
                2 if n > 0 => { let i = ch(S::Data, n as u32) as usize; let k = match ch(S::Data, 3) { 0 => match nudge(&Mv::Str(o[i].0.clone()), keys) { Mv::Str(k) => k, _ => String::new() }, _ => hash_twin(&o[i].0).filter(|_| ch(S::Data, 4) != 3).unwrap_or_else(|| keys.near(S::Data)) }; if !o.iter().any(|e| e.0 == k) { o[i].0 = k; } }
                _ if n > 0 => { let i = ch(S::Data, n as u32) as usize; o[i].1 = nudge(&o[i].1, keys); }
                _ => return Mv::Arr(vec![]),
            }
            Mv::Obj(o)
        }
    }
}
/// The other key with the same hash, if this one is made from a colliding pair.
fn hash_twin(k: &str) -> Option<String> {
    COLLIDING.iter().find_map(|(a, b)| k.strip_prefix(a).map(|r| format!("{}{}", b, r)).or_else(|| k.strip_prefix(b).map(|r| format!("{}{}", a, r))))
}
trait IntoMv { fn into_mv(self) -> Mv; }
impl IntoMv for u8 { fn into_mv(self) -> Mv { match self { 0 => Mv::Bool(false), 1 => Mv::Num(N::int(0)), _ => Mv::Str(String::new()) } } }
fn nudge_num(n: &N) -> N {
    if n.nan { return N::int(0); }
    let (mut mm, mut e) = (n.mantissa(), n.exp);
    match ch(S::Data, 7) {
        0 => mm = mm.wrapping_add(1),
        1 => mm = mm.wrapping_sub(1),
        2 => e += 1,
        3 => e -= 1,
        4 => { // a product that wraps around 64 bits
            let k = range(S::Data, 1, 25); let mut p = mm; for _ in 0..k { p = p.wrapping_mul(10); } mm = p; e -= k as i64;
        }
        5 => { let k = pick(S::Data, &[16i64, 17, 18, 19, 20, 21, 64, 128, 256, 1024]); e += if ch(S::Data, 2) == 1 { k } else { -k }; }
        _ => return N { neg: !n.neg && !n.digits.is_empty(), ..n.clone() },
    }
    if !(-32000..=32000).contains(&e) { e = 0; }
    N::parts(!n.neg, mm, e)
}
/// Two numbers as raw parts, so that mantissas with trailing zeroes occur on either side.
fn number_pair() -> Option<()> {
    use json::number::Number;
    let (p, m, e) = gen_parts(S::Data);
    let a = unsafe { Number::from_parts_unchecked(p, m, e) };
    let b = match ch(S::Data, 5) {
        0 => { // the same, written differently
            let (mut m2, mut e2) = (m, e as i32);
            if ch(S::Data, 2) == 0 { let k = range(S::Data, 1, 20); for _ in 0..k { if m2 < u64::MAX / 10 && e2 > -32768 { m2 *= 10; e2 -= 1; } } }
            else { while m2 % 10 == 0 && m2 != 0 && e2 < 32767 && ch(S::Data, 5) != 4 { m2 /= 10; e2 += 1; } }
            unsafe { Number::from_parts_unchecked(p, m2, e2 as i16) }
        }
        1 => { let k = range(S::Data, 1, 70); let mut m2 = m; for _ in 0..k { m2 = m2.wrapping_mul(10); } unsafe { Number::from_parts_unchecked(p, m2, e.saturating_sub(k as i16)) } }
        2 => { let (p2, m2, e2) = gen_parts(S::Data); unsafe { Number::from_parts_unchecked(p2, m2, e2) } }
        3 => { let d = pick(S::Data, &[1i16, 2, 17, 18, 19, 20, 21, 40, 63, 64, 65, 128, 32767, -32768, -1, -19, -20, -21]); unsafe { Number::from_parts_unchecked(p, m, e.wrapping_add(d)) } }
        _ => match ch(S::Data, 4) { 0 => unsafe { Number::from_parts_unchecked(!p, m, e) }, 1 => json::number::NAN, 2 => unsafe { Number::from_parts_unchecked(ch(S::Data, 2) == 1, 0, e) }, _ => unsafe { Number::from_parts_unchecked(p, m ^ 1, e) } },
    };
    let want = N::of(&a) == N::of(&b);
    let d = || format!("{:?} and {:?}", a.as_parts(), b.as_parts());
    note(|| format!("numbers {}", d()));
    ev("numbers", want as u64, 0);
    let (x, y) = call("number_eq", || (f::number_eq(&a, &b), f::number_eq(&b, &a)))?;
    ck!(x == want && y == want, "equal:number", "the numbers {} compare as {} one way and {} the other, their decimal values are {}", d(), x, y, if want { "equal" } else { "different" });
    let (va, vb) = (JsonValue::Number(a), JsonValue::Number(b));
    let (x, y) = call("eq", || (f::eq(&va, &vb), f::ne(&vb, &va)))?;
    ck!(x == want && y != want, "equal:number", "the values {} compare as {} / != {}", d(), x, y);
    Some(())
}
fn natives(v: &JsonValue, m: &Mv) -> Option<()> {
    // integers: some near the value
    let near = match m { Mv::Num(n) => n.as_int(), _ => None };
    let b = bits64(S::Data);
    let cand: i128 = match (near, ch(S::Data, 4)) { (Some(i), 0) => i + 1, (Some(i), 1) => i - 1, (Some(i), 2) => i + (1 << 8), (Some(i), _) => i, (None, 0) => 0, (None, 1) => 1, (None, _) => b as i64 as i128 };
    macro_rules! n { ($($f:ident $t:ty),*) => { $( if let Ok(x) = <$t>::try_from(cand) {
        let want = match m { Mv::Num(n) => *n == N::int(cand), _ => false };
        let r = call("eq_native", || f::$f(v, x))?;
        ck!(r == (want, want, want), "equal:native", "{} compared with {} as {} gives {:?}", m.show(), x, stringify!($t), r);
    } )* } }
    n!(eq_i8 i8, eq_i16 i16, eq_i32 i32, eq_i64 i64, eq_isize isize, eq_u8 u8, eq_u16 u16, eq_u32 u32, eq_u64 u64, eq_usize usize);
    // truncations of the value must not be equal to it
    if let Some(i) = near {
        let x = i as u8; let want = i == x as i128;
        let r = call("eq_native", || f::eq_u8(v, x))?;
        ck!(r == (want, want, want), "equal:native", "{} compared with {} gives {:?}", m.show(), x, r);
        let x = i as i64; let want = i == x as i128;
        let r = call("eq_native", || f::eq_i64(v, x))?;
        ck!(r == (want, want, want), "equal:native", "{} compared with {} gives {:?}", m.show(), x, r);
        let x = i as u64; let want = i == x as i128;
        let r = call("eq_native", || f::eq_u64(v, x))?;
        ck!(r == (want, want, want), "equal:native", "{} compared with {} gives {:?}", m.show(), x, r);
    }
    for x in [false, true] {
        let want = matches!(m, Mv::Bool(y) if *y == x);
        let r = call("eq_native", || f::eq_bool(v, x))?;
        ck!(r == (want, want, want), "equal:native", "{} compared with {} gives {:?}", m.show(), x, r);
    }
    let s = match m { Mv::Str(s) if ch(S::Data, 3) != 0 => s.clone(), Mv::Str(s) => { let mut t = s.clone(); if ch(S::Data, 2) == 0 { t.push('\0') } else { t.pop(); } t } _ => pick(S::Data, &["", "null", "true", "0"]).to_string() };
    let want = matches!(m, Mv::Str(t) if *t == s);
    let r = call("eq_native", || f::eq_str(v, &s))?;
    ck!(r.iter().all(|x| *x == want), "equal:string", "{} compared with the text {:?} gives {:?}", m.show(), s, r);
    Some(())
}

pub fn c11() -> Option<()> {
    let keys = Keys::new(S::Data);
    match weighted(S::Ops, &[6, 3, 2]) {
        0 => {
            for _ in 0..range(S::Ops, 1, 3) {
                let m0 = match ch(S::Data, 3) { 0 => { let mut sh = Shape { depth: 2, width: 4, nan: true, budget: 10 }; gen_value(S::Data, &keys, &mut sh, 0) } 1 => small(&keys), _ => gen_tree(S::Data, &keys) };
                let (a, m) = make(S::Data, &m0)?;
                let (b, how) = twin(&m, &keys)?;
                let mb = match sut("read", || { let _o = Out::new(); read(&b) }) { Ok(x) => x, Err(_) => { count("setup_abandoned"); return None } };
                let want = m.same(&mb);
                note(|| format!("{} and (as {}) {}", m.show(), how, mb.show()));
                ev("pair", want as u64, m.kind());
                count(if want { "equal_pairs" } else { "different_pairs" });
                let r = call("eq", || [f::eq(&a, &b), f::eq(&b, &a), !f::ne(&a, &b), !f::ne(&b, &a)])?;
                ck!(r.iter().all(|x| *x == want), "equal:value", "{} and (as {}) {} have {} content, but == and != say {:?}", m.show(), how, mb.show(), if want { "equal" } else { "different" }, r);
                if let (JsonValue::Object(x), JsonValue::Object(y)) = (&a, &b) {
                    let r = call("object_eq", || (f::object_eq(x, y), f::object_eq(y, x)))?;
                    ck!(r == (want, want), "equal:value", "the objects {} and (as {}) {} compare as {:?}", m.show(), how, mb.show(), r);
                }
                let r = call("eq", || f::eq(&a, &a))?;
                ck!(r, "equal:reflexive", "{} is not equal to itself", m.show());
                natives(&a, &m)?;
                natives(&b, &mb)?;
                // the comparison changed nothing
                if !expect("equal:intact", "after being compared", &a, &m) { return None; }
                let _ = sut("drop", || { drop(a); drop(b); });
            }
        }
        1 => for _ in 0..range(S::Ops, 1, 8) { number_pair()?; },
        _ => {
            // strings in both representations
            for _ in 0..range(S::Ops, 1, 4) {
                let s = gen_string(S::Data);
                let t = match ch(S::Data, 5) { 0 => gen_string(S::Data), 1 | 2 => match nudge(&Mv::Str(s.clone()), &keys) { Mv::Str(t) => t, _ => s.clone() }, _ => s.clone() };
                let t = if ch(S::Data, 4) == 3 { let mut t = t; t.push('!'); t.pop(); t } else { t };
                // a string stays on the heap however short it becomes
                let a = call("from_str", || f::from_str(&s))?;
                let b = JsonValue::String(t.clone());
                let want = s == t;
                let r = call("eq", || [f::eq(&a, &b), f::eq(&b, &a), !f::ne(&a, &b), !f::ne(&b, &a)])?;
                ck!(r.iter().all(|x| *x == want), "equal:string", "the strings {:?} and {:?} (on the heap) compare as {:?}", s, t, r);
                natives(&a, &Mv::Str(s.clone()))?;
                natives(&b, &Mv::Str(t.clone()))?;
                ev("strings", want as u64, s.len() as u64);
            }
        }
    }
    Some(())
}
