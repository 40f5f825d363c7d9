//! C01, C02, C03: serialisation into writers that shorten, interrupt, fail and panic, and
//! caller-supplied code that panics.
use crate::model::*;
use crate::refjson::*;
use crate::rt::*;
use crate::world::*;
use json::JsonValue;
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;
use surface as f;
use surface::{GenCall, GenStyle};

#[derive(Clone, Debug)]
pub enum Form { Compact, Pretty(u16), ObjCompact, ObjPretty(u16), Many(Option<u16>, &'static [u8]), Custom(GenStyle, &'static [u8]), Bare(&'static [u8]), Str, Num, ToWriter }

pub fn spaces(docs: &[&Mv]) -> u16 {
    let n = match weighted(S::Data, &[8, 8, 4, 1]) {
        0 => ch(S::Data, 5) as u16,
        1 => pick(S::Data, &[4u16, 2, 8, 3, 1]),
        2 => pick(S::Data, &[10u16, 16, 63, 100, 255, 256]),
        _ => pick(S::Data, &[4000u16, 20000, 32767, 32768, 40000, 65535]),
    };
    // no more than a million and a half blanks in all
    n.min((1_500_000 / docs.iter().map(|m| m.indents(0)).sum::<usize>().max(1)).min(65535) as u16)
}
pub fn gen_form(d: &Doc, docs: &[Doc]) -> Form {
    let n = docs.len() - 1;
    let all: Vec<&Mv> = docs.iter().map(|d| &d.m).collect();
    let obj = matches!(d.m, Mv::Obj(_));
    let seps: &[&'static [u8]] = &[b"\n", b"", b" ", b"\r\n", b"\x1e"];
    loop {
        return match weighted(S::Ops, &[5, 5, 2, 2, 3, 4, 2, 1, 1, 1]) {
            0 => Form::Compact,
            1 => Form::Pretty(spaces(&[&d.m])),
            2 if obj => Form::ObjCompact,
            3 if obj => Form::ObjPretty(spaces(&[&d.m])),
            4 if n > 0 => Form::Many(if ch(S::Ops, 2) == 0 { None } else { Some(spaces(&all)) }, pick(S::Data, seps)),
            5 => Form::Custom(GenStyle { spaced: ch(S::Ops, 2) == 1, newline: pick(S::Data, &["", "\n", "\r\n", "\n\n"]), indent: pick(S::Data, &["", "\t", " ", "--"]), own_write: ch(S::Ops, 2) == 1 }, pick(S::Data, seps)),
            6 => Form::Bare(pick(S::Data, seps)),
            7 if matches!(d.m, Mv::Str(_)) => Form::Str,
            8 if matches!(d.m, Mv::Num(_)) => Form::Num,
            9 => Form::ToWriter,
            7 | 8 | 2 | 3 | 4 => Form::Compact,
            _ => continue,
        };
    }
}

pub struct Doc { pub v: JsonValue, pub m: Mv }
pub fn gen_doc(keys: &Keys) -> Option<Doc> {
    let m = match weighted(S::Data, &[12, 2, 1]) {
        0 => gen_tree(S::Data, keys),
        1 => { let d = pick(S::Data, &[1u32, 3, 10, 60, 200, 126, 127, 128, 129, 254, 255, 256, 257, 300, 400, 512, 520]); gen_chain(S::Data, d, keys) }
        _ => match ch(S::Data, 4) { 0 => Mv::Str(gen_string(S::Data)), 1 => Mv::Num(gen_number(S::Data)), 2 => Mv::Bool(true), _ => Mv::Null },
    };
    let (v, m) = make(S::Data, &m)?;
    note(|| format!("document: {}", m.show()));
    Some(Doc { v, m })
}
/// What one in-memory call returns.
pub fn in_memory(form: &Form, docs: &[&Doc]) -> Option<Vec<u8>> {
    let v = &docs[0].v;
    let r = match form {
        Form::Compact | Form::ToWriter | Form::Str | Form::Num => call("dump", || f::dump(v))?,
        Form::Pretty(n) => call("pretty", || f::pretty(v, *n))?,
        Form::ObjCompact => match v { JsonValue::Object(o) => call("Object::dump", || f::object_dump(o))?, _ => return None },
        Form::ObjPretty(n) => match v { JsonValue::Object(o) => call("Object::pretty", || f::object_pretty(o, *n))?, _ => return None },
        Form::Many(p, sep) => {
            let mut out = Vec::new();
            for (i, d) in docs.iter().enumerate() {
                if i > 0 { out.extend_from_slice(sep); }
                let t = match p { None => call("dump", || f::dump(&d.v))?, Some(n) => call("pretty", || f::pretty(&d.v, *n))? };
                out.extend_from_slice(t.as_bytes());
            }
            return Some(out);
        }
        Form::Bare(sep) => {
            let mut out = Vec::new();
            for (i, d) in docs.iter().enumerate() { if i > 0 { out.extend_from_slice(sep); } out.extend_from_slice(call("dump", || f::dump(&d.v))?.as_bytes()); }
            return Some(out);
        }
        Form::Custom(st, sep) => {
            let p = Printer { spaced: st.spaced, newline: st.newline, indent: st.indent };
            let mut out = String::new();
            for (i, d) in docs.iter().enumerate() {
                if i > 0 { out.push_str(std::str::from_utf8(sep).unwrap()); }
                if call("read", || { let _o = Out::new(); p.print(&d.v, 0, &mut out) }).is_none() { return None; }
            }
            return Some(out.into_bytes());
        }
    };
    Some(r.as_bytes().to_vec())
}
/// The same document(s) streamed.  `cb` sees the calls of a caller-defined generator.
pub fn stream(form: &Form, docs: &[&Doc], w: &mut SimWriter, cb: &mut dyn FnMut(GenCall) -> io::Result<()>) -> Result<io::Result<()>, Panic> {
    let v = &docs[0].v;
    let vs: Vec<&JsonValue> = docs.iter().map(|d| &d.v).collect();
    match form {
        Form::Compact => sut("write", || f::write(v, w)),
        Form::ToWriter => sut("to_writer", || { f::to_writer(v, w); Ok(()) }),
        Form::Pretty(n) => sut("write_pretty", || f::write_pretty(v, w, *n)),
        Form::ObjCompact => match v { JsonValue::Object(o) => sut("write_object", || f::write_object(o, w, None)), _ => unreachable!() },
        Form::ObjPretty(n) => match v { JsonValue::Object(o) => sut("write_object", || f::write_object(o, w, Some(*n))), _ => unreachable!() },
        Form::Many(p, sep) => sut("generator", || f::many_writer(&vs, w, *p, sep)),
        Form::Bare(sep) => sut("generator", || f::bare(&vs, w, sep)),
        Form::Custom(st, sep) => sut("generator", || f::custom(&vs, w, st.clone(), sep, cb)),
        Form::Str => { let s = v.as_str().unwrap_or(""); sut("write_string", || f::write_string(s, w)) }
        Form::Num => { let n = v.as_number().unwrap(); sut("write_number", || f::write_number(&n, w)) }
    }
}
pub fn diff_bytes(got: &[u8], want: &[u8]) -> String {
    let n = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    let show = |b: &[u8]| { let s = n.saturating_sub(10).min(b.len()); String::from_utf8_lossy(&b[s..(n + 30).min(b.len())]).into_owned() };
    format!("{} bytes instead of {}, first difference at byte {}: ...{:?} instead of ...{:?}", got.len(), want.len(), n, show(got), show(want))
}

// ---------------------------------------------------------------- C01

pub fn c01() -> Option<()> {
    let keys = Keys::new(S::Data);
    let n = range(S::Ops, 1, 3) as usize;
    let mut docs = vec![];
    for _ in 0..n { docs.push(gen_doc(&keys)?); }
    // one writer for everything that follows
    let mut w = SimWriter::working();
    let mut all: Vec<u8> = vec![];
    let turns = range(S::Ops, 1, 3);
    for _ in 0..turns {
        let k = ch(S::Ops, n as u32) as usize;
        let form = gen_form(&docs[k], &docs);
        let set: Vec<&Doc> = match form { Form::Many(..) | Form::Custom(..) | Form::Bare(..) => { let c = 1 + ch(S::Ops, n as u32) as usize; (0..c).map(|i| &docs[(k + i) % n]).collect() } _ => vec![&docs[k]] };
        note(|| format!("stream {:?} of document {} ({} in a row), writer {:?} interrupts {}", form, k, set.len(), w.accept, w.eintr));
        ev("stream", set.len() as u64, w.eintr as u64);
        let want = in_memory(&form, &set)?;
        all.extend_from_slice(&want);
        let r = stream(&form, &set, &mut w, &mut |_| Ok(()));
        obs_bytes(&w.got);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => { viol("stream:error", format!("{:?}: a writer that keeps accepting bytes, but the call returned {:?}", form, e)); return None; }
            Err(p) => { viol("panic:stream", format!("{:?} panicked: {}", form, p.msg)); return None; }
        }
        ck!(w.got == all, "stream:bytes", "{:?} with {:?}: {}", form, w.accept, diff_bytes(&w.got, &all));
    }
    Some(())
}

// ---------------------------------------------------------------- C02

pub fn c02() -> Option<()> {
    let keys = Keys::new(S::Data);
    let n = range(S::Ops, 1, 2) as usize;
    let mut docs = vec![];
    for _ in 0..n { docs.push(gen_doc(&keys)?); }
    let form = gen_form(&docs[0], &docs);
    let set: Vec<&Doc> = match form { Form::Many(..) | Form::Custom(..) | Form::Bare(..) => docs.iter().collect(), _ => vec![&docs[0]] };
    // what it delivers to a writer that accepts everything
    let mut w0 = SimWriter::new();
    match stream(&form, &set, &mut w0, &mut |_| Ok(())) { Ok(Ok(())) => {}, _ => { count("setup_abandoned"); return None } }
    let base = std::mem::take(&mut w0.got);
    if base.is_empty() { return None; }
    let sweep = base.len() <= 160 && ch(S::Ops, 3) == 2;
    let tries = if sweep { base.len() as u32 + 1 } else { range(S::Ops, 1, 6) };
    let (acc, ei) = { let w = SimWriter::working(); (w.accept, w.eintr) };
    let how0 = gen_fail();
    for t in 0..tries {
        let at = if sweep { t as u64 } else { ch(S::Fault, base.len() as u32 + 1) as u64 };
        let how = if sweep { how0 } else { gen_fail() };
        let tag = 1000 + t as u64;
        let mut w = SimWriter::new().fails_at(at, how, tag);
        w.accept = if sweep { acc } else { acc };
        w.eintr = ei;
        w.sticky = ch(S::Fault, 2) == 0;
        note(|| format!("{:?}: fails after {} of {} bytes with {:?}, sticky {}", form, at, base.len(), how, w.sticky));
        let r = stream(&form, &set, &mut w, &mut |_| Ok(()));
        obs_bytes(&w.got);
        check_failed(&form, &base, &w, at, how, tag, r)?;
    }
    // a generator's own error is passed on as well
    if let Form::Custom(st, sep) = &form {
        let total = Cell::new(0u64);
        let mut w = SimWriter::new();
        let _ = stream(&form, &set, &mut w, &mut |c| { if fallible(c) { total.set(total.get() + 1); } Ok(()) });
        if total.get() > 0 {
            let stop = ch(S::Fault, total.get().min(100000) as u32) as u64;
            let seen = Cell::new(0u64);
            let after = Cell::new(0u64);
            let _ = (st, sep);
            let mut w = SimWriter::new();
            let r = stream(&form, &set, &mut w, &mut |c| {
                let _o = Out::new();
                if fallible(c) {
                    if seen.get() > stop { after.set(after.get() + 1); }
                    seen.set(seen.get() + 1);
                    if seen.get() == stop + 1 { count("generator_errors"); return Err(io::Error::new(io::ErrorKind::Other, Tag(77))); }
                }
                Ok(())
            });
            match r {
                Ok(Err(e)) if is_error(&e, Fail::Tagged(io::ErrorKind::Other), 77) => {}
                Ok(Err(e)) => { viol("fail:wrong-error", format!("a generator call-back failed, but the call returned {:?}", e)); return None; }
                Ok(Ok(())) => { viol("fail:success", "a generator call-back failed, but the call reported success".into()); return None; }
                Err(p) => { viol("panic:stream", format!("a generator call-back failed and the call panicked: {}", p.msg)); return None; }
            }
            ck!(base.starts_with(&w.got), "fail:prefix", "after a generator error: {}", diff_bytes(&w.got, &base));
            ck!(after.get() == 0, "fail:continued", "after a generator call-back failed, {} more call-backs were made", after.get());
        }
    }
    Some(())
}
fn fallible(c: GenCall) -> bool { !matches!(c, GenCall::Indent | GenCall::Dedent) }

fn check_failed(form: &Form, base: &[u8], w: &SimWriter, at: u64, how: Fail, tag: u64, r: Result<io::Result<()>, Panic>) -> Option<()> {
    if at >= base.len() as u64 {
        // the failure was never reached
        match r {
            Ok(Ok(())) => { ck!(w.got == base, "stream:bytes", "{:?}: {}", form, diff_bytes(&w.got, base)); }
            Ok(Err(e)) => { if !w.failed { viol("stream:error", format!("{:?}: nothing failed, but the call returned {:?}", form, e)); return None; } }
            Err(p) => { if !w.failed { viol("panic:stream", format!("{:?} panicked: {}", form, p.msg)); return None; } }
        }
        return Some(());
    }
    match (form, r) {
        (Form::ToWriter, Err(p)) if p.injected.is_none() => {}
        (_, Ok(Ok(()))) => { viol("fail:success", format!("{:?}: success reported although the writer failed after {} of {} bytes ({:?})", form, at, base.len(), how)); return None; }
        (_, Ok(Err(e))) => { ck!(is_error(&e, how, tag), "fail:wrong-error", "{:?}: the writer failed with {:?} (tag {}), the call returned {:?}", form, how, tag, e); }
        (_, Err(p)) => { viol("panic:stream", format!("{:?} panicked: {}", form, p.msg)); return None; }
    }
    ck!(w.failed, "fail:not-reached", "{:?}: an error although the writer had not failed yet", form);
    ck!(w.after == 0, "fail:continued", "{:?}: {} more writes were offered after the writer failed", form, w.after);
    ck!(base.starts_with(&w.got) && w.got.len() < base.len(), "fail:prefix", "{:?}: accepted bytes are no strict prefix: {}", form, diff_bytes(&w.got, base));
    ck!(w.got.len() as u64 == at, "fail:prefix", "{:?}: {} bytes accepted, the writer failed after {}", form, w.got.len(), at);
    Some(())
}

// ---------------------------------------------------------------- C03

/// What a value must still look like and still do after something was cut short.
fn intact(what: &str, d: &Doc, compact: &[u8]) -> Option<()> {
    if !expect("trace:content", what, &d.v, &d.m) { return None; }
    let t = call("dump", || f::dump(&d.v))?;
    ck!(t.as_bytes() == compact, "trace:serialisation", "{}: serialising again differs: {}", what, diff_bytes(t.as_bytes(), compact));
    Some(())
}

pub fn c03() -> Option<()> {
    let keys = Keys::new(S::Data);
    let mut docs = vec![];
    for _ in 0..range(S::Ops, 1, 3) { docs.push(gen_doc(&keys)?); }
    let mut texts = vec![];
    for d in &docs { texts.push(match sut("dump", || f::dump(&d.v)) { Ok(t) => t.as_bytes().to_vec(), Err(_) => { count("setup_abandoned"); return None } }); }
    let steps = range(S::Ops, 1, 5);
    for _ in 0..steps {
        let k = ch(S::Ops, docs.len() as u32) as usize;
        match weighted(S::Ops, &[5, 3, 3, 4, 4, 2, 2]) {
            0 => cut_stream(&docs[k])?,
            1 => cut_generator(&docs[k])?,
            2 => cut_push(&mut docs[k], &keys)?,
            3 => cut_collect(&keys)?,
            4 => cut_walk(&mut docs[k], &keys)?,
            5 => cut_contains(&docs[k])?,
            _ => cut_convert(&keys)?,
        }
        texts[k] = { let t = call("dump", || f::dump(&docs[k].v))?; t.as_bytes().to_vec() };
        // nothing else changed either
        for (i, d) in docs.iter().enumerate() { intact("a value that existed before an operation was cut short", d, &texts[i])?; }
        // and the value is still fully usable
        if chance(S::Ops, 1, 2) { use_value(&mut docs[k], &keys)?; texts[k] = { let t = call("dump", || f::dump(&docs[k].v))?; t.as_bytes().to_vec() }; }
    }
    Some(())
}
/// Ordinary operations that need the value to be in order.
fn use_value(d: &mut Doc, keys: &Keys) -> Option<()> {
    let c = call("clone", || f::clone_value(&d.v))?;
    if !expect("trace:usable", "a copy made afterwards", &c, &d.m) { return None; }
    let e = call("eq", || f::eq(&c, &d.v))?;
    let nan = false;
    ck!(e || nan, "trace:usable", "a copy made afterwards is not equal to its original");
    call("drop", || f::drop_value(c))?;
    match &mut d.m {
        Mv::Arr(a) => { call("push", || f::push(&mut d.v, JsonValue::Null))?.ok(); a.push(Mv::Null); }
        Mv::Obj(o) => {
            let k = keys.any(S::Ops).to_string();
            call("insert", || f::insert(&mut d.v, &k, JsonValue::Boolean(true)))?.ok();
            obj_set(o, &k, Mv::Bool(true));
            if ch(S::Ops, 2) == 1 {
                let k = keys.any(S::Ops).to_string();
                call("remove", || { let x = f::remove(&mut d.v, &k); f::drop_value(x) })?;
                o.retain(|e| e.0 != k);
            }
        }
        _ => {}
    }
    if !expect("trace:usable", "the value used again", &d.v, &d.m) { return None; }
    Some(())
}
fn cut_stream(d: &Doc) -> Option<()> {
    let form = gen_form(d, std::slice::from_ref(d));
    let mut w0 = SimWriter::new();
    match stream(&form, &[d], &mut w0, &mut |_| Ok(())) { Ok(Ok(())) => {}, Ok(Err(_)) => return None, Err(p) => { viol("panic:stream", format!("{:?} panicked: {}", form, p.msg)); return None } }
    let base = std::mem::take(&mut w0.got);
    if base.is_empty() { return Some(()); }
    let at = ch(S::Fault, base.len() as u32) as u64;
    let how = if chance(S::Fault, 1, 2) { Fail::Panic } else { gen_fail() };
    let mut w = SimWriter::working().fails_at(at, how, 5);
    note(|| format!("{:?} cut short after {} of {} bytes by {:?}", form, at, base.len(), how));
    let r = stream(&form, &[d], &mut w, &mut |_| Ok(()));
    if let (Fail::Panic, Ok(_)) = (how, &r) { viol("trace:swallowed", "the writer panicked, but the call returned".into()); return None; }
    if let Err(p) = &r { if p.injected.is_none() && !matches!(form, Form::ToWriter) { viol("panic:stream", format!("{:?} panicked: {}", form, p.msg)); return None; } }
    // once more, undisturbed
    let mut w = SimWriter::working();
    let r = stream(&form, &[d], &mut w, &mut |_| Ok(()));
    obs_bytes(&w.got);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => { viol("trace:retry", format!("{:?} fails when repeated without the disturbance: {:?}", form, e)); return None; }
        Err(p) => { viol("trace:retry", format!("{:?} panics when repeated without the disturbance: {}", form, p.msg)); return None; }
    }
    ck!(w.got == base, "trace:retry", "{:?} repeated without the disturbance differs: {}", form, diff_bytes(&w.got, &base));
    Some(())
}
fn cut_generator(d: &Doc) -> Option<()> {
    let form = Form::Custom(GenStyle { spaced: true, newline: "\n", indent: " ", own_write: true }, b"");
    let total = Cell::new(0u64);
    let mut w = SimWriter::new();
    match stream(&form, &[d], &mut w, &mut |_| { total.set(total.get() + 1); Ok(()) }) { Ok(Ok(())) => {}, Ok(Err(_)) => return None, Err(p) => { viol("panic:stream", p.msg); return None } }
    let base = std::mem::take(&mut w.got);
    if total.get() == 0 { return Some(()); }
    let stop = ch(S::Fault, total.get().min(1 << 20) as u32) as u64;
    let seen = Cell::new(0u64);
    let mut w = SimWriter::new();
    let r = stream(&form, &[d], &mut w, &mut |_| { let _o = Out::new(); seen.set(seen.get() + 1); if seen.get() == stop + 1 { count("generator_panics"); ev("generator-panic", stop, 0); inject_panic(9) } Ok(()) });
    ck!(matches!(r, Err(Panic { injected: Some(9), .. })), "trace:swallowed", "a generator call-back panicked, but the call went on");
    let mut w = SimWriter::new();
    let r = stream(&form, &[d], &mut w, &mut |_| Ok(()));
    ck!(matches!(r, Ok(Ok(()))) && w.got == base, "trace:retry", "repeated without the panicking call-back: {}", diff_bytes(&w.got, &base));
    Some(())
}
/// A value handed over by a call-back that first does something with the library itself.
fn supply(m: Mv, panics: bool) -> f::CbVal {
    f::CbVal(Box::new(move || {
        let _o = Out::new();
        if ch(S::Ops, 4) == 3 { let t = sut("parse", || f::parse("[1,{\"k\\n\":\"v\"}]")); drop(t); }
        if panics { count("conversion_panics"); ev("conversion-panic", 0, 0); inject_panic(3) }
        build(S::Data, &m)
    }))
}
fn small(keys: &Keys) -> Mv { let mut sh = Shape { depth: 2, width: 3, nan: true, budget: 6 }; gen_value(S::Data, keys, &mut sh, 0) }

fn cut_push(d: &mut Doc, keys: &Keys) -> Option<()> {
    let m = small(keys);
    let arr = matches!(d.m, Mv::Arr(_));
    let obj = matches!(d.m, Mv::Obj(_));
    if ch(S::Ops, 2) == 0 {
        note(|| "push of a value whose conversion panics".into());
        let v = &mut d.v;
        let r = sut("push", || f::push_cb(v, supply(m.clone(), true)));
        if arr { ck!(matches!(r, Err(Panic { injected: Some(3), .. })), "trace:swallowed", "a conversion panicked inside push, but push went on"); }
        if !expect("trace:content", "an array after a push that panicked", &d.v, &d.m) { return None; }
        let v = &mut d.v;
        let r = call("push", || f::push_cb(v, supply(m.clone(), false)))?;
        ck!(r.is_ok() == arr, "trace:retry", "push repeated: {:?}", r);
        if let Mv::Arr(a) = &mut d.m { a.push(m); }
        if !expect("trace:retry", "an array after the push was repeated", &d.v, &d.m) { return None; }
    } else {
        let k = keys.any(S::Ops).to_string();
        note(|| format!("insert under {:?} of a value whose conversion panics", k));
        let v = &mut d.v;
        let r = sut("insert", || f::insert_cb(v, &k, supply(m.clone(), true)));
        if obj { ck!(matches!(r, Err(Panic { injected: Some(3), .. })), "trace:swallowed", "a conversion panicked inside insert, but insert went on"); }
        if !expect("trace:content", "an object after an insert that panicked", &d.v, &d.m) { return None; }
        let v = &mut d.v;
        let r = call("insert", || f::insert_cb(v, &k, supply(m.clone(), false)))?;
        ck!(r.is_ok() == obj, "trace:retry", "insert repeated: {:?}", r);
        d.m.set(&k, m);
        if !expect("trace:retry", "an object after the insert was repeated", &d.v, &d.m) { return None; }
    }
    Some(())
}
/// Where in a sequence of call-backs the panic strikes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Strike { Never, Next(usize), Key(usize), Conv(usize) }

fn cut_collect(keys: &Keys) -> Option<()> {
    let n = range(S::Ops, 1, 8) as usize;
    let items: Vec<(String, Mv)> = (0..n).map(|_| (keys.any(S::Data).to_string(), small(keys))).collect();
    let mut want = vec![];
    for (k, v) in &items { obj_set(&mut want, k, v.clone()); }
    let want = Mv::Obj(want);
    let at = ch(S::Fault, n as u32) as usize;
    let form = ch(S::Ops, 3);
    let mut strike = match ch(S::Fault, 3) { 0 => Strike::Next(at), 1 => Strike::Key(at), _ => Strike::Conv(at) };
    if form > 0 { if let Strike::Next(i) = strike { strike = Strike::Conv(i) } }
    note(|| format!("collecting {} entries (form {}) with a panic at {:?}", n, form, strike));
    let hs = hash_state(S::Data);
    for round in 0..2 {
        let st = if round == 0 { strike } else { Strike::Never };
        let item = |i: usize, k: &str, v: &Mv| -> (f::CbKey, f::CbVal) {
            let kp = st == Strike::Key(i);
            let cb: Rc<dyn Fn()> = Rc::new(move || { if kp { let _o = Out::new(); count("key_panics"); ev("key-panic", i as u64, 0); inject_panic(4) } });
            (f::CbKey { s: k.to_string(), cb }, supply(v.clone(), st == Strike::Conv(i)))
        };
        let hit = Cell::new(false);
        let r: Result<JsonValue, Panic> = match form {
            0 => {
                let mut i = 0;
                let mut it = std::iter::from_fn(|| {
                    let _o = Out::new();
                    if i >= items.len() { return None; }
                    if st == Strike::Next(i) { count("iterator_panics"); ev("iterator-panic", i as u64, 0); inject_panic(6) }
                    i += 1;
                    Some(item(i - 1, &items[i - 1].0, &items[i - 1].1))
                });
                sut("collect", || JsonValue::Object(f::object_collect_cb(&mut it)))
            }
            1 => {
                let mut h = std::collections::HashMap::with_hasher(hs.clone());
                if let Mv::Obj(o) = &want { for (i, (k, v)) in o.iter().enumerate() { let (a, b) = item(i, k, v); h.insert(a, b); } }
                sut("from_hashmap", || f::from_hash_cb(h))
            }
            _ => {
                let mut h = std::collections::BTreeMap::new();
                if let Mv::Obj(o) = &want { for (i, (k, v)) in o.iter().enumerate() { let (a, b) = item(i, k, v); h.insert(a, b); } }
                sut("from_btree", || f::from_btree_cb(h))
            }
        };
        let _ = hit;
        match r {
            Ok(v) => {
                let m = read(&v);
                ck!(m.same(&want), "trace:retry", "collected {} instead of {}", m.show(), want.show());
                if form == 0 { if !expect("trace:retry", "a collected object", &v, &want) { return None; } }
                call("drop", || f::drop_value(v))?;
            }
            Err(p) => { ck!(p.injected.is_some(), "panic:collect", "collecting panicked: {}", p.msg); ck!(round == 0, "trace:retry", "collecting panicked without the disturbance"); }
        }
    }
    Some(())
}
fn cut_convert(keys: &Keys) -> Option<()> {
    let n = range(S::Ops, 1, 8) as usize;
    let items: Vec<Mv> = (0..n).map(|_| small(keys)).collect();
    let at = ch(S::Fault, n as u32) as usize;
    let form = ch(S::Ops, 3);
    for round in 0..2 {
        let r = match form {
            0 => { let v: Vec<f::CbVal> = items.iter().enumerate().map(|(i, m)| supply(m.clone(), round == 0 && i == at)).collect(); sut("from_vec", || f::from_vec_cb(v)) }
            1 => {
                let on_clone = ch(S::Fault, 2) == 1;
                let v: Vec<f::CbCl> = items.iter().enumerate().map(|(i, m)| { let m = m.clone(); f::CbCl(Rc::new(move |cl| {
                    let _o = Out::new();
                    if round == 0 && i == at && cl == on_clone { count("conversion_panics"); ev("conversion-panic", i as u64, cl as u64); inject_panic(3) }
                    if cl { JsonValue::Null } else { build(S::Data, &m) }
                })) }).collect();
                sut("from_slice", || f::from_slice_cb(&v))
            }
            _ => sut("from_option", || f::from_option_cb(Some(supply(items[0].clone(), round == 0)))),
        };
        match r {
            Ok(v) => {
                ck!(round == 1, "trace:swallowed", "a conversion panicked, but the construction went on");
                let want = if form == 2 { items[0].clone() } else { Mv::Arr(items.clone()) };
                if !expect("trace:retry", "a value constructed after an attempt that panicked", &v, &want) { return None; }
                call("drop", || f::drop_value(v))?;
            }
            Err(p) => { ck!(p.injected.is_some(), "panic:convert", "construction panicked: {}", p.msg); ck!(round == 0, "trace:retry", "construction panicked without the disturbance"); }
        }
    }
    Some(())
}
/// The caller's own loop over mutable entries or members panics half-way.
fn cut_walk(d: &mut Doc, keys: &Keys) -> Option<()> {
    let n = d.m.len();
    let stop = ch(S::Fault, n as u32 + 1) as usize;
    let pattern = if ch(S::Ops, 2) == 0 { 0 } else { bits64(S::Ops) };
    let fresh: Vec<Mv> = (0..n).map(|_| small(keys)).collect();
    let done: RefCell<Vec<(String, usize)>> = RefCell::new(vec![]);
    let mut k = 0;
    let r = match &mut d.v {
        JsonValue::Array(_) => { let v = &mut d.v; let rev = pattern & 1 == 1; sut("members_mut", || f::members_mut(v, rev, &mut |i, x| {
            let _o = Out::new();
            if k == stop { count("loop_panics"); inject_panic(8) }
            if k < fresh.len() && ch(S::Ops, 2) == 1 { let y = build(S::Data, &fresh[k]); { let _i = In::new(); *x = y; } done.borrow_mut().push((String::new(), if rev { n - 1 - i } else { i })); }
            else { done.borrow_mut().push((String::new(), usize::MAX)); }
            k += 1;
        })) }
        JsonValue::Object(o) => sut("iter_mut", || f::o_walk_mut(o, pattern, &mut |_, _, item| {
            let _o = Out::new();
            if k == stop { count("loop_panics"); inject_panic(8) }
            if let Some((key, x)) = item {
                if k < fresh.len() && ch(S::Ops, 2) == 1 { let y = build(S::Data, &fresh[k]); { let _i = In::new(); *x = y; } done.borrow_mut().push((key.to_string(), 0)); }
                else { done.borrow_mut().push((String::new(), usize::MAX)); }
                k += 1;
            }
        })),
        _ => return Some(()),
    };
    if let Err(p) = &r { ck!(p.injected.is_some(), "panic:walk", "walking panicked: {}", p.msg); }
    for (i, (key, idx)) in done.borrow().iter().enumerate() {
        if *idx == usize::MAX { continue; }
        match &mut d.m { Mv::Arr(a) => { if *idx < a.len() { a[*idx] = fresh[i].clone(); } } Mv::Obj(_) => d.m.set(key, fresh[i].clone()), _ => {} }
    }
    if !expect("trace:content", "a container after a loop over it panicked", &d.v, &d.m) { return None; }
    Some(())
}
fn cut_contains(d: &Doc) -> Option<()> {
    let n = d.m.len();
    if !matches!(d.m, Mv::Arr(_)) || n == 0 { return Some(()); }
    let at = ch(S::Fault, n as u32) as usize;
    for round in 0..2 {
        let seen = Rc::new(Cell::new(0usize));
        let s2 = seen.clone();
        let eq = f::CbEq(Box::new(move |_| { let _o = Out::new(); let i = s2.get(); s2.set(i + 1); if round == 0 && i == at { count("comparison_panics"); inject_panic(2) } i == at }));
        let r = sut("contains", || f::contains_cb(&d.v, eq));
        match r {
            Ok(b) => { ck!(round == 1, "trace:swallowed", "a comparison panicked, but contains went on"); ck!(b && seen.get() == at + 1, "trace:retry", "contains repeated: {} after {} comparisons", b, seen.get()); }
            Err(p) => { ck!(p.injected.is_some(), "panic:contains", "contains panicked: {}", p.msg); ck!(round == 0, "trace:retry", "contains panicked without the disturbance"); }
        }
    }
    Some(())
}
