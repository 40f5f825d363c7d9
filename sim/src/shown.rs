//! C18: values and errors displayed to formatters of the client's, which fail, panic, and
//! display other things in between.
use crate::model::*;
use crate::refjson::*;
use crate::rt::*;
use crate::stream::{diff_bytes, gen_doc, Doc};
use std::fmt::Write;
use surface as f;
use surface::Shown;

/// Where displayed text goes.
struct Sink<'a> {
    got: String,
    /// with how many bytes it is full, and whether it panics then
    fail: Option<(usize, bool)>,
    /// takes what still fits of the piece that does not
    partly: bool,
    failed: bool,
    after: u64,
    calls: u64,
    hook: Option<&'a dyn Fn(u64)>,
}
impl<'a> Sink<'a> { fn new() -> Sink<'a> { Sink { got: String::new(), fail: None, partly: false, failed: false, after: 0, calls: 0, hook: None } } }
impl<'a> Write for Sink<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        seen(s.as_bytes());
        let _o = Out::new();
        sched_point(5);
        self.calls += 1;
        if self.failed { self.after += 1; ev("show-after-failure", s.len() as u64, 0); }
        if let Some(h) = self.hook { h(self.calls); }
        if let Some((at, panics)) = self.fail {
            if self.got.len() + s.len() > at {
                if self.partly { let mut n = at - self.got.len().min(at); while !s.is_char_boundary(n) { n -= 1; } self.got.push_str(&s[..n]); }
                self.failed = true;
                ev("sink-full", at as u64, 0);
                if panics { count("sink_panics"); inject_panic(at as u64) }
                count("sink_failures");
                return Err(std::fmt::Error);
            }
        }
        self.got.push_str(s);
        Ok(())
    }
}

/// The errors there are, with what is to be said of them.
fn gen_error(docs: &[Doc]) -> Option<json::Error> {
    let e = match ch(S::Ops, 6) {
        0 | 1 => {
            let t = match sut("dump", || f::dump(&docs[0].v)) { Ok(t) => t, Err(_) => return None };
            let mut b = t.as_bytes().to_vec();
            if b.len() > 20000 { b.truncate(20000); }
            crate::world::damage(&mut b);
            let t = match String::from_utf8(b) { Ok(t) => in_arena(|| t.as_str().to_string()), Err(_) => return None };
            match call("parse", || f::parse(&t))? { Err(e) => e, Ok(v) => { call("drop", || f::drop_value(v))?; return None } }
        }
        2 => json::Error::UnexpectedCharacter { ch: pick(S::Data, &['x', '"', '\n', '\u{0}', 'é', '\u{10ffff}', ' ', '{', '\\', '\u{1f600}']), line: pick(S::Data, &[1usize, 2, 9, 10, 4096, usize::MAX]), column: pick(S::Data, &[1usize, 3, 10, 99, 65536, usize::MAX]) },
        3 => pick(S::Data, &[|| json::Error::UnexpectedEndOfJson, || json::Error::ExceededDepthLimit, || json::Error::FailedUtf8Parsing] as &[fn() -> json::Error])(),
        4 => { let s = gen_string(S::Data); call("wrong_type", || f::wrong_type(&s))? }
        _ => {
            let (mut v, m) = make(S::Data, &pick(S::Data, &[|| Mv::Null, || Mv::Bool(true), || Mv::Str("text".into()), || Mv::Num(N::int(3)), || Mv::Obj(vec![])] as &[fn() -> Mv])())?;
            let obj = matches!(m, Mv::Obj(_));
            let r = if obj || ch(S::Ops, 2) == 0 { call("push", || f::push(&mut v, json::JsonValue::Null))? } else { call("insert", || f::insert(&mut v, "k", json::JsonValue::Null))? };
            match r { Err(e) => e, Ok(()) => return None }
        }
    };
    Some(e)
}
fn message(e: &json::Error) -> String {
    match e {
        json::Error::UnexpectedCharacter { ch, line, column } => format!("Unexpected character: {} at ({}:{})", ch, line, column),
        json::Error::UnexpectedEndOfJson => "Unexpected end of JSON".into(),
        json::Error::ExceededDepthLimit => "Exceeded depth limit".into(),
        json::Error::FailedUtf8Parsing => "Failed to parse UTF-8 bytes".into(),
        json::Error::WrongType(s) => format!("Wrong type, expected: {}", s),
    }
}
/// Is this how the value reads?
fn right(x: &Shown, m: Option<&Mv>, got: &str) -> Option<()> {
    let number = |got: &str, n: &N| -> Option<()> {
        if n.nan { ck!(got == "nan", "shown:number", "not-a-number is displayed as {:?}", got); return Some(()); }
        match parse_ref(got) { Ok((Mv::Num(g), _)) if g == *n => Some(()), r => { viol("shown:number", format!("{} is displayed as {:?}, which reads as {:?}", Mv::Num(n.clone()).show(), got, r.map(|x| x.0.show()).ok())); None } }
    };
    match (x, m) {
        (Shown::Plain(_), Some(Mv::Str(s))) => ck!(got == s, "shown:string", "a string is displayed as something else: {}", diff_bytes(got.as_bytes(), s.as_bytes())),
        (Shown::Plain(_), Some(Mv::Null)) => ck!(got == "null", "shown:null", "null is displayed as {:?}", got),
        (Shown::Plain(_), Some(Mv::Bool(b))) => ck!(got == if *b { "true" } else { "false" }, "shown:boolean", "{} is displayed as {:?}", b, got),
        (Shown::Plain(_) | Shown::Number(_), Some(Mv::Num(n))) => number(got, n)?,
        (Shown::Plain(v) | Shown::Alternate(v), Some(m)) => {
            let p = if matches!(x, Shown::Plain(_)) { Printer { spaced: false, newline: "", indent: "" } } else { Printer { spaced: true, newline: "\n", indent: "    " } };
            let mut want = String::new();
            call("read", || { let _o = Out::new(); p.print(v, 0, &mut want) })?;
            ck!(got == want, "shown:document", "{}: {}", if matches!(x, Shown::Plain(_)) { "{}" } else { "{:#}" }, diff_bytes(got.as_bytes(), want.as_bytes()));
            // and it says what the value holds
            if m.indents(0) < 100_000 { match parse_ref_limit(got, usize::MAX) {
                Ok((g, ..)) => ck!(g.same(&m.stored()), "shown:content", "a value is displayed as {:.300?}, which reads as {} instead of {}", got, g.show(), m.stored().show()),
                Err(_) => { viol("shown:content", format!("a value is displayed as {:.300?}, which is no document", got)); return None; }
            } }
        }
        (Shown::Error(e), _) => { let want = message(e); ck!(got == want, "shown:error", "{:?} is displayed as {:?} instead of {:?}", e, got, want) }
        _ => {}
    }
    Some(())
}

pub fn c18() -> Option<()> {
    let keys = Keys::new(S::Data);
    let mut docs = vec![];
    for _ in 0..range(S::Ops, 1, 3) {
        let mut d = if ch(S::Ops, 2) == 0 { let (v, m) = make(S::Data, &crate::history::small(&keys))?; Doc { v, m } } else { gen_doc(&keys)? };
        for _ in 0..ch(S::Ops, 3) { crate::history::mutate(&mut d.v, &mut d.m, &keys, 0)?; }
        docs.push(d);
    }
    let mut errors = vec![];
    for _ in 0..ch(S::Ops, 3) { if let Some(e) = gen_error(&docs) { errors.push(e); } if failed() { return None; } }
    let (nums, seps) = (docs.iter().map(|d| d.v.as_number()).collect::<Vec<_>>(), ["", " ", ", ", "\n", "{}", "é"]);
    // what is displayed, in one go
    let mut items: Vec<Shown> = vec![];
    let mut of: Vec<Option<&Mv>> = vec![];
    for _ in 0..range(S::Ops, 1, 4) {
        let k = ch(S::Ops, docs.len() as u32) as usize;
        let d = &docs[k];
        // four blanks to the level: no more than a million and a half
        let deep = d.m.indents(0) > 300_000;
        match weighted(S::Ops, &[4, 4, 1, 2, 2]) {
            1 if !deep => { items.push(Shown::Alternate(&d.v)); of.push(Some(&d.m)); }
            2 if d.m.size() < 2000 && !deep => { items.push(Shown::Debug(&d.v)); of.push(None); }
            3 if nums[k].is_some() => { items.push(Shown::Number(nums[k].as_ref().unwrap())); of.push(Some(&d.m)); }
            4 if !errors.is_empty() => { items.push(Shown::Error(&errors[ch(S::Ops, errors.len() as u32) as usize])); of.push(None); }
            _ => { items.push(Shown::Plain(&d.v)); of.push(Some(&d.m)); }
        }
        if ch(S::Ops, 2) == 1 { items.push(Shown::Text(pick(S::Data, &seps))); of.push(None); }
    }
    // each by itself, as a string
    let mut base = String::new();
    for (x, m) in items.iter().zip(&of) {
        let s = call("to_string", || f::to_string(x))?;
        // what {:?} says is nobody's business
        if !matches!(x, Shown::Debug(_)) { obs_bytes(s.as_bytes()); }
        right(x, *m, &s)?;
        base.push_str(&s);
        call("drop", || drop(s))?;
    }
    let debug = items.iter().any(|x| matches!(x, Shown::Debug(_)));
    ev("show", items.len() as u64, if debug { 0 } else { base.len() as u64 });
    note(|| format!("displayed: {:.300?}", base));
    let whole = |what: &str, s: &Sink, r: std::fmt::Result| -> Option<()> {
        ck!(r.is_ok(), "shown:failure", "{}: the formatter takes everything, but the call fails", what);
        ck!(s.got == base, "shown:text", "{}: {}", what, diff_bytes(s.got.as_bytes(), base.as_bytes()));
        Some(())
    };
    let mut s = Sink::new();
    let r = call("fmt", || f::show(&items, &mut s))?;
    whole("all in one line", &s, r)?;
    let pieces = s.calls;
    // formatters that fail, or panic, and are asked for more afterwards
    for _ in 0..range(S::Ops, 1, 4) {
        if base.is_empty() { break; }
        let at = ch(S::Fault, base.len() as u32) as usize;
        let mut s = Sink::new();
        s.fail = Some((at, ch(S::Fault, 3) == 2));
        s.partly = ch(S::Fault, 2) == 1;
        note(|| format!("to a formatter that is full with {} of {} bytes ({:?})", at, base.len(), s.fail));
        match (sut("fmt", || f::show(&items, &mut s)), s.fail) {
            (Err(p), Some((_, true))) if p.injected == Some(at as u64) => {}
            (Err(p), _) => { viol("panic:fmt", format!("displaying to a formatter that is full with {} bytes panicked: {}", at, p.msg)); return None; }
            (Ok(_), Some((_, true))) => { viol("shown:swallowed", format!("the formatter panicked with {} of {} bytes, but the call returned", at, base.len())); return None; }
            (Ok(Err(_)), _) => {}
            (Ok(Ok(())), _) => { viol("shown:success", format!("the formatter took {} of {} bytes and failed, but the call reports success", at, base.len())); return None; }
        }
        ck!(s.after == 0, "shown:continued", "{} more pieces were offered after the formatter had failed", s.after);
        ck!(base.starts_with(&s.got), "shown:prefix", "what the formatter took before it failed: {}", diff_bytes(s.got.as_bytes(), base.as_bytes()));
        if !debug { obs_bytes(s.got.as_bytes()); }
    }
    // and one that displays other things while it is at it
    if ch(S::Ops, 2) == 1 {
        let k = ch(S::Ops, docs.len() as u32) as usize;
        let every = range(S::Ops, 1, 3) as u64;
        let budget = std::cell::Cell::new((2_000_000 / base.len().max(1)).min(40));
        let at = ch(S::Ops, 2);
        let inner = |n: u64| {
            if failed() || n % every != 0 || budget.get() == 0 { return; }
            budget.set(budget.get() - 1);
            count("reentrant_calls");
            let x = if at == 0 || docs[k].m.indents(0) > 300_000 { Shown::Plain(&docs[k].v) } else { Shown::Alternate(&docs[k].v) };
            if let Some(s) = call("to_string", || f::to_string(&x)) { right(&x, Some(&docs[k].m), &s); let _ = call("drop", || drop(s)); }
            let mut other = Sink::new();
            match sut("fmt", || f::show(&items, &mut other)) { Ok(r) => { whole("inside another", &other, r); } Err(p) => viol("panic:fmt", format!("displaying from inside a formatter panicked: {}", p.msg)) }
        };
        let mut s = Sink::new();
        s.hook = Some(&inner);
        let r = call("fmt", || f::show(&items, &mut s))?;
        if failed() { return None; }
        whole("with others inside", &s, r)?;
    }
    let mut s = Sink::new();
    let r = call("fmt", || f::show(&items, &mut s))?;
    whole("once more", &s, r)?;
    let _ = pieces;
    for d in &docs { if !expect("shown:changed", "a value that has been displayed", &d.v, &d.m) { return None; } }
    Some(())
}
