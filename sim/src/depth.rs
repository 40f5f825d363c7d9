//! C14: nesting, hostile or not, with 2 MiB of stack and an eye on memory.
use crate::model::*;
use crate::refjson::*;
use crate::rt::*;
use crate::world::*;
use json::Error;
use surface as f;

pub fn c14() -> Option<()> {
    // everything the library does here happens on an ordinary thread
    let mut res = None;
    std::thread::scope(|s| {
        let r = &mut res;
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || { *r = on_thread(); }).expect("thread");
        if let Err(p) = h.join() { std::panic::resume_unwind(p); }
    });
    res
}
/// Reference work needs more stack than the library may use.
fn aside<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, f).expect("thread").join() { Ok(v) => v, Err(p) => std::panic::resume_unwind(p) })
}

fn on_thread() -> Option<()> {
    let near = |s| match ch(s, 4) { 0 => 512, 1 => 513, 2 => 511, _ => range(s, 505, 520) };
    let d = match weighted(S::Data, &[6, 2, 3, 2, 1, 1]) {
        0 => near(S::Data),
        1 => range(S::Data, 1, 40),
        2 => range(S::Data, 521, 3000),
        3 => range(S::Data, 40, 505),
        4 => pick(S::Data, &[10_000u32, 20_000, 50_000]),
        _ => pick(S::Data, &[100_000u32, 300_000, 65_536, 65_535, 131_072]),
    } as usize;
    let d = if chance(S::Data, 1, 8) { range(S::Data, 1, 6) as usize } else { d };
    let style = ch(S::Data, 5);
    let key = pick(S::Data, &["k", "", "é\\n", "a-key-that-is-longer-than-the-inline-buffer-of-keys"]);
    let spaced = ch(S::Data, 4) == 3;
    let sib = ch(S::Data, 4);
    let mut t = String::new();
    let mut kinds: Vec<bool> = Vec::with_capacity(d);
    for i in 0..d {
        let arr = match style { 0 | 1 => true, 2 => false, 3 => i % 2 == 0, _ => (i / 7) % 3 != 0 };
        kinds.push(arr);
        if arr { t.push('['); } else { t.push('{'); }
        if spaced && i % 5 == 0 { t.push_str(" \n"); }
        // members in front of the nested one, complete containers among them
        if sib > 0 && (d < 3000 || i % 50 == 0) && i % (3 + sib as usize) == 0 {
            let s = ["1", "\"s\"", "[]", "[[2]]", "{}", "{\"x\":[1,{}]}"][(i / 4) % 6];
            if arr { t.push_str(s); t.push(','); } else { t.push_str("\"s\":"); t.push_str(s); t.push(','); }
        }
        if !arr { t.push('"'); t.push_str(key); t.push_str("\":"); }
    }
    // the innermost value; empty containers do not count
    let inner = pick(S::Data, &["0", "[]", "{}", "\"x\"", "null", "", "[ ]", "{\n}", "-1.5e3", "[[]]", "{\"\":{}}", "]", "[1]"]);
    // or very many containers next to each other, which are not nested at all
    let wide = if d <= 512 && chance(S::Data, 1, 3) { range(S::Data, 1, 12) * pick(S::Data, &[1u32, 10, 100, 1000]) } else { 0 };
    // every one of them is indented when it is printed
    let wide = wide.min(20_000 / (d as u32 + 1));
    if wide > 0 {
        let one = pick(S::Data, &["[1]", "[null]", "[[]]", "{\"x\":1}", "{\"\":{}}", "[[2],[3]]", "{\"x\":[1],\"y\":{\"z\":[]}}", "[]", "{}", "[\"s\",{\"k\":[0]}]", "{\"x\":1,\"x\":[2]}"]);
        let other = pick(S::Data, &["", "[1,2]", "0", "{\"x\":null}"]);
        let object = chance(S::Data, 1, 3);
        t.push(if object { '{' } else { '[' });
        for i in 0..wide {
            if i > 0 { t.push(','); }
            if object { t.push_str(&format!("\"{}\":", i % 700)); }
            t.push_str(if i % 3 == 2 && !other.is_empty() { other } else { one });
        }
        if !inner.is_empty() { t.push(','); if object { t.push_str("\"i\":"); } t.push_str(inner); }
        t.push(if object { '}' } else { ']' });
        count("wide_documents");
    } else {
        t.push_str(inner);
    }
    // what follows
    let tail = weighted(S::Fault, &[5, 2, 2, 1]);
    let close = |t: &mut String, n: usize| for i in (d - n..d).rev() { t.push(if kinds[i] { ']' } else { '}' }); };
    match tail {
        0 => close(&mut t, d),
        1 => { let n = ch(S::Fault, d as u32 + 1) as usize; close(&mut t, n); count("damage_cut"); }
        2 => { close(&mut t, d); let mut b = t.into_bytes(); damage(&mut b); t = match String::from_utf8(b) { Ok(t) => t, Err(e) => String::from_utf8_lossy(&e.into_bytes()).into_owned() }; }
        _ => { let n = range(S::Fault, 1, 2000); for _ in 0..n { t.push(pick(S::Fault, &['[', ']', '{', '}', '"', ',', '0'])); } count("damage_tail"); }
    }
    note(|| format!("{} containers (style {}), innermost {:?}, ending {}, {} bytes", d, style, inner, tail, t.len()));
    ev("nest", d as u64, t.len() as u64);
    let behind = hostile(true);
    let p = Placed::new(&t, &[], &behind);
    let a = arena();
    let before = a.live_bytes;
    a.peak = before;
    unsafe { STACK_LOW = usize::MAX; }
    let mark = 0u8;
    let base = &mark as *const u8 as usize;
    let r = call("parse", || f::parse(p.text()))?;
    let peak = arena().peak - before;
    let depth_used = base.saturating_sub(unsafe { STACK_LOW });
    let limit = 1024 * t.len() as u64 + 65536;
    ck!(peak <= limit, "depth:memory", "parsing {} bytes needed {} bytes of memory at a time", t.len(), peak);
    ck!(depth_used <= 1 << 20, "depth:stack", "parsing {} bytes nested {} deep needed {} bytes of stack", t.len(), d, depth_used);
    let want = { let t = &t; aside(move || match parse_ref_limit(t, DEPTH) { Ok((m, depth, _)) => { m.unwind_drop(); Ok(depth) } Err(e) => Err(e) }) };
    ev("parsed", r.is_ok() as u64, matches!(want, Ok(_)) as u64);
    let too_deep = matches!(r, Err(Error::ExceededDepthLimit));
    let show = || { let n = t.len(); if n < 200 { t.clone() } else { format!("a text of {} bytes nesting {} containers around {:?}", n, d, inner) } };
    match &want {
        Ok(depth) => { count("within_limit"); ck!(!too_deep, "depth:refused", "{} stays within the limit ({} levels), but is refused for its depth", show(), depth); }
        Err(RefErr::Depth(_, legal)) => {
            count("beyond_limit");
            match &r {
                Err(Error::ExceededDepthLimit) => {}
                Err(Error::UnexpectedCharacter { .. }) if !legal => {}
                Err(e) => { viol("depth:wrong-error", format!("{} nests more than 512 containers, but the error is {:?}", show(), e)); return None; }
                Ok(_) => { viol("depth:accepted", format!("{} nests more than 512 containers, but is accepted", show())); return None; }
            }
        }
        Err(e) => ck!(!too_deep, "depth:refused", "{} is refused for its depth, but stops being JSON ({:?}) before that", show(), e),
    }
    let v = match r { Ok(v) => v, Err(_) => return Some(()) };
    // whatever was accepted can be used on this thread
    count("accepted_and_used");
    let c = call("clone", || f::clone_value(&v))?;
    let e = call("eq", || f::eq(&c, &v))?;
    ck!(e, "depth:copy", "a copy of {} is not equal to it", show());
    let dumped = call("dump", || f::dump(&c))?;
    let n = pick(S::Data, &[0u16, 1, 2, 4]);
    let pretty = call("pretty", || f::pretty(&v, n))?;
    let mut w = SimWriter::working();
    let r = call("write", || f::write(&v, &mut w))?;
    ck!(r.is_ok() && w.got == dumped.as_bytes(), "depth:stream", "{}: {:?}, {}", show(), r, crate::stream::diff_bytes(&w.got, dumped.as_bytes()));
    let mut w = SimWriter::new();
    let r = call("write_pretty", || f::write_pretty(&c, &mut w, n))?;
    ck!(r.is_ok() && w.got == pretty.as_bytes(), "depth:stream", "{}: {:?}, {}", show(), r, crate::stream::diff_bytes(&w.got, pretty.as_bytes()));
    call("drop", || f::drop_value(v))?;
    if ch(S::Ops, 2) == 1 { let s = call("display", || f::display(&c, false))?; ck!(s == dumped, "depth:stream", "{}: Display differs from dump", show()); }
    // what was accepted once is accepted again
    let r = call("parse", || f::parse(&dumped))?;
    match r { Ok(v) => { let same = call("eq", || f::eq(&v, &c))?; ck!(same, "depth:copy", "{}: printed and parsed again it is not equal", show()); call("drop", || f::drop_value(v))?; }
        Err(e) => { viol("depth:refused", format!("{} was accepted, but its compact form is refused: {:?}", show(), e)); return None; } }
    call("drop", || f::drop_value(c))?;
    Some(())
}
impl Mv {
    /// Drops a deep model without recursion.
    fn unwind_drop(self) {
        let mut q = vec![self];
        while let Some(x) = q.pop() { match x { Mv::Arr(a) => q.extend(a), Mv::Obj(o) => q.extend(o.into_iter().map(|e| e.1)), _ => {} } }
    }
}
