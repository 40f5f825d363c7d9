//! C04, C05, C06, C07: documents that were cut off, stored and crashed, or damaged.
use crate::model::*;
use crate::refjson::*;
use crate::rt::*;
use crate::stream::diff_bytes;
use crate::world::*;
use json::{Error, JsonValue};
use surface as f;

pub fn tree(keys: &Keys) -> Mv {
    match weighted(S::Data, &[10, 2]) {
        0 => gen_tree(S::Data, keys),
        _ => { let d = pick(S::Data, &[1u32, 2, 5, 20, 100, 127, 129, 255, 257, 400, 510, 511, 512]); gen_chain(S::Data, d, keys) }
    }
}
/// The text of a document: printed by the library, or spelled some other way.
pub fn text_of(keys: &Keys, m: &Mv) -> Option<String> {
    let _ = keys;
    let m = m.stored();
    match ch(S::Ops, 4) {
        0 => { let (v, _) = make(S::Data, &m)?; let t = match sut("dump", || f::dump(&v)) { Ok(t) => t, Err(_) => { count("setup_abandoned"); return None } }; Some(t.as_str().to_string()) }
        1 => { let (v, _) = make(S::Data, &m)?; let n = ch(S::Data, 5) as u16; let t = match sut("pretty", || f::pretty(&v, n)) { Ok(t) => t, Err(_) => { count("setup_abandoned"); return None } }; Some(t.as_str().to_string()) }
        _ => { let mut s = String::new(); spell(S::Data, &m, &mut s); Some(s) }
    }
}
fn show(t: &str) -> String { if t.len() <= 300 { format!("{:?}", t) } else { let mut e = 150; while !t.is_char_boundary(e) { e -= 1; } let mut b = t.len() - 100; while !t.is_char_boundary(b) { b += 1; } format!("{:?}...{:?} ({} bytes)", &t[..e], &t[b..], t.len()) } }

// ---------------------------------------------------------------- C04

pub fn c04() -> Option<()> {
    let keys = Keys::new(S::Data);
    let m = match weighted(S::Data, &[14, 4, 1]) {
        0 => { let m = tree(&keys); if matches!(m, Mv::Num(_)) { Mv::Arr(vec![m]) } else { m } }
        1 => Mv::Str(gen_string(S::Data)),
        _ => match ch(S::Data, 3) { 0 => Mv::Bool(true), 1 => Mv::Bool(false), _ => Mv::Null },
    };
    let m = m.stored();
    let mut t = text_of(&keys, &m)?;
    if chance(S::Data, 1, 3) { let mut w = String::new(); spell_ws(S::Data, &mut w, 4); t = w + &t; }
    let significant = t.trim_end_matches(|c: char| c.is_ascii() && is_ws(c as u8)).len();
    if chance(S::Data, 1, 3) { spell_ws(S::Data, &mut t, 4); }
    // the machinery's own reader must agree that this is a document
    match parse_ref(&t) { Ok((got, _)) if matches!(got, Mv::Num(_)) => return None, Ok(_) => {}, Err(_) => { count("setup_abandoned"); return None } }
    note(|| format!("document {} ({} significant bytes)", show(&t), significant));
    ev("document", t.len() as u64, significant as u64);
    let sweep = significant <= 400;
    let tries = if sweep { t.len() + 1 } else { range(S::Ops, 8, 40).min((3_000_000 / t.len() as u32).max(2)) as usize };
    // the way the message arrives: what lies behind the part that is there
    let behind_kind = ch(S::Fault, 4);
    let front = hostile(false);
    let fixed = hostile(true);
    for i in 0..tries {
        let mut cut = if sweep { i } else { match ch(S::Fault, 4) {
            0 => significant,
            1 => significant.saturating_sub(1 + ch(S::Fault, 6) as usize),
            _ => ch(S::Fault, t.len() as u32 + 1) as usize,
        } };
        while !t.is_char_boundary(cut) { cut -= 1; }
        let rest = &t.as_bytes()[cut..];
        let behind: Vec<u8> = match behind_kind {
            0 => vec![],
            1 => rest[..rest.len().min(64)].to_vec(),      // the rest of the very document
            2 => fixed.clone(),
            _ => hostile(true),
        };
        count("cuts"); if !behind.is_empty() { count("hostile_neighbours"); }
        let p = Placed::new(&t[..cut], &front, &behind);
        let r = call("parse", || f::parse(p.text()))?;
        ev("cut", cut as u64, r.is_ok() as u64);
        if cut < significant {
            match &r {
                Err(Error::UnexpectedEndOfJson) => {}
                Err(e) => { viol("cut:wrong-error", format!("{} cut after {} of {} bytes (behind the cut: {:?}): {:?} instead of unexpected end", show(&t), cut, significant, String::from_utf8_lossy(&behind), e)); return None; }
                Ok(v) => { viol("cut:accepted", format!("{} cut after {} of {} bytes (behind the cut: {:?}) was accepted as {}", show(&t), cut, significant, String::from_utf8_lossy(&behind), read(v).show())); return None; }
            }
        } else {
            match &r {
                Ok(_) => {}
                Err(e) => { viol("cut:complete-refused", format!("{}: all significant characters are there ({} of {} bytes), but parsing reports {:?}", show(&t), cut, t.len(), e)); return None; }
            }
        }
        let _ = sut("drop", || drop(r));
    }
    Some(())
}

// ---------------------------------------------------------------- C06 and C07

/// One stored document, possibly damaged, as text.
fn stored_text(keys: &Keys) -> Option<(String, Option<usize>)> {
    let m = match weighted(S::Data, &[8, 3]) { 0 => tree(keys), _ => { // numbers in all their forms
        let n = range(S::Data, 1, 6); Mv::Arr((0..n).map(|_| Mv::Num(gen_number(S::Data))).collect()) } };
    let mut t = match weighted(S::Data, &[8, 3, 2]) {
        0 => text_of(keys, &m)?,
        1 => odd_number(),
        _ => odd_text(keys),
    };
    if chance(S::Data, 1, 6) { let mut w = String::new(); spell_ws(S::Data, &mut w, 4); t = w + &t; spell_ws(S::Data, &mut t, 4); }
    if ch(S::Data, 40) == 39 { // a great many blanks, or lines
        let n = pick(S::Data, &[64usize, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 65534, 65535, 65536, 65537, 70000]);
        if room(n) {
            let c = pick(S::Data, &["\n", "\n", " ", "\t", "\r\n", " \n", "\u{b}"]);
            let mut p = if ch(S::Data, 2) == 0 { 0 } else { let from = ch(S::Data, t.len() as u32 + 1) as usize; t.as_bytes()[from..].iter().position(|b| b",:[]{}".contains(b)).map(|q| from + q + 1).unwrap_or(0) };
            while !t.is_char_boundary(p) { p -= 1; }
            t.insert_str(p, &c.repeat(n / c.len()));
        }
    }
    if ch(S::Fault, 6) == 5 { return Some((t, None)); } // intact
    let mut b = t.clone().into_bytes();
    let at = damage(&mut b);
    match String::from_utf8(b) {
        Ok(s) => Some((s, at)),
        Err(e) => {
            // no longer text: what a caller could still hand over is the valid part, or a lossy copy
            count("damage_not_text");
            if ch(S::Fault, 2) == 0 { let n = e.utf8_error().valid_up_to(); let mut b = e.into_bytes(); b.truncate(n); Some((String::from_utf8(b).unwrap(), at.map(|a| a.min(n)))) }
            else { Some((String::from_utf8_lossy(&e.into_bytes()).into_owned(), at)) }
        }
    }
}
/// Numbers with many digits, zeroes and signs, as other programs write them.
fn odd_number() -> String {
    let mut s = String::new();
    if ch(S::Data, 3) == 2 { s.push('['); }
    let open = !s.is_empty();
    if ch(S::Data, 3) == 2 { s.push('-'); }
    let digits = |s: &mut String, n: u32| { match ch(S::Data, 4) {
        0 => for _ in 0..n { s.push('0') },
        1 => for _ in 0..n { s.push('9') },
        2 => { for i in 0..n { s.push(if i + 1 == n { '1' } else { '0' }) } }
        _ => for _ in 0..n { s.push((b'0' + ch(S::Data, 10) as u8) as char) },
    } };
    if ch(S::Data, 3) == 0 { s.push('0') } else {
        match ch(S::Data, 3) {
            0 => s.push_str(pick(S::Data, &["18446744073709551615", "18446744073709551616", "1844674407370955161", "1844674407370955162", "576460752303423500", "5764607523034235", "9223372036854775808", "184467440737095516150", "57646075230342350", "57646075230342349", "576460752303423499", "5764607523034234999", "576460752303423487"])),
            _ => { s.push((b'1' + ch(S::Data, 9) as u8) as char); let n = pick(S::Data, &[0u32, 1, 2, 5, 15, 16, 17, 18, 19, 20, 21, 25, 30, 60]); digits(&mut s, n); }
        }
    }
    if ch(S::Data, 2) == 1 { s.push('.'); let n = pick(S::Data, &[1u32, 1, 2, 3, 10, 17, 18, 19, 20, 21, 30, 40, 350]); digits(&mut s, n); }
    if ch(S::Data, 2) == 1 { s.push(pick(S::Data, &['e', 'E'])); s.push_str(pick(S::Data, &["", "", "+", "-"])); s.push_str(pick(S::Data, &["0", "1", "5", "00", "007", "10", "20", "38", "99", "300", "400", "1000", "31000", "32767", "32768", "40000", "99999", "1000000", "99999999999", "0000000000000000000000001"])); }
    if ch(S::Data, 60) == 59 { // very long ones
        let n = pick(S::Data, &[1000usize, 20000, 32766, 32767, 32768, 32769, 40000, 70000]);
        s = match ch(S::Data, 3) { 0 => format!("0.{}1", "0".repeat(n)), 1 => format!("1{}", "0".repeat(n)), _ => format!("1{}.5{}e-{}", "7".repeat(n), "3".repeat(50), n) };
        if open { s.insert(0, '['); }
    }
    if open { s.push(']'); }
    s
}
fn odd_escape(s: &mut String) {
    match ch(S::Data, 6) {
        0 => s.push_str(pick(S::Data, &["\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "x", "é", "😀", "/", "\u{7f}", "plain text of some length ", " "])),
        1 => { s.push('\\'); s.push(char::from(b' ' + ch(S::Data, 95) as u8)); }
        2 => s.push(char::from(ch(S::Data, 36) as u8)),
        _ => {
            let hex = |s: &mut String, c: u32| {
                let mut h: Vec<u8> = match ch(S::Data, 3) { 0 => format!("{:04x}", c), 1 => format!("{:04X}", c), _ => format!("{:x}{:03X}", c >> 12, c & 0xfff) }.into_bytes();
                if ch(S::Data, 12) == 11 { let at = ch(S::Data, 4) as usize; h[at] = pick(S::Data, b"gG/:@`~ -+xX\"\\\x7f\x01_.,]}zZ"); }
                if ch(S::Data, 24) == 23 { h.pop(); }
                s.push_str("\\u"); s.push_str(std::str::from_utf8(&h).unwrap());
            };
            match ch(S::Data, 3) {
                0 => { let c = pick(S::Data, &[0u32, 1, 0x1f, 0x20, 0x22, 0x5c, 0x7f, 0x80, 0xff, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x2028, 0xfeff]); hex(s, c) }
                1 => { let c = ch(S::Data, 0x10000); hex(s, c) }
                _ => {
                    let a = match ch(S::Data, 6) { 0 => pick(S::Data, &[0xd7ffu32, 0xdc00, 0xdfff, 0xe000, 0xd800, 0xdbff]), 1 => 0xd800 | ch(S::Data, 0x800), _ => 0xd800 | ch(S::Data, 0x400) };
                    let b = match ch(S::Data, 6) { 0 => pick(S::Data, &[0xdbffu32, 0xdc00, 0xdfff, 0xe000, 0xd800, 0x41]), 1 => 0xd800 | ch(S::Data, 0x800), _ => 0xdc00 | ch(S::Data, 0x400) };
                    hex(s, a);
                    if ch(S::Data, 16) == 15 { s.push_str(pick(S::Data, &["x", " ", "\\n", "é", "u", "\\"])); }
                    hex(s, b);
                }
            }
        }
    }
}
/// Grammar fragments strung together.
fn odd_text(keys: &Keys) -> String {
    let mut s = String::new();
    let n = if ch(S::Data, 3) == 2 { range(S::Data, 1, 3) } else { range(S::Data, 1, 14) };
    for _ in 0..n {
        match ch(S::Data, 16) {
            14 => { // an object whose keys come back
                s.push('{');
                let few: Vec<String> = (0..range(S::Data, 1, 3)).map(|_| keys.any(S::Data).to_string()).collect();
                let n = range(S::Data, 1, 5);
                for i in 0..n {
                    if i > 0 { s.push(','); }
                    spell_str(S::Data, &few[ch(S::Data, few.len() as u32) as usize], &mut s);
                    s.push_str(pick(S::Data, &[":", ":", ":", ":", ":", ":", ": ", " :", "::", "", ",", ";"]));
                    s.push_str(pick(S::Data, &["1", "[]", "{}", "[1,[]]", "{\"a\":{}}", "null", "\"s\"", "-1.5e3", "{\"a\":1,\"a\":[2]}", "tru"]));
                }
                s.push('}');
            }
            15 => { // escapes, almost right
                s.push('"');
                for _ in 0..range(S::Data, 1, 4) { odd_escape(&mut s); }
                s.push('"');
            }
            0 => s.push('['), 1 => s.push(']'), 2 => s.push('{'), 3 => s.push('}'), 4 => s.push(','), 5 => s.push(':'),
            6 => { spell_str(S::Data, keys.any(S::Data), &mut s) }
            7 => s.push_str(pick(S::Data, &["true", "false", "null", "tru", "fals", "nul", "True", "nulL", "falsee", "truenull"])),
            8 => s.push_str(&odd_number()),
            9 => s.push_str(pick(S::Data, &[" ", "\n", "\t", "\r\n", "\u{b}", "\u{c}", "\u{a0}", "\u{2028}", "\u{feff}", "\u{85}", "\u{1680}", "\0"])),
            10 => s.push_str(pick(S::Data, &["[1,2]", "{\"a\":1}", "[]", "{}", "{\"a\":{\"a\":[]}}", "[1,", "{\"a\":", "{\"a\"", "[[", "\"", "{\"a\":1,", "{\"a\":1,\"a\":2}", "{\"b\":0,\"a\":1,\"b\":2}"])),
            11 => { let m = { let mut sh = Shape { depth: 2, width: 3, nan: false, budget: 6 }; gen_value(S::Data, keys, &mut sh, 0) }; spell(S::Data, &m, &mut s) }
            12 => s.push_str(pick(S::Data, &["\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"\\uD83D\"", "\"\\uDE00\"", "\"\\ud83d\\ud83d\"", "\"\\u12\"", "\"\\u12G4\"", "\"\\q\"", "\"\\ud83dx\"", "\"\\ud83d\\n\"", "\"\\uDBFF\\uDFFF\"", "\"\\uD800\\uDC00\"", "\"\\ud7ff\\ue000\"", "\"\\u0000\"", "\"\t\"", "\"\u{7f}\"", "\"é\\né\"", "\"\\ud800\\udbff\"", "\"\\uFFFF\\uFFFE\""])),
            _ => s.push_str(pick(S::Data, &["-", ".", "+1", "01", "1.", ".5", "1e", "-0", "--1", "1..2", "1e+", "é", "😀", "//c", "'a'", "NaN", "-Infinity", "0x10", "1_000", "]]", "}}", ",,", "\\", "1e5.5", "-a", "0e", "00", "-01", "1.e5"])),
        }
    }
    s
}

pub fn c06() -> Option<()> {
    let keys = Keys::new(S::Data);
    for _ in 0..range(S::Ops, 1, 4) {
        let (t, _) = stored_text(&keys)?;
        let t = maybe_deep(t);
        note(|| format!("text {}", show(&t)));
        let want = parse_ref_limit(&t, DEPTH);
        let p = Placed::new(&t, &hostile(false), &hostile(true));
        let r = call("parse", || f::parse(p.text()))?;
        ev("parsed", t.len() as u64, r.is_ok() as u64);
        judge(&t, want, &r)?;
        let _ = sut("drop", || drop(r));
    }
    Some(())
}
fn maybe_deep(t: String) -> String {
    match ch(S::Fault, 24) {
        23 => { // wrapped in many containers
            let n = pick(S::Fault, &[500usize, 509, 510, 511, 512, 513, 514, 600, 2000]);
            let mut s = String::new();
            let style = ch(S::Fault, 3);
            for i in 0..n { if style == 0 || (style == 2 && i % 2 == 0) { s.push('[') } else { s.push_str("{\"k\":") } }
            s.push_str(&t);
            for i in (0..n).rev() { if style == 0 || (style == 2 && i % 2 == 0) { s.push(']') } else { s.push('}') } }
            s
        }
        _ => t,
    }
}
pub fn judge(t: &str, want: Result<(Mv, usize, bool), RefErr>, r: &json::Result<JsonValue>) -> Option<()> {
    match (want, r) {
        (Ok((m, _, huge)), Ok(v)) => {
            if huge { return Some(()); }
            match sut("read", || differs(v, &m, Num::Text)) {
                Ok(None) => { count("accepted"); }
                Ok(Some(d)) => { viol("damage:content", format!("{} was read wrongly: {}", show(t), d)); return None; }
                Err(p) => { viol("panic:read", format!("{}: reading the result panicked: {}", show(t), p.msg)); return None; }
            }
        }
        (Ok((_, _, huge)), Err(e)) => {
            if huge && matches!(e, Error::ExceededDepthLimit) { return Some(()); }
            viol("damage:refused", format!("{} is a document, but parsing reports {:?}", show(t), e)); return None;
        }
        (Err(w), Ok(v)) => { viol("damage:accepted", format!("{} is no document ({:?}), but was accepted as {}", show(t), w, read(v).show())); return None; }
        (Err(_), Err(_)) => { count("refused"); }
    }
    Some(())
}

pub fn c07() -> Option<()> {
    let keys = Keys::new(S::Data);
    for _ in 0..range(S::Ops, 1, 4) {
        let (mut t, mut at) = stored_text(&keys)?;
        if chance(S::Data, 1, 4) { // documents of several lines
            let pre = pick(S::Data, &["\n", "\r\n", " \n \n", "\n\n\n", "[\n\n", "[\"é\",\n", "{\n\"é€😀\" :\n", "\r", "[\"\u{2028}\",", "[\n\"a\",\r\n"]);
            t.insert_str(0, pre); at = at.map(|a| a + pre.len());
        }
        note(|| format!("text {}", show(&t)));
        let want = parse_ref_limit(&t, DEPTH);
        let p = Placed::new(&t, &hostile(false), &hostile(true));
        let r = call("parse", || f::parse(p.text()))?;
        ev("parsed", t.len() as u64, r.is_ok() as u64);
        judge_place(&t, want, &r, at)?;
        let _ = sut("drop", || drop(r));
    }
    Some(())
}
fn long_digits(t: &str) -> bool {
    let mut n = 0;
    t.bytes().any(|b| { if b.is_ascii_digit() { n += 1; } else { n = 0; } n > 32700 })
}
fn judge_place(t: &str, want: Result<(Mv, usize, bool), RefErr>, r: &json::Result<JsonValue>, at: Option<usize>) -> Option<()> {
    let _ = at;
    let got = match r { Err(Error::UnexpectedCharacter { ch, line, column }) => Some((*ch, *line, *column)), _ => None };
    match want {
        Err(RefErr::Unexpected(p)) => {
            let c = t[p..].chars().next().unwrap();
            let (l, k) = line_col(t, p);
            match got {
                Some(g) => { count("places_checked"); ck!(g == (c, l, k), "place:wrong", "{} stops being JSON at {:?} ({}:{}), the error says {:?} ({}:{})", show(t), c, l, k, g.0, g.1, g.2); }
                None => match r {
                    Ok(_) => {} // whether it should be refused is not what this check decides
                    // integers beyond the range of exponents
                    Err(Error::ExceededDepthLimit) if long_digits(t) => {}
                    Err(e) => { viol("place:kind", format!("{} stops being JSON at {:?} ({}:{}), but the error is {:?}", show(t), c, l, k, e)); return None; }
                },
            }
        }
        Err(RefErr::Eof) => if let Some(g) = got { viol("place:early", format!("{} could still become a document, but the error says {:?} at ({}:{})", show(t), g.0, g.1, g.2)); return None; },
        Err(RefErr::Surrogate(p)) => if let Some(g) = got {
            let o = offset_of(t, g.1, g.2);
            ck!(o.map(|o| o >= p && t[o..].starts_with(g.0)).unwrap_or(false), "place:early", "{}: the error says {:?} at ({}:{}), in front of the damage or not there at all", show(t), g.0, g.1, g.2);
        },
        Err(RefErr::Depth(p, legal)) => if let Some(g) = got {
            let o = offset_of(t, g.1, g.2);
            ck!(!legal && o == Some(p), "place:early", "{}: nested too deeply, but the error says {:?} at ({}:{})", show(t), g.0, g.1, g.2);
        },
        Ok(_) => if let Some(g) = got { viol("place:early", format!("{} is a document, but the error says {:?} at ({}:{})", show(t), g.0, g.1, g.2)); return None; },
    }
    Some(())
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Dump, Write, Pretty(u16), WritePretty(u16), Stringify }

fn serialise(v: &JsonValue, how: How) -> Option<Vec<u8>> {
    Some(match how {
        How::Dump => call("dump", || f::dump(v))?.as_bytes().to_vec(),
        How::Stringify => call("stringify", || f::stringify(v.clone()))?.as_bytes().to_vec(),
        How::Pretty(n) => call("pretty", || f::pretty(v, n))?.as_bytes().to_vec(),
        How::Write | How::WritePretty(_) => {
            let mut w = SimWriter::working();
            let r = match how { How::Write => call("write", || f::write(v, &mut w))?, How::WritePretty(n) => call("write_pretty", || f::write_pretty(v, &mut w, n))?, _ => unreachable!() };
            if r.is_err() { viol("store:error", format!("serialising reports {:?}", r)); return None; }
            w.got
        }
    })
}
/// A record to be stored: what the client put in, and what it must read back.
fn record(keys: &Keys) -> Option<(JsonValue, Mv, Vec<Native>)> {
    match weighted(S::Data, &[6, 3, 4, 3]) {
        0 => { let m = tree(keys); let (v, m) = make(S::Data, &m)?; Some((v, m.stored(), vec![])) }
        1 => { // numbers of every size
            let n = range(S::Data, 1, 5);
            let m = Mv::Arr((0..n).map(|_| { let (p, a, e) = gen_parts(S::Data); Mv::Num(N::parts(p, a, e as i64)) }).collect());
            // built from parts directly, so that no exponent is out of reach
            let (v, m) = { let v = { let _i = In::new(); let mut a = JsonValue::new_array(); if let Mv::Arr(xs) = &m { for x in xs { if let Mv::Num(n) = x {
                let y = if n.exp > 32767 || n.exp < -32768 || !n.fits64() { JsonValue::from(0u8) } else { JsonValue::Number(number_of(n)) };
                let _ = f::push(&mut a, y); } } } a }; let m = read(&v); (v, m) };
            Some((v, m.stored(), vec![]))
        }
        2 => { // native integers and floats
            let n = range(S::Data, 1, 6);
            let mut vs = vec![]; let mut nat = vec![];
            for _ in 0..n { let x = native(); let y = call("from_native", || x.value())?; nat.push(x); vs.push(y); }
            let v = call("from_vec", || f::from_vec(vs))?;
            let m = read(&v);
            // integers must already be what was put in
            if let Mv::Arr(a) = &m { for (i, x) in nat.iter().enumerate() { x.check(v.members().nth(i).unwrap(), &a[i], "before it was stored")?; } }
            Some((v, m.stored(), nat))
        }
        _ => { // strings of every kind
            let n = range(S::Data, 1, 6);
            let m = Mv::Arr((0..n).map(|_| Mv::Str(gen_string(S::Data))).collect());
            let (v, m) = make(S::Data, &m)?;
            Some((v, m, vec![]))
        }
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Native { I8(i8), I16(i16), I32(i32), I64(i64), Isize(isize), U8(u8), U16(u16), U32(u32), U64(u64), Usize(usize), F32(f32), F64(f64), Bool(bool) }
fn native() -> Native {
    let b = bits64(S::Data);
    let edge = ch(S::Data, 5);
    macro_rules! i { ($v:ident $t:ty) => { Native::$v(match edge { 0 => <$t>::MIN, 1 => <$t>::MAX, 2 => (<$t>::MIN).wrapping_add((b % 3) as $t), 3 => (b % 7) as $t, _ => b as $t }) } }
    // floats below the normal range, and with few digits
    let tiny = ch(S::Data, 4) == 3;
    match ch(S::Data, 16) {
        10 | 11 if tiny => Native::F32(match edge { 0 => f32::from_bits(b as u32 & 0x807fffff), 1 => f32::from_bits(b as u32 & 0x81ffffff), 2 => f32::from_bits((b as u32 & 0x7fffff) >> (b >> 40) % 23), 3 => format!("{}e-{}", b % 10000, 30 + (b >> 40) % 15).parse().unwrap(), _ => format!("{}e{}", b % 10000, 20 + (b >> 40) % 15).parse().unwrap() }),
        12 | 13 | 14 if tiny => Native::F64(match edge { 0 => f64::from_bits(b & 0x800fffffffffffff), 1 => f64::from_bits(b & 0x803fffffffffffff), 2 => f64::from_bits((b & 0xfffffffffffff) >> ((b >> 56) % 52)), 3 => format!("{}e-{}", b % 10000, 290 + (b >> 40) % 35).parse().unwrap(), _ => format!("{}e{}", b % 100000, (b >> 40) % 300).parse().unwrap() }),
        0 => i!(I8 i8), 1 => i!(I16 i16), 2 => i!(I32 i32), 3 => i!(I64 i64), 4 => i!(Isize isize),
        5 => i!(U8 u8), 6 => i!(U16 u16), 7 => i!(U32 u32), 8 => i!(U64 u64), 9 => i!(Usize usize),
        10 | 11 => Native::F32(match edge { 0 => f32::from_bits(b as u32), 1 => pick(S::Data, &[0.0, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1e-45, 0.1, 16777216.0]), 2 => (b as i16) as f32 / 100.0, 3 => (b % 1000) as f32, _ => f32::from_bits((b as u32 & 0x807fffff) | ((100 + (b >> 40) as u32 % 60) << 23)) }),
        12 | 13 | 14 => Native::F64(match edge { 0 => f64::from_bits(b), 1 => pick(S::Data, &[0.0, -0.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324, 0.1, 0.3, 9007199254740993.0, 1e22, 1e23, 1.7976931348623157e308, 2.2250738585072011e-308, 123456789012345680.0, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 4.35, 2.5e-15]), 2 => (b as i32) as f64 / 100.0, 3 => (b >> 12) as f64 / 1e6, _ => f64::from_bits((b & 0x800fffffffffffff) | ((960 + (b >> 52) % 120) << 52)) }),
        _ => Native::Bool(b & 1 == 1),
    }
}
impl Native {
    fn value(&self) -> JsonValue {
        match *self {
            Native::I8(x) => f::from_i8(x), Native::I16(x) => f::from_i16(x), Native::I32(x) => f::from_i32(x), Native::I64(x) => f::from_i64(x), Native::Isize(x) => f::from_isize(x),
            Native::U8(x) => f::from_u8(x), Native::U16(x) => f::from_u16(x), Native::U32(x) => f::from_u32(x), Native::U64(x) => f::from_u64(x), Native::Usize(x) => f::from_usize(x),
            Native::F32(x) => f::from_f32(x), Native::F64(x) => f::from_f64(x), Native::Bool(x) => f::from_bool(x),
        }
    }
    fn int(&self) -> Option<i128> {
        Some(match *self {
            Native::I8(x) => x as i128, Native::I16(x) => x as i128, Native::I32(x) => x as i128, Native::I64(x) => x as i128, Native::Isize(x) => x as i128,
            Native::U8(x) => x as i128, Native::U16(x) => x as i128, Native::U32(x) => x as i128, Native::U64(x) => x as i128, Native::Usize(x) => x as i128,
            _ => return None,
        })
    }
    /// Is this what the client put in?
    fn check(&self, v: &JsonValue, m: &Mv, when: &str) -> Option<()> {
        if let Some(i) = self.int() {
            let n = match m { Mv::Num(n) => n.clone(), _ => { viol("native:kind", format!("{:?} is {} {}", self, kind_of(v), when)); return None } };
            ck!(n == N::int(i), "native:integer", "{:?} is {} {}", self, m.show(), when);
            let lim: [(i128, i128); 10] = [(-128, 127), (-32768, 32767), (-(1 << 31), (1 << 31) - 1), (-(1 << 63), (1 << 63) - 1), (-(1 << 63), (1 << 63) - 1), (0, 255), (0, 65535), (0, (1 << 32) - 1), (0, (1 << 64) - 1), (0, (1 << 64) - 1)];
            let a = call("accessors", || f::all_ints(v))?;
            let num = v.as_number().unwrap();
            let b = call("try_from", || f::all_tryfrom(num))?;
            for k in 0..10 {
                let want = if i >= lim[k].0 && i <= lim[k].1 { Some(i) } else { None };
                ck!(a[k] == want, "native:accessor", "{:?} {}: accessor {} gives {:?}", self, when, ["as_i8", "as_i16", "as_i32", "as_i64", "as_isize", "as_u8", "as_u16", "as_u32", "as_u64", "as_usize"][k], a[k]);
                ck!(b[k] == want, "native:tryfrom", "{:?} {}: TryFrom for {} gives {:?}", self, when, ["i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"][k], b[k]);
            }
            return Some(());
        }
        match *self {
            Native::Bool(b) => ck!(v.as_bool() == Some(b), "native:bool", "{:?} is {} {}", self, m.show(), when),
            Native::F32(x) => return float(x as f64, Some(x), v, m, when),
            Native::F64(x) => return float(x, None, v, m, when),
            _ => {}
        }
        Some(())
    }
}
fn float(x: f64, narrow: Option<f32>, v: &JsonValue, m: &Mv, when: &str) -> Option<()> {
    if !x.is_finite() {
        let ints = call("accessors", || f::all_ints(v))?;
        ck!(ints.iter().all(|i| i.is_none()), "native:accessor", "{} {}: an integer accessor gives a number: {:?}", x, when, ints);
        match m { Mv::Null => {}, Mv::Num(n) if n.nan => {}, _ => { viol("float:non-finite", format!("{} is {} {}", x, m.show(), when)); return None } }
        return Some(());
    }
    let n = match m { Mv::Num(n) if !n.nan => n, _ => { viol("float:kind", format!("{:?} is {} {}", x, m.show(), when)); return None } };
    let t = format!("{}{}e{}", if n.neg { "-" } else { "" }, if n.digits.is_empty() { "0" } else { std::str::from_utf8(&n.digits).unwrap() }, n.exp);
    match narrow {
        None => { let y: f64 = t.parse().unwrap(); ck!(y == x, "float:decimal", "the float {:?} is the decimal {} {}, which is {:?}", x, t, when, y); }
        Some(z) => { let y: f32 = t.parse().unwrap(); let w: f64 = t.parse().unwrap(); ck!(y == z || w as f32 == z, "float:decimal", "the float {:?} is the decimal {} {}, which is {:?}", z, t, when, y); }
    }
    Some(())
}

pub fn c05() -> Option<()> {
    let keys = Keys::new(S::Data);
    if ch(S::Ops, 4) == 3 { return snapshot(&keys); }
    // a journal of compact documents, one per line
    let mut disk = SimDisk::new();
    let mut acked: Vec<(Vec<u8>, Mv, Vec<Native>)> = vec![]; // durable
    let mut pending: Vec<(Vec<u8>, Mv, Vec<Native>)> = vec![];
    for _epoch in 0..range(S::Ops, 1, 3) {
        for _ in 0..range(S::Ops, 1, 6) {
            match weighted(S::Ops, &[6, 2]) {
                0 => {
                    let (v, m, nat) = record(&keys)?;
                    let how = match ch(S::Ops, 3) { 0 => How::Dump, 1 => How::Write, _ => How::Stringify };
                    note(|| format!("append {} by {:?}", m.show(), how));
                    let b = serialise(&v, how)?;
                    obs_bytes(&b);
                    ck!(!b.contains(&b'\n') && !b.contains(&b'\r'), "store:line-break", "a compact document contains a raw line break: {:?}", String::from_utf8_lossy(&b));
                    disk.append(&b); disk.append(b"\n");
                    pending.push((b, m, nat));
                    let _ = sut("drop", || f::drop_value(v));
                }
                _ => { disk.sync(); note(|| "sync".into()); acked.append(&mut pending); }
            }
        }
        disk.crash();
        note(|| format!("crash: {} records durable, {} not; {} bytes left", acked.len(), pending.len(), disk.data.len()));
        // recovery
        let bytes = disk.data.clone();
        let mut pos = 0;
        let mut good = 0; // bytes of records that are kept
        let mut i = 0;
        while pos < bytes.len() {
            let nl = bytes[pos..].iter().position(|b| *b == b'\n');
            let line = match nl { Some(n) => &bytes[pos..pos + n], None => &bytes[pos..] };
            let rec = if i < acked.len() { Some(&acked[i]) } else { pending.get(i - acked.len()) };
            let durable = i < acked.len();
            let text = match std::str::from_utf8(line) { Ok(t) => t, Err(_) => { ck!(!durable, "harness:journal", "durable bytes lost"); break } };
            let p = Placed::new(text, b"\n", bytes.get(pos + line.len()..(pos + line.len() + 40).min(bytes.len())).unwrap_or(&[]));
            let r = call("parse", || f::parse(p.text()))?;
            ev("recover", i as u64, r.is_ok() as u64);
            let intact = rec.map(|r| r.0 == line).unwrap_or(false);
            if intact {
                let (_, m, nat) = rec.unwrap();
                let v = match &r { Ok(v) => v, Err(e) => { viol("store:unreadable", format!("{} was stored as {} and cannot be read back: {:?}", m.show(), show(text), e)); return None } };
                match sut("read", || differs(v, m, Num::Exact)) {
                    Ok(None) => {}
                    Ok(Some(d)) => { viol("store:content", format!("{} was stored as {} and reads back differently: {}", m.show(), show(text), d)); return None }
                    Err(p) => { viol("panic:read", p.msg); return None }
                }
                for (k, x) in nat.iter().enumerate() { let y = v.members().nth(k).unwrap(); x.check(y, &read(y), "after it was read back")?; }
                count("records_recovered");
            } else {
                ck!(!durable, "harness:journal", "durable bytes lost");
                // a torn record: a strict prefix of a container must be detected
                if let Some(rec) = rec {
                    if rec.0.starts_with(line) && matches!(rec.1, Mv::Arr(_) | Mv::Obj(_) | Mv::Str(_)) {
                        count("torn_records");
                        ck!(matches!(r, Err(Error::UnexpectedEndOfJson)), "store:torn", "a torn record {} is not reported as incomplete: {:?}", show(text), r.as_ref().map(|v| read(v).show()));
                    }
                }
                break;
            }
            let _ = sut("drop", || drop(r));
            if nl.is_none() { break; }
            pos += line.len() + 1;
            good = pos;
            i += 1;
        }
        ck!(i >= acked.len(), "harness:journal", "durable bytes lost");
        // the log goes on behind the last good record
        for r in pending.drain(..).take(i - acked.len()).collect::<Vec<_>>() { acked.push(r); }
        disk.data.truncate(good);
        disk.durable = good;
    }
    Some(())
}
/// Whole documents (pretty, streamed or not) written and replaced.
fn snapshot(keys: &Keys) -> Option<()> {
    for _ in 0..range(S::Ops, 1, 3) {
        let (v, m, nat) = record(keys)?;
        let n = crate::stream::spaces(&[&m]);
        let how = match ch(S::Ops, 4) { 0 => How::Pretty(n), 1 => How::WritePretty(n), 2 => How::Dump, _ => How::Write };
        note(|| format!("store {} by {:?}", m.show(), how));
        let b = serialise(&v, how)?;
        obs_bytes(&b);
        let mut disk = SimDisk::new();
        disk.append(&b);
        let durable = ch(S::Ops, 4) != 3;
        if durable { disk.sync(); }
        disk.crash();
        let text = match std::str::from_utf8(&disk.data) { Ok(t) => t, Err(_) if durable => { viol("store:not-text", format!("{} was stored as bytes that are no text: {:?}", m.show(), String::from_utf8_lossy(&b))); return None } Err(_) => continue };
        let p = Placed::new(text, &hostile(false), &hostile(true));
        let r = call("parse", || f::parse(p.text()))?;
        if disk.data == b {
            let back = match &r { Ok(v) => v, Err(e) => { viol("store:unreadable", format!("{} was stored as {} and cannot be read back: {:?}", m.show(), show(text), e)); return None } };
            match sut("read", || differs(back, &m, Num::Exact)) {
                Ok(None) => {}
                Ok(Some(d)) => { viol("store:content", format!("{} was stored as {} and reads back differently: {}", m.show(), show(text), d)); return None }
                Err(p) => { viol("panic:read", p.msg); return None }
            }
            for (k, x) in nat.iter().enumerate() { let y = back.members().nth(k).unwrap(); x.check(y, &read(y), "after it was read back")?; }
            // what was read back is stored again as the same bytes or at least the same content
            let b2 = serialise(back, how)?;
            let t2 = String::from_utf8_lossy(&b2).into_owned();
            let again = call("parse", || f::parse(&t2))?;
            match &again { Ok(v2) => if let Some(d) = differs(v2, &m, Num::Exact) { viol("store:second", format!("stored a second time, {} reads back differently: {} ({})", m.show(), d, diff_bytes(&b2, &b))); return None },
                Err(e) => { viol("store:second", format!("stored a second time, {} cannot be read back: {:?}", m.show(), e)); return None } }
            count("snapshots_recovered");
        } else if b.starts_with(&disk.data) && !disk.data.is_empty() && matches!(m, Mv::Arr(_) | Mv::Obj(_) | Mv::Str(_)) {
            count("torn_records");
            ck!(matches!(r, Err(Error::UnexpectedEndOfJson)), "store:torn", "a torn document {} is not reported as incomplete", show(text));
        }
        let _ = sut("drop", || { drop(r); f::drop_value(v) });
    }
    Some(())
}
