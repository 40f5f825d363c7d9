//! An independent JSON reader (with error kind and place), printer and speller.
use crate::model::*;
use crate::rt::*;

pub const DEPTH: usize = 512;

#[derive(Clone, Debug, PartialEq)]
pub enum RefErr {
    /// the text can still become a document
    Eof,
    /// byte offset of the first character that makes it impossible
    Unexpected(usize),
    /// nested too deeply; byte offset of the character that makes it so.  The flag tells
    /// whether that character would be legal otherwise.
    Depth(usize, bool),
    /// an escape that is no half of a surrogate pair, first impossible at this offset or later
    Surrogate(usize),
}

pub struct Ref<'a> { b: &'a [u8], i: usize, pub max_depth: usize, pub huge_int: bool, dlimit: usize }

pub fn is_ws(c: u8) -> bool { (9..=13).contains(&c) || c == 32 }

pub fn parse_ref(t: &str) -> Result<(Mv, usize), RefErr> { parse_ref_limit(t, DEPTH).map(|(m, d, _)| (m, d)) }

pub fn parse_ref_limit(t: &str, dlimit: usize) -> Result<(Mv, usize, bool), RefErr> {
    let mut r = Ref { b: t.as_bytes(), i: 0, max_depth: 0, huge_int: false, dlimit };
    // open containers: (array or object under construction, current key)
    enum Open { A(Vec<Mv>), O(Vec<(String, Mv)>, String) }
    let mut stack: Vec<Open> = vec![];
    r.ws();
    let mut c = r.need()?;
    loop {
        // `c` starts a value at r.i
        let mut v = match c {
            b'[' => {
                r.i += 1; r.ws();
                let d = r.need()?;
                if d == b']' { r.i += 1; Mv::Arr(vec![]) }
                else {
                    if stack.len() == r.dlimit { return Err(RefErr::Depth(r.i, b"[{\"-0123456789tfn".contains(&d))); }
                    stack.push(Open::A(vec![])); r.max_depth = r.max_depth.max(stack.len());
                    c = d; continue;
                }
            }
            b'{' => {
                r.i += 1; r.ws();
                let d = r.need()?;
                if d == b'}' { r.i += 1; Mv::Obj(vec![]) }
                else {
                    if stack.len() == r.dlimit { return Err(RefErr::Depth(r.i, d == b'"')); }
                    if d != b'"' { return Err(RefErr::Unexpected(r.i)); }
                    let k = r.string()?;
                    r.ws(); if r.need()? != b':' { return Err(RefErr::Unexpected(r.i)); } r.i += 1;
                    stack.push(Open::O(vec![], k)); r.max_depth = r.max_depth.max(stack.len());
                    r.ws(); c = r.need()?; continue;
                }
            }
            b'"' => Mv::Str(r.string()?),
            b'-' | b'0'..=b'9' => Mv::Num(r.number()?),
            b't' => { r.word(b"true")?; Mv::Bool(true) }
            b'f' => { r.word(b"false")?; Mv::Bool(false) }
            b'n' => { r.word(b"null")?; Mv::Null }
            _ => return Err(RefErr::Unexpected(r.i)),
        };
        // close as many containers as end here
        loop {
            match stack.pop() {
                None => {
                    r.ws();
                    if r.i < r.b.len() { return Err(RefErr::Unexpected(r.i)); }
                    let h = r.huge_int;
                    return Ok((v, r.max_depth, h));
                }
                Some(Open::A(mut a)) => {
                    a.push(v);
                    r.ws();
                    match r.need()? {
                        b',' => { r.i += 1; r.ws(); c = r.need()?; stack.push(Open::A(a)); break; }
                        b']' => { r.i += 1; v = Mv::Arr(a); }
                        _ => return Err(RefErr::Unexpected(r.i)),
                    }
                }
                Some(Open::O(mut o, k)) => {
                    obj_set(&mut o, &k, v);
                    r.ws();
                    match r.need()? {
                        b',' => {
                            r.i += 1; r.ws();
                            if r.need()? != b'"' { return Err(RefErr::Unexpected(r.i)); }
                            let k = r.string()?;
                            r.ws(); if r.need()? != b':' { return Err(RefErr::Unexpected(r.i)); } r.i += 1;
                            r.ws(); c = r.need()?; stack.push(Open::O(o, k)); break;
                        }
                        b'}' => { r.i += 1; v = Mv::Obj(o); }
                        _ => return Err(RefErr::Unexpected(r.i)),
                    }
                }
            }
        }
    }
}

impl<'a> Ref<'a> {
    fn ws(&mut self) { while self.i < self.b.len() && is_ws(self.b[self.i]) { self.i += 1; } }
    fn need(&self) -> Result<u8, RefErr> { self.b.get(self.i).copied().ok_or(RefErr::Eof) }
    fn word(&mut self, w: &[u8]) -> Result<(), RefErr> {
        for x in w { if self.need()? != *x { return Err(RefErr::Unexpected(self.i)); } self.i += 1; }
        Ok(())
    }
    fn hex4(&mut self) -> Result<u32, RefErr> {
        let mut v = 0;
        for _ in 0..4 {
            let c = self.need()?;
            v = v * 16 + (c as char).to_digit(16).ok_or(RefErr::Unexpected(self.i))?;
            self.i += 1;
        }
        Ok(v)
    }
    fn string(&mut self) -> Result<String, RefErr> {
        self.i += 1;
        let mut out: Vec<u8> = vec![];
        loop {
            let c = self.need()?;
            match c {
                b'"' => { self.i += 1; return Ok(String::from_utf8(out).expect("slices of text")); }
                0..=31 => return Err(RefErr::Unexpected(self.i)),
                b'\\' => {
                    let esc = self.i;
                    self.i += 1;
                    let e = self.need()?;
                    let at = self.i;
                    self.i += 1;
                    match e {
                        b'"' | b'\\' | b'/' => out.push(e),
                        b'b' => out.push(8), b'f' => out.push(12), b'n' => out.push(10), b'r' => out.push(13), b't' => out.push(9),
                        b'u' => {
                            let a = self.hex4()?;
                            let cp = if (0xD800..0xDC00).contains(&a) {
                                if self.need()? != b'\\' { return Err(RefErr::Surrogate(self.i)); } self.i += 1;
                                if self.need()? != b'u' { return Err(RefErr::Surrogate(self.i)); } self.i += 1;
                                let from = self.i;
                                let b = match self.hex4() { Ok(b) => b, Err(RefErr::Eof) => {
                                    // what is there may already rule out a low half
                                    let t = &self.b[from..];
                                    let dead = (t.len() >= 1 && !matches!(t[0], b'd' | b'D')) || (t.len() >= 2 && !matches!(t[1], b'c'..=b'f' | b'C'..=b'F'));
                                    return Err(if dead { RefErr::Surrogate(from) } else { RefErr::Eof });
                                } Err(RefErr::Unexpected(p)) => {
                                    let t = &self.b[from..p];
                                    let dead = (t.len() >= 1 && !matches!(t[0], b'd' | b'D')) || (t.len() >= 2 && !matches!(t[1], b'c'..=b'f' | b'C'..=b'F'));
                                    return Err(if dead { RefErr::Surrogate(from) } else { RefErr::Unexpected(p) });
                                } Err(e) => return Err(e) };
                                if !(0xDC00..0xE000).contains(&b) { return Err(RefErr::Surrogate(from)); }
                                0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00)
                            } else if (0xDC00..0xE000).contains(&a) { return Err(RefErr::Surrogate(esc)); } else { a };
                            let mut buf = [0; 4];
                            out.extend_from_slice(char::from_u32(cp).unwrap().encode_utf8(&mut buf).as_bytes());
                        }
                        _ => return Err(RefErr::Unexpected(at)),
                    }
                }
                _ => { out.push(c); self.i += 1; }
            }
        }
    }
    fn number(&mut self) -> Result<N, RefErr> {
        let neg = self.b[self.i] == b'-';
        if neg { self.i += 1; }
        let mut digits: Vec<u8> = vec![];
        let c = self.need()?;
        match c {
            b'0' => { self.i += 1; digits.push(b'0'); }
            b'1'..=b'9' => while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { digits.push(self.b[self.i]); self.i += 1; },
            _ => return Err(RefErr::Unexpected(self.i)),
        }
        if digits.len() > 32700 { self.huge_int = true; }
        let mut exp: i64 = 0;
        if self.b.get(self.i) == Some(&b'.') {
            self.i += 1;
            if !self.need()?.is_ascii_digit() { return Err(RefErr::Unexpected(self.i)); }
            while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { digits.push(self.b[self.i]); exp -= 1; self.i += 1; }
        }
        if matches!(self.b.get(self.i), Some(&b'e') | Some(&b'E')) {
            self.i += 1;
            let mut s = 1;
            match self.need()? { b'-' => { s = -1; self.i += 1; } b'+' => self.i += 1, _ => {} }
            if !self.need()?.is_ascii_digit() { return Err(RefErr::Unexpected(self.i)); }
            let mut x: i64 = 0;
            while self.i < self.b.len() && self.b[self.i].is_ascii_digit() { x = (x * 10 + (self.b[self.i] - b'0') as i64).min(1 << 40); self.i += 1; }
            exp += s * x;
        }
        Ok(N::norm(neg, &digits, exp))
    }
}

/// Line and column (1-based, in characters) of a byte offset.
pub fn line_col(t: &str, at: usize) -> (usize, usize) {
    let before = &t[..at];
    let line = before.bytes().filter(|b| *b == b'\n').count() + 1;
    let start = before.rfind('\n').map(|x| x + 1).unwrap_or(0);
    (line, before[start..].chars().count() + 1)
}
/// The byte offset of a line and column, if there is such a character.
pub fn offset_of(t: &str, line: usize, col: usize) -> Option<usize> {
    let mut start = 0;
    for _ in 1..line { start += t[start..].find('\n')? + 1; }
    if col == 0 { return None; }
    t[start..].char_indices().nth(col - 1).map(|(i, _)| start + i)
}

// ---------------------------------------------------------------- printing

pub fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""), '\\' => out.push_str("\\\\"),
            '\u{8}' => out.push_str("\\b"), '\u{c}' => out.push_str("\\f"), '\n' => out.push_str("\\n"), '\r' => out.push_str("\\r"), '\t' => out.push_str("\\t"),
            c if (c as u32) < 32 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Another spelling of the same document: white space, escapes and number forms vary.
pub fn spell(s: S, m: &Mv, out: &mut String) {
    let style = ch(s, 5); // 0 plain, 1.. with white space
    spell_at(s, m, out, style);
}
pub fn spell_ws(s: S, out: &mut String, style: u32) {
    if style == 0 { return; }
    if style < 3 && ch(s, 4) != 0 { return; }
    for _ in 0..ch(s, 4) {
        out.push(pick(s, &[' ', '\n', '\t', '\r', ' ', '\u{b}', '\u{c}']));
    }
}
fn spell_at(s: S, m: &Mv, out: &mut String, st: u32) {
    match m {
        Mv::Null => out.push_str("null"),
        Mv::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Mv::Num(n) => spell_num(s, n, out),
        Mv::Str(t) => spell_str(s, t, out),
        Mv::Arr(a) => {
            out.push('['); spell_ws(s, out, st);
            for (i, x) in a.iter().enumerate() { if i > 0 { out.push(','); spell_ws(s, out, st); } spell_at(s, x, out, st); spell_ws(s, out, st); }
            out.push(']');
        }
        Mv::Obj(o) => {
            out.push('{'); spell_ws(s, out, st);
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 { out.push(','); spell_ws(s, out, st); }
                spell_str(s, k, out); spell_ws(s, out, st); out.push(':'); spell_ws(s, out, st);
                spell_at(s, x, out, st); spell_ws(s, out, st);
            }
            out.push('}');
        }
    }
}
pub fn spell_str(s: S, t: &str, out: &mut String) {
    if chance(s, 2, 3) { return esc(t, out); }
    let dense = ch(s, 3);
    out.push('"');
    for c in t.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 32;
        if must || (dense == 2 && ch(s, 2) == 1) || (dense == 1 && ch(s, 10) == 9) {
            match (c, ch(s, 3)) {
                ('"', 0) => out.push_str("\\\""), ('\\', 0) => out.push_str("\\\\"), ('/', 0) => out.push_str("\\/"),
                ('\u{8}', 0) => out.push_str("\\b"), ('\u{c}', 0) => out.push_str("\\f"), ('\n', 0) => out.push_str("\\n"), ('\r', 0) => out.push_str("\\r"), ('\t', 0) => out.push_str("\\t"),
                (c, w) => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) { if w == 2 { out.push_str(&format!("\\u{:04X}", u)) } else { out.push_str(&format!("\\u{:04x}", u)) } }
                }
            }
        } else { out.push(c) }
    }
    out.push('"');
}
pub fn spell_num(s: S, n: &N, out: &mut String) {
    if n.nan { return out.push_str("null"); }
    if n.neg { out.push('-'); }
    let mut d = String::from_utf8_lossy(&n.digits).into_owned();
    let mut e = n.exp;
    if d.is_empty() { d.push('0'); if e != 0 { e = 0; } }
    let zero = n.digits.is_empty();
    // optional trailing zeroes
    if !zero && chance(s, 1, 3) { let k = ch(s, 4); for _ in 0..k { d.push('0'); } e -= k as i64; }
    match if e.abs() > 60 { 3 } else { ch(s, 4) } {
        0 | 1 if e >= 0 && (e < 40) => { out.push_str(&d); if !zero { for _ in 0..e { out.push('0'); } } }
        0 | 1 if e < 0 => {
            let f = (-e) as usize;
            if f < d.len() { out.push_str(&d[..d.len() - f]); out.push('.'); out.push_str(&d[d.len() - f..]); }
            else { out.push_str("0."); for _ in 0..f - d.len() { out.push('0'); } out.push_str(&d); }
        }
        2 => { // point somewhere inside
            let p = 1 + ch(s, d.len() as u32) as usize;
            if p < d.len() { out.push_str(&d[..p]); out.push('.'); out.push_str(&d[p..]); e += (d.len() - p) as i64; } else { out.push_str(&d); }
            spell_exp(s, e, out);
        }
        _ => { out.push_str(&d); if e != 0 || ch(s, 3) == 1 { spell_exp(s, e, out); } }
    }
}
fn spell_exp(s: S, e: i64, out: &mut String) {
    out.push(if ch(s, 2) == 0 { 'e' } else { 'E' });
    if e < 0 { out.push('-'); } else if ch(s, 2) == 1 { out.push('+'); }
    for _ in 0..(if ch(s, 6) == 5 { ch(s, 4) } else { 0 }) { out.push('0'); }
    out.push_str(&e.abs().to_string());
}

/// What a caller-defined generator must produce for a value.
pub struct Printer<'a> { pub spaced: bool, pub newline: &'a str, pub indent: &'a str }
impl<'a> Printer<'a> {
    pub fn print(&self, v: &json::JsonValue, depth: usize, out: &mut String) {
        if v.is_array() {
            out.push('[');
            for (i, x) in v.members().enumerate() { if i > 0 { out.push(','); } self.nl(depth + 1, out); self.print(x, depth + 1, out); }
            if v.members().len() > 0 { self.nl(depth, out); }
            out.push(']');
        } else if v.is_object() {
            out.push('{');
            let mut any = false;
            for (k, x) in v.entries() {
                if any { out.push(','); } any = true;
                self.nl(depth + 1, out);
                esc(k, out); out.push_str(if self.spaced { ": " } else { ":" });
                self.print(x, depth + 1, out);
            }
            if any { self.nl(depth, out); }
            out.push('}');
        } else if let Some(s) = v.as_str() { esc(s, out) }
        else { out.push_str(&v.dump()) }
    }
    fn nl(&self, d: usize, out: &mut String) { out.push_str(self.newline); for _ in 0..d { out.push_str(self.indent); } }
}
