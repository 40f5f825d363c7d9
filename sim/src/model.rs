//! The reference model of JSON content, generators for it, and the comparison of a
//! JsonValue with it through public accessors only.
use crate::rt::*;
use json::JsonValue;
use json::number::Number;

/// An exact decimal number: digits (no leading or trailing zeros, empty for zero) * 10^exp.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct N { pub nan: bool, pub neg: bool, pub digits: Vec<u8>, pub exp: i64 }
impl N {
    pub fn nan() -> N { N { nan: true, neg: false, digits: vec![], exp: 0 } }
    pub fn norm(neg: bool, digits: &[u8], exp: i64) -> N {
        let s = digits.iter().position(|d| *d != b'0').unwrap_or(digits.len());
        let e = digits.iter().rposition(|d| *d != b'0').map(|x| x + 1).unwrap_or(s);
        if s >= e { return N { nan: false, neg: false, digits: vec![], exp: 0 }; }
        N { nan: false, neg, digits: digits[s..e].to_vec(), exp: exp + (digits.len() - e) as i64 }
    }
    pub fn parts(pos: bool, m: u64, e: i64) -> N { N::norm(!pos, m.to_string().as_bytes(), e) }
    pub fn int(i: i128) -> N { N::norm(i < 0, i.unsigned_abs().to_string().as_bytes(), 0) }
    pub fn of(n: &Number) -> N {
        if n.is_nan() { return N::nan(); }
        let (p, m, e) = n.as_parts();
        N::parts(p, m, e as i64)
    }
    pub fn fits64(&self) -> bool {
        self.digits.len() < 20 || (self.digits.len() == 20 && self.digits[..] <= b"18446744073709551615"[..])
    }
    pub fn mantissa(&self) -> u64 { String::from_utf8_lossy(&self.digits).parse().unwrap_or(0) }
    /// decimal exponent of the first digit
    pub fn sci(&self) -> i64 { self.exp + self.digits.len() as i64 - 1 }
    /// within one part in 10^18
    pub fn close(&self, o: &N) -> bool {
        if self.nan || o.nan { return self.nan == o.nan; }
        if self.digits.is_empty() || o.digits.is_empty() { return self.digits.is_empty() == o.digits.is_empty(); }
        if self.neg != o.neg { return false; }
        let lead = |n: &N| { let mut v: u128 = 0; for i in 0..36 { v = v * 10 + n.digits.get(i).map(|d| (d - b'0') as u128).unwrap_or(0); } v };
        let (mut a, mut b) = (lead(self), lead(o));
        match self.sci() - o.sci() { 0 => {}, 1 => a *= 10, -1 => b *= 10, _ => return false }
        let d = if a > b { a - b } else { b - a };
        d <= a.max(b) / 1_000_000_000_000_000_000 + 1
    }
    /// as an integer, if it is one below 10^30
    pub fn as_int(&self) -> Option<i128> {
        if self.nan || self.exp < 0 || self.sci() > 29 { return None; }
        let mut v: i128 = 0;
        for d in &self.digits { v = v * 10 + (d - b'0') as i128; }
        for _ in 0..self.exp { v *= 10; }
        Some(if self.neg { -v } else { v })
    }
}

#[derive(Clone, Debug)]
pub enum Mv { Null, Bool(bool), Num(N), Str(String), Arr(Vec<Mv>), Obj(Vec<(String, Mv)>) }

impl Mv {
    pub fn kind(&self) -> u64 { match self { Mv::Null => 0, Mv::Bool(_) => 1, Mv::Num(_) => 2, Mv::Str(_) => 3, Mv::Arr(_) => 4, Mv::Obj(_) => 5 } }
    pub fn get(&self, k: &str) -> Option<&Mv> { match self { Mv::Obj(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1), _ => None } }
    pub fn set(&mut self, k: &str, v: Mv) { if let Mv::Obj(o) = self { obj_set(o, k, v) } }
    pub fn len(&self) -> usize { match self { Mv::Arr(a) => a.len(), Mv::Obj(o) => o.len(), _ => 0 } }
    pub fn is_empty(&self) -> bool {
        match self {
            Mv::Null => true, Mv::Bool(b) => !b, Mv::Num(n) => n.nan || n.digits.is_empty(), Mv::Str(s) => s.is_empty(),
            Mv::Arr(a) => a.is_empty(), Mv::Obj(o) => o.is_empty(),
        }
    }
    /// Content equality: objects regardless of order.
    pub fn same(&self, o: &Mv) -> bool {
        match (self, o) {
            (Mv::Null, Mv::Null) => true,
            (Mv::Bool(a), Mv::Bool(b)) => a == b,
            (Mv::Num(a), Mv::Num(b)) => a == b,
            (Mv::Str(a), Mv::Str(b)) => a == b,
            (Mv::Arr(a), Mv::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (Mv::Obj(a), Mv::Obj(b)) => a.len() == b.len() && a.iter().all(|(k, v)| o.get(k).map(|w| v.same(w)).unwrap_or(false)) && b.len() == a.len(),
            _ => false,
        }
    }
    /// How many levels of indentation its pretty form has in all.
    pub fn indents(&self, dent: usize) -> usize {
        match self { Mv::Arr(a) if !a.is_empty() => dent + a.iter().map(|x| dent + 1 + x.indents(dent + 1)).sum::<usize>(), Mv::Obj(o) if !o.is_empty() => dent + o.iter().map(|x| dent + 1 + x.1.indents(dent + 1)).sum::<usize>(), _ => 0 }
    }
    pub fn size(&self) -> usize {
        match self { Mv::Arr(a) => 1 + a.iter().map(|x| x.size()).sum::<usize>(), Mv::Obj(o) => 1 + o.iter().map(|x| 1 + x.1.size()).sum::<usize>(), _ => 1 }
    }
    /// What reading back its serialisation gives: not-a-number becomes null.
    pub fn stored(&self) -> Mv {
        match self {
            Mv::Num(n) if n.nan => Mv::Null,
            Mv::Arr(a) => Mv::Arr(a.iter().map(|x| x.stored()).collect()),
            Mv::Obj(o) => Mv::Obj(o.iter().map(|(k, v)| (k.clone(), v.stored())).collect()),
            x => x.clone(),
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_to(&mut s, 400);
        s
    }
    pub fn show_all(&self) -> String { let mut s = String::new(); self.show_to(&mut s, usize::MAX); s }
    fn show_to(&self, s: &mut String, lim: usize) {
        if s.len() > lim { return; }
        match self {
            Mv::Null => s.push_str("null"),
            Mv::Bool(b) => s.push_str(&b.to_string()),
            Mv::Num(n) => if n.nan { s.push_str("NaN") } else { s.push_str(&format!("{}{}e{}", if n.neg { "-" } else { "" }, if n.digits.is_empty() { "0".into() } else { String::from_utf8_lossy(&n.digits).into_owned() }, n.exp)) },
            Mv::Str(t) => s.push_str(&format!("{:?}", t)),
            Mv::Arr(a) => { s.push('['); for (i, x) in a.iter().enumerate() { if i > 0 { s.push(',') } x.show_to(s, lim); } s.push(']') }
            Mv::Obj(o) => { s.push('{'); for (i, (k, x)) in o.iter().enumerate() { if i > 0 { s.push(',') } s.push_str(&format!("{:?}:", k)); x.show_to(s, lim); } s.push('}') }
        }
    }
}
pub fn obj_set(o: &mut Vec<(String, Mv)>, k: &str, v: Mv) {
    for e in o.iter_mut() { if e.0 == k { e.1 = v; return; } }
    o.push((k.to_string(), v));
}

/// How numbers are compared with the model.
#[derive(Clone, Copy, PartialEq)]
pub enum Num { Exact, Text }

/// The first difference between a value and the model, if any.
pub fn differs(v: &JsonValue, m: &Mv, num: Num) -> Option<String> {
    let mut path = String::new();
    diff_at(v, m, num, &mut path)
}
fn diff_at(v: &JsonValue, m: &Mv, num: Num, path: &mut String) -> Option<String> {
    let bad = |w: &str, path: &str| Some(format!("at ${}: expected {}, found {}", path, m.show(), w));
    match m {
        Mv::Null => if !v.is_null() { return bad(kind_of(v), path); },
        Mv::Bool(b) => match v.as_bool() { Some(x) if x == *b => {}, Some(x) => return bad(&x.to_string(), path), None => return bad(kind_of(v), path) },
        Mv::Str(s) => match v.as_str() { Some(x) if x == s => {}, Some(x) => return bad(&format!("{:?}", x), path), None => return bad(kind_of(v), path) },
        Mv::Num(n) => match v.as_number() {
            None => return bad(kind_of(v), path),
            Some(x) => {
                let g = N::of(&x);
                let ok = match num {
                    Num::Exact => g == *n,
                    Num::Text => if n.sci().abs() > 32000 || n.exp.abs() > 32000 { true } else if n.fits64() { g == *n } else { g.close(n) },
                };
                if !ok { return bad(&Mv::Num(g).show(), path); }
            }
        },
        Mv::Arr(a) => {
            if !v.is_array() { return bad(kind_of(v), path); }
            if v.len() != a.len() { return bad(&format!("array of {} members", v.len()), path); }
            if v.members().len() != a.len() { return bad("wrong number of members()", path); }
            for (i, (x, y)) in v.members().zip(a).enumerate() {
                let l = path.len();
                path.push_str(&format!("[{}]", i));
                if let Some(d) = diff_at(x, y, num, path) { return Some(d); }
                path.truncate(l);
            }
        }
        Mv::Obj(o) => {
            if !v.is_object() { return bad(kind_of(v), path); }
            if v.len() != o.len() { return bad(&format!("object of {} entries", v.len()), path); }
            let mut i = 0;
            for (k, x) in v.entries() {
                if i >= o.len() { return bad("more entries() than len()", path); }
                if k != o[i].0 { return bad(&format!("key {:?} at position {}", k, i), path); }
                let l = path.len();
                path.push_str(&format!(".{:.20}", o[i].0));
                if let Some(d) = diff_at(x, &o[i].1, num, path) { return Some(d); }
                path.truncate(l);
                i += 1;
            }
            if i != o.len() { return bad(&format!("only {} entries()", i), path); }
        }
    }
    None
}
pub fn kind_of(v: &JsonValue) -> &'static str {
    match v { JsonValue::Null => "null", JsonValue::Short(_) | JsonValue::String(_) => "a string", JsonValue::Number(_) => "a number", JsonValue::Boolean(_) => "a boolean", JsonValue::Array(_) => "an array", JsonValue::Object(_) => "an object" }
}
/// The content of a value as the public accessors show it.
pub fn read(v: &JsonValue) -> Mv {
    if v.is_null() { return Mv::Null; }
    if let Some(b) = v.as_bool() { return Mv::Bool(b); }
    if let Some(s) = v.as_str() { return Mv::Str(s.to_string()); }
    if let Some(n) = v.as_number() { return Mv::Num(N::of(&n)); }
    if v.is_array() { return Mv::Arr(v.members().map(read).collect()); }
    Mv::Obj(v.entries().map(|(k, x)| (k.to_string(), read(x))).collect())
}

/// Checks a value against the model; a difference is a violation of class `class`.
pub fn expect(class: &str, what: &str, v: &JsonValue, m: &Mv) -> bool {
    match sut("read", || differs(v, m, Num::Exact)) {
        Ok(None) => true,
        Ok(Some(d)) => { viol(class, format!("{}: {}", what, d)); false }
        Err(p) => { viol(&format!("panic:read:{}", class), format!("{}: reading panicked: {}", what, p.msg)); false }
    }
}

// ---------------------------------------------------------------- generators

pub const COLLIDING: [(&str, &str); 3] = [
    ("nPcoIp1eCffx", "EVRDmlHU5Zdx"),
    ("DQVn5EnSAlbx", "7CdVk9-9o_ax"),
    ("G_JbRfWRWHa", "hJp45CxYiUd-long-key-beyond-inline-buffer"),
];

fn some_char(s: S) -> char {
    match weighted(s, &[10, 3, 3, 3, 2, 2, 2, 1]) {
        0 => (b'a' + ch(s, 26) as u8) as char,
        1 => pick(s, &['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{b}', '\u{1f}', '\u{7f}', '\u{1b}']),
        2 => pick(s, &['é', 'ß', '\u{80}', '\u{7ff}', 'ї']),
        3 => pick(s, &['€', '\u{800}', '\u{ffff}', '\u{fffd}', '\u{2028}', '\u{d7ff}', '\u{e000}']),
        4 => pick(s, &['😀', '\u{10000}', '\u{10ffff}', '𝄞']),
        5 => pick(s, &['{', '}', '[', ']', ':', ',', '\'', ' ', 'u', 'n', '0', '-', '.', 'e', '<', '>']),
        6 => char::from(ch(s, 32) as u8),
        _ => char::from(b' ' + ch(s, 95) as u8),
    }
}
/// A string of exactly `n` bytes.
pub fn str_of(s: S, n: usize, style: u32) -> String {
    let mut r = String::with_capacity(n);
    if style == 3 { // something special here and there in plain text
        let mut at: Vec<usize> = (0..1 + ch(s, 3)).map(|_| match ch(s, 4) { 0 => n.saturating_sub(1 + ch(s, 6) as usize), 1 => ch(s, 40) as usize, _ => ch(s, n as u32 + 1) as usize }).collect();
        at.sort();
        for p in at { while r.len() < p && r.len() < n { r.push((b'a' + (r.len() % 26) as u8) as char); } let c = some_char(s); if r.len() + c.len_utf8() <= n { r.push(c); } }
    }
    let base = if style == 1 { some_char(s) } else { 'x' };
    while r.len() < n {
        let left = n - r.len();
        let c = match style { 0 | 3 => (b'a' + (r.len() % 26) as u8) as char, 1 => base, _ => some_char(s) };
        if c.len_utf8() <= left { r.push(c) } else { r.push('~') }
    }
    r
}
pub fn gen_string(s: S) -> String {
    match weighted(s, &[20, 60, 60, 40, 30, 30, 30, 2]) {
        0 => String::new(),
        6 => { let n = ch(s, 150) as usize; str_of(s, n, 3) }
        7 => { // sizes of buffers and counters
            let n = pick(s, &[4095usize, 4096, 4097, 5000, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 70000]); let n = if room(n) { n } else { 7 }; let st = pick(s, &[0u32, 1, 3, 3]); str_of(s, n, st) }
        1 => { let n = ch(s, 9) as usize; str_of(s, n, 0) }
        2 => { let n = pick(s, &[30usize, 31, 29, 32, 28, 33, 60, 64, 1, 34, 90]); let st = ch(s, 3); str_of(s, n, st) }
        3 => { let n = ch(s, 24) as usize; str_of(s, n, 2) }
        4 => pick(s, &["null", "true", "{\"a\":1}", "[1,2]", "\\u0041", "\\", "\"", "0", "-1", "//", "\\\\\\\"", "}", "\u{feff}x", "line\nbreak", "tab\tquote\""]).to_string(),
        _ => { let n = pick(s, &[100usize, 127, 128, 129, 255, 256, 257, 1000, 1024, 4000]); let st = pick(s, &[0u32, 0, 1, 2]); str_of(s, n, st) }
    }
}

/// The keys of a run: a small pool, so that operations meet each other's keys.
pub struct Keys { pub pool: Vec<String> }
impl Keys {
    pub fn new(s: S) -> Keys {
        let mut pool: Vec<String> = vec![];
        let n = match weighted(s, &[4, 4, 2, 1]) { 0 => range(s, 1, 4), 1 => range(s, 4, 10), 2 => range(s, 10, 40), _ => range(s, 40, 300) };
        let style = ch(s, 6);
        if n < 40 && ch(s, 6) == 5 {
            // all of one length, and much alike
            let l = pick(s, &[8usize, 8, 4, 16, 32, 33, 1, 2]);
            let base = str_of(s, l, 0).into_bytes();
            for i in 0..n { let mut k = base.clone(); let p = ch(s, l as u32) as usize; k[p] = b'!' + (i % 90) as u8; pool.push(String::from_utf8_lossy(&k).into_owned()); }
        }
        while (pool.len() as u32) < n {
            match if n > 40 && ch(s, 4) != 0 { 7 } else { weighted(s, &[5, 3, 3, 2, 2, 2, 1]) } {
                0 => pool.push(str_of(s, 1 + (style as usize % 3), 0) + &pool.len().to_string()),
                1 => { let l = pick(s, &[31usize, 32, 33, 30, 34, 64, 29]); let mut k = str_of(s, l, 0); let c = (b'A' + (pool.len() % 26) as u8) as char; k.pop(); k.push(c); pool.push(k) }
                2 => { // a colliding pair, alone or with the same ending
                    let (a, b) = COLLIDING[ch(s, 3) as usize];
                    let suf = pick(s, &["", "", "-", "-and-a-common-ending-of-some-length", "-20-more-bytes-here-"]);
                    pool.push(format!("{}{}", a, suf)); pool.push(format!("{}{}", b, suf));
                }
                3 => { let n = ch(s, 12) as usize; pool.push(str_of(s, n, 2)) }
                4 => { // prefixes of each other
                    let l = pick(s, &[3usize, 31, 33, 10]); let k = str_of(s, l, 0);
                    pool.push(k.clone()); pool.push(k.clone() + "\0"); pool.push(k + "z");
                }
                5 => pool.push(String::new()),
                6 => { let l = if ch(s, 12) == 11 && room(120_000) { pick(s, &[65534usize, 65535, 65536, 65537]) } else { pick(s, &[100usize, 200, 1000, 126, 127, 128, 254, 255, 256, 257, 511, 4096]) }; let st = ch(s, 2); pool.push(str_of(s, l, st) + &pool.len().to_string()) }
                _ => pool.push(format!("{}{}", ["k", "id-", "", "0", "key_with_a_rather_long_common_prefix_", "Z"][style as usize], pool.len())),
            }
        }
        let mut seen: Vec<String> = vec![];
        for k in pool { if !seen.contains(&k) { seen.push(k) } }
        Keys { pool: seen }
    }
    pub fn any(&self, s: S) -> &str {
        let k = &self.pool[ch(s, self.pool.len() as u32) as usize];
        if room(k.len()) { k } else { "k" }
    }
    /// A key that is (most likely) not in the pool but close to one.
    pub fn near(&self, s: S) -> String {
        let k = self.any(s).to_string();
        match ch(s, 6) {
            0 => k + "x",
            1 => { let mut k = k; k.pop(); k }
            2 => k.to_uppercase(),
            3 => k + "\0",
            4 => { let (a, b) = COLLIDING[ch(s, 3) as usize]; if k == a { b.into() } else { a.into() } }
            _ => String::new(),
        }
    }
}

/// Where a number's boundaries are.
pub fn gen_parts(s: S) -> (bool, u64, i16) {
    let pos = !chance(s, 1, 3);
    let m = match weighted(s, &[5, 4, 4, 3, 2, 2]) {
        0 => ch(s, 20) as u64,
        1 => { let d = range(s, 1, 19); let base = 10u64.pow(d); pick(s, &[base, base - 1, base + 1, base / 2 * 3]) }
        2 => pick(s, &[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, (1 << 63) + 1, 1 << 53, (1 << 53) + 1, u64::MAX / 10, u64::MAX / 10 + 1,
                       576460752303423500, 576460752303423499, 576460752303423501, 5764607523034234999, 10_000_000_000_000_000_000, 9_999_999_999_999_999_999, 4294967295, 4294967296, 2147483648, 65535, 65536, 32768, 255, 256, 128, 127]),
        3 => bits64(s),
        4 => { let b = ch(s, 64); bits64(s) >> b }
        _ => ch(s, 100000) as u64 * 10u64.pow(ch(s, 14)),
    };
    let e = match weighted(s, &[5, 4, 3, 2, 1]) {
        0 => 0,
        1 => -(range(s, 1, 20) as i32),
        2 => range(s, 1, 25) as i32,
        3 => pick(s, &[-17, -18, -19, -16, 18, 19, 20, -20, -21, -30, 40, -40, 100, -100, 300, 308, -308, -324, 309, -325, -400, 400]),
        _ => pick(s, &[32767, -32768, 32766, -32767, 32000, -32000, 10000, -10000, 32750, -32749, 9999, -9999, 999, -999, 1000]),
    };
    (pos, m, e as i16)
}
pub fn gen_number(s: S) -> N {
    match weighted(s, &[5, 6, 1, 1]) {
        0 => N::int(ch(s, 2000) as i128 - 1000),
        1 => { let (p, m, e) = gen_parts(s); N::parts(p, m, e as i64) }
        2 => N::nan(),
        _ => N::int(0),
    }
}
pub struct Shape { pub depth: u32, pub width: u32, pub nan: bool, pub budget: u32 }
pub fn gen_value(s: S, keys: &Keys, sh: &mut Shape, depth: u32) -> Mv {
    if sh.budget == 0 { return Mv::Null; }
    sh.budget -= 1;
    let leaf = depth >= sh.depth;
    match weighted(s, &[2, 2, 5, 6, if leaf { 1 } else { 6 }, if leaf { 1 } else { 6 }]) {
        0 => Mv::Null,
        1 => Mv::Bool(ch(s, 2) == 1),
        2 => { let n = gen_number(s); if n.nan && !sh.nan { Mv::Null } else { Mv::Num(n) } }
        3 => Mv::Str(gen_string(s)),
        4 => {
            let n = if leaf { 0 } else { gen_width(s, sh.width) };
            Mv::Arr((0..n).map(|_| gen_value(s, keys, sh, depth + 1)).collect())
        }
        _ => {
            let n = if leaf { 0 } else { gen_width(s, sh.width) };
            let mut o = vec![];
            for _ in 0..n { let k = keys.any(s).to_string(); let v = gen_value(s, keys, sh, depth + 1); obj_set(&mut o, &k, v); }
            Mv::Obj(o)
        }
    }
}
fn gen_width(s: S, w: u32) -> u32 { match ch(s, 4) { 0 => ch(s, 2), 1 => ch(s, 4), 2 => ch(s, w.min(8) + 1), _ => ch(s, w + 1) } }
pub fn gen_tree(s: S, keys: &Keys) -> Mv {
    let mut sh = match weighted(s, &[40, 40, 20, 10, 1]) {
        4 => Shape { depth: 2, width: pick(s, &[260, 300, 600, 1100]), nan: true, budget: 1500 },
        0 => Shape { depth: 2, width: 4, nan: true, budget: 20 },
        1 => Shape { depth: 4, width: 5, nan: true, budget: 60 },
        2 => Shape { depth: 8, width: 3, nan: true, budget: 150 },
        _ => Shape { depth: 2, width: 60, nan: true, budget: 300 },
    };
    if chance(s, 1, 12) { return gen_value(s, keys, &mut sh, 0); }
    // mostly containers
    loop {
        let v = gen_value(s, keys, &mut sh, 0);
        if matches!(v, Mv::Arr(_) | Mv::Obj(_)) || sh.budget == 0 { return v; }
        if matches!(v, Mv::Null) { return Mv::Arr(vec![]); }
    }
}
/// A chain of containers of the given depth around a leaf.
pub fn gen_chain(s: S, depth: u32, keys: &Keys) -> Mv {
    let mut v = match ch(s, 4) { 0 => Mv::Null, 1 => Mv::Arr(vec![]), 2 => Mv::Obj(vec![]), _ => Mv::Str(gen_string(s)) };
    let mode = ch(s, 3);
    let mut key = keys.any(s).to_string();
    if !room(key.len() * depth as usize / 4) { key = "k".into(); }
    for i in 0..depth {
        let arr = match mode { 0 => true, 1 => false, _ => i % 2 == 0 };
        v = if arr { if i % 97 == 96 { Mv::Arr(vec![Mv::Bool(true), v, Mv::Null]) } else { Mv::Arr(vec![v]) } } else { Mv::Obj(vec![(key.clone(), v)]) };
    }
    v
}

// ---------------------------------------------------------------- building values

/// A HashMap whose iteration order is decided by the simulator.
pub fn hash_state(s: S) -> std::collections::hash_map::RandomState {
    let (a, b) = (bits64(s), bits64(s));
    assert_eq!(std::mem::size_of::<std::collections::hash_map::RandomState>(), 16);
    unsafe { std::mem::transmute::<(u64, u64), std::collections::hash_map::RandomState>((a, b)) }
}

pub fn number_of(n: &N) -> Number {
    if n.nan { json::number::NAN }
    else {
        // exponents beyond i16 cannot be represented; callers only ask for those that can
        let (mut m, mut e) = (n.mantissa(), n.exp);
        while e > 32767 { m = m.wrapping_mul(10); e -= 1; }
        unsafe { Number::from_parts_unchecked(!n.neg, m, e as i16) }
    }
}
/// The value of a model leaf or tree, by one of many histories (chosen from `s`).
pub fn build(s: S, m: &Mv) -> JsonValue {
    let _i = In::new();
    build_in(s, m, 0)
}
fn build_in(s: S, m: &Mv, depth: u32) -> JsonValue {
    use surface as f;
    let way = ch(s, 8);
    match m {
        Mv::Null => match way { 1 => f::from_option(None), _ => JsonValue::Null },
        Mv::Bool(b) => f::from_bool(*b),
        Mv::Num(n) => {
            if let (Some(i), true) = (n.as_int(), way >= 3) {
                if way == 3 { if let Ok(x) = i64::try_from(i) { return f::from_i64(x); } }
                if way == 4 { if let Ok(x) = u64::try_from(i) { return f::from_u64(x); } }
                if way == 5 { if let Ok(x) = i32::try_from(i) { return f::from_i32(x); } }
                if way == 6 { if let Ok(x) = u8::try_from(i) { return f::from_u8(x); } if let Ok(x) = i8::try_from(i) { return f::from_i8(x); } if let Ok(x) = i16::try_from(i) { return f::from_i16(x); } }
            }
            let x = number_of(n);
            if way == 1 && !n.nan && n.digits.len() < 17 && n.exp > -32000 {
                // the same number with a longer mantissa
                let (p, mm, e) = x.as_parts();
                if let (Some(mm), Some(e)) = (mm.checked_mul(10), e.checked_sub(1)) { return f::from_number(unsafe { Number::from_parts_unchecked(p, mm, e) }); }
            }
            if way == 2 && n.digits.is_empty() && !n.nan { return f::from_number(-x); }
            f::from_number(x)
        }
        Mv::Str(t) => match way {
            0 | 1 | 2 => f::from_str(t),
            3 | 4 => f::from_string(t.clone()),
            5 => { let mut u = String::with_capacity(t.len() * 2 + 3); u.push_str(t); f::from_string(u) }
            _ => { let mut v = f::from_str(t); let mut w = JsonValue::Null; std::mem::swap(&mut v, &mut w); w }
        },
        Mv::Arr(a) => {
            let way = if depth > 40 { 0 } else { way };
            match way {
                0 | 1 => { let mut v = JsonValue::new_array(); for x in a { let y = build_in(s, x, depth + 1); let _ = f::push(&mut v, y); } v }
                2 => { let v: Vec<JsonValue> = a.iter().map(|x| build_in(s, x, depth + 1)).collect(); f::from_vec(v) }
                3 => { let v: Vec<JsonValue> = a.iter().map(|x| build_in(s, x, depth + 1)).collect(); f::from_slice(&v) }
                4 => { let mut v = JsonValue::new_array(); for (i, x) in a.iter().enumerate() { *f::index_usize_mut(&mut v, i) = build_in(s, x, depth + 1); } v }
                5 => { let mut v = JsonValue::Array(Vec::with_capacity(a.len())); for x in a { let y = build_in(s, x, depth + 1); let _ = f::push(&mut v, y); } v }
                6 => { // with a detour: an extra member that is removed again
                    let mut v = JsonValue::new_array();
                    let _ = f::push(&mut v, f::from_str("detour"));
                    for x in a { let y = build_in(s, x, depth + 1); let _ = f::push(&mut v, y); }
                    drop(f::array_remove(&mut v, 0));
                    v
                }
                _ => { let mut v: Vec<JsonValue> = Vec::new(); for x in a.iter().rev() { v.insert(0, build_in(s, x, depth + 1)); } JsonValue::Array(v) }
            }
        }
        Mv::Obj(o) => {
            let way = if depth > 40 { 0 } else { way };
            match way {
                0 | 1 => { let mut v = JsonValue::new_object(); for (k, x) in o { let y = build_in(s, x, depth + 1); let _ = f::insert(&mut v, k, y); } v }
                2 => { let mut ob = f::o_new(Some(o.len())); for (k, x) in o { let y = build_in(s, x, depth + 1); f::o_insert(&mut ob, k, y); } f::from_object(ob) }
                3 => { let mut v = JsonValue::Null; if o.is_empty() { return JsonValue::new_object(); } for (k, x) in o { *f::index_str_mut(&mut v, k, 0) = build_in(s, x, depth + 1); } v }
                4 => { let mut it = o.iter().map(|(k, x)| (k.clone(), build_in(s, x, depth + 1))); let ob = f::object_collect(&mut it); JsonValue::Object(ob) }
                5 => { // every key first, the values later, back to front
                    let mut ob = f::o_new(None);
                    for (k, _) in o { f::o_insert(&mut ob, k, JsonValue::Null); }
                    for (k, x) in o.iter().rev() { let y = build_in(s, x, depth + 1); if let Some(r) = f::o_get_mut(&mut ob, k) { *r = y; } }
                    JsonValue::Object(ob)
                }
                6 => { // an extra key that is removed again
                    let extra = "a-key-that-is-removed-before-anyone-looks";
                    let mut v = JsonValue::new_object();
                    let clash = o.iter().any(|e| e.0 == extra);
                    let at = if o.is_empty() { 0 } else { ch(s, o.len() as u32) as usize };
                    for (i, (k, x)) in o.iter().enumerate() {
                        if i == at && !clash { let _ = f::insert(&mut v, extra, f::from_bool(true)); }
                        let y = build_in(s, x, depth + 1); let _ = f::insert(&mut v, k, y);
                    }
                    if !clash && !o.is_empty() { drop(f::remove(&mut v, extra)); }
                    v
                }
                _ => { let mut v = JsonValue::new_object(); for (k, x) in o { let y = build_in(s, x, depth + 1); let _ = f::insert(&mut v, k, y); } f::clone_value(&v) }
            }
        }
    }
}
/// Builds a value for a scenario that is not about building: what the public accessors
/// show of the finished value is what counts as its content from then on.  If building
/// itself fails (other checks are about that), the run ends early.
pub fn make(s: S, m: &Mv) -> Option<(JsonValue, Mv)> {
    let v = match sut("build", || build(s, m)) { Ok(v) => v, Err(_) => { count("setup_abandoned"); return None } };
    let m = match sut("read", || { let _o = Out::new(); read(&v) }) { Ok(m) => m, Err(_) => { count("setup_abandoned"); return None } };
    Some((v, m))
}
