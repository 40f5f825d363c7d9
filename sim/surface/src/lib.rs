//! Everything of the json crate's public surface that the simulator drives, as plain
//! functions that are never inlined into the simulator.  This crate and the json crate are
//! compiled with SanitizerCoverage call-backs (see ../rustc-wrap.sh), so the generic and
//! `#[inline]` code of json that is instantiated here is instrumented as well, while the
//! simulator itself is not.
#![allow(deprecated)]
#![recursion_limit = "1024"]

use json::codegen::{Generator, PrettyGenerator, DumpGenerator, WriterGenerator, PrettyWriterGenerator};
use json::number::Number;
use json::object::Object;
use json::JsonValue;
use std::collections::{BTreeMap, HashMap};
use std::io::{self, Write};

pub use json;

// ------------------------------------------------------------------ caller-supplied code

/// A value whose conversion into JsonValue is a call-back.
pub struct CbVal(pub Box<dyn FnOnce() -> JsonValue>);
impl From<CbVal> for JsonValue {
    #[inline(never)]
    fn from(c: CbVal) -> JsonValue { (c.0)() }
}

/// A cloneable value whose conversion (and cloning) is a call-back.
pub struct CbCl(pub std::rc::Rc<dyn Fn(bool) -> JsonValue>);
impl Clone for CbCl {
    fn clone(&self) -> Self { let _ = (self.0)(true); CbCl(self.0.clone()) }
}
impl From<CbCl> for JsonValue {
    fn from(c: CbCl) -> JsonValue { (c.0)(false) }
}

/// A key whose `as_ref` is a call-back.
pub struct CbKey { pub s: String, pub cb: std::rc::Rc<dyn Fn()> }
impl AsRef<str> for CbKey {
    #[inline(never)]
    fn as_ref(&self) -> &str { (self.cb)(); &self.s }
}
impl PartialEq for CbKey { fn eq(&self, o: &Self) -> bool { self.s == o.s } }
impl Eq for CbKey {}
impl PartialOrd for CbKey { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.s.cmp(&o.s)) } }
impl Ord for CbKey { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.s.cmp(&o.s) } }
impl std::hash::Hash for CbKey { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.s.hash(h) } }

/// Something compared with JsonValue through a call-back.
pub struct CbEq(pub Box<dyn Fn(&JsonValue) -> bool>);
impl PartialEq<JsonValue> for CbEq {
    fn eq(&self, other: &JsonValue) -> bool { (self.0)(other) }
}

/// The call-backs of a caller-defined generator, in the order they can occur.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GenCall { Min, NewLine, Indent, Dedent, Write, WriteChar }

#[derive(Clone, Debug, Default)]
pub struct GenStyle {
    pub spaced: bool,
    pub newline: &'static str,
    pub indent: &'static str,
    /// overrides `write` and `write_char` too
    pub own_write: bool,
}

/// A caller-defined generator, as the Generator trait allows: `get_writer` and `write_min`
/// are its own, the rest as `style` says.
pub struct CustomGen<'a> {
    w: &'a mut dyn Write,
    style: GenStyle,
    depth: usize,
    cb: &'a mut dyn FnMut(GenCall) -> io::Result<()>,
}
impl<'a> Generator for CustomGen<'a> {
    type T = &'a mut dyn Write;
    fn get_writer(&mut self) -> &mut Self::T { &mut self.w }
    fn write_min(&mut self, slice: &[u8], min: u8) -> io::Result<()> {
        (self.cb)(GenCall::Min)?;
        if self.style.spaced { self.w.write_all(slice) } else { self.w.write_all(&[min]) }
    }
    fn new_line(&mut self) -> io::Result<()> {
        (self.cb)(GenCall::NewLine)?;
        self.w.write_all(self.style.newline.as_bytes())?;
        for _ in 0..self.depth { self.w.write_all(self.style.indent.as_bytes())?; }
        Ok(())
    }
    fn indent(&mut self) { let _ = (self.cb)(GenCall::Indent); self.depth += 1; }
    fn dedent(&mut self) { let _ = (self.cb)(GenCall::Dedent); self.depth -= 1; }
    fn write(&mut self, slice: &[u8]) -> io::Result<()> {
        if self.style.own_write { (self.cb)(GenCall::Write)?; }
        self.w.write_all(slice)
    }
    fn write_char(&mut self, ch: u8) -> io::Result<()> {
        if self.style.own_write { (self.cb)(GenCall::WriteChar)?; }
        self.w.write_all(&[ch])
    }
}

/// A caller-defined generator that supplies only what the trait requires.
pub struct BareGen<'a> { w: &'a mut dyn Write }
impl<'a> Generator for BareGen<'a> {
    type T = &'a mut dyn Write;
    fn get_writer(&mut self) -> &mut Self::T { &mut self.w }
    fn write_min(&mut self, _slice: &[u8], min: u8) -> io::Result<()> { self.w.write_all(&[min]) }
}

// ------------------------------------------------------------------ parsing and printing

#[inline(never)] pub fn parse(s: &str) -> json::Result<JsonValue> { json::parse(s) }
#[inline(never)] pub fn dump(v: &JsonValue) -> String { v.dump() }
#[inline(never)] pub fn pretty(v: &JsonValue, n: u16) -> String { v.pretty(n) }
#[inline(never)] pub fn object_dump(o: &Object) -> String { o.dump() }
#[inline(never)] pub fn object_pretty(o: &Object, n: u16) -> String { o.pretty(n) }
#[inline(never)] pub fn stringify(v: JsonValue) -> String { json::stringify(v) }
#[inline(never)] pub fn stringify_pretty(v: JsonValue, n: u16) -> String { json::stringify_pretty(v, n) }
#[inline(never)] pub fn display(v: &JsonValue, alt: bool) -> String { if alt { format!("{:#}", v) } else { format!("{}", v) } }
#[inline(never)] pub fn debug(v: &JsonValue) -> String { format!("{:?}", v) }

#[inline(never)] pub fn write(v: &JsonValue, mut w: &mut dyn Write) -> io::Result<()> { v.write(&mut w) }
#[inline(never)] pub fn write_pretty(v: &JsonValue, mut w: &mut dyn Write, n: u16) -> io::Result<()> { v.write_pretty(&mut w, n) }
#[inline(never)] pub fn to_writer(v: &JsonValue, mut w: &mut dyn Write) { v.to_writer(&mut w) }

/// Several documents through one generator of the crate; `sep` is written between them
/// through the generator itself.  Kinds: 0 compact writer, 1 pretty writer.
#[inline(never)]
pub fn many_writer(vs: &[&JsonValue], mut w: &mut dyn Write, pretty: Option<u16>, sep: &[u8]) -> io::Result<()> {
    match pretty {
        None => {
            let mut g = WriterGenerator::new(&mut w);
            for (i, v) in vs.iter().enumerate() { if i > 0 { g.write(sep)?; } g.write_json(v)?; }
        }
        Some(n) => {
            let mut g = PrettyWriterGenerator::new(&mut w, n);
            for (i, v) in vs.iter().enumerate() { if i > 0 { g.write(sep)?; } g.write_json(v)?; }
        }
    }
    Ok(())
}
/// The same through the in-memory generators.
#[inline(never)]
pub fn many_mem(vs: &[&JsonValue], pretty: Option<u16>, sep: &[u8]) -> String {
    match pretty {
        None => {
            let mut g = DumpGenerator::new();
            for (i, v) in vs.iter().enumerate() { if i > 0 { g.write(sep).unwrap(); } g.write_json(v).unwrap(); }
            g.consume()
        }
        Some(n) => {
            let mut g = PrettyGenerator::new(n);
            for (i, v) in vs.iter().enumerate() { if i > 0 { g.write(sep).unwrap(); } g.write_json(v).unwrap(); }
            g.consume()
        }
    }
}
/// One object through the generator's `write_object`.
#[inline(never)]
pub fn write_object(o: &Object, mut w: &mut dyn Write, pretty: Option<u16>) -> io::Result<()> {
    match pretty {
        None => WriterGenerator::new(&mut w).write_object(o),
        Some(n) => PrettyWriterGenerator::new(&mut w, n).write_object(o),
    }
}
#[inline(never)]
pub fn write_string(s: &str, mut w: &mut dyn Write) -> io::Result<()> { WriterGenerator::new(&mut w).write_string(s) }
#[inline(never)]
pub fn write_number(n: &Number, mut w: &mut dyn Write) -> io::Result<()> { WriterGenerator::new(&mut w).write_number(n) }

#[inline(never)]
pub fn custom(vs: &[&JsonValue], w: &mut dyn Write, style: GenStyle, sep: &[u8],
              cb: &mut dyn FnMut(GenCall) -> io::Result<()>) -> io::Result<()> {
    let mut g = CustomGen { w, style, depth: 0, cb };
    for (i, v) in vs.iter().enumerate() { if i > 0 { g.write(sep)?; } g.write_json(v)?; }
    Ok(())
}
#[inline(never)]
pub fn bare(vs: &[&JsonValue], w: &mut dyn Write, sep: &[u8]) -> io::Result<()> {
    let mut g = BareGen { w };
    for (i, v) in vs.iter().enumerate() { if i > 0 { g.write(sep)?; } g.write_json(v)?; }
    Ok(())
}

// ------------------------------------------------------------------ values

#[inline(never)] pub fn drop_value(v: JsonValue) { drop(v) }
#[inline(never)] pub fn drop_object(v: Object) { drop(v) }
#[inline(never)] pub fn clone_value(v: &JsonValue) -> JsonValue { v.clone() }
#[inline(never)] pub fn clone_from(d: &mut JsonValue, v: &JsonValue) { d.clone_from(v) }
#[inline(never)] pub fn clone_object_from(d: &mut Object, o: &Object) { d.clone_from(o) }
#[inline(never)] pub fn clone_vec_from(d: &mut Vec<JsonValue>, o: &[JsonValue]) { o.clone_into(d) }
#[inline(never)] pub fn clone_object(v: &Object) -> Object { v.clone() }
#[inline(never)] pub fn eq(a: &JsonValue, b: &JsonValue) -> bool { a == b }
#[inline(never)] pub fn ne(a: &JsonValue, b: &JsonValue) -> bool { a != b }
#[inline(never)] pub fn object_eq(a: &Object, b: &Object) -> bool { a == b }
#[inline(never)] pub fn number_eq(a: &Number, b: &Number) -> bool { a == b }

#[inline(never)] pub fn from_str(s: &str) -> JsonValue { JsonValue::from(s) }
#[inline(never)] pub fn from_string(s: String) -> JsonValue { JsonValue::from(s) }
#[inline(never)] pub fn from_number(n: Number) -> JsonValue { JsonValue::from(n) }
#[inline(never)] pub fn from_object(o: Object) -> JsonValue { JsonValue::from(o) }
#[inline(never)] pub fn from_vec(v: Vec<JsonValue>) -> JsonValue { JsonValue::from(v) }
#[inline(never)] pub fn from_slice(v: &[JsonValue]) -> JsonValue { JsonValue::from(v) }
#[inline(never)] pub fn from_vec_cb(v: Vec<CbVal>) -> JsonValue { JsonValue::from(v) }
#[inline(never)] pub fn from_slice_cb(v: &[CbCl]) -> JsonValue { JsonValue::from(v) }
#[inline(never)] pub fn from_option(v: Option<JsonValue>) -> JsonValue { JsonValue::from(v) }
#[inline(never)] pub fn from_option_cb(v: Option<CbVal>) -> JsonValue { json::from(v) }
#[inline(never)] pub fn from_hash(m: HashMap<String, JsonValue>) -> JsonValue { JsonValue::from(m) }
#[inline(never)] pub fn from_btree(m: BTreeMap<String, JsonValue>) -> JsonValue { JsonValue::from(m) }
#[inline(never)] pub fn from_hash_cb(m: HashMap<CbKey, CbVal>) -> JsonValue { JsonValue::from(m) }
#[inline(never)] pub fn from_btree_cb(m: BTreeMap<CbKey, CbVal>) -> JsonValue { JsonValue::from(m) }
#[inline(never)] pub fn object_collect(it: &mut dyn Iterator<Item = (String, JsonValue)>) -> Object { it.collect() }
#[inline(never)] pub fn object_collect_cb(it: &mut dyn Iterator<Item = (CbKey, CbVal)>) -> Object { it.collect() }

#[inline(never)] pub fn push(v: &mut JsonValue, x: JsonValue) -> json::Result<()> { v.push(x) }
#[inline(never)] pub fn push_cb(v: &mut JsonValue, x: CbVal) -> json::Result<()> { v.push(x) }
#[inline(never)] pub fn pop(v: &mut JsonValue) -> JsonValue { v.pop() }
#[inline(never)] pub fn insert(v: &mut JsonValue, k: &str, x: JsonValue) -> json::Result<()> { v.insert(k, x) }
#[inline(never)] pub fn insert_cb(v: &mut JsonValue, k: &str, x: CbVal) -> json::Result<()> { v.insert(k, x) }
#[inline(never)] pub fn remove(v: &mut JsonValue, k: &str) -> JsonValue { v.remove(k) }
#[inline(never)] pub fn array_remove(v: &mut JsonValue, i: usize) -> JsonValue { v.array_remove(i) }
#[inline(never)] pub fn clear(v: &mut JsonValue) { v.clear() }
#[inline(never)] pub fn take(v: &mut JsonValue) -> JsonValue { v.take() }
#[inline(never)] pub fn take_string(v: &mut JsonValue) -> Option<String> { v.take_string() }
#[inline(never)] pub fn contains(v: &JsonValue, x: JsonValue) -> bool { v.contains(x) }
#[inline(never)] pub fn contains_str(v: &JsonValue, x: &str) -> bool { v.contains(x) }
#[inline(never)] pub fn contains_cb(v: &JsonValue, x: CbEq) -> bool { v.contains(x) }
#[inline(never)] pub fn has_key(v: &JsonValue, k: &str) -> bool { v.has_key(k) }
#[inline(never)] pub fn index_usize(v: &JsonValue, i: usize) -> &JsonValue { &v[i] }
#[inline(never)] pub fn index_usize_mut(v: &mut JsonValue, i: usize) -> &mut JsonValue { &mut v[i] }
#[inline(never)]
pub fn index_str<'a>(v: &'a JsonValue, k: &str, form: u32) -> &'a JsonValue {
    match form { 0 => &v[k], 1 => &v[k.to_string()], _ => { let s = k.to_string(); &v[&s] } }
}
#[inline(never)]
pub fn index_str_mut<'a>(v: &'a mut JsonValue, k: &str, form: u32) -> &'a mut JsonValue {
    match form { 0 => &mut v[k], 1 => &mut v[k.to_string()], _ => { let s = k.to_string(); &mut v[&s] } }
}

// objects
#[inline(never)] pub fn o_new(cap: Option<usize>) -> Object { match cap { None => Object::new(), Some(n) => Object::with_capacity(n) } }
#[inline(never)] pub fn o_insert(o: &mut Object, k: &str, v: JsonValue) { o.insert(k, v) }
#[inline(never)] pub fn o_get<'a>(o: &'a Object, k: &str) -> Option<&'a JsonValue> { o.get(k) }
#[inline(never)] pub fn o_get_mut<'a>(o: &'a mut Object, k: &str) -> Option<&'a mut JsonValue> { o.get_mut(k) }
#[inline(never)] pub fn o_remove(o: &mut Object, k: &str) -> Option<JsonValue> { o.remove(k) }
#[inline(never)] pub fn o_clear(o: &mut Object) { o.clear() }
#[inline(never)] pub fn o_override_last(o: &mut Object, v: JsonValue) { o.override_last(v) }
#[inline(never)]
pub fn o_index<'a>(o: &'a Object, k: &str, form: u32) -> &'a JsonValue {
    match form { 0 => &o[k], 1 => &o[k.to_string()], _ => { let s = k.to_string(); &o[&s] } }
}
#[inline(never)]
pub fn o_index_mut<'a>(o: &'a mut Object, k: &str, form: u32) -> &'a mut JsonValue {
    match form { 0 => &mut o[k], 1 => &mut o[k.to_string()], _ => { let s = k.to_string(); &mut o[&s] } }
}
/// Walks an object from both ends as `pattern` says (bit = take from the back); `visit`
/// gets (from_back, remaining length before the step, item).
fn exact(len: usize, hint: (usize, Option<usize>)) -> usize { if hint == (len, Some(len)) { len } else { usize::MAX / 2 } }
/// What an iterator does under the standard adapters; the reference is the same on a range of numbers.
pub const ADAPTS: u32 = 12;
pub fn adapt<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, op: u32, i: usize, visit: &mut dyn FnMut(I::Item)) -> usize {
    match op {
        0 => { if let Some(x) = it.nth(i) { visit(x); } let n = it.len(); for x in it { visit(x); } n }
        1 => { if let Some(x) = it.nth_back(i) { visit(x); } let n = it.len(); while let Some(x) = it.next_back() { visit(x); } n }
        2 => { if let Some(x) = it.last() { visit(x); } 0 }
        3 => { for x in it.rev() { visit(x); } 0 }
        4 => { let it = it.skip(i); let n = it.len(); for x in it { visit(x); } n }
        5 => { let it = it.step_by(i + 1); let n = it.len(); for x in it { visit(x); } n }
        6 => { for x in it.skip(i).rev() { visit(x); } 0 }
        7 => { let it = it.take(i); let n = it.len(); for x in it.rev() { visit(x); } n }
        8 => it.count(),
        9 => { let mut n = 0; it.by_ref().take(i).for_each(|x| { n += 1; visit(x) }); let left = it.len(); it.fold((), |_, x| visit(x)); n + left * 1000 }
        10 => { if let Some(x) = it.nth_back(i / 2) { visit(x); } if let Some(x) = it.nth(i / 2) { visit(x); } let n = it.len(); it.rfold((), |_, x| visit(x)); n }
        _ => { let z = it.zip(0..i); let n = z.len(); for (x, _) in z.rev() { visit(x); } n }
    }
}
#[inline(never)] pub fn o_adapt(o: &Object, op: u32, i: usize, visit: &mut dyn FnMut((&str, &JsonValue))) -> usize { adapt(o.iter(), op, i, &mut |x| visit(x)) }
#[inline(never)] pub fn o_adapt_mut(o: &mut Object, op: u32, i: usize, visit: &mut dyn FnMut((&str, &mut JsonValue))) -> usize { adapt(o.iter_mut(), op, i, &mut |x| visit(x)) }
#[inline(never)] pub fn entries_adapt(v: &JsonValue, op: u32, i: usize, visit: &mut dyn FnMut((&str, &JsonValue))) -> usize { adapt(v.entries(), op, i, &mut |x| visit(x)) }
#[inline(never)] pub fn entries_adapt_mut(v: &mut JsonValue, op: u32, i: usize, visit: &mut dyn FnMut((&str, &mut JsonValue))) -> usize { adapt(v.entries_mut(), op, i, &mut |x| visit(x)) }
#[inline(never)] pub fn members_adapt(v: &JsonValue, op: u32, i: usize, visit: &mut dyn FnMut(&JsonValue)) -> usize { adapt(v.members(), op, i, &mut |x| visit(x)) }
#[inline(never)] pub fn members_adapt_mut(v: &mut JsonValue, op: u32, i: usize, visit: &mut dyn FnMut(&mut JsonValue)) -> usize { adapt(v.members_mut(), op, i, &mut |x| visit(x)) }
#[inline(never)]
pub fn o_walk(o: &Object, pattern: u64, visit: &mut dyn FnMut(bool, usize, Option<(&str, &JsonValue)>)) {
    let mut it = o.iter();
    let mut i = 0u32;
    loop {
        let back = (pattern >> (i % 64)) & 1 == 1;
        let len = exact(it.len(), it.size_hint());
        let item = if back { it.next_back() } else { it.next() };
        let end = item.is_none();
        visit(back, len, item);
        if end { break; }
        i += 1;
    }
}
#[inline(never)]
pub fn o_walk_mut(o: &mut Object, pattern: u64, visit: &mut dyn FnMut(bool, usize, Option<(&str, &mut JsonValue)>)) {
    let mut it = o.iter_mut();
    let mut i = 0u32;
    loop {
        let back = (pattern >> (i % 64)) & 1 == 1;
        let len = exact(it.len(), it.size_hint());
        let item = if back { it.next_back() } else { it.next() };
        let end = item.is_none();
        visit(back, len, item);
        if end { break; }
        i += 1;
    }
}
#[inline(never)]
pub fn v_walk_mut(v: &mut JsonValue, pattern: u64, visit: &mut dyn FnMut(bool, usize, Option<(&str, &mut JsonValue)>)) {
    let mut it = v.entries_mut();
    let mut i = 0u32;
    loop {
        let back = (pattern >> (i % 64)) & 1 == 1;
        let len = exact(it.len(), it.size_hint());
        let item = if back { it.next_back() } else { it.next() };
        let end = item.is_none();
        visit(back, len, item);
        if end { break; }
        i += 1;
    }
}
#[inline(never)]
pub fn v_walk(v: &JsonValue, pattern: u64, visit: &mut dyn FnMut(bool, usize, Option<(&str, &JsonValue)>)) {
    let mut it = v.entries();
    let mut i = 0u32;
    loop {
        let back = (pattern >> (i % 64)) & 1 == 1;
        let len = exact(it.len(), it.size_hint());
        let item = if back { it.next_back() } else { it.next() };
        let end = item.is_none();
        visit(back, len, item);
        if end { break; }
        i += 1;
    }
}
#[inline(never)]
pub fn members_mut(v: &mut JsonValue, rev: bool, visit: &mut dyn FnMut(usize, &mut JsonValue)) {
    if rev { for (i, m) in v.members_mut().rev().enumerate() { visit(i, m) } }
    else { for (i, m) in v.members_mut().enumerate() { visit(i, m) } }
}

// native comparisons, both directions: (v == n, n == v)
macro_rules! nat { ($($f:ident $t:ty),*) => { $(
    #[inline(never)] pub fn $f(v: &JsonValue, n: $t) -> (bool, bool, bool) { (*v == n, n == *v, v == n) }
)* } }
nat!(eq_i8 i8, eq_i16 i16, eq_i32 i32, eq_i64 i64, eq_isize isize, eq_u8 u8, eq_u16 u16, eq_u32 u32, eq_u64 u64, eq_usize usize, eq_bool bool);
#[inline(never)]
pub fn eq_str(v: &JsonValue, s: &str) -> [bool; 7] {
    let owned = s.to_string();
    [*v == *s, *s == *v, *v == s, s == *v, *v == owned, owned == *v, v == owned]
}
macro_rules! fromnat { ($($f:ident $t:ty),*) => { $(
    #[inline(never)] pub fn $f(n: $t) -> JsonValue { JsonValue::from(n) }
)* } }
fromnat!(from_i8 i8, from_i16 i16, from_i32 i32, from_i64 i64, from_isize isize, from_u8 u8, from_u16 u16, from_u32 u32, from_u64 u64, from_usize usize, from_bool bool, from_f32 f32, from_f64 f64);

/// Every integer accessor, as i128.
#[inline(never)]
pub fn all_ints(v: &JsonValue) -> [Option<i128>; 10] {
    [
        v.as_i8().map(|x| x as i128), v.as_i16().map(|x| x as i128), v.as_i32().map(|x| x as i128),
        v.as_i64().map(|x| x as i128), v.as_isize().map(|x| x as i128),
        v.as_u8().map(|x| x as i128), v.as_u16().map(|x| x as i128), v.as_u32().map(|x| x as i128),
        v.as_u64().map(|x| x as i128), v.as_usize().map(|x| x as i128),
    ]
}
/// The same through TryFrom on Number.
#[inline(never)]
pub fn all_tryfrom(n: Number) -> [Option<i128>; 10] {
    use std::convert::TryFrom;
    [
        i8::try_from(n).ok().map(|x| x as i128), i16::try_from(n).ok().map(|x| x as i128), i32::try_from(n).ok().map(|x| x as i128),
        i64::try_from(n).ok().map(|x| x as i128), isize::try_from(n).ok().map(|x| x as i128),
        u8::try_from(n).ok().map(|x| x as i128), u16::try_from(n).ok().map(|x| x as i128), u32::try_from(n).ok().map(|x| x as i128),
        u64::try_from(n).ok().map(|x| x as i128), usize::try_from(n).ok().map(|x| x as i128),
    ]
}

// ------------------------------------------------------------------ construction macros

#[cfg(feature = "shapes")] mod shapes;
#[cfg(feature = "shapes")] pub use shapes::SHAPES;
#[cfg(not(feature = "shapes"))] pub static SHAPES: &[Shape] = &[];
/// What a leaf expression of a macro use yields.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind { V, C, I, Inc, S, O, B, F, L, M }
/// Call-backs that the leaf and key expressions of the macro uses are made of.
pub trait Leaves {
    fn v(&self, i: usize) -> JsonValue;
    fn c(&self, i: usize) -> CbVal;
    fn i(&self, i: usize) -> i64;
    fn s(&self, i: usize) -> String;
    fn o(&self, i: usize) -> Option<String>;
    fn b(&self, i: usize) -> bool;
    fn f(&self, i: usize) -> f64;
    fn l(&self, i: usize) -> Vec<i64>;
    fn m(&self, i: usize) -> BTreeMap<String, bool>;
    fn t(&self, i: usize) -> &str;
    fn k(&self, i: usize) -> &str;
}
pub enum Ky { Is(&'static str), Made(usize) }
/// What a macro use spells.
pub enum Sh { Null, Bool(bool), Int(i64), Str(&'static str), Leaf(Kind, usize), Arr(&'static [Sh]), Obj(&'static [(Ky, Sh)]) }
pub struct Shape { pub text: &'static str, pub build: fn(&dyn Leaves) -> JsonValue, pub is: Sh }
#[inline(never)] pub fn shape(i: usize, e: &dyn Leaves) -> JsonValue { (SHAPES[i].build)(e) }

// ------------------------------------------------------------------ text for people

/// Something that can be displayed, and how.
#[derive(Clone, Copy)]
pub enum Shown<'a> { Plain(&'a JsonValue), Alternate(&'a JsonValue), Debug(&'a JsonValue), Number(&'a Number), Error(&'a json::Error), Text(&'a str) }
impl<'a> std::fmt::Display for Shown<'a> {
    #[inline(never)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Shown::Plain(v) => write!(f, "{}", v),
            Shown::Alternate(v) => write!(f, "{:#}", v),
            Shown::Debug(v) => write!(f, "{:?}", v),
            Shown::Number(n) => write!(f, "{}", n),
            Shown::Error(e) => write!(f, "{}", e),
            Shown::Text(t) => f.write_str(t),
        }
    }
}
/// One line of several things, as a client's own Display would put it together.
pub struct Line<'a>(pub &'a [Shown<'a>]);
impl<'a> std::fmt::Display for Line<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for x in self.0 { std::fmt::Display::fmt(x, f)?; } Ok(()) }
}
#[inline(never)] pub fn show(items: &[Shown], sink: &mut dyn std::fmt::Write) -> std::fmt::Result { write!(sink, "{}", Line(items)) }
/// The value's own implementation, asked through a client's formatter.
#[inline(never)] pub fn show_one(v: &JsonValue, alt: bool, sink: &mut dyn std::fmt::Write) -> std::fmt::Result { if alt { write!(sink, "<{:#}>", v) } else { write!(sink, "<{}>", v) } }
#[inline(never)] pub fn to_string(s: &Shown) -> String {
    match s { Shown::Plain(v) => v.to_string(), Shown::Alternate(v) => format!("{:#}", v), Shown::Debug(v) => format!("{:?}", v), Shown::Number(n) => n.to_string(), Shown::Error(e) => e.to_string(), Shown::Text(t) => t.to_string() }
}
#[inline(never)] pub fn wrong_type(t: &str) -> json::Error { json::Error::wrong_type(t) }
