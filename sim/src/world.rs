//! The simulated outside world: the caller's writer, the disk, and memory around texts.
use crate::rt::*;
use std::io::{self, ErrorKind, Write};

/// The payload that identifies an injected error.
#[derive(Debug)]
pub struct Tag(pub u64);
impl std::fmt::Display for Tag { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "injected {}", self.0) } }
impl std::error::Error for Tag {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Accept { All, One, Short, Chunk(usize), Mixed }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fail { Tagged(ErrorKind), Simple(ErrorKind), Os(i32), Zero, Panic }

pub const KINDS: [ErrorKind; 9] = [ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::ConnectionReset,
    ErrorKind::WriteZero, ErrorKind::InvalidData, ErrorKind::UnexpectedEof, ErrorKind::StorageFull];

pub struct SimWriter<'a> {
    pub got: Vec<u8>,
    pub accept: Accept,
    /// chance in 16 that a call is interrupted first
    pub eintr: u32,
    pub fail: Option<(u64, Fail, u64)>, // at this many bytes, how, tag
    pub failed: bool,
    /// once failed, always failing; otherwise the writer recovers after one failure
    pub sticky: bool,
    pub failed_calls: u64,
    pub after: u64,
    pub calls: u64,
    pub hook: Option<&'a mut dyn FnMut(u64)>,
    pub yields: bool,
    eintr_run: u32,
}
impl<'a> SimWriter<'a> {
    pub fn new() -> SimWriter<'a> {
        SimWriter { got: vec![], accept: Accept::All, eintr: 0, fail: None, failed: false, sticky: true, failed_calls: 0, after: 0, calls: 0, hook: None, yields: false, eintr_run: 0 }
    }
    /// A writer that keeps accepting, in a way the FAULT stream decides.
    pub fn working() -> SimWriter<'a> {
        let mut w = SimWriter::new();
        w.accept = match weighted(S::Fault, &[1, 2, 4, 2, 3]) { 0 => Accept::All, 1 => Accept::One, 2 => Accept::Short, 3 => Accept::Chunk(range(S::Fault, 1, 40) as usize), _ => Accept::Mixed };
        w.eintr = pick(S::Fault, &[0, 0, 1, 4, 10]);
        w
    }
    pub fn fails_at(mut self, at: u64, how: Fail, tag: u64) -> Self { self.fail = Some((at, how, tag)); self }
}
pub fn gen_fail() -> Fail {
    match weighted(S::Fault, &[5, 2, 2, 3]) {
        0 => Fail::Tagged(pick(S::Fault, &KINDS)),
        1 => Fail::Simple(pick(S::Fault, &KINDS)),
        2 => Fail::Os(pick(S::Fault, &[28, 5, 32, 11, 9])),
        _ => Fail::Zero,
    }
}
impl<'a> Write for SimWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        // of a long text offered again and again, the rest is looked at when it is accepted
        let head = buf.len().min(64);
        seen(&buf[..head]);
        seen(&buf[buf.len() - buf.len().min(16)..]);
        let _o = Out::new();
        sched_point(5);
        if self.yields { crate::sched::client(); }
        self.calls += 1;
        if self.failed { self.after += 1; ev("write-after-failure", buf.len() as u64, 0); }
        if let Some(h) = self.hook.as_mut() { h(self.calls); }
        if buf.is_empty() { return Ok(0); }
        // interrupted before anything was accepted; never for ever
        if self.eintr > 0 && self.eintr_run < 4 && chance(S::Fault, self.eintr, 16) {
            self.eintr_run += 1;
            count("writer_interrupted"); ev("interrupted", buf.len() as u64, 0);
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        self.eintr_run = 0;
        let mut n = match self.accept {
            // enough is enough
            _ if self.calls > 300_000 => buf.len(),
            Accept::All => buf.len(),
            Accept::One => 1,
            Accept::Chunk(c) => c.min(buf.len()),
            Accept::Short => if buf.len() > 1 { buf.len() - ch(S::Fault, buf.len().min(64) as u32) as usize } else { 1 },
            Accept::Mixed => match ch(S::Fault, 3) { 0 => buf.len(), 1 => 1, _ => if buf.len() > 1 { buf.len() - ch(S::Fault, buf.len().min(64) as u32) as usize } else { 1 } },
        };
        if let Some((at, how, tag)) = self.fail {
            let left = at.saturating_sub(self.got.len() as u64) as usize;
            if left == 0 && !(self.failed && !self.sticky) {
                if !self.failed { count("writer_failures"); }
                self.failed = true;
                self.failed_calls += 1;
                ev("fail", at, tag);
                note(|| format!("writer fails with {:?} after {} bytes", how, at));
                return match how {
                    Fail::Tagged(k) => Err(io::Error::new(k, Tag(tag))),
                    Fail::Simple(k) => Err(io::Error::from(k)),
                    Fail::Os(c) => Err(io::Error::from_raw_os_error(c)),
                    Fail::Zero => Ok(0),
                    Fail::Panic => { count("writer_panics"); inject_panic(tag) }
                };
            }
            if !self.failed { n = n.min(left); }
        }
        if n < buf.len() { count("short_writes"); ev("short", n as u64, buf.len() as u64); }
        if n > head { seen(&buf[head..n]); }
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Is this the error the writer gave?
pub fn is_error(e: &io::Error, how: Fail, tag: u64) -> bool {
    match how {
        Fail::Tagged(k) => e.kind() == k && e.get_ref().and_then(|r| r.downcast_ref::<Tag>()).map(|t| t.0 == tag).unwrap_or(false),
        Fail::Simple(k) => e.kind() == k && e.get_ref().is_none() && e.raw_os_error().is_none(),
        Fail::Os(c) => e.raw_os_error() == Some(c),
        Fail::Zero => e.kind() == ErrorKind::WriteZero,
        Fail::Panic => false,
    }
}

// ---------------------------------------------------------------- texts in hostile memory

/// A text in the middle of a larger block: what lies before and behind it is chosen by the
/// simulator, and (in the memory-checking build) marked as not to be touched.
pub struct Placed { buf: Vec<u8>, at: usize, len: usize }
impl Placed {
    pub fn new(text: &str, before: &[u8], behind: &[u8]) -> Placed {
        let mut b = in_arena(|| Vec::with_capacity(before.len() + text.len() + behind.len()));
        b.extend_from_slice(before); b.extend_from_slice(text.as_bytes()); b.extend_from_slice(behind);
        let p = Placed { at: before.len(), len: text.len(), buf: b };
        let a = p.buf.as_ptr() as usize;
        if sim().mem {
            sim().text = (a, a + p.buf.len());
            arena().hide(a, p.at);
            arena().hide(a + p.at + p.len, p.buf.len() - p.at - p.len);
        }
        p
    }
    pub fn text(&self) -> &str { unsafe { std::str::from_utf8_unchecked(&self.buf[self.at..self.at + self.len]) } }
}
impl Drop for Placed {
    fn drop(&mut self) { if sim().mem { sim().text = (0, 0); arena().unhide(self.buf.as_ptr() as usize, self.buf.len()); } }
}
/// Bytes that would change the meaning of a text if they were read as part of it.
pub fn hostile(behind: bool) -> Vec<u8> {
    let t: &[&[u8]] = if behind { &[b"", b"\"", b"]}", b"0123456789", b"e5", b".5", b"ull", b"rue", b"\\\"", b" ", b"\n", b"}", b",", b"\xff\xff", b"\0\0\0\0", b"\"}]", b"u0041\"", b"\xbf\xbf", b"]]]]]]]]]", b"9\"", b"1]"] }
        else { &[b"", b"[", b"{\"", b"-", b"\"", b"\\", b"\n\n", b"\xf0\x9f", b"1", b"{\"a\":", b"\n\n\n\"", b" "] };
    pick(S::Fault, t).to_vec()
}

// ---------------------------------------------------------------- the disk

/// A file with a volatile part.  `sync` makes what was written so far durable; a crash keeps
/// the durable part and an arbitrary outcome of the rest, sector by sector.
pub struct SimDisk { pub data: Vec<u8>, pub durable: usize, pub sector: usize }
impl SimDisk {
    pub fn new() -> SimDisk { SimDisk { data: vec![], durable: 0, sector: pick(S::Fault, &[512usize, 16, 64, 7, 1]) } }
    pub fn append(&mut self, b: &[u8]) { self.data.extend_from_slice(b); ev("append", b.len() as u64, 0); }
    pub fn sync(&mut self) { self.durable = self.data.len(); count("disk_syncs"); ev("sync", self.durable as u64, 0); }
    /// Returns what is on the disk after a crash.
    pub fn crash(&mut self) {
        let vol = self.data.len() - self.durable;
        count("crashes");
        if vol == 0 { ev("crash", self.durable as u64, 0); return; }
        match weighted(S::Fault, &[2, 4, 3, 2, 1]) {
            0 => { self.data.truncate(self.durable); count("crash_lost_tail"); }
            1 => { let keep = ch(S::Fault, vol as u32 + 1) as usize; self.data.truncate(self.durable + keep); count("crash_torn_tail"); }
            2 => { // length known, some sectors never arrived
                let n = vol.div_ceil(self.sector);
                for i in 0..n { if chance(S::Fault, 1, 3) {
                    let (a, b) = (self.durable + i * self.sector, (self.durable + (i + 1) * self.sector).min(self.data.len()));
                    for x in &mut self.data[a..b] { *x = 0; }
                    count("crash_zero_sectors");
                } }
            }
            3 => { // torn in the middle, stale bytes behind
                let keep = ch(S::Fault, vol as u32 + 1) as usize;
                for x in &mut self.data[self.durable + keep..] { *x = x.wrapping_add(13) & 0x7f; }
                count("crash_stale_tail");
            }
            _ => count("crash_all_arrived"),
        }
        ev("crash", self.durable as u64, self.data.len() as u64);
    }
}

/// Damages a stored text.  Returns the first byte that differs, if any.
pub fn damage(text: &mut Vec<u8>) -> Option<usize> {
    let orig = text.clone();
    let n = 1 + if chance(S::Fault, 1, 4) { ch(S::Fault, 3) } else { 0 };
    for _ in 0..n {
        let len = text.len();
        if len == 0 { break; }
        let p = ch(S::Fault, len as u32) as usize;
        // structure and escapes attract damage that matters
        let p = if ch(S::Fault, 3) == 2 { let from = p; match text[from..].iter().position(|b| b"\\\":,[]{}.eE".contains(b)) { Some(q) => (from + q + ch(S::Fault, 6) as usize).min(len - 1), None => p } } else { p };
        match weighted(S::Fault, &[4, 4, 4, 3, 3, 3, 3, 2, 4, 3]) {
            0 => { text[p] ^= 1 << ch(S::Fault, 7); count("damage_bit_flip"); }
            1 => { text.remove(p); count("damage_lost_byte"); }
            2 => { // a byte that means something
                text[p] = pick(S::Fault, b"\"\\{}[]:,0123456789-+.eEtfn u/b\n\r\t\x0b\x0c\x00\x1f\x7f'xX_~;\x08\x0e\x21"); count("damage_byte");
            }
            3 => { let l = 1 + ch(S::Fault, 8.min(len as u32 - p as u32)) as usize; let e = (p + l).min(len); text.drain(p..e); count("damage_lost_run"); }
            4 => { let l = (1 + ch(S::Fault, 8) as usize).min(len - p); for x in &mut text[p..p + l] { *x = 0; } count("damage_zeroed"); }
            5 => { let l = (1 + ch(S::Fault, 12) as usize).min(len - p); let c: Vec<u8> = text[p..p + l].to_vec(); for (i, b) in c.into_iter().enumerate() { text.insert(p + i, b); } count("damage_duplicated"); }
            6 => { // a piece of it turns up elsewhere
                let q = ch(S::Fault, len as u32) as usize; let l = (1 + ch(S::Fault, 12) as usize).min(len - q);
                let c: Vec<u8> = text[q..q + l].to_vec(); for (i, b) in c.into_iter().enumerate() { text.insert((p + i).min(text.len()), b); } count("damage_spliced");
            }
            7 => { text.truncate(p); count("damage_cut"); }
            8 => { // insertion of something meaningful
                let t: &[&[u8]] = &[b",", b"]", b"}", b"[", b"{", b"\"", b":", b"0", b"-", b".", b"e", b"\\", b"\\u", b"\\ud83d", b"\\udc00", b"\\uD83D\\uDE00", b"\n", b"\x0b", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"\xef\xbb\xbf", b" ", b"00", b"1e5", b"//", b"null", b"\\x", b"\x01", b"\x1f", b"\x7f", b"\xe2\x82\xac", b"\r", b"\t", b"E+", b"0.", b"true", b"nul", b"-0", b"\\n", b"\\/"];
                let c = pick(S::Fault, t); for (i, b) in c.iter().enumerate() { text.insert(p + i, *b); } count("damage_inserted");
            }
            _ => { // two bytes change places
                let q = ch(S::Fault, len as u32) as usize; text.swap(p, q); count("damage_swapped");
            }
        }
    }
    ev("damage", n as u64, text.len() as u64);
    let m = orig.len().min(text.len());
    (0..m).find(|i| orig[*i] != text[*i]).or(if orig.len() != text.len() { Some(m) } else { None })
}
