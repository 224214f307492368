//! The D-Bus wire format, and what its encoder may be asked to do when.

use crate::rt;
use alloc::string::String;
use alloc::vec::Vec;
use core::mem::MaybeUninit as Uninit;
use core::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::Enc;
use tmp::fmt::dbus::{Error, Sig};
use tmp::io::map;

/// Length of the complete type at the start of a valid text.
pub fn type_len(s: &[u8]) -> usize {
    match s[0] {
        b'a' | b'm' => 1 + type_len(&s[1..]),
        b'(' | b'{' => {
            let mut n = 1;
            while s[n] != b')' && s[n] != b'}' {
                n += type_len(&s[n..]);
            }
            n + 1
        }
        _ => 1,
    }
}

pub fn align_of(c: u8) -> usize {
    match c {
        b'y' | b'g' | b'v' => 1,
        b'q' | b'n' => 2,
        b'x' | b't' | b'd' | b'(' | b'{' => 8,
        _ => 4,
    }
}

pub struct Frame {
    pub kind: u8,
    text: &'static [u8],
    at: usize,
    len_at: usize,
    from: usize,
    pub count: usize,
}

/// Reference encoder.
pub struct Model {
    pub be: bool,
    pub out: Vec<u8>,
    pub text: &'static [u8],
    pub at: usize,
    pub stack: Vec<Frame>,
    pub committed: bool,
}

impl Model {
    pub fn new(text: &'static [u8], be: bool) -> Self {
        Self { be, out: Vec::with_capacity(256), text, at: 0, stack: Vec::new(), committed: false }
    }

    /// The element that comes next.
    pub fn next(&self) -> Option<u8> {
        self.text.get(self.at).copied()
    }

    fn align(&mut self, n: usize) {
        while self.out.len() % n != 0 {
            self.out.push(0);
        }
    }

    fn put(&mut self, v: u64, n: usize) {
        for i in 0..n {
            self.out.push((v >> (8 * if self.be { n - 1 - i } else { i })) as u8);
        }
    }

    /// The type at the current place is complete.
    fn done(&mut self) {
        match self.stack.last_mut() {
            Some(f) if f.kind == b'a' => f.count += 1,
            _ => self.at += type_len(&self.text[self.at..]),
        }
    }

    pub fn fixed(&mut self, c: u8, v: u64) -> bool {
        if self.next() != Some(c) {
            return false;
        }
        self.align(align_of(c));
        self.put(v, align_of(c));
        self.done();
        true
    }

    pub fn text(&mut self, c: u8, v: &[u8]) -> bool {
        if self.next() != Some(c) {
            return false;
        }
        let n = if c == b'g' { 1 } else { 4 };
        self.align(n);
        self.put(v.len() as u64, n);
        self.out.extend_from_slice(v);
        self.out.push(0);
        self.done();
        true
    }

    pub fn open(&mut self, c: u8, inner: &'static [u8]) -> bool {
        if self.next() != Some(c) {
            return false;
        }
        let (text, at) = (self.text, self.at);
        let mut len_at = 0;
        match c {
            b'v' => {
                self.put(inner.len() as u64, 1);
                self.out.extend_from_slice(inner);
                self.out.push(0);
                self.text = inner;
                self.at = 0;
            }
            b'a' => {
                self.align(4);
                len_at = self.out.len();
                self.put(0, 4);
                self.at += 1;
                self.align(align_of(self.text[self.at]));
            }
            _ => {
                self.align(8);
                self.at += 1;
            }
        }
        let from = self.out.len();
        self.stack.push(Frame { kind: c, text, at, len_at, from, count: 0 });
        true
    }

    pub fn close(&mut self) -> bool {
        let Some(f) = self.stack.last() else { return false };
        let complete = match f.kind {
            b'a' => true,
            b'v' => self.next().is_none(),
            b'(' => self.next() == Some(b')'),
            _ => self.next() == Some(b'}'),
        };
        if !complete {
            return false;
        }
        let f = self.stack.pop().unwrap();
        if f.kind == b'a' {
            let n = self.out.len() - f.from;
            for i in 0..4 {
                self.out[f.len_at + i] = (n >> (8 * if self.be { 3 - i } else { i })) as u8;
            }
        }
        self.text = f.text;
        self.at = f.at;
        self.done();
        true
    }

    pub fn complete(&self) -> bool {
        self.stack.is_empty() && self.next().is_none()
    }
}

pub type R<'a, 's, 'w> = Flow<Option<Error>, &'a mut Enc<'s, 'w>>;

pub fn ok(r: R) -> bool {
    matches!(r, Flow::Continue(_))
}

pub fn sig(text: &'static [u8]) -> &'static Sig {
    alloc::boxed::Box::leak(Sig::new(text).unwrap())
}

/// A text of 0, 1 or 2 bytes with any contents, or one of several characters.
pub fn text() -> String {
    let mut s = String::new();
    match rt::pick(0, 3) {
        0 => {}
        3 => s.push('\u{20ac}'),
        n => {
            for _ in 0..n {
                let c = rt::u8();
                rt::assume(c < 0x80);
                unsafe { s.as_mut_vec().push(c) };
            }
        }
    }
    s
}

pub const INNER: [&[u8]; 4] = [b"q", b"t", b"as", b"(gv)"];

/// Perform the operation the signature calls for, with any value; up to
/// `max` elements per array, variants nested up to `deep`.
pub fn advance(e: &mut Enc<'static, '_>, m: &mut Model, max: usize, deep: usize) -> bool {
    if let Some(f) = m.stack.last() {
        let close = match f.kind {
            b'a' => rt::pick(0, (f.count < max) as usize) == 0,
            b'v' => m.next().is_none(),
            _ => matches!(m.next(), Some(b')' | b'}')),
        };
        if close {
            m.close();
            return ok(e.close());
        }
    }
    match m.next().unwrap() {
        b'q' => {
            let v = rt::u16();
            m.fixed(b'q', v as u64);
            ok(e.u16(v))
        }
        b'u' => {
            let v = rt::u32();
            m.fixed(b'u', v as u64);
            ok(e.u32(v))
        }
        b't' => {
            let v = rt::u64();
            m.fixed(b't', v);
            ok(e.u64(v))
        }
        c @ (b's' | b'o' | b'g') => {
            let v = text();
            m.text(c, v.as_bytes());
            ok(match c {
                b's' => e.string(&v),
                b'o' => e.object(&v),
                _ => e.signature(&v),
            })
        }
        b'v' => {
            let n = m.stack.iter().filter(|f| f.kind == b'v').count();
            let inner = INNER[rt::pick(0, if n < deep { INNER.len() - 1 } else { 0 })];
            m.open(b'v', inner);
            ok(e.variant(sig(inner)))
        }
        b'a' => {
            m.open(b'a', b"");
            ok(e.array())
        }
        b'(' => {
            m.open(b'(', b"");
            ok(e.structure())
        }
        _ => {
            m.open(b'{', b"");
            ok(e.dict())
        }
    }
}

/// Output in chunks: every request is granted at most `chunk` bytes, or up to
/// `extra` more than asked for. Refuses from the `fail`-th request on.
pub struct Chunks {
    pub data: Vec<Uninit<u8>>,
    pub chunk: usize,
    pub extra: usize,
    pub fail: usize,
    pub error: Option<map::Error>,
    pub committed: Option<usize>,
}

impl Chunks {
    pub fn new(room: usize, chunk: usize, extra: usize) -> Self {
        let mut data = Vec::with_capacity(room);
        unsafe { data.set_len(room) };
        Self { data, chunk, extra, fail: usize::MAX, error: None, committed: None }
    }
    pub fn bytes(&self, n: usize) -> &[u8] {
        unsafe { core::slice::from_raw_parts(self.data.as_ptr() as *const u8, n) }
    }
}

impl map::Write for Chunks {
    unsafe fn commit(&mut self, len: usize) {
        rt::check(self.committed.is_none(), 900);
        self.committed = Some(len);
    }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [Uninit<u8>]> {
        if self.fail == 0 {
            return Flow::Break(self.error);
        }
        self.fail -= 1;
        if idx >= self.data.len() {
            return Flow::Break(Some(map::Error::Exceeded));
        }
        let n = (len + self.extra).min(self.chunk).min(self.data.len() - idx);
        Flow::Continue(&mut self.data[idx..idx + n])
    }
}

/// Input in chunks.
pub struct Source<'a> {
    pub data: &'a [u8],
    pub chunk: usize,
}

impl map::Read for Source<'_> {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        let v = self.data.map(idx, len)?;
        Flow::Continue(&v[..v.len().min(self.chunk)])
    }
}
