//! C39: bridges to the standard library.

use crate::model::util::same_bytes;
use crate::rt;
use alloc::borrow::Cow;
use alloc::string::String;
use alloc::vec::Vec;
use core::cmp::Ordering;
use core::fmt::Write as _;
use osi::compat::{OsStr, Write};
use std::io;

/// Text of a byte string, with what is not text replaced: a replacement for
/// every longest part that could have been the start of a character.
fn lossy(b: &[u8]) -> (Vec<u8>, bool) {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let mut out = Vec::new();
    let (mut i, mut okay) = (0, true);
    while i < b.len() {
        let c = b[i];
        let (len, lo, hi) = match c {
            0..=0x7f => (1, 0, 0),
            0xc2..=0xdf => (2, 0x80, 0xbf),
            0xe0 => (3, 0xa0, 0xbf),
            0xed => (3, 0x80, 0x9f),
            0xe1..=0xef => (3, 0x80, 0xbf),
            0xf0 => (4, 0x90, 0xbf),
            0xf1..=0xf3 => (4, 0x80, 0xbf),
            0xf4 => (4, 0x80, 0x8f),
            _ => (0, 0, 0),
        };
        let mut n = 1;
        while n < len {
            let (l, h) = if n == 1 { (lo, hi) } else { (0x80, 0xbf) };
            if i + n >= b.len() || at(i + n) < l || at(i + n) > h {
                break;
            }
            n += 1;
        }
        if n == len {
            out.extend_from_slice(&b[i..i + n]);
        } else {
            out.extend_from_slice(b"\xef\xbf\xbd");
            okay = false;
        }
        i += n;
    }
    (out, okay)
}

fn any(n: usize) -> Vec<u8> {
    (0..n).map(|_| rt::u8()).collect()
}

/// Conversions of any bytes.
fn c39_convert() {
    convert(any(rt::param(0)));
}

/// Conversions of long strings with up to three arbitrary bytes in a row.
fn c39_large() {
    let n = rt::param(0);
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    let k = rt::param(1);
    let at = [0, n / 2, n - k][rt::pick(0, 2)];
    for i in at..at + k {
        b[i] = rt::u8();
    }
    convert(b);
}

fn convert(b: Vec<u8>) {
    let (text, valid) = lossy(&b);
    let o: &OsStr = unsafe { OsStr::from_encoded_bytes_unchecked(&b) };
    rt::check(core::ptr::eq(o.as_encoded_bytes(), &b[..]), 1);
    match o.to_str() {
        Ok(v) => {
            rt::cover(1);
            rt::check(valid && core::ptr::eq(v.as_bytes(), &b[..]), 2);
            rt::check(core::ptr::eq(OsStr::from_str(v).as_encoded_bytes(), &b[..]), 3);
            let f: &OsStr = v.into();
            rt::check(core::ptr::eq(f.as_encoded_bytes(), &b[..]), 4);
        }
        Err(_) => {
            rt::cover(2);
            rt::check(!valid, 5);
        }
    }
    match OsStr::from_utf8(&b) {
        Ok(v) => rt::check(valid && core::ptr::eq(v.as_encoded_bytes(), &b[..]), 6),
        Err(_) => rt::check(!valid, 7),
    }
    let l: Cow<'_, str> = o.to_string_lossy();
    rt::check(same_bytes(l.as_bytes(), &text), 8);
    let s: &std::ffi::OsStr = o.as_osstr();
    rt::check(core::ptr::eq(s.as_encoded_bytes(), &b[..]), 9);
    let r: &std::ffi::OsStr = o.as_ref();
    rt::check(core::ptr::eq(r.as_encoded_bytes(), &b[..]), 10);
    rt::check(core::ptr::eq(OsStr::from_osstr(s).as_encoded_bytes(), &b[..]), 11);
    let f: &OsStr = s.into();
    rt::check(core::ptr::eq(f.as_encoded_bytes(), &b[..]), 12);
}

fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        if a[i] != b[i] {
            return if a[i] < b[i] { Ordering::Less } else { Ordering::Greater };
        }
        i += 1;
    }
    a.len().cmp(&b.len())
}

/// Order and equality of any two.
fn c39_order() {
    let a = any(rt::pick(0, rt::param(0)));
    let b = any(rt::pick(0, rt::param(0)));
    let (x, y): (&OsStr, &OsStr) =
        unsafe { (OsStr::from_encoded_bytes_unchecked(&a), OsStr::from_encoded_bytes_unchecked(&b)) };
    let want = order(&a, &b);
    rt::check(x.cmp(y) == want, 1);
    rt::check(x.partial_cmp(y) == Some(want), 2);
    rt::check((x == y) == (want == Ordering::Equal), 3);
    rt::check((x != y) == (want != Ordering::Equal), 4);
    rt::check((x < y) == (want == Ordering::Less), 5);
    if want == Ordering::Equal {
        rt::cover(1);
    }
}

/// An output that takes as few bytes at a time as it likes, and fails.
struct Out {
    got: Vec<u8>,
    calls: usize,
    limit: usize,
    failed: bool,
}

impl io::Write for Out {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        rt::check(!self.failed, 20);
        self.calls += 1;
        if self.calls > self.limit {
            self.got.extend_from_slice(buf);
            return Ok(buf.len());
        }
        match rt::pick(0, 3) {
            0 => {
                let n = rt::pick(1, 2).min(buf.len());
                self.got.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            1 => Err(io::ErrorKind::Interrupted.into()),
            2 => {
                self.failed = true;
                Ok(0)
            }
            _ => {
                self.failed = true;
                Err(io::ErrorKind::Other.into())
            }
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Any text through the output bridge.
fn c39_write() {
    let n = rt::pick(1, rt::param(0));
    let b: Vec<u8> = (0..n).map(|_| rt::range(0, 0x7f) as u8).collect();
    write(b);
}

/// Long text through the output bridge.
fn c39_write_large() {
    let n = rt::param(0);
    let mut b: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
    for i in [0, n / 2, n - 1] {
        b[i] = rt::range(0, 0x7f) as u8;
    }
    write(b);
}

fn write(b: Vec<u8>) {
    let text = unsafe { core::str::from_utf8_unchecked(&b) };
    let mut w = Write(Out { got: Vec::new(), calls: 0, limit: rt::param(1), failed: false });
    let (r, all): (_, Vec<u8>) = match rt::pick(0, 2) {
        0 => (w.write_str(text), b.clone()),
        1 => (w.write_char(b[0] as char), b[..1].to_vec()),
        _ => {
            let mut all = b"<".to_vec();
            all.extend_from_slice(&b);
            all.extend_from_slice(b"|");
            all.extend_from_slice(&b);
            all.push(b'>');
            (w.write_fmt(format_args!("<{}|{}>", text, String::from(text))), all)
        }
    };
    let Write(out) = w;
    rt::check(r.is_ok() == !out.failed, 1);
    if r.is_ok() {
        rt::cover(1);
        rt::check(same_bytes(&out.got, &all), 2);
    } else {
        rt::cover(2);
        rt::check(out.got.len() < all.len() && same_bytes(&out.got, &all[..out.got.len()]), 3);
    }
}

crate::rt::harness!(c39_large, c39_write_large, c39_convert, c39_order, c39_write);
