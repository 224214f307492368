use crate::model::dvar::{align_of, sig, type_len, Source};
use crate::model::util::same_bytes;
use crate::rt;
use alloc::string::String;
use alloc::vec::Vec;
use core::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::Dec;
use tmp::fmt::dbus::Error;
use tmp::io::map;

const SHORT: Error = Error::Io(map::Error::Exceeded);

/// Reference decoder.
struct Model<'a> {
    be: bool,
    data: &'a [u8],
    pos: usize,
    text: &'static [u8],
    at: usize,
    ends: Vec<usize>,
}

impl<'a> Model<'a> {
    fn get(&self, pos: usize, n: usize) -> Option<&'a [u8]> {
        self.data.get(pos..pos + n)
    }

    fn num(&self, v: &[u8]) -> usize {
        let mut r = 0;
        for i in 0..v.len() {
            r = r << 8 | v[if self.be { i } else { v.len() - 1 - i }] as usize;
        }
        r
    }

    fn expect(&self, c: u8) -> Result<usize, Error> {
        match self.text.get(self.at) {
            Some(&v) if v == c => Ok(self.pos.next_multiple_of(align_of(c))),
            _ => Err(Error::Mismatch),
        }
    }

    fn done(&mut self, pos: usize) {
        self.pos = pos;
        if self.ends.is_empty() {
            self.at += type_len(&self.text[self.at..]);
        }
    }

    fn u16(&mut self) -> Result<u16, Error> {
        let p = self.expect(b'q')?;
        let v = self.get(p, 2).ok_or(SHORT)?;
        self.done(p + 2);
        Ok(self.num(v) as u16)
    }

    fn str(&mut self, c: u8) -> Result<&'a [u8], Error> {
        let p = self.expect(c)?;
        let w = if c == b's' { 4 } else { 1 };
        let n = self.num(self.get(p, w).ok_or(SHORT)?);
        if n > self.data.len() - p - w {
            return Err(SHORT);
        }
        let n = rt::concrete(n);
        let v = self.get(p + w, n).ok_or(SHORT)?;
        let text = core::str::from_utf8(v).is_ok();
        if p + w + n == self.data.len() {
            // either error applies if the text is also bad
            return Err(if text { SHORT } else { Error::Pending });
        }
        if !text {
            return Err(Error::DataNonUtf8);
        }
        self.done(p + w + n + 1);
        Ok(v)
    }

    fn array(&mut self) -> Result<(), Error> {
        let p = self.expect(b'a')?;
        let n = self.num(self.get(p, 4).ok_or(SHORT)?);
        self.pos = (p + 4).next_multiple_of(align_of(self.text[self.at + 1]));
        self.at += 1;
        self.ends.push(self.pos + n);
        Ok(())
    }

    fn close(&mut self) -> Result<(), Error> {
        if self.ends.pop().is_none() {
            return Err(Error::Mismatch);
        }
        self.at -= 1;
        self.done(self.pos);
        Ok(())
    }
}

fn same<T, U>(real: Flow<Option<Error>, T>, want: &Result<U, Error>) -> bool {
    match (real, want) {
        (Flow::Continue(_), Ok(_)) => true,
        (Flow::Break(Some(Error::Mismatch)), Err(Error::Mismatch)) => true,
        (Flow::Break(Some(Error::DataNonUtf8)), Err(Error::DataNonUtf8)) => true,
        (Flow::Break(Some(Error::Io(map::Error::Exceeded))), Err(Error::Io(_))) => true,
        (Flow::Break(Some(Error::DataNonUtf8 | Error::Io(map::Error::Exceeded))), Err(Error::Pending)) => true,
        _ => false,
    }
}

const SIGS: [&[u8]; 10] = [b"q", b"s", b"g", b"aq", b"as", b"ag", b"aaq", b"aas", b"(qs)", b"v"];

/// One request; the right one, or any.
fn request(d: &mut Dec, m: &mut Model, op: usize) {
    match op {
        0 => {
            let mut v = 7;
            let w = m.u16();
            let r = d.u16(&mut v);
            rt::check(same(r, &w), 1);
            rt::check(v == w.unwrap_or(7), 2);
        }
        1 | 2 => {
            let mut v = String::from("old");
            let w = m.str(if op == 1 { b's' } else { b'g' });
            let r = if op == 1 { d.string(&mut v) } else { d.signature(&mut v) };
            rt::check(same(r, &w), 3);
            rt::check(core::str::from_utf8(v.as_bytes()).is_ok(), 4);
            match w {
                Ok(w) => rt::check(same_bytes(v.as_bytes(), w), 5),
                Err(_) => rt::check(v.as_bytes() == b"old", 6),
            }
        }
        3 => {
            let w = m.array();
            rt::check(same(d.array(), &w), 7);
        }
        4 => {
            let w = m.close();
            rt::check(same(d.close(), &w), 8);
        }
        5 => {
            let w = m.ends.is_empty() && m.at == m.text.len();
            rt::check(d.commit().is_ok() == w, 9);
        }
        6 => {
            // a nested decoder of the wrong type
            let w = m.text.get(m.at).is_some_and(|v| *v == b'q');
            rt::check(d.dec_with(sig(b"q").into()).is_ok() == w, 10);
        }
        _ => {
            // a nested decoder that is given up
            match d.dec() {
                Ok(mut sub) => {
                    rt::check(m.at < m.text.len(), 11);
                    let mut v = 0;
                    let mut s = String::new();
                    let _ = sub.u16(&mut v);
                    let _ = sub.array();
                    let _ = sub.string(&mut s);
                }
                Err(_) => rt::check(m.at == m.text.len(), 12),
            }
        }
    }
    if let Some(end) = m.ends.last() {
        rt::check(d.more() == (m.pos < *end), 13);
    }
}

/// Any requests on any bytes.
fn c29_any() {
    let n = rt::pick(0, rt::param(0));
    let mut data = Vec::new();
    for _ in 0..n {
        data.push(rt::u8());
    }
    let text = SIGS[rt::pick(rt::param(2), rt::param(3))];
    let be = rt::pick(0, 1) == 1;
    rt::alloc_limit(4096);
    let mut m = Model { be, data: &data, pos: 0, text, at: 0, ends: Vec::new() };
    let mut source = Source { data: &data, chunk: if rt::param(4) == 0 { 1000 } else { 1 } };
    let mut d = if be { Dec::new_be(sig(text), &mut source) } else { Dec::new_le(sig(text), &mut source) };
    for _ in 0..rt::param(1) {
        request(&mut d, &mut m, rt::pick(0, 7));
    }
    rt::cover(1);
    if m.pos > 0 {
        rt::cover(2);
    }
}

/// The requests the signature calls for, on any bytes.
fn c29_right() {
    let n = rt::pick(0, rt::param(0));
    let mut data = Vec::new();
    for _ in 0..n {
        data.push(rt::u8());
    }
    let text = SIGS[rt::pick(rt::param(2), rt::param(3))];
    let be = rt::pick(0, 1) == 1;
    rt::alloc_limit(4096);
    let mut m = Model { be, data: &data, pos: 0, text, at: 0, ends: Vec::new() };
    let mut source = Source { data: &data, chunk: [1, 2, 1000][rt::pick(0, 2)] };
    let mut d = if be { Dec::new_be(sig(text), &mut source) } else { Dec::new_le(sig(text), &mut source) };
    for _ in 0..rt::param(1) {
        let op = match m.text.get(m.at) {
            None => 5,
            Some(_) if m.ends.last().is_some_and(|v| m.pos >= *v) => 4,
            Some(b'q') => 0,
            Some(b's') => 1,
            Some(b'g') => 2,
            _ => 3,
        };
        let before = m.pos;
        request(&mut d, &mut m, op);
        if op == 5 {
            rt::cover(1);
            break;
        } else if op < 3 && m.pos == before {
            // refused: so it is again
            request(&mut d, &mut m, op);
            rt::cover(2);
            break;
        }
    }
}

/// Long texts, alone or in an array, that may be cut off, with an arbitrary
/// byte in one of some places.
fn c29_long() {
    let n = rt::param(0);
    let text = [&b"s"[..], b"as", b"g"][rt::pick(0, if n < 256 { 2 } else { 1 })];
    let be = rt::pick(0, 1) == 1;
    let mut data = Vec::new();
    let mut len = |v: usize| {
        let v = v as u32;
        data.extend_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
    };
    if text.len() > 1 {
        len(n + 5);
    }
    if text == b"g" {
        data.push(n as u8);
    } else {
        len(n);
    }
    let from = data.len();
    data.resize(from + n, b'x');
    let at = from + [0, n / 2, n - 2, n - 1][rt::pick(0, 3)];
    data[at] = rt::u8();
    data.push(rt::u8());
    let cut = rt::pick(0, 2);
    data.truncate(data.len() - cut);
    rt::alloc_limit(4 * n + 4096);
    let mut m = Model { be, data: &data, pos: 0, text, at: 0, ends: Vec::new() };
    let mut source = Source { data: &data, chunk: [100, usize::MAX][rt::pick(0, 1)] };
    let mut d = if be { Dec::new_be(sig(text), &mut source) } else { Dec::new_le(sig(text), &mut source) };
    if text.len() > 1 {
        request(&mut d, &mut m, 3);
    }
    let op = if text == b"g" { 2 } else { 1 };
    let before = m.pos;
    request(&mut d, &mut m, op);
    if m.pos == before {
        request(&mut d, &mut m, op);
        rt::cover(2);
    } else {
        if text.len() > 1 {
            request(&mut d, &mut m, 4);
        }
        request(&mut d, &mut m, 5);
        rt::cover(1);
    }
}

crate::rt::harness!(c29_any, c29_right, c29_long);
