use crate::model::pull::{again, same, some, Lexed};
use crate::rt;
use alloc::vec::Vec;
use core::cell::Cell;
use core::ops::ControlFlow as Flow;
use tmp::fmt::json::token::Dec;
use tmp::io::stream::{More, Read};

/// A stream of which only some is there yet.
struct Feed<'a> {
    data: &'a [u8],
    there: &'a Cell<usize>,
    used: &'a Cell<usize>,
    wide: bool,
}

impl Read for Feed<'_> {
    fn advance(&mut self, len: usize) {
        rt::check(self.used.get() + len <= self.there.get(), 1);
        self.used.set(self.used.get() + len);
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        let v = &self.data[self.used.get()..self.there.get()];
        if v.len() < min {
            return Flow::Break(More { min, max });
        }
        let n = if self.wide { v.len() } else { min };
        Flow::Continue(&v[..n])
    }
}

/// Data arriving in up to `most` pieces.
fn examine(data: &[u8], most: usize) {
    feed(data, rt::pick(0, data.len()), most);
}

fn feed(data: &[u8], first: usize, most: usize) {
    let l = Lexed::new(data);
    let there = Cell::new(first);
    let used = Cell::new(0);
    let mut read = Feed { data, there: &there, used: &used, wide: rt::pick(0, 1) == 1 };
    let mut d = Dec::with(&mut read);
    let mut i = 0;
    let mut pieces = 1;
    loop {
        match d.pop() {
            Flow::Break(m) => {
                // nothing of a token that is not complete is gone
                match l.from.get(i) {
                    Some(v) => rt::check(used.get() <= *v, 2),
                    None => rt::check(used.get() <= data.len(), 3),
                }
                let have = there.get() - used.get();
                rt::check(m.min > have, 4);
                rt::check(m.max.is_none_or(|v| v >= m.min), 5);
                if i < l.early {
                    // more tokens are to come without any more data than that
                    rt::check(m.min <= data.len() - used.get(), 6);
                }
                if there.get() == data.len() {
                    break;
                }
                pieces += 1;
                there.set(if pieces < most { rt::pick(there.get() + 1, data.len()) } else { data.len() });
                rt::cover(1);
            }
            Flow::Continue(t) => {
                if i > 0 && again(&t, l.toks.get(i - 1)) && !again(&t, l.toks.get(i)) {
                    continue;
                }
                rt::check(i < l.early, 7);
                rt::check(same(&t, &l.toks[i], data), 8);
                i += 1;
            }
        }
    }
    rt::check(i == l.early, 9);
    while let Some(t) = d.complete() {
        rt::check(i < l.toks.len(), 10);
        rt::check(same(&t, &l.toks[i], data), 11);
        i += 1;
        rt::cover(2);
    }
    rt::check(i == l.toks.len(), 12);
    rt::check(used.get() == data.len(), 13);
}

/// Any bytes.
fn c34_any() {
    examine(&some(rt::param(0)), 100);
}

/// Strings with escapes, one byte arbitrary.
fn c34_string() {
    const TEXTS: [&[u8]; 6] = [b"\"a\\nb\"", b"\"\\u0041\"", b"\"\\ud800\\udc00\"", b"\"\\ud800\\u0041z\"", b"\"\\ud800x\\\"", b"\"\x01\\\"\x01\""];
    let mut d: Vec<u8> = TEXTS[rt::pick(rt::param(0), rt::param(1))].to_vec();
    let at = rt::pick(0, d.len());
    if at < d.len() {
        d[at] = rt::u8();
    }
    examine(&d, rt::param(2));
}

/// Numbers and words, one byte arbitrary.
fn c34_number() {
    const TEXTS: [&[u8]; 5] = [b"-1.5e+2,", b"10,-2", b" null]", b"+-3e++", b"[ 1]"];
    let mut d: Vec<u8> = TEXTS[rt::pick(0, 4)].to_vec();
    let at = rt::pick(0, d.len());
    if at < d.len() {
        d[at] = rt::u8();
    }
    examine(&d, rt::param(0));
}

/// Long tokens in pieces cut at some places.
fn c34_large() {
    const PARTS: [(&[u8], u8, &[u8]); 5] = [(b" ", b' ', b"\t"), (b"x", b'x', b"y"), (b"-1", b'7', b".5e3"), (b"\"", b'a', b"\""), (b"\"\\n", b'a', b"\\u0041\"")];
    let n = rt::param(0);
    let (head, fill, tail) = PARTS[rt::pick(0, 4)];
    let mut d = head.to_vec();
    d.resize(n - tail.len(), fill);
    d.extend_from_slice(tail);
    let at = [1, n / 2, n - 1][rt::pick(0, 2)];
    d[at] = rt::u8();
    d.extend_from_slice(b",\"\\tz\" 1,");
    let first = [1, n / 2, n - 1, n, n + 3][rt::pick(0, 4)];
    feed(&d, first, 2);
}

crate::rt::harness!(c34_large, c34_any, c34_string, c34_number);
