use crate::model::pull::{again, same, some, Lexed};
use crate::rt;
use alloc::vec::Vec;
use core::ops::ControlFlow as Flow;
use tmp::fmt::json::token::Dec;

fn examine(data: &[u8]) {
    let l = Lexed::new(data);
    let mut read = data;
    let mut d = Dec::with(&mut read);
    let mut i = 0;
    loop {
        match d.pop() {
            Flow::Break(_) => break,
            Flow::Continue(t) => {
                if i > 0 && again(&t, l.toks.get(i - 1)) && !again(&t, l.toks.get(i)) {
                    continue;
                }
                rt::check(i < l.early, 1);
                rt::check(same(&t, &l.toks[i], data), 2);
                i += 1;
            }
        }
    }
    rt::check(i == l.early, 3);
    rt::cover(1);
    while let Some(t) = d.complete() {
        rt::check(i < l.toks.len(), 4);
        rt::check(same(&t, &l.toks[i], data), 5);
        i += 1;
        rt::cover(2);
    }
    rt::check(i == l.toks.len(), 6);
    rt::check(d.complete().is_none(), 7);
    rt::check(matches!(d.pop(), Flow::Break(_)), 8);
}

/// Any bytes.
fn c33_any() {
    let n = rt::param(0);
    examine(&some(n));
}

/// Any characters that numbers are made of.
fn c33_number() {
    let d = some(rt::param(0));
    for c in &d {
        let c = *c;
        rt::assume(matches!(c, b'0'..=b'9' | b'+' | b'-' | b'.' | b'e' | b'E' | b','));
    }
    examine(&d);
}

/// Any bytes in a string, which may end in between.
fn c33_string() {
    let mut d: Vec<u8> = b"\"".to_vec();
    d.extend_from_slice(&some(rt::param(0)));
    d.extend_from_slice(b"\" ");
    examine(&d);
}

/// Text, any byte, text, after an escape sequence.
fn c33_mixed() {
    const PARTS: [&[u8]; 6] = [b"", b"a", b"\\n", b"\x01", b"\xc3\xa4", b"\\u0041"];
    let mut d: Vec<u8> = b"\"".to_vec();
    for _ in 0..rt::param(0) {
        d.extend_from_slice(PARTS[rt::pick(0, 5)]);
    }
    d.push(rt::u8());
    for _ in 0..rt::param(1) {
        d.extend_from_slice(PARTS[rt::pick(0, 5)]);
    }
    d.push(b'"');
    examine(&d);
}

/// Any code point escapes, one or two in a row, possibly cut off.
fn c33_unicode() {
    let mut d: Vec<u8> = b"\"x".to_vec();
    for k in 0..rt::param(0) {
        d.extend_from_slice(b"\\u");
        for i in 0..4 {
            let c = rt::u8();
            // letters in either case, and some that are no hex digits
            if k == 0 && rt::param(0) > 1 {
                // the first one of a pair is a surrogate or close to one
                match i {
                    0 => rt::assume(c == b'd' || c == b'D'),
                    1 => rt::assume(matches!(c, b'7'..=b'9' | b'a'..=b'f')),
                    _ => rt::assume(matches!(c, b'0'..=b'9')),
                }
            } else if k > 0 {
                rt::assume(matches!(c, b'0'..=b'9' | b'a'..=b'f' | b'D' | b'"' | b'g'));
            }
            d.push(c);
        }
    }
    d.extend_from_slice(b"y\"");
    let n = rt::pick(0, rt::param(1));
    d.truncate(d.len() - n);
    examine(&d);
}

/// Words and what is close to them.
fn c33_word() {
    const WORDS: [&[u8]; 6] = [b"null", b"true", b"false", b"nul", b"truee", b"True"];
    let mut d: Vec<u8> = WORDS[rt::pick(0, 5)].to_vec();
    let at = rt::pick(0, 5).min(d.len());
    if rt::pick(0, 1) == 0 {
        d.insert(at, rt::u8());
    } else if at < d.len() {
        d[at] = rt::u8();
    }
    if rt::pick(0, 1) == 0 {
        d.push(b']');
    }
    examine(&d);
}

/// A long token of any kind, with an arbitrary byte close to its start, in the
/// middle or at the end, and more after it.
pub fn large(n: usize, kind: usize) -> Vec<u8> {
    const FILL: [u8; 5] = [b' ', b'x', b'7', b'a', b'a'];
    const PARTS: [(&[u8], &[u8]); 5] = [(b" ", b"\t"), (b"x", b"y"), (b"-1", b".5e3"), (b"\"", b"\""), (b"\"\\n", b"\\u0041\"")];
    let (head, tail) = PARTS[kind];
    let mut d = head.to_vec();
    d.resize(n - tail.len(), FILL[kind]);
    d.extend_from_slice(tail);
    d
}

fn c33_large() {
    let n = rt::param(0);
    let mut d = large(n, rt::pick(0, 4));
    let at = [1, n / 2, n - 2, n - 1][rt::pick(0, 3)];
    d[at] = rt::u8();
    d.extend_from_slice(b",\"\\tz\" 1,");
    examine(&d);
}

/// Several long strings one after another.
fn c33_strings() {
    let n = rt::param(0);
    let mut d = Vec::new();
    for _ in 0..2 {
        let s = large(n, rt::pick(3, 4));
        d.extend_from_slice(&s);
    }
    let at = [n + 1, n + n / 2, n + n - 1][rt::pick(0, 2)];
    d[at] = rt::u8();
    examine(&d);
}

crate::rt::harness!(c33_large, c33_strings, c33_any, c33_number, c33_string, c33_mixed, c33_unicode, c33_word);
