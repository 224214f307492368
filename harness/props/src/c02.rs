//! C02: string literals of the JSON push tokenizer.

use crate::model::push::{ascii, compare, lex, Log};
use crate::rt;
use alloc::vec::Vec;
use core::ops::ControlFlow;
use osi::json::token::{Status, Tokenizer};

/// Push a text, and compare.
fn examine(t: &[char]) {
    let l = lex(t, 0);
    let mut log = Log::new();
    let mut k = Tokenizer::new();
    for c in t {
        rt::check(matches!(k.push(&mut log, Some(*c)), ControlFlow::Continue(_)), 20);
    }
    rt::check(matches!(k.push(&mut log, None), ControlFlow::Continue(Status::Done)), 21);
    compare(t, 0, &l, &log.events);
    if l.iter().all(|r| r.good) {
        rt::cover(1);
    } else {
        rt::cover(2);
    }
}

fn text(s: &str) -> Vec<char> {
    s.bytes().map(|b| b as char).collect()
}

/// Any characters in a string, which may end in between.
fn c02_body() {
    let mut t = text("\"");
    t.extend_from_slice(&ascii(rt::param(0)));
    t.push('"');
    examine(&t);
}

/// Any scalar values in a string, none of which ends it.
fn c02_scalar() {
    let mut t = text("\"");
    for _ in 0..rt::param(0) {
        let c = rt::char();
        rt::assume(c != '"');
        t.push(c);
    }
    t.push('"');
    examine(&t);
}

fn hex() -> char {
    let b = rt::u8();
    rt::assume(matches!(b, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'));
    b as char
}

/// An escape with four hexadecimal digits, or with other characters in their
/// place.
fn c02_escape() {
    let mut t = text("\"a\\u");
    let odd = rt::pick(0, 4);
    for i in 0..4 {
        if i == odd {
            t.extend_from_slice(&ascii(1));
        } else {
            t.push(hex());
        }
    }
    t.extend_from_slice(&text("z\""));
    examine(&t);
}

/// A digit that is any of sixteen, or of those with no letter.
fn digit(any: bool) -> char {
    let c = hex();
    rt::assume(any || c <= '9');
    c
}

/// Two adjacent escapes, the first around the surrogates, the second any.
fn c02_pair() {
    let n = rt::param(0);
    let mut t = text("\"\\u");
    t.push(if rt::pick(0, 1) == 0 { 'd' } else { 'D' });
    for i in 1..4 {
        t.push(digit(i < n));
    }
    t.extend_from_slice(&text("\\u"));
    for i in 0..4 {
        t.push(digit(i < n));
    }
    t.push('"');
    examine(&t);
}

const SHAPES: [&str; 8] = [
    "\"\\ud834\\udd1e\"",
    "\"\\ud83d\\ude00\\ud83d\"",
    "\"\\udbff\\udfff\\n\"",
    "\"\\u0041\\\\\\\"\\/\\b\"",
    "\"\\f\\n\\r\\t\\u005c\"",
    "\"\\ud800\\ud800\\udc00\"",
    "\"\\uDC00\\uD800\\n\"",
    "\"a\\ud800b\\udc00\"",
];

/// A string with escapes, with any characters in place of two adjacent ones.
fn c02_shape() {
    let mut t = text(SHAPES[rt::param(0)]);
    let n = rt::param(1);
    let at = rt::pick(1, t.len() - n);
    for i in 0..n {
        t[at + i] = ascii(1)[0];
    }
    examine(&t);
}

crate::rt::harness!(c02_body, c02_scalar, c02_escape, c02_pair, c02_shape);
