//! C01: lexical grammar of the JSON push tokenizer.

use crate::model::push::{ascii, compare, lex, to_str, Log};
use crate::rt;
use alloc::vec::Vec;
use core::ops::ControlFlow;
use osi::json::token::{Status, Tokenizer};

/// Push the text one character at a time, and compare.
fn examine(t: &[char], flags: u32) {
    let l = lex(t, flags);
    let mut log = Log::new();
    let mut k = Tokenizer::with_flags(flags);
    for c in t {
        rt::check(matches!(k.push(&mut log, Some(*c)), ControlFlow::Continue(_)), 20);
    }
    rt::check(matches!(k.push(&mut log, None), ControlFlow::Continue(Status::Done)), 21);
    compare(t, flags, &l, &log.events);
    if l.iter().all(|r| r.good) {
        rt::cover(1);
    } else {
        rt::cover(2);
    }
}

/// Any characters.
fn c01_any() {
    examine(&ascii(rt::param(0)), rt::param(1) as u32);
}

/// Any characters that numbers are made of.
fn c01_number() {
    let t = ascii(rt::param(0));
    for c in &t {
        let c = *c;
        rt::assume(matches!(c, '0'..='9' | '+' | '-' | '.' | 'e' | 'E' | ','));
    }
    examine(&t, rt::param(1) as u32);
}

fn text(s: &str) -> Vec<char> {
    s.bytes().map(|b| b as char).collect()
}

const DOCS: [&str; 4] = [
    "{\"a\":[1,-2.5e+3,null],\"b\\n\":0}",
    " true ,\t\"\\u00e9\\ud83d\\ude00\" : 10E-7\r\n",
    "[[],{},false,\"//#\",-0.0,99]",
    "1 # c\n2 // d\n/ 3 = +4 nulL",
];

/// A document, with any character anywhere.
fn c01_document() {
    let mut t = text(DOCS[rt::param(0)]);
    let at = rt::pick(0, t.len() - 1);
    let b = rt::u8();
    rt::assume(b < 0x80);
    if rt::param(1) == 1 {
        t.insert(at, b as char);
    } else {
        t[at] = b as char;
    }
    examine(&t, rt::param(2) as u32);
}

const WIDE: [char; 22] = [
    '\u{7f}', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{e9}', '\u{660}', '\u{7ff}', '\u{800}', '\u{1680}',
    '\u{2000}', '\u{200b}', '\u{2028}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{feff}',
    '\u{ffff}', '\u{10000}', '\u{10ffff}',
];

/// Characters beyond ASCII among others.
fn c01_wide() {
    let mut t = ascii(rt::param(0));
    let at = rt::pick(0, t.len());
    t.insert(at, WIDE[rt::pick(0, WIDE.len() - 1)]);
    examine(&t, 0);
}

/// A document in pieces.
fn c01_pieces() {
    let t = ascii(rt::param(0));
    let l = lex(&t, 0);
    let s = to_str(&t);
    let mut log = Log::new();
    let mut k = Tokenizer::new();
    let at = rt::pick(0, t.len());
    if rt::pick(0, 1) == 0 {
        rt::check(matches!(k.push_str(&mut log, &s[..at]), ControlFlow::Continue(v) if v == k.status()), 22);
        rt::check(matches!(k.parse_str(&mut log, &s[at..]), ControlFlow::Continue(Status::Done)), 23);
        rt::cover(1);
    } else {
        rt::check(matches!(k.push_str(&mut log, &s[..at]), ControlFlow::Continue(_)), 24);
        rt::check(matches!(k.push_str(&mut log, &s[at..]), ControlFlow::Continue(_)), 25);
        rt::check(matches!(k.push(&mut log, None), ControlFlow::Continue(Status::Done)), 26);
        rt::cover(2);
    }
    rt::check(k.status() == Status::Done, 27);
    compare(&t, 0, &l, &log.events);
}

/// A token larger than what buffers keep, with any character at its end or
/// in its middle, followed by another one.
fn c01_large() {
    let (head, fill, tail) = [("\"", 'x', "\""), ("-1.", '7', "e+5"), ("n", 'u', "ll"), (" ", '\t', " "), ("#", '/', "\n")][rt::param(0)];
    let mut t = text(head);
    t.resize(rt::param(1), fill);
    if rt::pick(0, 1) == 0 {
        t[rt::param(1) / 2] = ascii(1)[0];
    } else {
        t.extend(ascii(1));
    }
    t.extend(text(tail));
    t.extend(text(",\"y\\t\",-2.5E-6 true"));
    examine(&t, 0);
}

crate::rt::harness!(c01_large, c01_any, c01_number, c01_document, c01_wide, c01_pieces);
