use crate::rt;
use alloc::string::String;
use osi::str::{some, symbolize};

fn verify(s: &str) {
    let r = symbolize(s);
    rt::check(!r.is_empty(), 1);
    rt::check(!r.chars().next().unwrap().is_numeric(), 2);
    let mut e = String::with_capacity(s.len() + 1);
    match s.chars().next() {
        None => e.push('_'),
        Some(c) if c.is_numeric() => e.push('_'),
        _ => {}
    }
    for c in s.chars() {
        e.push(if c.is_alphanumeric() { c } else { '_' });
    }
    rt::check(r.len() == e.len() && crate::model::util::same_bytes(r.as_bytes(), e.as_bytes()), 3);
    let again = symbolize(&r);
    rt::check(crate::model::util::same_bytes(again.as_bytes(), r.as_bytes()), 4);
    rt::check(some(s).is_none() == s.is_empty(), 5);
    if let Some(v) = some(s) {
        rt::check(v.as_ptr() == s.as_ptr() && v.len() == s.len(), 6);
    }
}

/// ASCII strings of up to `param(0)` characters.
fn c23_ascii() {
    let mut s = String::with_capacity(8);
    for _ in 0..rt::pick(0, rt::param(0)) {
        let c = rt::u8();
        rt::assume(c < 0x80);
        unsafe { s.as_mut_vec().push(c) };
    }
    verify(&s);
    rt::cover(1);
}

/// Characters of every encoded length: letters, digits, other numerals,
/// numerals that are letters, marks, symbols, controls, unassigned.
const ALPHABET: [char; 18] = [
    '0', 'a', '_', ' ', '\0', '\u{85}', '\u{b2}', '\u{e9}', '\u{301}', '\u{663}', '\u{1371}', '\u{2167}',
    '\u{20ac}', '\u{6f22}', '\u{ffff}', '\u{1d400}', '\u{1d7d8}', '\u{10ffff}',
];

/// Mixtures.
fn c23_mixed() {
    let mut s = String::with_capacity(16);
    for _ in 0..rt::pick(0, rt::param(0)) {
        s.push(ALPHABET[rt::pick(0, ALPHABET.len() - 1)]);
    }
    verify(&s);
    rt::cover(1);
}

/// Long strings, with a character of any class at its start and end.
fn c23_long() {
    let mut s = String::new();
    s.push(ALPHABET[rt::pick(0, ALPHABET.len() - 1)]);
    for i in 0..rt::param(0) {
        s.push(ALPHABET[i % ALPHABET.len()]);
    }
    s.push(ALPHABET[rt::pick(0, ALPHABET.len() - 1)]);
    let c = rt::u8();
    rt::assume(c < 0x80);
    s.push(c as char);
    verify(&s);
    rt::cover(1);
}

crate::rt::harness!(c23_long, c23_ascii, c23_mixed);
