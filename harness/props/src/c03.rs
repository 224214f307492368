//! C03: the JSON push tokenizer starts afresh after an end, an abort or a
//! reset.

use crate::model::push::{ascii, Event, Log};
use crate::rt;
use alloc::vec::Vec;
use core::ops::ControlFlow;
use osi::json::token::{Status, Tokenizer};

fn same(a: &Event, b: &Event) -> bool {
    match (a, b) {
        (Event::Error(a), Event::Error(b)) => a == b,
        (Event::Token(a), Event::Token(b)) => a == b,
        _ => false,
    }
}

/// A tokenizer with a history behaves like a new one.
fn follow(mut k: Tokenizer, flags: u32, t: &[char]) {
    rt::check(k.status() == Status::Done, 1);
    let (mut a, mut b) = (Log::new(), Log::new());
    let mut new = Tokenizer::with_flags(flags);
    for c in t {
        let x = k.push(&mut a, Some(*c));
        let y = new.push(&mut b, Some(*c));
        rt::check(x == y, 2);
    }
    let x = k.push(&mut a, None);
    let y = new.push(&mut b, None);
    rt::check(x == y && x == ControlFlow::Continue(Status::Done), 3);
    rt::check(a.events.len() == b.events.len(), 4);
    for i in 0..a.events.len() {
        rt::check(same(&a.events[i], &b.events[i]), 5);
    }
}

/// Push a first text, which ends in one of the ways, and then a second one.
fn run(first: &[char], flags: u32, second: &[char]) {
    let mut k = Tokenizer::with_flags(flags);
    let mut log = Log::new();
    match rt::pick(0, 2) {
        0 => {
            for c in first {
                rt::check(matches!(k.push(&mut log, Some(*c)), ControlFlow::Continue(s) if s == k.status()), 6);
            }
            rt::check(k.push(&mut log, None) == ControlFlow::Continue(Status::Done), 7);
            rt::cover(1);
        }
        1 => {
            for c in first {
                let _ = k.push(&mut log, Some(*c));
            }
            k.reset();
            rt::cover(2);
        }
        _ => {
            // some report asks for an abort; up to then nothing is different
            log.abort = Some(rt::pick(0, rt::param(2)));
            log.value = rt::u32();
            let mut i = 0;
            loop {
                let c = first.get(i).copied();
                match k.push(&mut log, c) {
                    ControlFlow::Continue(s) => {
                        rt::check(!log.aborted && s == k.status(), 8);
                    }
                    ControlFlow::Break(v) => {
                        rt::check(log.aborted && v == log.value, 9);
                        rt::cover(3);
                        break;
                    }
                }
                if c.is_none() {
                    break;
                }
                i += 1;
            }
        }
    }
    follow(k, flags, second);
}

/// Any two texts.
fn c03_any() {
    let first = ascii(rt::param(0));
    let second = ascii(rt::param(1));
    run(&first, rt::param(3) as u32, &second);
}

const TEXTS: [&str; 10] = [
    "-12.34e+56", "-0", "1e-", "\"ab\\n\\u00e9\"", "\"\\ud83d\\ude00\"", "\"\\ud8", "nul", " \t\n", "[1,{\"a\":2}]", "//x#y\nz=",
];

/// Any place in a text of some kind, and then another text of some kind with
/// any character anywhere.
fn c03_text() {
    let of = |i: usize| -> Vec<char> { TEXTS[i].bytes().map(|b| b as char).collect() };
    let first = of(rt::param(0));
    let n = rt::pick(1, first.len());
    let mut second = of(rt::pick(0, TEXTS.len() - 1));
    let at = rt::pick(0, rt::param(1));
    if at < second.len() {
        second[at] = ascii(1)[0];
    }
    run(&first[..n], rt::param(3) as u32, &second);
}

/// A string call that is aborted leaves nothing behind, and does not go on.
fn c03_calls() {
    let first = crate::model::push::to_str(&ascii(rt::param(0)));
    let mut k = Tokenizer::new();
    let mut log = Log::new();
    log.abort = Some(rt::pick(0, rt::param(2)));
    log.value = rt::u32();
    let v = if rt::pick(0, 1) == 0 { k.push_str(&mut log, &first) } else { k.parse_str(&mut log, &first) };
    if log.aborted {
        rt::check(v == ControlFlow::Break(log.value), 10);
        rt::cover(1);
    } else {
        rt::check(v == ControlFlow::Continue(k.status()), 11);
        k.reset();
        rt::cover(2);
    }
    follow(k, 0, &ascii(rt::param(1)));
}

/// A token larger than what buffers keep, and then any text.
fn c03_large() {
    let (head, fill, tail) = [("\"", 'x', "\""), ("\"\\n", '\u{e9}', ""), ("-1.", '7', "e+5,"), ("n", 'u', " "), (" ", '\t', "0"), ("#", '/', "\n")][rt::param(0)];
    let mut first: Vec<char> = head.chars().collect();
    first.resize(rt::param(1), fill);
    first.extend(tail.chars());
    run(&first, 0, &ascii(2));
}

crate::rt::harness!(c03_any, c03_text, c03_calls, c03_large);
