//! C04: selection of commands, and their parameters.

use crate::model::args::{deep, examine, flag, leak, letter, name, one, wide, word, Cmd, Ev, Mode, MANY, TREES};
use crate::rt;
use alloc::vec::Vec;

fn run(tree: &[Cmd], argv: &[Vec<u8>]) {
    let w = examine(tree, argv, None);
    if w.result.is_some() {
        rt::cover(1);
    } else {
        rt::cover(2);
    }
    if w.events.iter().any(|e| matches!(e, Ev::Parameter(_, _))) {
        rt::cover(3);
    }
    if w.events.iter().any(|e| matches!(e, Ev::Error(_, _, _))) {
        rt::cover(4);
    }
}

/// Any words.
fn c04_words() {
    let mut argv = Vec::new();
    for _ in 0..rt::param(1) {
        argv.push(word(rt::param(2)));
    }
    run(TREES[rt::param(0)], &argv);
}

/// Words of one byte, with a flag or separator in between.
fn c04_mixed() {
    let n = rt::param(1);
    let at = rt::pick(0, n - 1);
    let mut argv = Vec::new();
    for i in 0..n {
        argv.push(if i == at { flag() } else { one() });
    }
    run(TREES[rt::param(0)], &argv);
}

/// A double dash somewhere, with words and flags before and after it.
fn c04_separator() {
    let mut argv = Vec::new();
    for _ in 0..rt::pick(0, rt::param(1)) {
        argv.push(if rt::pick(0, 1) == 0 { one() } else { flag() });
    }
    argv.push(b"--".to_vec());
    for _ in 0..rt::param(2) {
        argv.push(match rt::pick(0, 2) {
            0 => one(),
            1 => flag(),
            _ => b"--".to_vec(),
        });
    }
    run(TREES[rt::param(0)], &argv);
}

/// Any set of distinct commands.
fn c04_declared() {
    let mut tree: Vec<Cmd> = Vec::new();
    for _ in 0..rt::param(0) {
        let n = rt::pick(0, rt::param(1));
        let mut path: Vec<&'static str> = Vec::new();
        for _ in 0..n {
            path.push(letter(rt::param(2)));
        }
        for c in &tree {
            let differ = c.path.len() != path.len() || (0..n).any(|i| c.path[i].as_bytes()[0] != path[i].as_bytes()[0]);
            rt::assume(differ);
        }
        let path: &'static [&'static str] = leak(path);
        tree.push(Cmd { path, flags: &[("f", Mode::Set), ("g", Mode::Set), ("h", Mode::Set)] });
    }
    let mut argv = Vec::new();
    for _ in 0..rt::param(3) {
        argv.push(one());
    }
    run(&tree, &argv);
}

/// A name out of many, with any byte where they differ.
fn near(len: usize, at: usize) -> Vec<u8> {
    let mut v = name(0, len, at).as_bytes().to_vec();
    v[at] = rt::u8();
    v
}

/// Many commands, with short or long names.
fn c04_wide() {
    let len = rt::param(0);
    let at = [0, len / 2, len - 1][rt::pick(0, 2)];
    let mut argv = alloc::vec![near(len, at)];
    argv.push(match rt::pick(0, 2) {
        0 => one(),
        1 => name(1, len, at).as_bytes().to_vec(),
        _ => near(len, at),
    });
    argv.push(name(2, len, at).as_bytes().to_vec());
    run(&wide(len, at), &argv);
}

/// Commands deep within each other, with and without gaps.
fn c04_deep() {
    let gaps = rt::param(0) == 1;
    let all = if gaps { 2 * MANY } else { MANY };
    let mut argv: Vec<Vec<u8>> = Vec::new();
    for i in 0..rt::pick(0, all) {
        argv.push([b"a", b"b", b"c"][i % 3].to_vec());
    }
    argv.push(one());
    argv.push(b"--f".to_vec());
    argv.push(b"a".to_vec());
    run(&deep(gaps), &argv);
}

/// Many arguments, one of them arbitrary, and possibly a flag in between.
fn c04_many() {
    let n = rt::param(0);
    let mut argv: Vec<Vec<u8>> = Vec::new();
    let at = [0, 1, 2, n / 2, n - 1][rt::pick(0, 4)];
    for i in 0..n {
        if i == n / 2 + 1 {
            argv.push(b"--f".to_vec());
        }
        argv.push(if i == at { one() } else { [b"a", b"b", b"c"][i % 3].to_vec() });
    }
    run(TREES[0], &argv);
}

crate::rt::harness!(c04_words, c04_mixed, c04_separator, c04_declared, c04_wide, c04_deep, c04_many);
