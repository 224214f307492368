//! C05: flags.

use crate::model::args::{deep, examine, flag, leak, letter, one, word, Cmd, Ev, Fault, Flags, Mode, Path, MANY, TREES};
use crate::model::args;
use crate::rt;
use alloc::vec::Vec;

fn run(tree: &[Cmd], argv: &[Vec<u8>]) {
    let w = examine(tree, argv, None);
    for e in &w.events {
        match e {
            Ev::Set(_, _) => rt::cover(1),
            Ev::Toggle(_, _, true) => rt::cover(2),
            Ev::Toggle(_, _, false) => rt::cover(3),
            Ev::Parse(_, _, _) => rt::cover(4),
            Ev::Error(Fault::FlagUnknown, _, _) => rt::cover(5),
            Ev::Error(Fault::Toggle, _, _) => rt::cover(6),
            Ev::Error(Fault::Value, _, _) => rt::cover(7),
            Ev::Error(Fault::NoValue, _, _) => rt::cover(8),
            _ => {}
        }
    }
}

/// Flags below a path of commands, and any word after them.
fn c05_path() {
    let mut argv = Vec::new();
    for _ in 0..rt::pick(0, rt::param(1)) {
        argv.push(letter(3).as_bytes().to_vec());
    }
    for _ in 0..rt::param(2) {
        argv.push(flag());
    }
    if rt::param(3) > 0 {
        argv.push(word(rt::param(3)));
    }
    run(TREES[rt::param(0)], &argv);
}

/// Flags and words in any order.
fn c05_order() {
    let mut argv = Vec::new();
    for _ in 0..rt::param(1) {
        argv.push(match rt::pick(0, 2) {
            0 => flag(),
            1 => one(),
            _ => b"--v".to_vec(),
        });
    }
    run(TREES[rt::param(0)], &argv);
}

fn name(n: usize) -> &'static str {
    let l = letter(n);
    if rt::pick(0, 1) == 0 {
        l
    } else {
        let mut v = b"no-".to_vec();
        v.push(l.as_bytes()[0]);
        unsafe { core::str::from_utf8_unchecked(leak(v)) }
    }
}

fn any_mode() -> Mode {
    match rt::pick(0, 2) {
        0 => Mode::Set,
        1 => Mode::Toggle,
        _ => Mode::Parse,
    }
}

/// Any distinct names, on a command and one below it.
fn c05_named() {
    let two = rt::param(0) == 2;
    let mut flags = [("x", Mode::Set); 6];
    for i in 0..rt::param(1) {
        let f = name(rt::param(2));
        let at = if two { i % 2 * 3 + i / 2 } else { i };
        for k in 0..i {
            let other = if two { k % 2 * 3 + k / 2 } else { k };
            if !two || other / 3 == at / 3 {
                let o = flags[other].0;
                rt::assume(o.len() != f.len() || o.as_bytes()[o.len() - 1] != f.as_bytes()[f.len() - 1]);
            }
        }
        flags[at] = (f, any_mode());
    }
    // names for the rest that are never given
    let spare = ["!a", "zz", "m~"];
    for i in 0..6 {
        if flags[i].0 == "x" {
            flags[i].0 = spare[i % 3];
        }
    }
    let root = Cmd { path: &[], flags: leak([flags[0], flags[1], flags[2]]) };
    let sub = Cmd { path: &["s"], flags: leak([flags[3], flags[4], flags[5]]) };
    let mut argv = Vec::new();
    if two && rt::pick(0, 1) == 1 {
        argv.push(b"s".to_vec());
    }
    let mut v = b"--".to_vec();
    v.extend_from_slice(name(rt::param(2)).as_bytes());
    if rt::pick(0, 1) == 1 {
        v.push(b'=');
        v.push(rt::u8());
    }
    argv.push(v);
    if rt::pick(0, 1) == 1 {
        argv.push(one());
    }
    if two {
        run(&[sub, root], &argv);
    } else {
        run(&[root], &argv);
    }
}

/// Many flags with short or long names, on a command and one below it, one of
/// them given with an arbitrary byte somewhere in its name, and in its value.
fn c05_wide() {
    let len = rt::param(0);
    let at = [0, len / 2, len - 1][rt::pick(0, 2)];
    let many = |first: usize| -> Flags {
        let all: Vec<_> = (0..MANY)
            .map(|k| {
                let i = k * 7 % MANY;
                (args::name(i + first, len, at), [Mode::Set, Mode::Toggle, Mode::Parse][(i + first) % 3])
            })
            .collect();
        leak(all)
    };
    let path: Path = &["s"];
    let tree = [Cmd { path, flags: many(2) }, Cmd { path: &[], flags: many(0) }];
    let mut argv = Vec::new();
    if rt::pick(0, 1) == 1 {
        argv.push(b"s".to_vec());
    }
    let mut v = b"--".to_vec();
    if rt::pick(0, 1) == 1 {
        v.extend_from_slice(b"no-");
    }
    let start = v.len();
    v.extend_from_slice(args::name(0, len, at).as_bytes());
    v[start + at] = rt::u8();
    if rt::pick(0, 1) == 1 {
        v.push(b'=');
        v.resize(v.len() + len, b'v');
        v.push(rt::u8());
        v.resize(v.len() + len, b'=');
    }
    argv.push(v);
    argv.push(one());
    run(&tree, &argv);
}

/// Flags of commands deep within each other.
fn c05_deep() {
    let gaps = rt::param(0) == 1;
    let all = if gaps { 2 * MANY } else { MANY };
    let mut argv: Vec<Vec<u8>> = Vec::new();
    for i in 0..[2, all / 2, all - 2, all - 1, all][rt::pick(0, 4)] {
        argv.push([b"a", b"b", b"c"][i % 3].to_vec());
    }
    argv.push(flag());
    run(&deep(gaps), &argv);
}

/// Many flags given in a row.
fn c05_many() {
    let n = rt::param(0);
    let mut argv: Vec<Vec<u8>> = Vec::new();
    let at = [0, n / 2, n - 1][rt::pick(0, 2)];
    for i in 0..n {
        argv.push(if i == at { flag() } else { [&b"--f"[..], b"--no-t", b"--v=x", b"--v"][i % 4].to_vec() });
    }
    run(TREES[rt::param(1)], &argv);
}

crate::rt::harness!(c05_path, c05_order, c05_named, c05_wide, c05_deep, c05_many);
