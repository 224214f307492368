//! C07: help.

use crate::model::args::{leak, letter, mode, Mode, MANY};
use crate::model::util::same_bytes;
use crate::rt;
use alloc::vec::Vec;
use core::ops::ControlFlow;
use osi::args::{self, help};
use osi::compat::OsStr;

#[derive(Clone)]
enum Row {
    Info(Vec<u8>),
    Section(&'static [u8]),
    Usage(Vec<u8>, Vec<&'static str>),
    Flag(&'static str, u8, Option<u8>, usize),
    Command(&'static str, Option<u8>, usize),
}

struct Page {
    rows: Vec<Row>,
    fail: Option<usize>,
    value: u32,
    failed: bool,
}

fn fixed(s: &str) -> &'static [u8] {
    let all: [&'static [u8]; 3] = [b"Usage", b"Flags", b"Commands"];
    for v in all {
        if same_bytes(v, s.as_bytes()) {
            return v;
        }
    }
    rt::check(false, 20);
    b""
}

fn name_of(s: &str) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(leak(s.as_bytes().to_vec())) }
}

impl Page {
    fn put(&mut self, r: Row) -> ControlFlow<u32> {
        rt::check(!self.failed, 21);
        if self.fail == Some(self.rows.len()) {
            self.failed = true;
            return ControlFlow::Break(self.value);
        }
        self.rows.push(r);
        ControlFlow::Continue(())
    }
}

fn number(m: &args::FlagMode) -> u8 {
    match m {
        args::FlagMode::Set => 0,
        args::FlagMode::Toggle => 1,
        args::FlagMode::Parse => 2,
    }
}

impl help::Write<u32> for Page {
    fn write_info(&mut self, info: &str) -> ControlFlow<u32> {
        self.put(Row::Info(info.as_bytes().to_vec()))
    }
    fn write_section(&mut self, section: &str) -> ControlFlow<u32> {
        self.put(Row::Section(fixed(section)))
    }
    fn write_usage(&mut self, entry: &str, path: &[&str]) -> ControlFlow<u32> {
        self.put(Row::Usage(entry.as_bytes().to_vec(), path.iter().map(|v| name_of(v)).collect()))
    }
    fn write_flag(&mut self, flag: &str, m: args::FlagMode, info: Option<&str>, width: usize) -> ControlFlow<u32> {
        self.put(Row::Flag(name_of(flag), number(&m), info.map(|v| v.as_bytes()[0]), width))
    }
    fn write_command(&mut self, command: &str, info: Option<&str>, width: usize) -> ControlFlow<u32> {
        self.put(Row::Command(name_of(command), info.map(|v| v.as_bytes()[0]), width))
    }
}

fn same(a: &Row, b: &Row) -> bool {
    let t = |a: &str, b: &str| same_bytes(a.as_bytes(), b.as_bytes());
    match (a, b) {
        (Row::Info(a), Row::Info(b)) => same_bytes(a, b),
        (Row::Section(a), Row::Section(b)) => same_bytes(a, b),
        (Row::Usage(a, p), Row::Usage(b, q)) => {
            same_bytes(a, b) && p.len() == q.len() && (0..p.len()).all(|i| t(p[i], q[i]))
        }
        (Row::Flag(a, m, i, w), Row::Flag(b, n, k, v)) => t(a, b) && m == n && i == k && w == v,
        (Row::Command(a, i, w), Row::Command(b, k, v)) => t(a, b) && i == k && w == v,
        _ => false,
    }
}

#[derive(Clone)]
struct Dec {
    path: Vec<&'static str>,
    flags: Vec<(&'static str, Mode, Option<u8>)>,
    info: Option<u8>,
}

fn below(a: &[&'static str], b: &[&'static str]) -> bool {
    a.len() < b.len() && (0..a.len()).all(|i| same_bytes(a[i].as_bytes(), b[i].as_bytes()))
}

fn before(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut i = 0;
    loop {
        if i == a.len() || i == b.len() {
            return a.len() < b.len();
        }
        if a[i] != b[i] {
            return a[i] < b[i];
        }
        i += 1;
    }
}

/// Characters of a name.
fn chars(s: &str) -> usize {
    s.as_bytes().iter().filter(|v| **v & 0xc0 != 0x80).count()
}

fn sorted<T: Clone>(v: &[T], key: impl Fn(&T) -> &'static str) -> Vec<T> {
    let mut out: Vec<T> = Vec::new();
    for x in v {
        let mut i = 0;
        while i < out.len() && before(key(&out[i]), key(x)) {
            i += 1;
        }
        out.insert(i, x.clone());
    }
    out
}

fn expected(all: &[Dec], at: usize, entry: &[u8], info: &[u8]) -> Vec<Row> {
    let d = &all[at];
    let mut out = Vec::new();
    out.push(Row::Info(info.to_vec()));
    out.push(Row::Section(b"Usage"));
    out.push(Row::Usage(entry.to_vec(), d.path.clone()));
    if d.flags.len() > 0 {
        out.push(Row::Section(b"Flags"));
        let w = d.flags.iter().map(|f| chars(f.0)).max().unwrap();
        for f in sorted(&d.flags, |f| f.0) {
            out.push(Row::Flag(f.0, number(&mode(f.1)), f.2, w));
        }
    }
    let subs: Vec<(&'static str, Option<u8>)> = all
        .iter()
        .filter(|c| c.path.len() == d.path.len() + 1 && below(&d.path, &c.path))
        .map(|c| (c.path[d.path.len()], c.info))
        .collect();
    if subs.len() > 0 {
        out.push(Row::Section(b"Commands"));
        let w = subs.iter().map(|s| chars(s.0)).max().unwrap();
        for s in sorted(&subs, |s| s.0) {
            out.push(Row::Command(s.0, s.1, w));
        }
    }
    out
}

fn one_text(v: Option<u8>) -> Option<&'static str> {
    v.map(|b| unsafe { core::str::from_utf8_unchecked(leak([b])) })
}

fn build(all: &[Dec], h: &'static help::Help<'static>) -> &'static mut args::Schema<'static, 'static, u32> {
    let c = |i: usize| {
        let d = &all[i];
        let f = |k: usize| {
            let (n, m, i) = d.flags[k];
            let report: &'static mut dyn args::FlagReport<'static, u32> =
                if n == "help" { leak(h.flag()) } else { leak(false) };
            args::Flag::with(n, mode(m), report, one_text(i))
        };
        let set = match d.flags.len() {
            0 => leak(args::FlagSet::with([])).as_mut(),
            1 => leak(args::FlagSet::with([f(0)])).as_mut(),
            2 => leak(args::FlagSet::with([f(0), f(1)])).as_mut(),
            3 => leak(args::FlagSet::with([f(0), f(1), f(2)])).as_mut(),
            n => {
                assert!(n == MANY);
                leak(args::FlagSet::with(core::array::from_fn::<_, MANY, _>(f))).as_mut()
            }
        };
        args::Command::with(leak(d.path.clone()), leak(()), set, one_text(d.info))
    };
    let set = match all.len() {
        1 => leak(args::CommandSet::with([c(0)])).as_mut(),
        2 => leak(args::CommandSet::with([c(0), c(1)])).as_mut(),
        3 => leak(args::CommandSet::with([c(0), c(1), c(2)])).as_mut(),
        4 => leak(args::CommandSet::with([c(0), c(1), c(2), c(3)])).as_mut(),
        5 => leak(args::CommandSet::with([c(0), c(1), c(2), c(3), c(4)])).as_mut(),
        n => {
            assert!(n == MANY);
            leak(args::CommandSet::with(core::array::from_fn::<_, MANY, _>(c))).as_mut()
        }
    };
    leak(args::Schema::with(set))
}

/// Descriptions: for all, for none, or for every other.
struct Infos(usize, usize);

impl Infos {
    fn new() -> Self {
        Infos(rt::pick(0, 2), 0)
    }
    fn next(&mut self) -> Option<u8> {
        self.1 += 1;
        if self.0 == 0 || self.0 == 1 && self.1 % 2 == 0 {
            None
        } else {
            Some(rt::range(0x20, 0x7e) as u8)
        }
    }
}

/// Ask for help on the command of number `at`, and compare.
fn examine(all: &[Dec], at: usize, argv: &[&'static str], asked: bool, fail: Option<usize>) {
    let text = leak([rt::range(0x20, 0x7e) as u8, b'i']);
    let entry = leak([rt::range(0x20, 0x7e) as u8, b'e']);
    let as_str = |v: &'static [u8]| unsafe { core::str::from_utf8_unchecked(v) };
    let h: &'static help::Help<'static> = leak(help::Help::with(as_str(entry), as_str(text)));
    let schema = build(all, h);
    let argv: &'static [&'static str] = leak(argv.to_vec());
    struct Strict;
    impl args::ParserReport<'static, u32> for Strict {
        fn report_error(
            &mut self,
            _c: &mut args::ParserContext<'_, 'static, u32>,
            _e: args::Error<'static>,
        ) -> ControlFlow<u32> {
            rt::check(false, 22);
            ControlFlow::Continue(())
        }
    }
    let _ = args::parse(&mut Strict, schema, &mut argv.iter().map(|v| OsStr::from_str(v)));
    for turn in 0..2 {
        let mut page = Page { rows: Vec::new(), fail, value: rt::u32(), failed: false };
        let r = if turn == 0 { h.help(&mut page, schema) } else { h.try_help(&mut page, schema) };
        if !asked {
            rt::check(matches!(r, Ok(false)) && page.rows.is_empty() && !page.failed, 23);
            continue;
        }
        let want = expected(all, at, entry, text);
        let n = match fail {
            Some(k) if k < want.len() => {
                rt::check(page.failed && matches!(r, Err(v) if v == page.value), 24);
                rt::cover(2);
                k
            }
            _ => {
                rt::check(matches!(r, Ok(true)), 25);
                rt::cover(1);
                want.len()
            }
        };
        rt::check(page.rows.len() == n, 26);
        for i in 0..n {
            rt::check(same(&page.rows[i], &want[i]), 27);
        }
    }
}

const NAMES: [&str; 6] = ["b", "aa", "a", "\u{e4}\u{e4}\u{e4}", "ab", "c\u{1f600}"];

/// Any commands with paths over a few letters, help asked for on any of them.
fn c07_tree() {
    let n = rt::param(0);
    let mut infos = Infos::new();
    let mut info = || infos.next();
    let mut all: Vec<Dec> = Vec::new();
    for _ in 0..n {
        let len = rt::pick(0, rt::param(1));
        let path: Vec<&'static str> = (0..len).map(|_| letter(rt::param(2))).collect();
        for c in &all {
            let differ = c.path.len() != len || (0..len).any(|i| c.path[i].as_bytes()[0] != path[i].as_bytes()[0]);
            rt::assume(differ);
        }
        all.push(Dec { path, flags: alloc::vec![("help", Mode::Set, info())], info: info() });
    }
    let at = rt::pick(0, n - 1);
    let mut argv = all[at].path.clone();
    argv.push("--help");
    examine(&all, at, &argv, true, None);
}

/// Names of different lengths, any number of flags, any failing write.
fn c07_rows() {
    let mut infos = Infos::new();
    let mut info = || infos.next();
    let mut all: Vec<Dec> = Vec::new();
    let mut flags = alloc::vec![("help", Mode::Toggle, info())];
    let modes = [Mode::Set, Mode::Toggle, Mode::Parse];
    let first = rt::pick(0, 4);
    let own = rt::pick(0, 2);
    let longer = ["f", "\u{e4}\u{e4}\u{e4}\u{e4}\u{e4}"];
    for i in 0..own {
        flags.push((longer[(i + first) % 2], modes[(i + first) % 3], info()));
    }
    all.push(Dec { path: alloc::vec!["x"], flags, info: info() });
    let subs = rt::pick(0, 3);
    for i in 0..subs {
        all.push(Dec { path: alloc::vec!["x", NAMES[(first + i) % 6]], flags: Vec::new(), info: info() });
    }
    all.push(Dec { path: alloc::vec!["xy"], flags: Vec::new(), info: None });
    let fail = if rt::pick(0, 1) == 1 { Some(rt::pick(0, 10)) } else { None };
    examine(&all, 0, &["x", "--help"], true, fail);
}

/// A name of `n` characters, of one to four bytes each.
fn long(i: usize, n: usize) -> &'static str {
    let mut s = alloc::string::String::new();
    s.push((b'A' + i as u8) as char);
    for k in 1..n {
        s.push(['x', '\u{e4}', '\u{20ac}', '\u{1f600}'][(i + k) % 4]);
    }
    leak(s)
}

/// Many commands and flags with long names.
fn c07_large() {
    let n = rt::param(0);
    let mut infos = Infos::new();
    let mut info = || infos.next();
    let modes = [Mode::Set, Mode::Toggle, Mode::Parse];
    let widest = rt::pick(0, 3) * 13;
    let len = |i: usize| if i == widest { n } else { n - 1 - i % 7 };
    let order = |k: usize| k * 7 % MANY;
    let mut flags: Vec<_> = (0..MANY).map(|k| (long(order(k), len(order(k))), modes[k % 3], None)).collect();
    flags[5] = ("help", Mode::Set, info());
    let mut all: Vec<Dec> = Vec::new();
    for k in 0..MANY {
        let i = order(k);
        let path = match i % 4 {
            1 => alloc::vec!["x", long(i, len(i)), "y"],
            _ => alloc::vec!["x", long(i, len(i))],
        };
        all.push(Dec { path, flags: Vec::new(), info: if i % 5 == 0 { info() } else { None } });
    }
    let at = 9;
    all[at] = Dec { path: alloc::vec!["x"], flags, info: info() };
    all[MANY - 1].path = alloc::vec!["w", "x"];
    let fail = [None, Some(0), Some(30), Some(50), Some(60)][rt::pick(0, 4)];
    examine(&all, at, &["x", "--help"], true, fail);
}

/// Which command help is shown for, and whether it is.
fn c07_asked() {
    let mut infos = Infos::new();
    let mut info = || infos.next();
    let f = || alloc::vec![("help", Mode::Toggle, None), ("v", Mode::Set, None)];
    let all = alloc::vec![
        Dec { path: alloc::vec!["a", "b"], flags: alloc::vec![("w", Mode::Set, None)], info: None },
        Dec { path: Vec::new(), flags: f(), info: info() },
        Dec { path: alloc::vec!["a"], flags: alloc::vec![("u", Mode::Set, info())], info: info() },
        Dec { path: alloc::vec!["c", "d"], flags: f(), info: info() },
    ];
    let mut at = None;
    let mut cur = 1;
    let mut argv = Vec::new();
    let lists: [&[(&'static str, usize)]; 2] = [&[("a", 2), ("b", 0)], &[("c", 1), ("d", 3)]];
    for i in 0..3 {
        match rt::pick(0, 3) {
            0 => {}
            1 => {
                argv.push("--help");
                at = Some(cur);
            }
            2 => {
                argv.push("--no-help");
                at = None;
            }
            _ => argv.push("--v"),
        }
        if i < 2 {
            let (name, next) = lists[rt::param(0)][i];
            argv.push(name);
            cur = next;
        }
    }
    examine(&all, at.unwrap_or(0), &argv, at.is_some(), None);
    if at.is_none() {
        rt::cover(3);
    }
}

crate::rt::harness!(c07_tree, c07_rows, c07_asked, c07_large);
