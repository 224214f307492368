//! Command line semantics, as the layout of program arguments documents them.

use crate::model::util::same_bytes;
use crate::rt;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::cell::RefCell;
use core::ops::ControlFlow;
use osi::args;
use osi::compat::OsStr;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Set,
    Toggle,
    Parse,
}

pub type Path = &'static [&'static str];
pub type Flags = &'static [(&'static str, Mode)];

/// A declared command with its flags.
#[derive(Clone, Copy)]
pub struct Cmd {
    pub path: Path,
    pub flags: Flags,
}

const fn cmd(path: Path, flags: Flags) -> Cmd {
    Cmd { path, flags }
}

use Mode::{Parse, Set, Toggle};

pub const F1: Flags = &[("v", Parse), ("f", Set), ("t", Toggle)];
pub const F2: Flags = &[("f", Toggle), ("w", Parse), ("v", Set)];
pub const F3: Flags = &[("t", Parse), ("x", Toggle), ("f", Parse)];
pub const F4: Flags = &[("z", Set), ("x", Parse), ("y", Toggle)];
pub const F5: Flags = &[("no-f", Set), ("f", Toggle), ("fv", Parse)];
pub const F6: Flags = &[("r", Toggle), ("p", Parse), ("q", Set)];

/// How many commands or flags there are in large layouts.
pub const MANY: usize = 40;

pub const TREES: [&[Cmd]; 9] = [
    // a root, and everything in between
    &[cmd(&["a", "c"], F3), cmd(&[], F1), cmd(&["b"], F4), cmd(&["a", "b"], F2), cmd(&["a"], F4)],
    // neither a root nor everything in between
    &[cmd(&["b"], F4), cmd(&["a", "b", "c"], F3), cmd(&["a", "b"], F1)],
    // a root, but nothing in between
    &[cmd(&["a", "b", "d"], F3), cmd(&[], F1), cmd(&["a", "b", "c"], F4)],
    // names that start with other names
    &[cmd(&["aa", "b"], F1), cmd(&["a", "a", "a"], F3), cmd(&["aa"], F4), cmd(&["a", "a"], F2), cmd(&["a"], F1)],
    // nothing above
    &[cmd(&["a", "ab"], F2), cmd(&["a", "b"], F3), cmd(&["ab"], F1)],
    // just a root
    &[cmd(&[], F5)],
    // nothing
    &[],
    // many
    &[
        cmd(&["c"], F4), cmd(&["b", "a"], F3), cmd(&["a", "c"], F1), cmd(&["b"], F2), cmd(&[], F1),
        cmd(&["a", "b"], F3), cmd(&["a"], F5),
    ],
    // a gap below a command
    &[cmd(&["a"], F1), cmd(&["a", "b", "c"], F2), cmd(&["c", "a"], F3)],
];

#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    Shorts,
    FlagUnknown,
    Toggle,
    Value,
    NoValue,
    ValueNotUtf8,
    Parameter,
    ParameterNotUtf8,
    Other,
}

/// Something that is delivered; commands are numbered as declared.
#[derive(Clone)]
pub enum Ev {
    Parameter(usize, Vec<u8>),
    End(usize),
    Set(usize, usize),
    Toggle(usize, usize, bool),
    Parse(usize, usize, Vec<u8>),
    Error(Fault, Vec<u8>, Vec<u8>),
}

pub fn same(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Parameter(a, x), Ev::Parameter(b, y)) => a == b && same_bytes(x, y),
        (Ev::End(a), Ev::End(b)) => a == b,
        (Ev::Set(a, i), Ev::Set(b, k)) => a == b && i == k,
        (Ev::Toggle(a, i, x), Ev::Toggle(b, k, y)) => a == b && i == k && x == y,
        (Ev::Parse(a, i, x), Ev::Parse(b, k, y)) => a == b && i == k && same_bytes(x, y),
        (Ev::Error(a, x, s), Ev::Error(b, y, t)) => a == b && same_bytes(x, y) && same_bytes(s, t),
        _ => false,
    }
}

/// How far a byte string is UTF-8.
pub fn text_len(b: &[u8]) -> usize {
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let more = |i: usize| at(i) & 0xc0 == 0x80;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let d = at(i + 1);
        i += if c < 0x80 {
            1
        } else if c >= 0xc2 && c <= 0xdf && more(i + 1) {
            2
        } else if c >= 0xe0
            && c <= 0xef
            && more(i + 1)
            && more(i + 2)
            && !(c == 0xe0 && d < 0xa0)
            && !(c == 0xed && d > 0x9f)
        {
            3
        } else if c >= 0xf0
            && c <= 0xf4
            && more(i + 1)
            && more(i + 2)
            && more(i + 3)
            && !(c == 0xf0 && d < 0x90)
            && !(c == 0xf4 && d > 0x8f)
        {
            4
        } else {
            return i;
        };
    }
    i
}

/// What is expected of a command line.
pub struct Want {
    pub events: Vec<Ev>,
    /// For every event, the command in effect.
    pub current: Vec<Option<usize>>,
    pub result: Option<usize>,
    /// Flags whose given name is not text, and reported with or without its
    /// dashes.
    pub odd: Vec<usize>,
}

fn starts(path: Path, sel: &[&[u8]]) -> bool {
    path.len() >= sel.len() && sel.iter().enumerate().all(|(i, w)| same_bytes(path[i].as_bytes(), w))
}

impl Want {
    pub fn new(tree: &[Cmd], argv: &[&[u8]]) -> Self {
        let mut w = Want { events: Vec::new(), current: Vec::new(), result: None, odd: Vec::new() };
        let mut sel: Vec<&[u8]> = Vec::new();
        let (mut commands, mut flags) = (true, true);
        let mut i = 0;
        let exact = |sel: &[&[u8]]| {
            (0..tree.len()).find(|c| tree[*c].path.len() == sel.len() && starts(tree[*c].path, sel))
        };
        while i < argv.len() {
            let a = argv[i];
            i += 1;
            let cur = (0..=sel.len()).rev().find_map(|n| exact(&sel[..n]));
            if flags && a.len() >= 2 && a[0] == b'-' && a[1] == b'-' {
                if a.len() == 2 {
                    commands = false;
                    flags = false;
                    continue;
                }
                let mut eq = 2;
                while eq < a.len() && a[eq] != b'=' {
                    eq += 1;
                }
                let name = &a[2..eq];
                let value = if eq < a.len() { Some(&a[eq + 1..]) } else { None };
                if text_len(name) != name.len() {
                    w.odd.push(w.events.len());
                    w.put(cur, Ev::Error(Fault::FlagUnknown, name.to_vec(), Vec::new()));
                    continue;
                }
                let find = |name: &[u8]| {
                    (0..=sel.len()).rev().find_map(|n| {
                        let c = exact(&sel[..n])?;
                        (0..tree[c].flags.len()).find(|f| same_bytes(tree[c].flags[*f].0.as_bytes(), name)).map(|f| (c, f))
                    })
                };
                let mut neg = false;
                let mut hit = find(name);
                if hit.is_none() && name.len() >= 3 && same_bytes(&name[..3], b"no-") {
                    neg = true;
                    hit = find(&name[3..]);
                }
                let fault = |f, v: &[u8]| Ev::Error(f, name.to_vec(), v.to_vec());
                let ev = match hit {
                    None => fault(Fault::FlagUnknown, &[]),
                    Some((c, f)) => match (tree[c].flags[f].1, neg, value) {
                        (Set | Parse, true, _) => fault(Fault::Toggle, &[]),
                        (Set | Toggle, _, Some(v)) => fault(Fault::Value, v),
                        (Set, _, None) => Ev::Set(c, f),
                        (Toggle, _, None) => Ev::Toggle(c, f, !neg),
                        (Parse, _, Some(v)) => Ev::Parse(c, f, v.to_vec()),
                        (Parse, _, None) => {
                            if i < argv.len() {
                                i += 1;
                                Ev::Parse(c, f, argv[i - 1].to_vec())
                            } else {
                                fault(Fault::NoValue, &[])
                            }
                        }
                    },
                };
                w.put(cur, ev);
                continue;
            }
            if flags && a.len() >= 2 && a[0] == b'-' {
                w.put(cur, Ev::Error(Fault::Shorts, a[1..].to_vec(), Vec::new()));
                continue;
            }
            if commands {
                sel.push(a);
                if (0..tree.len()).any(|c| starts(tree[c].path, &sel)) {
                    continue;
                }
                sel.pop();
                commands = false;
            }
            match exact(&sel) {
                Some(c) => w.put(cur, Ev::Parameter(c, a.to_vec())),
                None => w.put(cur, Ev::Error(Fault::Parameter, a.to_vec(), Vec::new())),
            }
        }
        w.result = exact(&sel);
        if let Some(c) = w.result {
            w.put(Some(c), Ev::End(c));
        }
        w
    }

    fn put(&mut self, cur: Option<usize>, e: Ev) {
        self.events.push(e);
        self.current.push(cur);
    }
}

/// What was delivered.
pub struct Log {
    pub events: Vec<Ev>,
    /// For flags, the position of the command in effect, and the name given.
    pub context: Vec<Option<(usize, Vec<u8>)>>,
    pub abort: Option<usize>,
    pub value: u32,
    pub aborted: bool,
}

pub type Shared = &'static RefCell<Log>;

pub fn leak<T>(v: T) -> &'static mut T {
    Box::leak(Box::new(v))
}

pub fn log() -> Shared {
    leak(RefCell::new(Log { events: Vec::new(), context: Vec::new(), abort: None, value: 0, aborted: false }))
}

impl Log {
    fn put(&mut self, e: Ev, c: Option<(usize, Vec<u8>)>) -> ControlFlow<u32> {
        rt::check(!self.aborted, 50);
        if self.abort == Some(0) {
            self.aborted = true;
            return ControlFlow::Break(self.value);
        }
        self.abort = self.abort.map(|v| v - 1);
        self.events.push(e);
        self.context.push(c);
        ControlFlow::Continue(())
    }
}

/// A target that notes everything.
pub struct Tap {
    pub log: Shared,
    pub cmd: usize,
    pub flag: usize,
}

fn bytes(v: &OsStr) -> Vec<u8> {
    v.as_encoded_bytes().to_vec()
}

pub fn fault(e: &args::Error<'_>) -> Ev {
    let none = Vec::new();
    match e {
        args::Error::ShortsUnknown { shorts } => Ev::Error(Fault::Shorts, bytes(shorts), none),
        args::Error::FlagUnknown { flag } => Ev::Error(Fault::FlagUnknown, bytes(flag), none),
        args::Error::FlagUnexpectedToggle { flag } => Ev::Error(Fault::Toggle, bytes(flag), none),
        args::Error::FlagUnexpectedValue { flag, value } => Ev::Error(Fault::Value, bytes(flag), bytes(value)),
        args::Error::FlagNoValue { flag } => Ev::Error(Fault::NoValue, bytes(flag), none),
        args::Error::FlagValueNotUtf8 { flag, value } => Ev::Error(Fault::ValueNotUtf8, bytes(flag), bytes(value)),
        args::Error::ParameterUnexpected { parameter } => Ev::Error(Fault::Parameter, bytes(parameter), none),
        args::Error::ParameterNotUtf8 { parameter } => Ev::Error(Fault::ParameterNotUtf8, bytes(parameter), none),
        _ => Ev::Error(Fault::Other, none.clone(), none),
    }
}

impl<'a> args::FlagReport<'a, u32> for Tap {
    fn report_set(&mut self, c: &mut args::FlagContext<'_, 'a, u32>) -> ControlFlow<u32> {
        let at = (c.command_current(), bytes(c.flag_arg()));
        self.log.borrow_mut().put(Ev::Set(self.cmd, self.flag), Some(at))
    }

    fn report_toggle(&mut self, c: &mut args::FlagContext<'_, 'a, u32>, value: bool) -> ControlFlow<u32> {
        let at = (c.command_current(), bytes(c.flag_arg()));
        self.log.borrow_mut().put(Ev::Toggle(self.cmd, self.flag, value), Some(at))
    }

    fn report_parse(&mut self, c: &mut args::FlagContext<'_, 'a, u32>, value: &'a OsStr) -> ControlFlow<u32> {
        let at = (c.command_current(), bytes(c.flag_arg()));
        self.log.borrow_mut().put(Ev::Parse(self.cmd, self.flag, bytes(value)), Some(at))
    }
}

impl<'a> args::CommandReport<'a, u32> for Tap {
    fn report_parameter(
        &mut self,
        _c: &mut args::CommandContext<'_, 'a, u32>,
        value: Option<&'a OsStr>,
    ) -> ControlFlow<u32> {
        let e = match value {
            Some(v) => Ev::Parameter(self.cmd, bytes(v)),
            None => Ev::End(self.cmd),
        };
        self.log.borrow_mut().put(e, None)
    }
}

impl<'a> args::ParserReport<'a, u32> for Tap {
    fn report_error(&mut self, _c: &mut args::ParserContext<'_, 'a, u32>, e: args::Error<'a>) -> ControlFlow<u32> {
        self.log.borrow_mut().put(fault(&e), None)
    }
}

pub fn mode(m: Mode) -> args::FlagMode {
    match m {
        Set => args::FlagMode::Set,
        Toggle => args::FlagMode::Toggle,
        Parse => args::FlagMode::Parse,
    }
}

pub type Schema = args::Schema<'static, 'static, u32>;

fn command(tree: &[Cmd], c: usize, log: Shared) -> args::Command<'static, 'static, u32> {
    let flag = |f: usize| {
        let (name, m) = tree[c].flags[f];
        args::Flag::with(name, mode(m), leak(Tap { log, cmd: c, flag: f }), None)
    };
    let set = match tree[c].flags.len() {
        3 => leak(args::FlagSet::with([flag(0), flag(1), flag(2)])).as_mut(),
        n => {
            assert!(n == MANY);
            leak(args::FlagSet::with(core::array::from_fn::<_, MANY, _>(flag))).as_mut()
        }
    };
    args::Command::with(tree[c].path, leak(Tap { log, cmd: c, flag: 0 }), set, None)
}

/// The layout of a tree, with targets that note everything.
pub fn layout(tree: &[Cmd], log: Shared) -> &'static mut Schema {
    let c = |i| command(tree, i, log);
    let set = match tree.len() {
        0 => leak(args::CommandSet::with([])).as_mut(),
        1 => leak(args::CommandSet::with([c(0)])).as_mut(),
        2 => leak(args::CommandSet::with([c(0), c(1)])).as_mut(),
        3 => leak(args::CommandSet::with([c(0), c(1), c(2)])).as_mut(),
        4 => leak(args::CommandSet::with([c(0), c(1), c(2), c(3)])).as_mut(),
        5 => leak(args::CommandSet::with([c(0), c(1), c(2), c(3), c(4)])).as_mut(),
        7 => leak(args::CommandSet::with([c(0), c(1), c(2), c(3), c(4), c(5), c(6)])).as_mut(),
        n => {
            assert!(n == MANY);
            leak(args::CommandSet::with(core::array::from_fn::<_, MANY, _>(c))).as_mut()
        }
    };
    leak(args::Schema::with(set))
}

/// The name of a command or flag, one of many of the same length, of which
/// `at` is different.
pub fn name(i: usize, len: usize, at: usize) -> &'static str {
    let mut v = alloc::vec![b'm'; len];
    v[at] = b'A' + i as u8;
    unsafe { core::str::from_utf8_unchecked(leak(v)) }
}

/// Many commands, declared in no particular order.
pub fn wide(len: usize, at: usize) -> Vec<Cmd> {
    (0..MANY)
        .map(|k| {
            let i = k * 7 % MANY;
            let path: Path = match i % 4 {
                0 => leak([name(i, len, at)]),
                1 => leak([name(i - 1, len, at), "s"]),
                2 => leak([name(0, len, at), name(i, len, at)]),
                _ => leak([name(i, len, at), name(1, len, at), name(2, len, at)]),
            };
            cmd(if i == 4 { &[] } else { path }, [F1, F2, F3, F4, F5][i % 5])
        })
        .collect()
}

/// Commands within each other, with or without gaps, declared inside out.
pub fn deep(gaps: bool) -> Vec<Cmd> {
    (0..MANY)
        .rev()
        .map(|k| {
            let n = if gaps { 2 * k + 1 } else { k };
            let path: Vec<&'static str> = (0..n).map(|i| ["a", "b", "c"][i % 3]).collect();
            // the outermost has flags of its own
            cmd(leak(path), if k == 0 { F6 } else { [F4, F1, F2, F5, F3][k % 5] })
        })
        .collect()
}

fn some(out: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        out.push(rt::u8());
    }
}

/// A word of up to `n` arbitrary bytes.
pub fn word(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    some(&mut v, rt::pick(0, n));
    v
}

/// A word of a single arbitrary byte.
pub fn one() -> Vec<u8> {
    let mut v = Vec::new();
    some(&mut v, 1);
    v
}

/// An arbitrary name out of the first `n` letters.
pub fn letter(n: usize) -> &'static str {
    let v: &'static [u8; 1] = leak([rt::range(b'a' as usize, b'a' as usize + n - 1) as u8]);
    unsafe { core::str::from_utf8_unchecked(v) }
}

/// A flag in any of its forms, with arbitrary bytes for its name and value.
pub fn flag() -> Vec<u8> {
    let mut v = b"--".to_vec();
    match rt::pick(0, 5) {
        0 => some(&mut v, 1),
        1 => {
            some(&mut v, 1);
            v.push(b'=');
            some(&mut v, 1);
        }
        2 => {
            v.extend_from_slice(b"no-");
            some(&mut v, 1);
        }
        3 => {
            v.extend_from_slice(b"no-");
            some(&mut v, 1);
            v.push(b'=');
        }
        4 => some(&mut v, 2),
        _ => {}
    }
    v
}

/// Run the parser over a command line, and compare.
pub fn examine(tree: &[Cmd], argv: &[Vec<u8>], abort: Option<usize>) -> Want {
    let parts: Vec<&[u8]> = argv.iter().map(|v| &v[..]).collect();
    let want = Want::new(tree, &parts);
    let log = log();
    {
        let mut l = log.borrow_mut();
        l.abort = abort;
        l.value = rt::u32();
    }
    let schema = layout(tree, log);
    // the arguments outlive everything
    let all: &'static [Vec<u8>] = leak(argv.to_vec());
    let mut it = all.iter().map(|v| unsafe { OsStr::from_encoded_bytes_unchecked(&v[..]) });
    let r = args::parse(leak(Tap { log, cmd: 0, flag: 0 }), schema, &mut it);
    let log = log.borrow();
    let n = match abort {
        Some(k) if k < want.events.len() => {
            rt::check(log.aborted && matches!(r, Err(Some(v)) if v == log.value), 1);
            k
        }
        _ => {
            rt::check(!log.aborted, 2);
            match (r, want.result) {
                (Ok(i), Some(c)) => rt::check(schema.command_at(i).path() == tree[c].path, 3),
                (Err(None), None) => {}
                _ => rt::check(false, 4),
            }
            want.events.len()
        }
    };
    rt::check(log.events.len() == n, 5);
    for i in 0..n {
        let (got, exp) = (&log.events[i], &want.events[i]);
        if want.odd.contains(&i) {
            rt::check(matches!(got, Ev::Error(Fault::FlagUnknown, _, _)), 6);
        } else {
            rt::check(same(got, exp), 7);
        }
        if let Some((at, _)) = &log.context[i] {
            let c = want.current[i];
            rt::check(c.is_some() && schema.command_at(*at).path() == tree[c.unwrap()].path, 8);
        }
    }
    want
}
