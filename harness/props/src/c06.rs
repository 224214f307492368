//! C06: report targets.

use crate::model::args::{examine, fault, flag, leak, one, same, text_len, Ev, Fault, TREES};
use crate::model::util::same_bytes;
use crate::rt;
use alloc::string::String;
use alloc::vec::Vec;
use core::cell::{Cell, RefCell};
use osi::args::{self, FlagMode};
use osi::compat::OsStr;

/// Any target aborts, at any delivery.
fn c06_abort() {
    let n = rt::param(1);
    let at = rt::pick(0, n - 1);
    let mut argv = Vec::new();
    for i in 0..n {
        argv.push(if i == at { flag() } else { one() });
    }
    let k = rt::pick(0, n);
    let w = examine(TREES[rt::param(0)], &argv, Some(k));
    if k < w.events.len() {
        match w.events[k] {
            Ev::Parameter(_, _) => rt::cover(1),
            Ev::End(_) => rt::cover(2),
            Ev::Error(_, _, _) => rt::cover(3),
            Ev::Set(_, _) => rt::cover(4),
            Ev::Toggle(_, _, _) => rt::cover(5),
            Ev::Parse(_, _, _) => rt::cover(6),
        }
    }
}

/// Any of many deliveries is the last.
fn c06_abort_large() {
    let n = rt::param(0);
    let words: [&[u8]; 6] = [b"--f", b"--v=x", b"--no-t", b"-q", b"w", b"--none"];
    let argv: Vec<Vec<u8>> = (0..n).map(|i| words[i % 6].to_vec()).collect();
    let k = rt::pick(0, n);
    let w = examine(TREES[0], &argv, Some(k));
    rt::check(w.events.len() == n + 1, 60);
    rt::cover(1);
}

fn os(v: &'static [u8]) -> &'static OsStr {
    unsafe { OsStr::from_encoded_bytes_unchecked(v) }
}

fn parse<F, C>(mode: FlagMode, target: &mut F, command: &mut C, argv: &'static [Vec<u8>]) -> Vec<Ev>
where
    F: args::FlagReport<'static, ()>,
    C: args::CommandReport<'static, ()>,
{
    let mut errors: Vec<args::Error<'static>> = Vec::new();
    {
        let mut flags = args::FlagSet::with([args::Flag::with("x", mode, target, None)]);
        let mut commands = args::CommandSet::with([args::Command::with(&[], command, &mut flags, None)]);
        let mut schema = args::Schema::with(&mut commands);
        let r = args::parse(&mut errors, &mut schema, &mut argv.iter().map(|v| os(v)));
        rt::check(matches!(r, Ok(0)), 1);
    }
    errors.iter().map(fault).collect()
}

fn same_errors(a: &[Ev], b: &[Ev]) -> bool {
    a.len() == b.len() && (0..a.len()).all(|i| same(&a[i], &b[i]))
}

/// A target, as a list of values.
trait Holds: args::FlagReport<'static, ()> + Sized {
    /// What is appended to: a list, rather than a single value.
    const LIST: bool;
    /// Non-text is refused.
    const TEXT: bool;
    fn old(set: bool) -> Self;
    fn values(&self) -> Vec<&[u8]>;
}

const OLD: &[u8] = b"old";

fn old_str() -> &'static str {
    "old"
}

macro_rules! holds {
    ($t:ty, $list:expr, $text:expr, $some:expr, |$v:ident| $get:expr) => {
        impl Holds for $t {
            const LIST: bool = $list;
            const TEXT: bool = $text;
            fn old(_set: bool) -> Self {
                $some
            }
            fn values(&self) -> Vec<&[u8]> {
                let $v = self;
                $get
            }
        }
        impl Holds for Option<$t> {
            const LIST: bool = $list;
            const TEXT: bool = $text;
            fn old(set: bool) -> Self {
                if set { Some($some) } else { None }
            }
            fn values(&self) -> Vec<&[u8]> {
                match self {
                    None => Vec::new(),
                    Some($v) => $get,
                }
            }
        }
    };
}

holds!(&'static OsStr, false, false, os(OLD), |v| alloc::vec![v.as_encoded_bytes()]);
holds!(&'static str, false, true, old_str(), |v| alloc::vec![v.as_bytes()]);
holds!(String, false, true, String::from("old"), |v| alloc::vec![v.as_bytes()]);
holds!(Vec<&'static OsStr>, true, false, alloc::vec![os(OLD)], |v| v.iter().map(|v| v.as_encoded_bytes()).collect());
holds!(Vec<&'static str>, true, true, alloc::vec![old_str()], |v| v.iter().map(|v| v.as_bytes()).collect());
holds!(Vec<String>, true, true, alloc::vec![String::from("old")], |v| v.iter().map(|v| v.as_bytes()).collect());

fn given(n: usize, max: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| crate::model::args::word(max)).collect()
}

/// Many or long values, with an arbitrary byte in one of them.
fn given_large(n: usize, len: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = (0..n).map(|i| alloc::vec![b'a' + (i % 26) as u8; len]).collect();
    let at = [0, n / 2, n - 1][rt::pick(0, 2)];
    all[at][[0, len / 2, len - 1][rt::pick(0, 2)]] = rt::u8();
    all
}

fn flags_for<T: Holds>(given: Vec<Vec<u8>>) {
    let mut t = T::old(rt::pick(0, 1) == 1);
    let mut want: Vec<Vec<u8>> = t.values().iter().map(|v| v.to_vec()).collect();
    let mut wrong = Vec::new();
    let mut argv = Vec::new();
    let apart = rt::pick(0, 1) == 1;
    for v in &given {
        if apart {
            argv.push(b"--x".to_vec());
            argv.push(v.clone());
        } else {
            let mut a = b"--x=".to_vec();
            a.extend_from_slice(v);
            argv.push(a);
        }
        if T::TEXT && text_len(v) != v.len() {
            rt::cover(1);
            wrong.push(Ev::Error(Fault::ValueNotUtf8, b"x".to_vec(), v.clone()));
        } else {
            rt::cover(2);
            if !T::LIST {
                want.clear();
            }
            want.push(v.clone());
        }
    }
    let errors = parse(FlagMode::Parse, &mut t, &mut (), leak(argv));
    rt::check(same_errors(&errors, &wrong), 2);
    let got = t.values();
    rt::check(got.len() == want.len() && (0..got.len()).all(|i| same_bytes(got[i], &want[i])), 3);

    // a flag without values leaves it alone
    let m = if rt::pick(0, 1) == 0 { FlagMode::Set } else { FlagMode::Toggle };
    let errors = parse(m, &mut t, &mut (), leak(alloc::vec![b"--x".to_vec()]));
    rt::check(same_errors(&errors, &[Ev::Error(Fault::NoValue, b"x".to_vec(), Vec::new())]), 4);
    let got = t.values();
    rt::check(got.len() == want.len() && (0..got.len()).all(|i| same_bytes(got[i], &want[i])), 5);
}

/// Targets of flags with values.
fn c06_values() {
    values(given(rt::param(1), rt::param(2)));
}

fn c06_values_large() {
    values(given_large(rt::param(1), rt::param(2)));
}

fn values(given: Vec<Vec<u8>>) {
    match rt::param(0) {
        0 => flags_for::<&'static OsStr>(given),
        1 => flags_for::<Option<&'static OsStr>>(given),
        2 => flags_for::<&'static str>(given),
        3 => flags_for::<Option<&'static str>>(given),
        4 => flags_for::<String>(given),
        5 => flags_for::<Option<String>>(given),
        6 => flags_for::<Vec<&'static OsStr>>(given),
        7 => flags_for::<Option<Vec<&'static OsStr>>>(given),
        8 => flags_for::<Vec<&'static str>>(given),
        9 => flags_for::<Option<Vec<&'static str>>>(given),
        10 => flags_for::<Vec<String>>(given),
        _ => flags_for::<Option<Vec<String>>>(given),
    }
}

/// Targets of flags without values, directly and shared.
fn c06_switch() {
    let n = rt::param(0);
    let toggle = rt::pick(0, 1) == 1;
    let start = rt::bool();
    let mut want = start;
    let mut argv = Vec::new();
    let mut wrong = Vec::new();
    for _ in 0..n {
        argv.push(match rt::pick(0, 2) {
            0 => {
                want = true;
                b"--x".to_vec()
            }
            1 => {
                if toggle {
                    want = false;
                    rt::cover(1);
                } else {
                    wrong.push(Ev::Error(Fault::Toggle, b"no-x".to_vec(), Vec::new()));
                }
                b"--no-x".to_vec()
            }
            _ => {
                let b = rt::u8();
                wrong.push(Ev::Error(Fault::Value, b"x".to_vec(), alloc::vec![b]));
                alloc::vec![b'-', b'-', b'x', b'=', b]
            }
        });
    }
    let argv: &'static [Vec<u8>] = leak(argv);
    let m = || if toggle { FlagMode::Toggle } else { FlagMode::Set };
    let unit = |b: bool| if b { Some(()) } else { None };
    let (errors, got) = match rt::pick(0, 5) {
        0 => {
            let mut t = start;
            (parse(m(), &mut t, &mut (), argv), t)
        }
        1 => {
            let mut t = unit(start);
            (parse(m(), &mut t, &mut (), argv), t.is_some())
        }
        2 => {
            let t = Cell::new(start);
            (parse(m(), &mut args::Shared::with(&t), &mut (), argv), t.get())
        }
        3 => {
            let t = Cell::new(unit(start));
            (parse(m(), &mut args::Shared::with(&t), &mut (), argv), t.get().is_some())
        }
        4 => {
            let t = RefCell::new(start);
            let e = parse(m(), &mut args::Shared::with(&t), &mut (), argv);
            (e, t.into_inner())
        }
        _ => {
            let t = RefCell::new(unit(start));
            let e = parse(m(), &mut args::Shared::with(&t), &mut (), argv);
            (e, t.into_inner().is_some())
        }
    };
    rt::check(same_errors(&errors, &wrong), 2);
    rt::check(got == want, 3);
    if got != start {
        rt::cover(2);
    }
}

/// Flags with values that share a target, and targets that take none.
fn c06_shared() {
    let a = given(1, rt::param(0)).pop().unwrap();
    let b = given(1, rt::param(0)).pop().unwrap();
    let arg = |v: &Vec<u8>| {
        let mut a = b"--x=".to_vec();
        a.extend_from_slice(v);
        a
    };
    let argv: &'static [Vec<u8>] = leak(alloc::vec![arg(&a), arg(&b)]);
    let (ta, tb) = (text_len(&a) == a.len(), text_len(&b) == b.len());
    if ta && !tb {
        rt::cover(1);
    }
    match rt::pick(0, 4) {
        0 => {
            let t = Cell::new(None::<&'static OsStr>);
            let e = parse(FlagMode::Parse, &mut args::Shared::with(&t), &mut (), argv);
            rt::check(e.is_empty() && t.get().is_some_and(|v| same_bytes(v.as_encoded_bytes(), &b)), 2);
        }
        1 => {
            let t = Cell::new(None::<&'static str>);
            let e = parse(FlagMode::Parse, &mut args::Shared::with(&t), &mut (), argv);
            rt::check(e.len() == !ta as usize + !tb as usize, 3);
            rt::check(
                match t.get() {
                    None => !ta && !tb,
                    Some(v) => (ta || tb) && same_bytes(v.as_bytes(), if tb { &b } else { &a }),
                },
                4,
            );
        }
        2 => {
            let t = RefCell::new(Vec::<String>::new());
            let e = parse(FlagMode::Parse, &mut args::Shared::with(&t), &mut (), argv);
            rt::check(e.len() == !ta as usize + !tb as usize, 5);
            let t = t.borrow();
            let mut n = 0;
            for (ok, v) in [(ta, &a), (tb, &b)] {
                if ok {
                    rt::check(n < t.len() && same_bytes(t[n].as_bytes(), v), 6);
                    n += 1;
                }
            }
            rt::check(t.len() == n, 7);
        }
        3 => {
            let mut t = rt::bool();
            let old = t;
            let e = parse(FlagMode::Parse, &mut t, &mut (), argv);
            let wrong = [Ev::Error(Fault::Value, b"x".to_vec(), a.clone()), Ev::Error(Fault::Value, b"x".to_vec(), b.clone())];
            rt::check(same_errors(&e, &wrong) && t == old, 8);
        }
        _ => {
            let t = RefCell::new(None::<()>);
            let e = parse(FlagMode::Parse, &mut args::Shared::with(&t), &mut (), argv);
            let wrong = [Ev::Error(Fault::Value, b"x".to_vec(), a.clone()), Ev::Error(Fault::Value, b"x".to_vec(), b.clone())];
            rt::check(same_errors(&e, &wrong) && t.borrow().is_none(), 9);
        }
    }
}

/// Targets of commands.
fn c06_parameters() {
    parameters(given(rt::param(1), rt::param(2)));
}

fn c06_parameters_large() {
    parameters(given_large(rt::param(1), rt::param(2)));
}

fn parameters(given: Vec<Vec<u8>>) {
    let mut argv = alloc::vec![b"--".to_vec()];
    argv.extend(given.iter().cloned());
    let argv: &'static [Vec<u8>] = leak(argv);
    let text = rt::param(0) >= 3;
    let old = rt::param(0) != 0 && rt::pick(0, 1) == 1;
    let mut want = Vec::new();
    if old {
        want.push(OLD.to_vec());
    }
    let mut wrong = Vec::new();
    for v in &given {
        if rt::param(0) == 0 {
            wrong.push(Ev::Error(Fault::Parameter, v.clone(), Vec::new()));
        } else if text && text_len(v) != v.len() {
            rt::cover(1);
            wrong.push(Ev::Error(Fault::ParameterNotUtf8, v.clone(), Vec::new()));
        } else {
            rt::cover(2);
            want.push(v.clone());
        }
    }
    let mut flag = false;
    macro_rules! go {
        ($some:expr, $t:ty) => {{
            let mut t: $t = if old { alloc::vec![$some] } else { Vec::new() };
            let e = parse(FlagMode::Set, &mut flag, &mut t, argv);
            (e, Some(t.iter().map(|v| bytes(v)).collect::<Vec<Vec<u8>>>()), false)
        }};
        (maybe $some:expr, $t:ty) => {{
            let mut t: Option<$t> = if old { Some(alloc::vec![$some]) } else { None };
            let e = parse(FlagMode::Set, &mut flag, &mut t, argv);
            (e, t.map(|t| t.iter().map(|v| bytes(v)).collect::<Vec<Vec<u8>>>()), true)
        }};
    }
    let (errors, got, maybe) = match rt::param(0) {
        0 => (parse(FlagMode::Set, &mut flag, &mut (), argv), Some(Vec::new()), false),
        1 => go!(os(OLD), Vec<&'static OsStr>),
        2 => go!(maybe os(OLD), Vec<&'static OsStr>),
        3 => go!(old_str(), Vec<&'static str>),
        4 => go!(maybe old_str(), Vec<&'static str>),
        5 => go!(String::from("old"), Vec<String>),
        _ => go!(maybe String::from("old"), Vec<String>),
    };
    rt::check(same_errors(&errors, &wrong), 2);
    match got {
        None => rt::check(maybe && want.is_empty(), 3),
        Some(got) => {
            rt::check(!maybe || !want.is_empty(), 4);
            rt::check(got.len() == want.len() && (0..got.len()).all(|i| same_bytes(&got[i], &want[i])), 5);
        }
    }
}

trait Bytes {
    fn get(&self) -> Vec<u8>;
}
impl Bytes for &'static OsStr {
    fn get(&self) -> Vec<u8> {
        self.as_encoded_bytes().to_vec()
    }
}
impl Bytes for &'static str {
    fn get(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
impl Bytes for String {
    fn get(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
fn bytes<T: Bytes>(v: &T) -> Vec<u8> {
    v.get()
}

crate::rt::harness!(c06_abort, c06_values, c06_values_large, c06_parameters_large, c06_abort_large, c06_switch, c06_shared, c06_parameters);
