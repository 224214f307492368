//! JSON lexical grammar over characters, as a partition of the text into
//! regions that are tokens and regions that are errors.

use crate::model::util::same_bytes;
use crate::rt;
use alloc::string::String;
use alloc::vec::Vec;
use core::ops::ControlFlow;
use osi::json::token::{Error, Report, Sign, Token};

pub const ZEROS: u32 = 1;
pub const PLUS: u32 = 2;

#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    /// `: , [ ] { }`
    Mark(char),
    /// `n t f`, or anything else
    Word(char),
    Space,
    Number,
    /// Whether it is terminated.
    String(bool),
    Comment,
    Equals,
    Stray,
}

/// A part of the text.
pub struct Region {
    pub kind: Kind,
    pub from: usize,
    pub to: usize,
    pub good: bool,
}

fn space(c: char) -> bool {
    matches!(c, ' ' | '\n' | '\r' | '\t')
}

/// White space to Unicode but not to JSON.
fn other_space(c: char) -> bool {
    matches!(
        c,
        '\x0b' | '\x0c' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}'
            | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}'
    )
}

fn digit(c: char) -> bool {
    matches!(c, '0'..='9')
}

fn hex(c: char) -> Option<u32> {
    let v = c as u32;
    match c {
        '0'..='9' => Some(v - 0x30),
        'a'..='f' => Some(v - 0x61 + 10),
        'A'..='F' => Some(v - 0x41 + 10),
        _ => None,
    }
}

/// Whether a word ends before this character.
fn ends_word(c: char) -> bool {
    matches!(c, ':' | ',' | '[' | ']' | '{' | '}' | '-' | '"' | '#' | '/' | '+' | '=')
        || space(c)
        || other_space(c)
}

/// One past the last character of the string that starts at `i`, and whether
/// it is terminated and free of errors.
fn string(t: &[char], i: usize) -> (usize, bool, bool) {
    let mut k = i + 1;
    while k < t.len() {
        if t[k] == '"' {
            return (k + 1, true, decode(&t[i + 1..k]).is_some());
        }
        if t[k] == '\\' {
            k += 1;
            // an escape takes the next character, unless that is a quote
            // that ends an escape for lack of digits
        }
        k += 1;
    }
    (t.len(), false, false)
}

fn four(t: &[char], i: usize) -> Option<u32> {
    let mut v = 0;
    for k in 0..4 {
        v = v << 4 | hex(*t.get(i + k)?)?;
    }
    Some(v)
}

/// The text that the inside of a string literal stands for.
pub fn decode(t: &[char]) -> Option<Vec<char>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        if (c as u32) < 0x20 {
            return None;
        }
        if c != '\\' {
            out.push(c);
            i += 1;
            continue;
        }
        let e = *t.get(i + 1)?;
        i += 2;
        let v = match e {
            '"' | '\\' | '/' => e,
            'b' => '\x08',
            'f' => '\x0c',
            'n' => '\x0a',
            'r' => '\x0d',
            't' => '\x09',
            'u' => {
                let a = four(t, i)?;
                i += 4;
                if a < 0xd800 || a > 0xdfff {
                    unsafe { char::from_u32_unchecked(a) }
                } else if a > 0xdbff {
                    return None;
                } else {
                    if *t.get(i)? != '\\' || *t.get(i + 1)? != 'u' {
                        return None;
                    }
                    let b = four(t, i + 2)?;
                    i += 6;
                    if b < 0xdc00 || b > 0xdfff {
                        return None;
                    }
                    unsafe { char::from_u32_unchecked(0x10000 + ((a & 0x3ff) << 10 | b & 0x3ff)) }
                }
            }
            _ => return None,
        };
        out.push(v);
    }
    Some(out)
}

/// The parts of a number, as ranges of digits.
#[derive(Default)]
pub struct Number {
    pub minus: bool,
    pub int: (usize, usize),
    pub frac: (usize, usize),
    pub exp_minus: bool,
    pub exp: (usize, usize),
    pub end: usize,
    pub good: bool,
}

fn digits(t: &[char], mut i: usize) -> (usize, usize) {
    let from = i;
    while i < t.len() && digit(t[i]) {
        i += 1;
    }
    (from, i)
}

pub fn number(t: &[char], i: usize, flags: u32) -> Number {
    let mut n = Number { good: true, ..Default::default() };
    let mut i = i;
    if t[i] == '-' || t[i] == '+' {
        n.minus = t[i] == '-';
        n.good = n.minus || flags & PLUS != 0;
        i += 1;
    }
    n.int = digits(t, i);
    i = n.int.1;
    n.end = i;
    if n.int.0 == n.int.1 {
        n.good = false;
        return n;
    }
    if n.int.1 - n.int.0 > 1 && t[n.int.0] == '0' && flags & ZEROS == 0 {
        n.good = false;
    }
    if i < t.len() && t[i] == '.' {
        n.frac = digits(t, i + 1);
        i = n.frac.1;
        n.end = i;
        if n.frac.0 == n.frac.1 {
            n.good = false;
            return n;
        }
    }
    if i < t.len() && (t[i] == 'e' || t[i] == 'E') {
        i += 1;
        if i < t.len() && (t[i] == '+' || t[i] == '-') {
            n.exp_minus = t[i] == '-';
            i += 1;
        }
        n.exp = digits(t, i);
        i = n.exp.1;
        n.end = i;
        if n.exp.0 == n.exp.1 {
            n.good = false;
        }
    }
    n
}

pub fn lex(t: &[char], flags: u32) -> Vec<Region> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let from = i;
        let c = t[i];
        let (kind, good) = match c {
            ':' | ',' | '[' | ']' | '{' | '}' => {
                i += 1;
                (Kind::Mark(c), true)
            }
            '"' => {
                let (to, closed, good) = string(t, i);
                i = to;
                (Kind::String(closed), good)
            }
            '-' | '0'..='9' => {
                let n = number(t, i, flags);
                i = n.end;
                (Kind::Number, n.good)
            }
            '+' if flags & PLUS != 0 => {
                let n = number(t, i, flags);
                i = n.end;
                (Kind::Number, n.good)
            }
            '+' => {
                i += 1;
                (Kind::Stray, false)
            }
            '=' => {
                i += 1;
                (Kind::Equals, false)
            }
            '#' => {
                while i < t.len() && t[i] != '\n' {
                    i += 1;
                }
                (Kind::Comment, false)
            }
            '/' if i + 1 < t.len() && t[i + 1] == '/' => {
                while i < t.len() && t[i] != '\n' {
                    i += 1;
                }
                (Kind::Comment, false)
            }
            _ if space(c) || other_space(c) => {
                let mut good = true;
                while i < t.len() {
                    if other_space(t[i]) {
                        good = false;
                    } else if !space(t[i]) {
                        break;
                    }
                    i += 1;
                }
                (Kind::Space, good)
            }
            _ => {
                i += 1;
                while i < t.len() && !ends_word(t[i]) {
                    i += 1;
                }
                let w = &t[from..i];
                let good = w == ['n', 'u', 'l', 'l'] || w == ['t', 'r', 'u', 'e'] || w == ['f', 'a', 'l', 's', 'e'];
                (Kind::Word(if good { c } else { '?' }), good)
            }
        };
        out.push(Region { kind, from, to: i, good });
    }
    out
}

/// Whether `s` is the UTF-8 encoding of `t`.
pub fn same_text(s: &str, t: &[char]) -> bool {
    let mut want = Vec::new();
    for c in t {
        let v = *c as u32;
        if v < 0x80 {
            want.push(v as u8);
        } else if v < 0x800 {
            want.push((0xc0 | v >> 6) as u8);
            want.push((0x80 | v & 0x3f) as u8);
        } else if v < 0x10000 {
            want.push((0xe0 | v >> 12) as u8);
            want.push((0x80 | v >> 6 & 0x3f) as u8);
            want.push((0x80 | v & 0x3f) as u8);
        } else {
            want.push((0xf0 | v >> 18) as u8);
            want.push((0x80 | v >> 12 & 0x3f) as u8);
            want.push((0x80 | v >> 6 & 0x3f) as u8);
            want.push((0x80 | v & 0x3f) as u8);
        }
    }
    same_bytes(s.as_bytes(), &want)
}

fn same_digits(d: &[u8], t: &[char]) -> bool {
    if d.len() != t.len() {
        return false;
    }
    let mut same = true;
    for i in 0..t.len() {
        same &= d[i] as u32 + 0x30 == t[i] as u32;
    }
    same
}

pub enum Event {
    Error(Error<'static>),
    Token(Token<'static>),
}

/// Everything that was reported.
pub struct Log {
    pub events: Vec<Event>,
    /// How many more reports are taken before an abort is asked for.
    pub abort: Option<usize>,
    pub value: u32,
    pub aborted: bool,
}

impl Log {
    pub fn new() -> Self {
        Log { events: Vec::new(), abort: None, value: 0, aborted: false }
    }

    fn put(&mut self, e: Event) -> ControlFlow<u32> {
        // nothing is reported once an abort was asked for
        rt::check(!self.aborted, 50);
        if self.abort == Some(0) {
            self.aborted = true;
            return ControlFlow::Break(self.value);
        }
        self.abort = self.abort.map(|v| v - 1);
        self.events.push(e);
        ControlFlow::Continue(())
    }
}

impl Report<u32> for Log {
    fn report_error(&mut self, error: Error<'_>) -> ControlFlow<u32> {
        self.put(Event::Error(error.own()))
    }

    fn report_token(&mut self, token: Token<'_>) -> ControlFlow<u32> {
        self.put(Event::Token(token.own()))
    }
}

fn of_string(e: &Event) -> bool {
    match e {
        Event::Error(e) => matches!(
            e,
            Error::StringIncomplete
                | Error::StringCharacterInvalid(_)
                | Error::StringEscapeInvalid(_)
                | Error::StringEscapeIncomplete
                | Error::StringSurrogateUnpaired
        ),
        _ => false,
    }
}

/// Something that is reported as an error.
enum Fault {
    Stray(char),
    Word,
    Number,
    Open,
    Control(char),
    Escape(char),
    Digits,
    Surrogate,
    Comment,
}

/// What is wrong with the inside of a string literal, and the text that it is
/// taken for regardless. Nothing if a first half of a surrogate pair is
/// followed by an escape that is not the other half, for where the fault lies
/// is then a matter of taste.
fn string_faults(t: &[char], closed: bool) -> Option<(Vec<Fault>, Vec<char>)> {
    let mut faults = Vec::new();
    let mut out = Vec::new();
    let mut i = 0;
    while i < t.len() {
        let c = t[i];
        i += 1;
        if c != '\\' {
            if (c as u32) < 0x20 {
                faults.push(Fault::Control(c));
            }
            out.push(c);
            continue;
        }
        let Some(e) = t.get(i).copied() else { break };
        i += 1;
        match e {
            '"' | '\\' | '/' => out.push(e),
            'b' => out.push('\x08'),
            'f' => out.push('\x0c'),
            'n' => out.push('\x0a'),
            'r' => out.push('\x0d'),
            't' => out.push('\x09'),
            'u' => match four(t, i) {
                None => {
                    while i < t.len() && hex(t[i]).is_some() {
                        i += 1;
                    }
                    if i < t.len() || closed {
                        faults.push(Fault::Digits);
                    }
                }
                Some(a) => {
                    i += 4;
                    if a < 0xd800 || a > 0xdfff {
                        out.push(unsafe { char::from_u32_unchecked(a) });
                    } else if a > 0xdbff {
                        faults.push(Fault::Surrogate);
                    } else if t.get(i) == Some(&'\\') && t.get(i + 1) == Some(&'u') {
                        match four(t, i + 2) {
                            Some(b @ 0xdc00..=0xdfff) => {
                                let v = 0x10000 + ((a & 0x3ff) << 10 | b & 0x3ff);
                                out.push(unsafe { char::from_u32_unchecked(v) });
                                i += 6;
                            }
                            _ => return None,
                        }
                    } else if i + 1 < t.len() || i < t.len() && t[i] != '\\' || i == t.len() && closed {
                        faults.push(Fault::Surrogate);
                    }
                }
            },
            _ => {
                faults.push(Fault::Escape(e));
                out.push(e);
            }
        }
    }
    if !closed {
        faults.push(Fault::Open);
    }
    Some((faults, out))
}

/// What is wrong with a region, unless it is a matter of taste.
fn faults(t: &[char], flags: u32, r: &Region) -> Option<Vec<Fault>> {
    let raw = &t[r.from..r.to];
    let mut v = Vec::new();
    match r.kind {
        Kind::Mark(_) => {}
        Kind::Word(_) => {
            if !raw[0].is_ascii() {
                return None;
            }
            v.push(Fault::Word);
        }
        Kind::Space => {
            for c in raw {
                if other_space(*c) {
                    v.push(Fault::Stray(*c));
                }
            }
        }
        Kind::Number => {
            let n = number(t, r.from, flags);
            if n.int.1 - n.int.0 > 1 && t[n.int.0] == '0' && flags & ZEROS == 0 {
                v.push(Fault::Stray(t[n.int.0 + 1]));
            }
            if !digit(raw[raw.len() - 1]) {
                v.push(Fault::Number);
            }
        }
        Kind::String(closed) => {
            return string_faults(&raw[1..raw.len() - closed as usize], closed).map(|v| v.0);
        }
        Kind::Comment => v.push(Fault::Comment),
        Kind::Equals | Kind::Stray => v.push(Fault::Stray(raw[0])),
    }
    Some(v)
}

/// Whether an error is a report of the fault.
fn same_fault(f: &Fault, e: &Error, raw: &[char]) -> bool {
    match (f, e) {
        (Fault::Stray(c), Error::CharacterStray(v)) => c == v,
        (Fault::Word, Error::KeywordUnknown(v)) => same_text(v, raw),
        (Fault::Number, Error::NumberIncomplete) => true,
        (Fault::Open, Error::StringIncomplete) => true,
        (Fault::Control(c), Error::StringCharacterInvalid(v)) => c == v,
        (Fault::Escape(c), Error::StringEscapeInvalid(v)) => c == v,
        (Fault::Digits, Error::StringEscapeIncomplete) => true,
        (Fault::Surrogate, Error::StringSurrogateUnpaired) => true,
        // with or without the mark
        (Fault::Comment, Error::Comment(v)) => {
            let mark = if raw[0] == '#' { 1 } else { 2 };
            same_text(v, raw) || same_text(v, &raw[mark..])
        }
        _ => false,
    }
}

/// Compare what was reported with the regions of the text.
pub fn compare(t: &[char], flags: u32, l: &[Region], events: &[Event]) {
    let mut k = 0;
    for r in l {
        let raw = &t[r.from..r.to];
        let mut errors = 0;
        let known = if r.good { None } else { faults(t, flags, r) };
        if let Some(known) = &known {
            for f in known {
                match events.get(k) {
                    Some(Event::Error(e)) => rt::check(same_fault(f, e, raw), 18),
                    _ => rt::check(false, 19),
                }
                errors += 1;
                k += 1;
            }
        }
        while let Some(e @ Event::Error(_)) = events.get(k) {
            let s = matches!(r.kind, Kind::String(_));
            // a string follows errors of something else, or the reverse
            if r.good || known.is_some() || s != of_string(e) {
                break;
            }
            errors += 1;
            k += 1;
            // every other error stands for one region
            if !s && !matches!(r.kind, Kind::Space | Kind::Number) {
                break;
            }
        }
        rt::check(r.good || errors > 0, 1);
        let e = match events.get(k) {
            Some(Event::Token(e)) => Some(e),
            _ => None,
        };
        match r.kind {
            Kind::Mark(c) => {
                let same = match c {
                    ':' => matches!(e, Some(Token::Colon)),
                    ',' => matches!(e, Some(Token::Comma)),
                    '[' => matches!(e, Some(Token::ArrayOpen)),
                    ']' => matches!(e, Some(Token::ArrayClose)),
                    '{' => matches!(e, Some(Token::ObjectOpen)),
                    _ => matches!(e, Some(Token::ObjectClose)),
                };
                rt::check(same, 2);
                k += 1;
            }
            Kind::Word(c) => {
                if r.good {
                    let same = match c {
                        'n' => matches!(e, Some(Token::Null)),
                        't' => matches!(e, Some(Token::True)),
                        _ => matches!(e, Some(Token::False)),
                    };
                    rt::check(same, 3);
                    k += 1;
                }
            }
            Kind::Space => match e {
                Some(Token::Whitespace { raw: s }) => {
                    rt::check(!r.good || same_text(s, raw), 4);
                    k += 1;
                }
                _ => rt::check(!r.good, 5),
            },
            Kind::Number => match e {
                Some(Token::Number { raw: s, integer, fraction, exponent, integer_sign, exponent_sign }) => {
                    let n = number(t, r.from, flags);
                    let same = same_text(s, raw);
                    rt::check(same || !r.good, 6);
                    if r.good || same {
                        // what there is of it, if it is not complete
                        rt::check((*integer_sign == Sign::Minus) == n.minus, 7);
                        rt::check((*exponent_sign == Sign::Minus) == n.exp_minus, 8);
                        rt::check(same_digits(integer, &t[n.int.0..n.int.1]), 9);
                        rt::check(same_digits(fraction, &t[n.frac.0..n.frac.1]), 10);
                        rt::check(same_digits(exponent, &t[n.exp.0..n.exp.1]), 11);
                        k += 1;
                    }
                }
                _ => rt::check(!r.good, 12),
            },
            Kind::String(closed) => match e {
                Some(Token::String { raw: s, chars }) if closed => {
                    let inside = &raw[1..raw.len() - 1];
                    rt::check(same_text(s, inside), 13);
                    if r.good {
                        let want = decode(inside).unwrap();
                        rt::check(same_text(chars, &want), 14);
                    } else if let Some((_, want)) = string_faults(inside, true) {
                        rt::check(same_text(chars, &want), 30);
                    }
                    rt::check(core::str::from_utf8(chars.as_bytes()).is_ok(), 15);
                    k += 1;
                }
                _ => rt::check(!r.good, 16),
            },
            Kind::Equals => {
                if let Some(Token::Colon) = e {
                    k += 1;
                }
            }
            Kind::Comment | Kind::Stray => {}
        }
    }
    rt::check(k == events.len(), 17);
}

/// `n` arbitrary ASCII characters.
pub fn ascii(n: usize) -> Vec<char> {
    let mut t = Vec::new();
    for _ in 0..n {
        let b = rt::u8();
        rt::assume(b < 0x80);
        t.push(b as char);
    }
    t
}

/// A string of ASCII characters.
pub fn to_str(t: &[char]) -> String {
    let mut v = Vec::new();
    for c in t {
        v.push(*c as u8);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
