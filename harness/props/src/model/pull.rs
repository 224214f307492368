//! JSON lexical grammar with error recovery, as the pull tokenizer documents
//! it.

use crate::model::util::same_bytes;
use crate::rt;
use alloc::vec::Vec;
use tmp::fmt::json::token::{Error, Sign, Token};

pub type Range = (usize, usize);

#[derive(Clone)]
pub enum Tok {
    Space(Range),
    /// `: , [ ] { }`
    Mark(u8),
    /// `n t f`
    Word(u8),
    Item(Range),
    LeadingPlus,
    MultipleSigns,
    RangeEmpty,
    Number { raw: Range, minus: bool, int: Range, frac: Option<Range>, exp: Option<(bool, Range)> },
    String { raw: Range, text: Vec<u8> },
    Incomplete,
    Unescaped(u8),
    EscapeUnknown(u8),
    EscapeInvalid,
    Lead(u32),
    Trail(u32),
}

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// Where the token starts that an entry belongs to.
    pub from: Vec<usize>,
    /// The entries before this are known before the end of the data is.
    pub early: usize,
}

fn digit(c: u8) -> bool {
    c.is_ascii_digit()
}

fn hex(c: u8) -> Option<u32> {
    match c {
        b'0'..=b'9' => Some((c - b'0') as u32),
        b'a'..=b'f' => Some((c - b'a') as u32 + 10),
        b'A'..=b'F' => Some((c - b'A') as u32 + 10),
        _ => None,
    }
}

fn sign(c: u8) -> bool {
    c == b'+' || c == b'-'
}

fn word(c: u8) -> bool {
    sign(c) || c == b'.' || c.is_ascii_alphanumeric()
}

fn space(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\n' | b'\r')
}

/// Four hexadecimal digits: their value, or how many there are.
fn four(d: &[u8], i: usize) -> Result<u32, usize> {
    let mut v = 0;
    for k in 0..4 {
        match d.get(i + k).and_then(|c| hex(*c)) {
            Some(h) => v = v << 4 | h,
            None => return Err(k),
        }
    }
    Ok(v)
}

impl Lexed {
    fn put(&mut self, from: usize, t: Tok) {
        self.toks.push(t);
        self.from.push(from);
    }

    pub fn new(d: &[u8]) -> Self {
        let mut l = Self { toks: Vec::new(), from: Vec::new(), early: 0 };
        let mut i = 0;
        while i < d.len() {
            // everything so far is known by now
            l.early = l.toks.len();
            i = match d[i] {
                c if space(c) => {
                    let mut e = i + 1;
                    while e < d.len() && space(d[e]) {
                        e += 1;
                    }
                    l.put(i, Tok::Space((i, e)));
                    e
                }
                c @ (b':' | b',' | b'[' | b']' | b'{' | b'}') => {
                    l.put(i, Tok::Mark(c));
                    l.early = l.toks.len();
                    i + 1
                }
                b'"' => l.string(d, i),
                c if sign(c) || digit(c) => l.number(d, i),
                _ => {
                    let mut e = i + 1;
                    while e < d.len() && word(d[e]) {
                        e += 1;
                    }
                    let t = match &d[i..e] {
                        b"null" => Tok::Word(b'n'),
                        b"true" => Tok::Word(b't'),
                        b"false" => Tok::Word(b'f'),
                        _ => Tok::Item((i, e)),
                    };
                    l.put(i, t);
                    e
                }
            };
        }
        l
    }

    fn number(&mut self, d: &[u8], from: usize) -> usize {
        let mut i = from;
        let digits = |mut i: usize| {
            while i < d.len() && digit(d[i]) {
                i += 1;
            }
            i
        };
        let mut minus = false;
        if d[i] == b'+' {
            self.put(from, Tok::LeadingPlus);
            self.early = self.toks.len();
        }
        let mut n = 0;
        while i < d.len() && sign(d[i]) {
            n += 1;
            if n == 2 {
                self.put(from, Tok::MultipleSigns);
                self.early = self.toks.len();
            }
            minus = d[i] == b'-';
            i += 1;
        }
        let int = (i, digits(i));
        i = int.1;
        let mut frac = None;
        if i < d.len() && d[i] == b'.' {
            let e = digits(i + 1);
            frac = Some((i + 1, e));
            i = e;
        }
        let mut exp = None;
        if i < d.len() && (d[i] | 0x20) == b'e' {
            i += 1;
            let mut n = 0;
            let mut minus = false;
            while i < d.len() && sign(d[i]) {
                n += 1;
                if n == 2 {
                    self.put(from, Tok::MultipleSigns);
                    self.early = self.toks.len();
                }
                minus = d[i] == b'-';
                i += 1;
            }
            let e = digits(i);
            exp = Some((minus, (i, e)));
            i = e;
        }
        let none = |r: Range| r.0 == r.1;
        if none(int) || frac.is_some_and(none) || exp.is_some_and(|v| none(v.1)) {
            self.put(from, Tok::RangeEmpty);
        }
        self.put(from, Tok::Number { raw: (from, i), minus, int, frac, exp });
        i
    }

    fn string(&mut self, d: &[u8], from: usize) -> usize {
        const BAD: &[u8] = "\u{fffd}".as_bytes();
        let mut text = Vec::new();
        let mut i = from + 1;
        let full = |text: &mut Vec<u8>, v: u32| {
            // encode by hand
            if v < 0x80 {
                text.push(v as u8);
            } else if v < 0x800 {
                text.extend_from_slice(&[0xc0 | (v >> 6) as u8, 0x80 | (v & 0x3f) as u8]);
            } else if v < 0x10000 {
                text.extend_from_slice(&[0xe0 | (v >> 12) as u8, 0x80 | (v >> 6 & 0x3f) as u8, 0x80 | (v & 0x3f) as u8]);
            } else {
                text.extend_from_slice(&[
                    0xf0 | (v >> 18) as u8,
                    0x80 | (v >> 12 & 0x3f) as u8,
                    0x80 | (v >> 6 & 0x3f) as u8,
                    0x80 | (v & 0x3f) as u8,
                ]);
            }
        };
        loop {
            self.early = self.toks.len();
            let Some(&c) = d.get(i) else { break };
            i += 1;
            if c == b'"' {
                self.put(from, Tok::String { raw: (from, i), text });
                self.early = self.toks.len();
                return i;
            }
            if c != b'\\' {
                text.push(c);
                if c < 0x20 {
                    self.put(from, Tok::Unescaped(c));
                }
                continue;
            }
            let Some(&c) = d.get(i) else { break };
            i += 1;
            match c {
                b'"' | b'\\' | b'/' => text.push(c),
                b'b' => text.push(8),
                b't' => text.push(9),
                b'n' => text.push(10),
                b'f' => text.push(12),
                b'r' => text.push(13),
                b'u' => {
                    match four(d, i) {
                        Err(k) if i + k == d.len() => {
                            i = d.len();
                            break;
                        }
                        Err(k) => {
                            i += k;
                            text.extend_from_slice(BAD);
                            self.put(from, Tok::EscapeInvalid);
                        }
                        Ok(v) => {
                            i += 4;
                            if v & 0xfc00 == 0xdc00 {
                                text.extend_from_slice(BAD);
                                self.put(from, Tok::Trail(v));
                            } else if v & 0xfc00 != 0xd800 {
                                full(&mut text, v);
                            } else {
                                // needs the other half
                                let rest = &d[i..];
                                let cut = match rest {
                                    [] => true,
                                    [b'\\'] => true,
                                    [b'\\', b'u', ..] => matches!(four(d, i + 2), Err(k) if i + 2 + k == d.len()),
                                    _ => false,
                                };
                                if cut {
                                    i = d.len();
                                    break;
                                }
                                let other = if rest.len() >= 2 && rest[0] == b'\\' && rest[1] == b'u' {
                                    four(d, i + 2).ok()
                                } else {
                                    None
                                };
                                match other {
                                    Some(t) if t & 0xfc00 == 0xdc00 => {
                                        i += 6;
                                        full(&mut text, 0x10000 + ((v & 0x3ff) << 10) + (t & 0x3ff));
                                    }
                                    _ => {
                                        // what follows is looked at on its own
                                        text.extend_from_slice(BAD);
                                        self.put(from, Tok::Lead(v));
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {
                    text.push(c);
                    self.put(from, Tok::EscapeUnknown(c));
                }
            }
        }
        self.put(from, Tok::Incomplete);
        d.len()
    }
}

/// Whether a token is the expected one.
pub fn same(t: &Token, w: &Tok, d: &[u8]) -> bool {
    let is = |v: &[u8], r: Range| same_bytes(v, &d[r.0..r.1]);
    let sign = |v: &Sign, minus: bool| matches!((v, minus), (Sign::Minus, true) | (Sign::Plus, false));
    match (t, w) {
        (Token::Whitespace { raw, str }, Tok::Space(r)) => is(raw, *r) && is(str.as_bytes(), *r),
        (Token::Colon, Tok::Mark(c)) => *c == b':',
        (Token::Comma, Tok::Mark(c)) => *c == b',',
        (Token::ArrayOpen, Tok::Mark(c)) => *c == b'[',
        (Token::ArrayClose, Tok::Mark(c)) => *c == b']',
        (Token::ObjectOpen, Tok::Mark(c)) => *c == b'{',
        (Token::ObjectClose, Tok::Mark(c)) => *c == b'}',
        (Token::Null, Tok::Word(c)) => *c == b'n',
        (Token::True, Tok::Word(c)) => *c == b't',
        (Token::False, Tok::Word(c)) => *c == b'f',
        (Token::Number(n), Tok::Number { raw, minus, int, frac, exp }) => {
            is(n.raw, *raw)
                && sign(&n.sign, *minus)
                && is(n.integer.as_bytes(), *int)
                && match (n.fraction, frac) {
                    (None, None) => true,
                    (Some(v), Some(r)) => is(v.as_bytes(), *r),
                    _ => false,
                }
                && match (n.exponent, exp) {
                    (None, None) => true,
                    (Some((s, v)), Some((m, r))) => sign(&s, *m) && is(v.as_bytes(), *r),
                    _ => false,
                }
        }
        (Token::String { raw, str }, Tok::String { raw: r, text }) => {
            core::str::from_utf8(text).is_ok() && is(raw, *r) && same_bytes(str.as_bytes(), text)
        }
        (Token::Error(Error::StringNonUtf8 { raw, str, error }), Tok::String { raw: r, text }) => {
            core::str::from_utf8(text).err() == Some(*error) && is(raw, *r) && same_bytes(str, text)
        }
        (Token::Error(Error::ItemUnknown { raw, str }), Tok::Item(r)) => {
            core::str::from_utf8(&d[r.0..r.1]).is_ok() && is(raw, *r) && is(str.as_bytes(), *r)
        }
        (Token::Error(Error::ItemNonUtf8 { raw, error }), Tok::Item(r)) => {
            core::str::from_utf8(&d[r.0..r.1]).err() == Some(*error) && is(raw, *r)
        }
        (Token::Error(Error::NumberLeadingPlus), Tok::LeadingPlus) => true,
        (Token::Error(Error::NumberMultipleSigns), Tok::MultipleSigns) => true,
        (Token::Error(Error::NumberRangeEmpty), Tok::RangeEmpty) => true,
        (Token::Error(Error::StringIncomplete), Tok::Incomplete) => true,
        (Token::Error(Error::StringUnescaped { code }), Tok::Unescaped(c)) => code == c,
        (Token::Error(Error::StringEscapeUnknown { code }), Tok::EscapeUnknown(c)) => code == c,
        (Token::Error(Error::StringEscapeInvalid), Tok::EscapeInvalid) => true,
        (Token::Error(Error::StringEscapeUnpairedLeadSurrogate { lead }), Tok::Lead(v)) => lead == v,
        (Token::Error(Error::StringEscapeUnpairedTrailSurrogate { trail }), Tok::Trail(v)) => trail == v,
        _ => false,
    }
}

/// Further signs of a number may be reported again.
pub fn again(t: &Token, w: Option<&Tok>) -> bool {
    matches!((t, w), (Token::Error(Error::NumberMultipleSigns), Some(Tok::MultipleSigns)))
}

pub fn some(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(rt::u8());
    }
    v
}
