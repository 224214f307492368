//! D-Bus type signatures, read by recursive descent.

use tmp::fmt::dbus::signature::Error;
use alloc::vec::Vec;
use tmp::fmt::dbus::Element;

#[derive(Clone, Copy)]
pub struct Node {
    /// Index of the enclosing container.
    pub up: Option<usize>,
    /// Number of types before this one in the container.
    pub position: usize,
    /// Length of the complete type starting here, 1 for closing brackets.
    pub length: usize,
    pub close: bool,
    /// GVariant alignment (exponent); unspecified for closing brackets.
    pub galign: u8,
}

pub struct Model {
    pub node: Vec<Node>,
}

pub fn is_basic(c: u8) -> bool {
    (c == b'y') | (c == b'b') | (c == b'n') | (c == b'q') | (c == b'i') | (c == b'u') | (c == b'x') | (c == b't')
        | (c == b'd') | (c == b's') | (c == b'o') | (c == b'g') | (c == b'h')
}

/// Alignment in the D-Bus wire format, as exponent.
pub fn dalign(c: u8) -> u8 {
    let two = (c == b'n') | (c == b'q');
    let four = (c == b'b') | (c == b'i') | (c == b'u') | (c == b's') | (c == b'o') | (c == b'a') | (c == b'h');
    let eight = (c == b'x') | (c == b't') | (c == b'd') | (c == b'(') | (c == b'{');
    two as u8 + 2 * four as u8 + 3 * eight as u8
}

/// Alignment of a non-container type in GVariant, as exponent.
fn galign(c: u8) -> u8 {
    let two = (c == b'n') | (c == b'q');
    let four = (c == b'i') | (c == b'u') | (c == b'h');
    let eight = (c == b'x') | (c == b't') | (c == b'd') | (c == b'v');
    two as u8 + 2 * four as u8 + 3 * eight as u8
}

fn max(a: u8, b: u8) -> u8 {
    let m = (a > b) as u8;
    m * a + (1 - m) * b
}

impl Model {
    pub fn new() -> Self {
        Self { node: Vec::new() }
    }

    /// One complete type starting at `i`; yields the index after it.
    fn one(&mut self, s: &[u8], i: usize, up: Option<usize>, position: usize) -> Result<usize, Error> {
        if i == s.len() {
            return Err(Error::SignatureIncomplete { container_idx: up.unwrap() });
        }
        let c = s[i];
        let mut n = Node { up, position, length: 1, close: false, galign: galign(c) };
        if c >= 0x80 {
            return Err(Error::ElementInvalid { idx: i, code: c });
        }
        if is_basic(c) | (c == b'v') {
            // nothing nested
        } else if c == b'a' || c == b'm' {
            let end = self.one(s, i + 1, Some(i), 0)?;
            n.length = end - i;
            n.galign = self.node[i + 1].galign;
        } else if c == b'(' || c == b'{' {
            let (close, other) = if c == b'(' { (b')', b'}') } else { (b'}', b')') };
            let mut at = i + 1;
            let mut count = 0;
            while at == s.len() || s[at] != close {
                if at < s.len() && s[at] == other {
                    let expected = if other == b')' { Element::StructOpen } else { Element::DictOpen };
                    return Err(Error::ElementMispaired { idx: i, pair_idx: at, expected: Some(expected) });
                }
                let next = self.one(s, at, Some(i), count)?;
                n.galign = max(n.galign, self.node[at].galign);
                at = next;
                count += 1;
            }
            self.node[at] = Node { up: Some(i), position: count, length: 1, close: true, galign: 0 };
            if c == b'{' && (count != 2 || !is_basic(s[i + 1])) {
                return Err(Error::DictInvalid { position: i });
            }
            n.length = at + 1 - i;
        } else if c == b')' || c == b'}' {
            return match up {
                None => Err(Error::ElementUnpaired { idx: i }),
                Some(up) => {
                    let expected = if c == b')' { Element::StructOpen } else { Element::DictOpen };
                    Err(Error::ElementMispaired { idx: up, pair_idx: i, expected: Some(expected) })
                }
            };
        } else {
            return Err(Error::ElementUnknown { position: i, code: c });
        }
        self.node[i] = n;
        Ok(i + n.length)
    }

    pub fn parse(&mut self, s: &[u8]) -> Result<(), Error> {
        if s.is_empty() {
            return Err(Error::SignatureEmpty);
        }
        self.node = alloc::vec![Node { up: None, position: 0, length: 1, close: false, galign: 0 }; s.len()];
        let end = self.one(s, 0, None, 0)?;
        if end != s.len() {
            return Err(Error::SignatureSequence { break_idx: end });
        }
        Ok(())
    }
}

/// An error seen for a closing bracket right after an array or optional may
/// also be called unpaired.
pub fn same_error(s: &[u8], got: Error, expected: Error) -> bool {
    if let (Error::ElementUnpaired { idx }, Error::ElementMispaired { idx: up, pair_idx, .. }) = (got, expected) {
        return idx == pair_idx && (s[up] == b'a' || s[up] == b'm');
    }
    got == expected
}
