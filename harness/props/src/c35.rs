use crate::rt;
use alloc::vec::Vec;
use core::ops::ControlFlow as Flow;
use tmp::fmt::json::stream::{Dec, Item};

#[derive(Clone, Copy, PartialEq)]
enum What {
    Value,
    Key,
    Open(u8),
    Close(u8),
    Error,
}

/// What is possible next.
#[derive(Clone, Copy, PartialEq)]
enum Next {
    /// A value; or the end of the array, if set.
    Value(bool),
    /// A key; or the end of the object, if set.
    Key(bool),
    Colon,
    /// A comma or the end of the container.
    More,
    Nothing,
}

struct Model {
    next: Next,
    open: Vec<u8>,
    items: Vec<What>,
}

impl Model {
    fn value(&mut self) {
        self.next = if self.open.is_empty() { Next::Nothing } else { Next::More };
    }

    /// Take a token; false if it cannot be here.
    fn token(&mut self, c: u8) -> bool {
        let top = self.open.last().copied();
        match (self.next, c) {
            (_, b' ') => {}
            (Next::Value(_), b'[' | b'{') => {
                self.items.push(What::Open(c));
                self.open.push(c);
                self.next = if c == b'[' { Next::Value(true) } else { Next::Key(true) };
            }
            (Next::Value(_), b'"' | b'1' | b'n' | b't' | b'f') => {
                self.items.push(What::Value);
                self.value();
            }
            (Next::Key(_), b'"') => {
                self.items.push(What::Key);
                self.next = Next::Colon;
            }
            (Next::Colon, b':') => self.next = Next::Value(false),
            (Next::More, b',') => self.next = if top == Some(b'[') { Next::Value(false) } else { Next::Key(false) },
            (Next::Value(true) | Next::More, b']') if top == Some(b'[') => {
                self.items.push(What::Close(c));
                self.open.pop();
                self.value();
            }
            (Next::Key(true) | Next::More, b'}') if top == Some(b'{') => {
                self.items.push(What::Close(c));
                self.open.pop();
                self.value();
            }
            _ => {
                self.items.push(What::Error);
                return false;
            }
        }
        true
    }
}

fn same(i: &Item, w: What) -> bool {
    match (i, w) {
        (Item::Prim, What::Value | What::Key) | (Item::Key, What::Key) => true,
        (Item::ArrayOpen, What::Open(c)) => c == b'[',
        (Item::ObjectOpen, What::Open(c)) => c == b'{',
        (Item::ArrayClose, What::Close(c)) => c == b']',
        (Item::ObjectClose, What::Close(c)) => c == b'}',
        (Item::Error(_), What::Error) => true,
        _ => false,
    }
}

fn examine(data: &[u8], m: &Model, closed: bool) {
    let mut read = data;
    let mut d = Dec::with(&mut read);
    for w in &m.items {
        match d.pop() {
            Flow::Continue(i) => rt::check(same(&i, *w), 1),
            Flow::Break(_) => rt::check(false, 2),
        }
    }
    if closed {
        rt::check(matches!(d.pop(), Flow::Break(_)), 3);
    }
}

/// Put down a token of any kind, in three bytes.
fn any(data: &mut Vec<u8>) -> u8 {
    let (a, b, c) = (rt::u8(), rt::u8(), rt::u8());
    let mark = matches!(a, b'[' | b']' | b'{' | b'}' | b':' | b',' | b'1' | b'?') && b == b' ' && c == b' ';
    let text = a == b'"' && b != b'"' && b != b'\\' && b >= 0x20 && b < 0x80 && c == b'"';
    rt::assume(mark || text);
    data.extend_from_slice(&[a, b, c]);
    a
}

/// Any tokens.
fn c35_any() {
    let mut data = Vec::new();
    let mut m = Model { next: Next::Value(false), open: Vec::new(), items: Vec::new() };
    let mut good = true;
    for _ in 0..rt::param(0) {
        let c = any(&mut data);
        if !m.token(c) {
            good = false;
            rt::cover(2);
            break;
        }
    }
    examine(&data, &m, good);
    if m.next == Next::Nothing {
        rt::cover(1);
    }
}

/// Any tokens inside of some containers.
fn c35_inside() {
    const OPEN: [&[u8]; 6] = [b"[[", b"[{", b"{\"\":[", b"{\"\":{", b"[[[0],", b"{\"a\":1,\"b\":[{"];
    let mut data = Vec::new();
    let mut m = Model { next: Next::Value(false), open: Vec::new(), items: Vec::new() };
    let head = OPEN[rt::pick(0, 5)];
    let mut i = 0;
    while i < head.len() {
        match head[i] {
            b'"' => {
                m.token(b'"');
                i += if head[i + 1] == b'"' { 1 } else { 2 };
            }
            b'0' => {
                m.token(b'1');
            }
            c => {
                m.token(c);
            }
        }
        i += 1;
    }
    data.extend_from_slice(head);
    let mut good = true;
    for _ in 0..rt::param(0) {
        let c = any(&mut data);
        if !m.token(c) {
            good = false;
            rt::cover(2);
            break;
        }
    }
    examine(&data, &m, good);
    if m.next == Next::Nothing {
        rt::cover(1);
    }
}

/// Any tokens inside of many containers.
fn c35_deep() {
    let mut data = Vec::new();
    let mut m = Model { next: Next::Value(false), open: Vec::new(), items: Vec::new() };
    let kind = rt::pick(0, 2);
    for i in 0..rt::param(0) {
        if kind == 0 || kind == 2 && i % 3 > 0 {
            m.token(b'[');
            data.push(b'[');
        } else {
            m.token(b'{');
            m.token(b'"');
            m.token(b':');
            data.extend_from_slice(b"{\"\":");
        }
    }
    let mut good = true;
    for _ in 0..rt::param(1) {
        let c = any(&mut data);
        if !m.token(c) {
            good = false;
            rt::cover(2);
            break;
        }
    }
    if good {
        // close everything that can be
        if m.next == Next::Value(false) || m.next == Next::Colon {
            if m.next == Next::Colon {
                m.token(b':');
                data.push(b':');
            }
            m.token(b'1');
            data.extend_from_slice(b"1 ");
        }
        while m.next == Next::More || matches!(m.next, Next::Value(_) | Next::Key(true)) {
            let c = if *m.open.last().unwrap() == b'[' { b']' } else { b'}' };
            m.token(c);
            data.push(c);
        }
        rt::cover(1);
    }
    examine(&data, &m, good);
}

/// All kinds of values in all places.
fn c35_values() {
    const VALUES: [(&[u8], u8); 6] = [(b"null ", b'n'), (b"true ", b't'), (b"false ", b'f'), (b"-1.5e3 ", b'1'), (b"\"\\u0041\"", b'"'), (b" ", b' ')];
    const FRAMES: [(&[u8], &[u8]); 5] = [(b"", b""), (b"[", b"]"), (b"[\"\",", b",[]]"), (b"{\"\":", b",\"\":{}}"), (b"[{\"\":", b"}]")];
    let (v, c) = VALUES[rt::pick(0, 5)];
    let (head, tail) = FRAMES[rt::pick(0, 4)];
    let mut m = Model { next: Next::Value(false), open: Vec::new(), items: Vec::new() };
    let mut data = Vec::new();
    data.extend_from_slice(head);
    data.extend_from_slice(v);
    data.extend_from_slice(tail);
    let mut good = true;
    let mut take = |m: &mut Model, t: &[u8]| {
        let mut i = 0;
        while i < t.len() {
            good = good && m.token(t[i]);
            i += if t[i] == b'"' { 2 } else { 1 };
        }
        good
    };
    take(&mut m, head);
    if take(&mut m, &[c]) {
        take(&mut m, tail);
    }
    examine(&data, &m, good);
    if good && c != b' ' {
        rt::check(m.next == Next::Nothing, 4);
        rt::cover(1);
    }
}

crate::rt::harness!(c35_any, c35_inside, c35_deep, c35_values);
