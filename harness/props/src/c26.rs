use crate::model::sig::{dalign, is_basic, Model};
use crate::rt;
use alloc::boxed::Box;
use alloc::vec::Vec;
use tmp::fmt::dbus::element as el;
use tmp::fmt::dbus::{Element, Sig};

fn verify(b: &[u8]) {
    let mut m = Box::new(Model::new());
    rt::assume(m.parse(b).is_ok());
    let Ok(s) = Sig::new(b) else {
        rt::check(false, 1);
        return;
    };
    let mut c = s.cursor();
    for i in 0..b.len() {
        c.move_to(i);
        if m.node[i].close {
            rt::check(c.dvar_alignment_exp().is_some(), 2);
            continue;
        }
        // optionals have no D-Bus encoding
        rt::check(b[i] == b'm' || c.dvar_alignment_exp() == Some(dalign(b[i])), 3);
        rt::check(c.gvar_alignment_exp() == Some(m.node[i].galign), 4);
        // the same when looked at in isolation
        let p = s.at(i).unwrap();
        rt::check(p.cursor().dvar_alignment_exp() == c.dvar_alignment_exp(), 5);
        rt::check(p.cursor().gvar_alignment_exp() == c.gvar_alignment_exp(), 6);
    }
    c.move_to(b.len());
    rt::check(c.dvar_alignment_exp().is_none() && c.gvar_alignment_exp().is_none(), 7);
    rt::cover(1);
}

/// Every valid signature of a length.
fn c26_align() {
    let n = rt::param(0);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(rt::u8());
    }
    verify(&b);
}

/// Deeper shapes with arbitrary characters in places.
fn c26_deep() {
    const SHAPES: [&[u8]; 8] = [
        b"(ya(q..))",
        b"(ya{..})",
        b"a(y(.y).)",
        b"(.aa.y)",
        b"((.)(.))",
        b"m(ya.)",
        b"(ya(ya(ya(ya(ya(ya(ya(y.))))))).)",
        b"(yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyya{..}(y.))",
    ];
    let shape = SHAPES[rt::pick(0, SHAPES.len() - 1)];
    let mut b = Vec::with_capacity(shape.len());
    for c in shape {
        b.push(if *c == b'.' { rt::u8() } else { *c });
    }
    verify(&b);
}

const CODES: &[u8; 20] = b"yqnuitxdbsoghvam(){}";

fn size(c: u8) -> (u8, u8) {
    match c {
        b'y' => (1, 1),
        b'q' | b'n' => (2, 2),
        b'u' | b'i' | b'h' => (4, 4),
        b't' | b'x' | b'd' => (8, 8),
        b'b' => (4, 1),
        _ => (0, 0),
    }
}

/// The table of elements, for every code.
fn c26_table() {
    let c = rt::u8();
    let known = CODES.contains(&c);
    match Element::from_code(c) {
        None => rt::check(!known, 8),
        Some(e) => {
            rt::check(known, 9);
            let c = rt::concrete(c as usize) as u8;
            rt::check(e.code() == c && e.char() == c as char && e.str().as_bytes() == [c], 10);
            rt::check(e.id() != 0 && unsafe { Element::from_id(e.id()) } == e, 11);
            let pair = match c {
                b'(' => Some(b')'),
                b')' => Some(b'('),
                b'{' => Some(b'}'),
                b'}' => Some(b'{'),
                _ => None,
            };
            rt::check(e.pair().map(|v| v.code()) == pair, 12);
            rt::check(e.pair().is_none() || e.pair().unwrap().pair() == Some(e), 13);
            let close = c == b')' || c == b'}';
            let open = c == b'(' || c == b'{' || c == b'a' || c == b'm';
            rt::check(e.all(el::FLAG_CLOSE) == close && e.all(el::FLAG_OPEN) == open, 14);
            rt::check(e.all(el::FLAG_PREFIX) == !close, 15);
            rt::check(e.all(el::FLAG_BASIC) == is_basic(c), 16);
            rt::check(e.all(el::FLAG_HANDLE) == (c == b'h') && e.all(el::FLAG_VARIANT) == (c == b'v'), 17);
            rt::check(c == b'm' || close || e.dvar_alignment_exp() == dalign(c), 18);
            rt::check((e.dvar_size(), e.gvar_size()) == size(c), 19);
            // fixed-size types are as large as they say
            let dynamic = c == b's' || c == b'o' || c == b'g' || c == b'v' || c == b'a' || c == b'm';
            rt::check(e.all(el::FLAG_DYNAMIC) == dynamic, 20);
            rt::cover(1);
        }
    }
    rt::cover(2);
}

/// No two elements share anything that identifies them.
fn c26_distinct() {
    let (a, b) = (rt::u8(), rt::u8());
    if let (Some(x), Some(y)) = (Element::from_code(a), Element::from_code(b)) {
        rt::check((x == y) == (a == b) && (x.id() == y.id()) == (a == b), 21);
        rt::cover(1);
    }
}

crate::rt::harness!(c26_align, c26_deep, c26_table, c26_distinct);
