use crate::model::sig::Model;
use crate::model::util::{same_bytes, same_hash};
use crate::rt;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::cmp::Ordering;
use tmp::fmt::dbus::{Cursor, Element, Sig};

/// A signature of `n` characters that the model accepts.
fn any(n: usize) -> (Vec<u8>, Box<Model>, Box<Sig>) {
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(rt::u8());
    }
    valid(b)
}

fn valid(b: Vec<u8>) -> (Vec<u8>, Box<Model>, Box<Sig>) {
    let mut m = Box::new(Model::new());
    rt::assume(m.parse(&b).is_ok());
    let s = match Sig::new(&b) {
        Ok(v) => v,
        Err(_) => {
            rt::check(false, 1);
            loop {}
        }
    };
    (b, m, s)
}

fn code(e: Option<Element>) -> Option<u8> {
    e.map(|v| v.code())
}

fn same(a: Option<u8>, b: Option<u8>) -> bool {
    a.is_some() == b.is_some() && (a.is_none() || a.unwrap() == b.unwrap())
}

fn open(c: u8) -> bool {
    c == b'a' || c == b'm' || c == b'(' || c == b'{'
}

/// Compare everything a cursor tells about a position with the model of the
/// text `b`.
fn position(c: &mut Cursor, b: &[u8], m: &Model, i: usize) {
    let n = b.len();
    c.move_to(i);
    rt::check(c.idx() == i, 2);
    rt::check(c.len() == n - i, 3);
    if i == n {
        rt::check(c.element().is_none() && c.sig().is_none() && c.length().is_none(), 4);
        rt::check(c.up().is_none() && c.down().is_none(), 5);
        rt::check(c.idx_next().is_none() && c.idx_step().is_none() && c.idx_down().is_none() && c.idx_up().is_none(), 6);
        rt::check(c.idx_prev() == Some(n - 1), 7);
        return;
    }
    let k = &m.node[i];
    rt::check(same(code(c.element()), Some(b[i])) && same(code(c.element_at(i)), Some(b[i])), 8);
    rt::check(c.length() == Some(k.length) && c.length_at(i) == Some(k.length), 9);
    let at = Cursor::position(&*c);
    rt::check(at == Some(k.position) && c.position_at(i) == Some(k.position), 10);
    rt::check(c.idx_up() == k.up && same(code(c.up()), k.up.map(|u| b[u])), 11);
    let down = if open(b[i]) { Some(i + 1) } else { None };
    rt::check(c.idx_down() == down && same(code(c.down()), down.map(|d| b[d])), 12);
    rt::check(c.idx_next() == Some(i + 1), 13);
    rt::check(c.idx_prev() == if i > 0 { Some(i - 1) } else { None }, 14);
    let step = match k.up {
        None => Some(i + k.length),
        Some(u) if b[u] == b'a' || b[u] == b'm' => None,
        _ if k.close => None,
        _ => Some(i + k.length),
    };
    rt::check(c.idx_step() == step, 15);
    rt::check(c.sig().is_some() != k.close && c.sig_at(i).is_some() != k.close, 16);
    // the movements go where announced, or stay
    rt::check(c.move_next().idx() == i + 1 && c.move_prev().idx() == i, 17);
    rt::check(c.move_prev().idx() == i.saturating_sub(1), 18);
    rt::check(c.move_to(i).move_step().idx() == step.unwrap_or(i), 19);
    rt::check(c.move_to(i).move_down().idx() == down.unwrap_or(i), 20);
    rt::check(c.move_to(i).move_up().idx() == k.up.unwrap_or(i), 21);
    c.move_to(i);
}

fn navigate(b: &[u8], m: &Model, s: &Sig) {
    let n = b.len();
    rt::check(s.len() == n, 22);
    let mut c = s.cursor();
    rt::check(c.idx() == 0 && core::ptr::eq(c.root(), s), 23);
    for i in 0..=n {
        position(&mut c, b, m, i);
    }
    // beyond the end
    rt::check(c.move_to(n + 1).idx() == n && c.move_next().idx() == n, 24);
    rt::check(s.at(n).is_none() && s.at(n + 1).is_none() && s.at(usize::MAX).is_none(), 25);
    rt::check(c.element_at(n).is_none() && c.length_at(n + 3).is_none(), 26);
    // iteration from any start
    let start = if n < 8 { rt::pick(0, n + 1) } else { n / 3 };
    let mut it = Cursor::<&Sig>::with(osi::mown::Mown::new_borrowed(s), start);
    let mut at = start.min(n);
    loop {
        rt::check(it.size_hint() == (n - at, Some(n - at)), 27);
        let e = it.next();
        rt::check(same(code(e), b.get(at).copied()), 28);
        if e.is_none() {
            break;
        }
        at += 1;
    }
    rt::check(at == n && it.next().is_none(), 29);
}

/// Every position of every valid signature of a length.
fn c25_navigate() {
    let (b, m, s) = any(rt::param(0));
    navigate(&b, &m, &s);
    rt::cover(1);
}

/// A sub-signature is the signature of that text, and navigates like it.
fn part(b: &[u8], m: &Model, s: &Sig, i: usize) {
    let Some(p) = s.at(i) else {
        rt::check(m.node[i].close, 30);
        return;
    };
    let t = &b[i..i + m.node[i].length];
    let (_, tm, ts) = valid(Vec::from(t));
    rt::check(*p == *ts && p.cmp(&ts) == Ordering::Equal && same_hash(p, &*ts), 31);
    rt::check(same_bytes(p.to_string().as_bytes(), t), 32);
    navigate(t, &tm, p);
    let c = p.clone();
    rt::check(*c == *p && c.len() == t.len(), 33);
    rt::cover(1);
}

fn c25_sub() {
    let (b, m, s) = any(rt::param(0));
    part(&b, &m, &s, rt::pick(0, b.len() - 1));
}

/// Long signatures of some shapes, with arbitrary characters in places.
fn long() -> (Vec<u8>, Box<Model>, Box<Sig>) {
    let n = rt::pick(rt::param(0), rt::param(1));
    let d = rt::pick(0, 1) * 2 * n / 5;
    let mut b = Vec::with_capacity(n);
    for i in 0..n {
        b.push(match i {
            i if i < d => b'(',
            i if i >= n - d => b')',
            i if d == 0 && i + 1 < n => b'a',
            i if i % 5 == 2 && i + d + 1 < n => b'a',
            _ => b't',
        });
    }
    for _ in 0..rt::param(2) {
        let at = rt::pick(0, n - 1);
        b[at] = rt::u8();
    }
    valid(b)
}

fn c25_long() {
    let (b, m, s) = long();
    match rt::pick(0, 3) {
        0 => navigate(&b, &m, &s),
        1 => part(&b, &m, &s, 1),
        2 => part(&b, &m, &s, b.len() / 2),
        _ => part(&b, &m, &s, rt::pick(2, 4)),
    }
    rt::cover(2);
}

/// Much longer signatures: many types in a row, or deeply nested, with an
/// arbitrary character in one of some places.
fn c25_far() {
    let n = rt::param(0);
    let d = [1, n / 2 - 2][rt::pick(0, 1)];
    let mut b = alloc::vec![b't'; n];
    b[..d].fill(b'(');
    b[n - d..].fill(b')');
    let at = [1, n - 3 - d / 2, n - 2][rt::pick(0, 2)];
    b[at] = rt::u8();
    let (b, m, s) = valid(b);
    if rt::pick(0, 1) == 0 {
        let mut c = s.cursor();
        for i in [0, d - 1, d, n / 2, n - d - 1, n - d, n - 1, n] {
            position(&mut c, &b, &m, i);
        }
    } else {
        part(&b, &m, &s, d);
    }
    rt::cover(2);
}

/// Pairs of signatures compare like their text.
fn pair(b: &[u8], s: &Sig, d: &[u8], t: &Sig) {
    let o = b.cmp(d);
    rt::check((s == t) == (o == Ordering::Equal), 34);
    rt::check(s.cmp(t) == o && s.partial_cmp(t) == Some(o), 35);
    if o == Ordering::Equal {
        rt::check(same_hash(s, t), 36);
        rt::cover(1);
    } else {
        rt::cover(2);
    }
}

fn c25_pair() {
    let (b, _, s) = any(rt::pick(1, rt::param(0)));
    let (d, _, t) = any(rt::pick(1, rt::param(1)));
    pair(&b, &s, &d, &t);
}

/// The same text in a short and in a long signature.
fn c25_widths() {
    let (b, m, s) = any(rt::param(0));
    let k = rt::param(1);
    let mut d = Vec::new();
    for _ in 0..k {
        d.push(b'a');
    }
    d.extend_from_slice(&b);
    let (_, _, t) = valid(d);
    let p = t.at(k).unwrap();
    rt::check(*p == *s && *s == *p && p.cmp(&s) == Ordering::Equal && same_hash(p, &*s), 37);
    rt::check(*t != *s, 38);
    navigate(&b, &m, p);
    let owned = Cursor::<Box<Sig>>::new_owned(p.clone());
    rt::check(owned.len() == b.len() && owned.element().map(|v| v.code()) == Some(b[0]), 39);
    rt::cover(1);
}

crate::rt::harness!(c25_navigate, c25_sub, c25_long, c25_far, c25_pair, c25_widths);
