use crate::model::dvar::{ok, sig, type_len, Chunks, Model, R};
use crate::model::util::same_bytes;
use crate::rt;
use core::cell::Cell;
use core::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::Enc;
use tmp::fmt::dbus::Error;
use tmp::io::map;

const SIGS: [&[u8]; 14] = [
    b"q", b"u", b"t", b"s", b"o", b"g", b"v", b"aq", b"(qu)", b"a{sv}", b"a(t)", b"aas", b"(gv)", b"(q(at)s)",
];

/// Try one operation; report whether it went through.
fn attempt(e: &mut Enc<'static, '_>, m: &mut Model, op: usize) {
    let mismatch = |r: R, want: bool, id| {
        rt::check(
            match r {
                Flow::Continue(_) => want,
                Flow::Break(Some(Error::Mismatch)) => !want,
                Flow::Break(_) => false,
            },
            id,
        )
    };
    match op {
        0 => mismatch(e.u16(0x1122), m.fixed(b'q', 0x1122), 1),
        1 => mismatch(e.u32(0x33445566), m.fixed(b'u', 0x33445566), 2),
        2 => mismatch(e.u64(7), m.fixed(b't', 7), 3),
        3 => mismatch(e.string("ab"), m.text(b's', b"ab"), 4),
        4 => mismatch(e.object("/"), m.text(b'o', b"/"), 5),
        5 => mismatch(e.signature("q"), m.text(b'g', b"q"), 6),
        6 => mismatch(e.variant(sig(b"t")), m.open(b'v', b"t"), 7),
        7 => mismatch(e.array(), m.open(b'a', b""), 8),
        8 => mismatch(e.structure(), m.open(b'(', b""), 9),
        9 => mismatch(e.dict(), m.open(b'{', b""), 10),
        10 => mismatch(e.close(), m.close(), 11),
        11 => {
            let r = e.commit();
            if m.complete() {
                m.committed = true;
                rt::check(r.is_ok(), 12);
            } else {
                rt::check(matches!(r, Err(Error::Pending)), 13);
            }
        }
        12 => {
            // a nested encoder that is given up
            let open = m.next().is_some_and(|c| c != b')' && c != b'}');
            match e.enc() {
                Ok(mut sub) => {
                    rt::check(open, 14);
                    let _ = sub.u16(1);
                    let _ = sub.array();
                    let _ = sub.structure();
                    let _ = sub.string("zzzzz");
                    rt::check(matches!(sub.close(), Flow::Break(_)) || m.next() == Some(b'a') || m.next() == Some(b'('), 15);
                }
                Err(v) => rt::check(!open && matches!(v, Error::Mismatch), 16),
            }
        }
        _ => {
            // a nested encoder of a given type
            let n = m.next().is_some_and(|c| c != b')' && c != b'}');
            let want = n && type_len(&m.text[m.at..]) == 2 && &m.text[m.at..m.at + 2] == b"aq";
            let mut done = false;
            match e.enc_with(sig(b"aq").into()) {
                Ok(mut sub) => {
                    rt::check(want, 17);
                    rt::check(matches!(sub.commit(), Err(Error::Pending)), 18);
                    if rt::pick(0, 1) == 1 {
                        rt::check(ok(sub.array()) && ok(sub.u16(0x2233)) && ok(sub.close()) && sub.commit().is_ok(), 19);
                        done = true;
                    }
                }
                Err(v) => rt::check(!want && matches!(v, Error::Mismatch), 20),
            }
            if done {
                m.open(b'a', b"");
                m.fixed(b'q', 0x2233);
                m.close();
            }
        }
    }
}

/// Take the shortest way to the end.
fn finish(e: &mut Enc<'static, '_>, m: &mut Model) {
    while !m.complete() {
        let op = match m.next() {
            _ if m.stack.last().is_some_and(|f| f.kind == b'a') => 10,
            None | Some(b')' | b'}') => 10,
            Some(b'q') => 0,
            Some(b'u') => 1,
            Some(b't') => 2,
            Some(b's') => 3,
            Some(b'o') => 4,
            Some(b'g') => 5,
            Some(b'v') => 6,
            Some(b'a') => 7,
            Some(b'(') => 8,
            _ => 9,
        };
        attempt(e, m, op);
    }
    attempt(e, m, 11);
    attempt(e, m, 11);
}

/// Any operations.
fn c30_any() {
    let text = SIGS[rt::pick(rt::param(1), rt::param(2))];
    let mut out = Chunks::new(200, 1000, 0);
    let mut m = Model::new(text, false);
    let mut e = Enc::new_le(sig(text), &mut out);
    for _ in 0..rt::param(0) {
        attempt(&mut e, &mut m, rt::pick(0, 13));
    }
    finish(&mut e, &mut m);
    rt::check(out.committed == Some(m.out.len()), 21);
    rt::check(same_bytes(out.bytes(m.out.len()), &m.out), 22);
    rt::cover(1);
}

/// The right operations with one wrong one at any place.
fn c30_once() {
    let text = SIGS[rt::pick(rt::param(0), rt::param(1))];
    let mut out = Chunks::new(200, 1000, 0);
    let mut m = Model::new(text, true);
    let mut e = Enc::new_be(sig(text), &mut out);
    let place = rt::pick(0, 9);
    let mut i = 0;
    while !m.complete() {
        if i == place {
            attempt(&mut e, &mut m, rt::pick(0, 13));
            rt::cover(2);
            break;
        }
        i += 1;
        rt::check(crate::model::dvar::advance(&mut e, &mut m, 1, 1), 23);
    }
    finish(&mut e, &mut m);
    rt::check(out.committed == Some(m.out.len()), 24);
    rt::check(same_bytes(out.bytes(m.out.len()), &m.out), 25);
    rt::cover(1);
}

/// The output fails at any request, for a while, with any error.
fn c30_fail() {
    let text = SIGS[rt::pick(rt::param(0), rt::param(1))];
    let error = match rt::pick(0, 2) {
        0 => None,
        1 => Some(map::Error::Exceeded),
        _ => Some(map::Error::Overflow),
    };
    let hit = Cell::new(0);
    let mut out = Failing { out: Chunks::new(200, rt::pick(1, 3), 0), at: rt::pick(0, rt::param(2)), error, hit: &hit };
    let mut m = Model::new(text, true);
    let mut e = Enc::new_be(sig(text), &mut out);
    let mut refused = false;
    while !m.complete() {
        let before = hit.get();
        let (r, op) = step(&mut e, &m);
        let failed = hit.get() != before;
        match r {
            Ok(()) => {
                rt::check(!failed, 26);
                replay(&mut m, op);
            }
            Err(v) => {
                rt::check(failed, 27);
                rt::check(
                    match (v, error) {
                        (None, None) => true,
                        (Some(Error::Io(a)), Some(b)) => a == b,
                        _ => false,
                    },
                    28,
                );
                // nothing has happened
                rt::check(matches!(e.commit(), Err(Error::Pending)), 29);
                refused = true;
            }
        }
    }
    rt::check(e.commit().is_ok(), 30);
    rt::check(out.out.committed == Some(m.out.len()), 31);
    rt::check(same_bytes(out.out.bytes(m.out.len()), &m.out), 32);
    rt::cover(1);
    if refused {
        rt::cover(2);
    }
}

/// Refuses the request after `at` others, once.
struct Failing<'a> {
    out: Chunks,
    at: usize,
    error: Option<map::Error>,
    hit: &'a Cell<usize>,
}

impl map::Write for Failing<'_> {
    unsafe fn commit(&mut self, len: usize) {
        unsafe { self.out.commit(len) }
    }
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<map::Error>, &mut [core::mem::MaybeUninit<u8>]> {
        if self.at == 0 && self.hit.get() == 0 {
            self.hit.set(1);
            return Flow::Break(self.error);
        }
        self.at = self.at.saturating_sub(1);
        self.out.map(idx, len)
    }
}

fn step(e: &mut Enc<'static, '_>, m: &Model) -> (Result<(), Option<Error>>, usize) {
    let op = match m.next() {
        _ if m.stack.last().is_some_and(|f| f.kind == b'a' && f.count == 1) => 10,
        None | Some(b')' | b'}') => 10,
        Some(b'q') => 0,
        Some(b'u') => 1,
        Some(b't') => 2,
        Some(b's') => 3,
        Some(b'o') => 4,
        Some(b'g') => 5,
        Some(b'v') => 6,
        Some(b'a') => 7,
        Some(b'(') => 8,
        _ => 9,
    };
    let r = match op {
        0 => e.u16(0x1122),
        1 => e.u32(0x33445566),
        2 => e.u64(7),
        3 => e.string("ab"),
        4 => e.object("/"),
        5 => e.signature("q"),
        6 => e.variant(sig(b"t")),
        7 => e.array(),
        8 => e.structure(),
        9 => e.dict(),
        _ => e.close(),
    };
    match r {
        Flow::Continue(_) => (Ok(()), op),
        Flow::Break(v) => (Err(v), op),
    }
}

fn replay(m: &mut Model, op: usize) {
    match op {
        0 => m.fixed(b'q', 0x1122),
        1 => m.fixed(b'u', 0x33445566),
        2 => m.fixed(b't', 7),
        3 => m.text(b's', b"ab"),
        4 => m.text(b'o', b"/"),
        5 => m.text(b'g', b"q"),
        6 => m.open(b'v', b"t"),
        7 => m.open(b'a', b""),
        8 => m.open(b'(', b""),
        9 => m.open(b'{', b""),
        _ => m.close(),
    };
}

/// Signatures with elements the encoder has no operation for refuse all.
fn c30_other() {
    const OTHER: [&[u8]; 8] = [b"y", b"b", b"n", b"i", b"x", b"d", b"h", b"mq"];
    let text = OTHER[rt::pick(0, 7)];
    let mut out = Chunks::new(200, 1000, 0);
    let mut m = Model::new(text, false);
    let mut e = Enc::new_le(sig(text), &mut out);
    attempt(&mut e, &mut m, rt::pick(0, 13));
    attempt(&mut e, &mut m, 11);
    rt::check(out.committed.is_none(), 33);
    rt::cover(1);
}

crate::rt::harness!(c30_any, c30_once, c30_fail, c30_other);
