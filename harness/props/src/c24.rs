use crate::model::sig::{same_error, Model};
use crate::model::util::{same_bytes, Text};
use crate::rt;
use alloc::boxed::Box;
use alloc::vec::Vec;
use core::mem::MaybeUninit as Uninit;
use tmp::fmt::dbus::signature::Error;
use tmp::fmt::dbus::Sig;

fn verify(s: &[u8]) {
    let mut m = Box::new(Model::new());
    let e = m.parse(s);
    let r = Sig::new(s);
    rt::check(r.is_ok() == e.is_ok(), 1);
    match (r, e) {
        (Ok(v), Ok(())) => {
            let t = v.to_string();
            rt::check(same_bytes(t.as_bytes(), s), 2);
            rt::check(v.len() == s.len(), 3);
            rt::cover(1);
        }
        (Err(g), Err(e)) => {
            rt::check(same_error(s, g, e), 4);
            rt::cover(2);
        }
        _ => {}
    }
}

/// All byte strings of a length.
fn c24_accept() {
    let n = rt::param(0);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(rt::u8());
    }
    verify(&b);
}

/// Text of `n` characters with any nesting, `d` of how much.
fn shape(n: usize, d: usize, kind: usize) -> Vec<u8> {
    let d = d * n / 8;
    let mut b = Vec::with_capacity(n);
    for i in 0..n {
        b.push(match kind {
            // a run of values with a structure at the end
            3 if i == 0 || i + 4 + d == n => b'(',
            3 if i + 2 + d == n || i + 1 == n => b')',
            // nested structures around a run of values
            0 if i < d => b'(',
            0 if i >= n - d => b')',
            // arrays
            1 if i < 2 * d && i + 1 < n => b'a',
            // a structure of dictionaries
            2 if d == 0 || n - i <= 2 + (n - 2) % 4 => b')',
            2 if i > 0 => b"{uv}"[(i - 1) % 4],
            0 | 1 | 3 => b't',
            _ => b'(',
        });
    }
    b
}

/// Signatures of `param(0)` to `param(1)` characters with any nesting, with
/// arbitrary bytes in `param(2)` places.
fn c24_long() {
    let n = rt::pick(rt::param(0), rt::param(1));
    let mut b = shape(n, rt::pick(0, 4), rt::pick(0, 2));
    for _ in 0..rt::param(2) {
        let at = rt::pick(0, n - 1);
        b[at] = rt::u8();
    }
    verify(&b);
}

/// Much longer signatures, with an arbitrary byte in one of some places.
fn c24_far() {
    let n = rt::param(0);
    let mut b = shape(n, [0, 1, 4][rt::pick(0, 2)], rt::pick(0, 3));
    let at = [0, n / 2, n - 1][rt::pick(0, 2)];
    b[at] = rt::u8();
    verify(&b);
}

/// Buffers of any size.
fn c24_buffer() {
    let n = rt::pick(0, 3) + if rt::pick(0, 1) == 1 { rt::param(0) } else { 0 };
    let size = rt::pick(0, 7) + if n > 3 { 6 * n - 4 } else { 0 };
    let mut b = Vec::with_capacity(n);
    for i in 0..n {
        b.push(if i + 2 < n { b'a' } else { rt::u8() });
    }
    let mut d: Vec<Uninit<u64>> = Vec::with_capacity(size);
    unsafe { d.set_len(size) };
    let r = Sig::parse(&mut d, &b);
    let mut m = Box::new(Model::new());
    let e = m.parse(&b);
    let fits = size / if n > 31 { 6 } else { 1 } == n;
    if n == 0 {
        rt::check(r == Err(Error::SignatureEmpty), 5);
    } else if !fits {
        rt::check(r.is_err(), 6);
        rt::check(r == Err(Error::DataExceeded) || e.is_err(), 7);
        rt::cover(1);
    } else {
        match (r, e) {
            (Ok(()), Ok(())) => {
                // all of the buffer is initialised
                for v in &d {
                    rt::initialised(v.as_ptr() as *const u8, 8);
                }
                rt::cover(2);
            }
            (Err(g), Err(e)) => rt::check(same_error(&b, g, e), 8),
            _ => rt::check(false, 9),
        }
    }
}

fn fixed<const N: usize>(b: &[u8]) {
    let r = Sig::<[u64; N]>::try_make(b);
    let mut m = Box::new(Model::new());
    let e = m.parse(b);
    rt::check(r.is_ok() == (e.is_ok() && b.len() == N), 10);
    if r.is_ok() {
        let v = Sig::<[u64; N]>::make(b);
        let v: &Sig = unsafe { core::mem::transmute(core::slice::from_raw_parts(&raw const v as *const u64, N)) };
        rt::check(same_bytes(Text::of(format_args!("{}", v)).bytes(), b), 11);
        rt::check(same_bytes(Text::of(format_args!("{:?}", v)).bytes(), b), 12);
        rt::check(same_bytes(Sig::arc(b).unwrap().to_string().as_bytes(), b), 13);
        rt::cover(1);
    } else {
        rt::check(b.len() != N || Sig::arc(b).is_err(), 14);
        // the literal constructor refuses by panicking
        rt::expect_panic(true);
        rt::cover(2);
        let _ = Sig::<[u64; N]>::make(b);
        rt::check(false, 15);
    }
}

/// The other constructors.
fn c24_literal() {
    let b = [rt::u8(), rt::u8(), rt::u8()];
    let n = rt::pick(0, 3);
    match rt::pick(1, 3) {
        1 => fixed::<1>(&b[..n]),
        2 => fixed::<2>(&b[..n]),
        _ => fixed::<3>(&b[..n]),
    }
}

crate::rt::harness!(c24_accept, c24_long, c24_far, c24_buffer, c24_literal);
