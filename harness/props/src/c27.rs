use crate::model::dvar::{advance, ok, sig, Chunks, Model};
use crate::model::util::same_bytes;
use crate::rt;
use alloc::vec::Vec;
use core::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::{Enc, Format};
use tmp::io::map;

const SIGS: [&[u8]; 24] = [
    b"q", b"u", b"t", b"s", b"o", b"g", b"v", b"(qut)", b"(qtsq)", b"as", b"aq", b"at", b"a(qt)", b"a{qt}", b"a{sv}",
    b"aaq", b"(qat)", b"(ga{ug}t)", b"av", b"(gv)", b"(q(q(t)q))", b"(gaas)", b"(gu(sog))", b"(qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqat)",
];

fn enc<'w>(text: &'static [u8], be: bool, w: &'w mut dyn map::Write) -> Enc<'static, 'w> {
    if be {
        Enc::new_be(sig(text), w)
    } else {
        Enc::new_le(sig(text), w)
    }
}

/// Every value of some signatures, written to a vector holding other data.
fn c27_vec() {
    let text = SIGS[rt::pick(rt::param(0), rt::param(1))];
    let be = rt::pick(0, 1) == 1;
    let before = rt::pick(0, 2);
    let mut out = Vec::new();
    for _ in 0..before {
        out.push(rt::u8());
    }
    let held = out.clone();
    let mut m = Model::new(text, be);
    let mut e = enc(text, be, &mut out);
    while !m.complete() {
        rt::check(advance(&mut e, &mut m, rt::param(2), rt::param(3)), 1);
    }
    rt::check(e.commit().is_ok(), 2);
    rt::check(out.len() == before + m.out.len(), 3);
    rt::check(same_bytes(&out[..before], &held), 4);
    rt::check(same_bytes(&out[before..], &m.out), 5);
    rt::cover(1);
}

/// The same in chunks.
fn c27_chunks() {
    let text = SIGS[rt::pick(rt::param(0), rt::param(1))];
    let be = rt::pick(0, 1) == 1;
    let (chunk, extra) = match rt::pick(0, 3) {
        0 => (1, 0),
        1 => (3, 0),
        2 => (5, 2),
        _ => (1000, 7),
    };
    let mut out = Chunks::new(200, chunk, extra);
    let mut m = Model::new(text, be);
    let mut e = enc(text, be, &mut out);
    while !m.complete() {
        rt::check(advance(&mut e, &mut m, rt::param(2), rt::param(3)), 1);
    }
    rt::check(e.commit().is_ok(), 2);
    rt::check(out.committed == Some(m.out.len()), 6);
    rt::check(same_bytes(out.bytes(m.out.len()), &m.out), 7);
    rt::cover(1);
}

/// Encode one complete type through nested encoders, chosen anew at each
/// type.
fn nested(e: &mut Enc<'_, '_>, m: &mut Model, max: usize) {
    if rt::pick(0, 1) == 1 {
        let c = m.text;
        let n = crate::model::dvar::type_len(&c[m.at..]);
        let t = &c[m.at..m.at + n];
        let r = if rt::pick(0, 1) == 1 { e.enc_with(sig(t).into()) } else { e.enc() };
        match r {
            Err(_) => rt::check(false, 8),
            Ok(mut sub) => {
                plain(&mut sub, m, max);
                rt::check(sub.commit().is_ok(), 9);
            }
        }
    } else {
        plain(e, m, max);
    }
}

fn plain(e: &mut Enc<'_, '_>, m: &mut Model, max: usize) {
    match m.next().unwrap() {
        b'q' => {
            let v = rt::u16();
            m.fixed(b'q', v as u64);
            rt::check(ok(e.u16(v)), 10);
        }
        b't' => {
            let v = rt::u64();
            m.fixed(b't', v);
            rt::check(ok(e.u64(v)), 11);
        }
        b's' => {
            m.text(b's', b"xy");
            rt::check(ok(e.string("xy")), 12);
        }
        b'v' => {
            m.open(b'v', b"t");
            rt::check(ok(e.variant_with(sig(b"t").into())), 13);
            nested(e, m, max);
            m.close();
            rt::check(ok(e.close()), 14);
        }
        c => {
            m.open(c, b"");
            rt::check(
                ok(match c {
                    b'a' => e.array(),
                    b'(' => e.structure(),
                    _ => e.dict(),
                }),
                15,
            );
            if c == b'a' {
                for _ in 0..rt::pick(0, max) {
                    nested(e, m, max);
                }
            } else {
                while !matches!(m.next(), Some(b')' | b'}')) {
                    nested(e, m, max);
                }
            }
            m.close();
            rt::check(ok(e.close()), 16);
        }
    }
}

const NESTED: [&[u8]; 6] = [b"q", b"aq", b"(qt)", b"a{qs}", b"(qv)", b"aat"];

fn c27_nested() {
    let text = NESTED[rt::pick(0, NESTED.len() - 1)];
    let be = rt::pick(0, 1) == 1;
    let mut out = Vec::new();
    let mut m = Model::new(text, be);
    let mut e = Enc::with(sig(text).into(), if be { Format::DVarBe } else { Format::DVarLe }, &mut out);
    nested(&mut e, &mut m, rt::param(0));
    rt::check(e.commit().is_ok(), 17);
    rt::check(same_bytes(&out, &m.out), 18);
    rt::cover(1);
}

/// Texts at the limit of what a length byte can tell.
fn c27_limits() {
    let n = rt::pick(253, 255) + rt::pick(0, 2);
    let mut s = alloc::string::String::new();
    for _ in 0..n {
        s.push('a');
    }
    let mut out = Vec::new();
    let mut e = enc(b"g", false, &mut out);
    let r = e.signature(&s);
    if n > 255 {
        rt::check(matches!(r, Flow::Break(Some(tmp::fmt::dbus::Error::DataOverflow))), 19);
        rt::check(ok(e.signature("q")) && e.commit().is_ok() && same_bytes(&out, b"\x01q\0"), 20);
        rt::cover(1);
    } else {
        rt::check(ok(r) && e.commit().is_ok(), 21);
        rt::check(out.len() == n + 2 && out[0] as usize == n && out[n + 1] == 0 && out[n] == b'a', 22);
        rt::cover(2);
    }
    // the same for the signature of a variant
    let text = alloc::boxed::Box::leak(s.into_bytes().into_boxed_slice());
    text.fill(b'q');
    text[0] = b'(';
    text[n - 1] = b')';
    let mut out = Vec::new();
    let mut e = enc(b"v", false, &mut out);
    let r = e.variant(sig(text));
    if n > 255 {
        rt::check(matches!(r, Flow::Break(Some(tmp::fmt::dbus::Error::DataOverflow))), 23);
        rt::check(e.commit().is_err(), 24);
    } else {
        rt::check(ok(r), 25);
    }
}

/// Lengths that take more than one byte.
fn c27_large() {
    const LARGE: [&[u8]; 6] = [b"s", b"o", b"at", b"aq", b"a(qt)", b"aas"];
    let text = LARGE[rt::pick(0, 5)];
    let be = rt::pick(0, 1) == 1;
    let n = rt::pick(0, 2);
    let mut out = Vec::new();
    let mut m = Model::new(text, be);
    let mut e = enc(text, be, &mut out);
    if text.len() == 1 {
        let mut s = alloc::string::String::new();
        for _ in 0..[255, 256, 1025][n] {
            let c = rt::u8();
            rt::assume(c < 0x80);
            unsafe { s.as_mut_vec().push(c) };
        }
        m.text(text[0], s.as_bytes());
        rt::check(ok(if text[0] == b's' { e.string(&s) } else { e.object(&s) }), 26);
    } else {
        m.open(b'a', b"");
        rt::check(ok(e.array()), 27);
        for _ in 0..[31, 32, 130][n] {
            match text {
                b"at" => {
                    let v = rt::u64();
                    m.fixed(b't', v);
                    rt::check(ok(e.u64(v)), 28);
                }
                b"aq" => {
                    let v = rt::u16();
                    m.fixed(b'q', v as u64);
                    rt::check(ok(e.u16(v)), 29);
                }
                b"aas" => {
                    m.open(b'a', b"");
                    m.text(b's', b"abc");
                    m.close();
                    rt::check(ok(e.array()) && ok(e.string("abc")) && ok(e.close()), 30);
                }
                _ => {
                    let v = rt::u64();
                    m.open(b'(', b"");
                    m.fixed(b'q', v & 0xffff);
                    m.fixed(b't', v);
                    m.close();
                    rt::check(ok(e.structure()) && ok(e.u16(v as u16)) && ok(e.u64(v)) && ok(e.close()), 31);
                }
            }
        }
        m.close();
        rt::check(ok(e.close()), 32);
    }
    rt::check(e.commit().is_ok() && same_bytes(&out, &m.out), 33);
    rt::cover(1);
}

/// Texts of any length, with arbitrary characters at the ends and in between.
pub fn huge(n: usize) -> alloc::string::String {
    let mut b = alloc::vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        let c = rt::u8();
        rt::assume(c < 0x80);
        b[i] = c;
    }
    unsafe { alloc::string::String::from_utf8_unchecked(b) }
}

/// Lengths that take more than two bytes.
fn c27_huge() {
    const HUGE: [&[u8]; 4] = [b"s", b"o", b"as", b"(aasq)"];
    let text = HUGE[rt::pick(0, 3)];
    let be = rt::pick(0, 1) == 1;
    let mut out = Vec::new();
    let mut m = Model::new(text, be);
    let mut e = enc(text, be, &mut out);
    let (mut open, mut count) = (0, 0);
    while !m.complete() {
        match m.next() {
            Some(c @ (b's' | b'o')) if count < text.len().min(2) => {
                let s = if count == 0 { huge(rt::param(0)) } else { alloc::string::String::from("ab") };
                m.text(c, s.as_bytes());
                rt::check(ok(if c == b's' { e.string(&s) } else { e.object(&s) }), 34);
                count += 1;
            }
            Some(c @ (b'a' | b'(')) if count == 0 => {
                open += 1;
                m.open(c, b"");
                rt::check(ok(if c == b'a' { e.array() } else { e.structure() }), 35);
            }
            Some(b'q') => {
                let v = rt::u16();
                m.fixed(b'q', v as u64);
                rt::check(ok(e.u16(v)), 36);
            }
            _ => {
                open -= 1;
                m.close();
                rt::check(ok(e.close()), 37);
            }
        }
    }
    rt::check(open == 0 && e.commit().is_ok() && same_bytes(&out, &m.out), 38);
    rt::cover(1);
}

/// Many levels of arrays, structures or variants.
fn c27_deep() {
    let d = rt::param(0);
    let kind = rt::pick(0, 3);
    let mut text = Vec::new();
    for i in 0..d {
        match kind {
            0 => text.push(b'a'),
            1 => text.push(b'('),
            2 => text.push([b'a', b'('][i % 2]),
            _ => {}
        }
    }
    text.push(if kind == 3 { b'v' } else { b't' });
    for i in 0..d {
        if kind == 1 || kind == 2 && (d - 1 - i) % 2 == 1 {
            text.push(b')');
        }
    }
    let text: &'static [u8] = Vec::leak(text);
    let be = rt::pick(0, 1) == 1;
    let mut out = Vec::new();
    let mut m = Model::new(text, be);
    let mut e = enc(text, be, &mut out);
    for i in 0..d {
        let c = m.next().unwrap();
        m.open(c, if c != b'v' { b"" } else if i + 1 < d { b"v" } else { b"t" });
        rt::check(
            ok(match c {
                b'a' => e.array(),
                b'(' => e.structure(),
                _ => e.variant(sig(if i + 1 < d { b"v" } else { b"t" })),
            }),
            39,
        );
    }
    let v = rt::u64();
    m.fixed(b't', v);
    rt::check(ok(e.u64(v)), 40);
    rt::check(e.commit().is_err(), 41);
    for _ in 0..d {
        m.close();
        rt::check(ok(e.close()), 42);
    }
    rt::check(m.complete() && e.commit().is_ok() && same_bytes(&out, &m.out), 43);
    rt::cover(1);
}

crate::rt::harness!(c27_large, c27_huge, c27_deep, c27_vec, c27_chunks, c27_nested, c27_limits);
