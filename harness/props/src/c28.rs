use crate::model::dvar::{sig, text, type_len};
use crate::model::util::same_bytes;
use crate::rt;
use alloc::string::String;
use alloc::vec::Vec;
use core::cell::Cell;
use core::ops::ControlFlow as Flow;
use tmp::fmt::dbus::dvar::{Dec, Enc, Format};
use tmp::io::map;

/// Input in chunks that notes how much of it was asked for.
struct Source<'a> {
    data: &'a [u8],
    chunk: usize,
    seen: Cell<usize>,
}

impl map::Read for Source<'_> {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<map::Error>, &[u8]> {
        let v = self.data.map(idx, len)?;
        let n = v.len().min(self.chunk);
        self.seen.set(self.seen.get().max(idx + n));
        Flow::Continue(&v[..n])
    }
}

#[derive(Default)]
struct Vals {
    num: Vec<u16>,
    txt: Vec<String>,
    cnt: Vec<usize>,
}

fn good<B, C>(r: Flow<B, C>) -> bool {
    matches!(r, Flow::Continue(_))
}

fn encode(e: &mut Enc, t: &[u8], v: &mut Vals, max: usize) {
    match t[0] {
        b'q' => {
            let n = rt::u16();
            v.num.push(n);
            rt::check(good(e.u16(n)), 1);
        }
        b'a' => {
            rt::check(good(e.array()), 2);
            let n = rt::pick(0, max);
            v.cnt.push(n);
            for _ in 0..n {
                encode(e, &t[1..], v, max);
            }
            rt::check(good(e.close()), 3);
        }
        c => {
            let s = text();
            rt::check(good(if c == b's' { e.string(&s) } else { e.signature(&s) }), 4);
            v.txt.push(s);
        }
    }
}

struct Seen {
    num: usize,
    txt: usize,
    cnt: usize,
}

fn decode(d: &mut Dec, t: &'static [u8], v: &Vals, i: &mut Seen, mode: usize) {
    let t = &t[..type_len(t)];
    if mode == 1 && (t[0] != b'a' || i.cnt % 2 == 0) {
        let r = if i.num % 2 == 0 { d.dec() } else { d.dec_with(sig(t).into()) };
        match r {
            Err(_) => rt::check(false, 5),
            Ok(mut sub) => {
                value(&mut sub, t, v, i, mode);
                rt::check(sub.commit().is_ok(), 6);
            }
        }
    } else {
        value(d, t, v, i, mode);
    }
}

fn value(d: &mut Dec, t: &'static [u8], v: &Vals, i: &mut Seen, mode: usize) {
    match t[0] {
        b'q' => {
            let mut n = 0;
            rt::check(good(d.u16(&mut n)), 7);
            rt::check(n == v.num[i.num], 8);
            i.num += 1;
        }
        b'a' => {
            rt::check(good(d.array()), 9);
            let n = v.cnt[i.cnt];
            i.cnt += 1;
            for _ in 0..n {
                rt::check(d.more(), 10);
                decode(d, &t[1..], v, i, mode);
            }
            rt::check(!d.more(), 11);
            rt::check(good(d.close()), 12);
        }
        c => {
            let mut s = String::from("old");
            rt::check(good(if c == b's' { d.string(&mut s) } else { d.signature(&mut s) }), 13);
            rt::check(same_bytes(s.as_bytes(), v.txt[i.txt].as_bytes()), 14);
            i.txt += 1;
        }
    }
}

const SIGS: [&[u8]; 9] = [b"q", b"s", b"g", b"aq", b"as", b"ag", b"aaq", b"aas", b"aaag"];

fn c28_trip() {
    let t = SIGS[rt::pick(rt::param(0), rt::param(1))];
    let be = rt::pick(0, 1) == 1;
    let format = || if be { Format::DVarBe } else { Format::DVarLe };
    let mut v = Vals::default();
    let mut out = Vec::new();
    let mut e = Enc::with(sig(t).into(), format(), &mut out);
    encode(&mut e, t, &mut v, rt::param(2));
    rt::check(e.commit().is_ok(), 15);

    let extra = rt::pick(0, 1);
    let n = out.len();
    for _ in 0..extra {
        out.push(rt::u8());
    }
    let chunk = [1, 3, 1000][rt::pick(0, 2)];
    let mut source = Source { data: &out, chunk, seen: Cell::new(0) };
    {
        let mut d = Dec::with(sig(t).into(), format(), &mut source);
        let mut i = Seen { num: 0, txt: 0, cnt: 0 };
        rt::check(d.commit().is_err(), 16);
        decode(&mut d, t, &v, &mut i, rt::pick(0, 1));
        rt::check(d.commit().is_ok(), 17);
        rt::check(i.num == v.num.len() && i.txt == v.txt.len() && i.cnt == v.cnt.len(), 18);
    }
    rt::check(source.seen.get() == n, 19);
    rt::cover(1);
}

/// The format-neutral constructors agree with the direct ones.
fn c28_either() {
    use tmp::fmt::dbus::ende;
    let be = rt::pick(0, 1) == 1;
    let format = if be { ende::Format::DVarBe } else { ende::Format::DVarLe };
    let v = rt::u16();
    let mut out = Vec::new();
    {
        let ende::Enc::DVar(mut e) = ende::Enc::new(sig(b"aq"), format, &mut out);
        rt::check(good(e.array()) && good(e.u16(v)) && good(e.close()) && e.commit().is_ok(), 20);
    }
    let n = if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let head: &[u8] = if be { &[0, 0, 0, 2] } else { &[2, 0, 0, 0] };
    rt::check(out.len() == 6 && same_bytes(&out[..4], head) && same_bytes(&out[4..], &n), 21);
    let mut source = Source { data: &out, chunk: 1, seen: Cell::new(0) };
    let mut d = ende::Dec::new(sig(b"aq"), format, &mut source);
    rt::check(!good(d.close()), 22);
    let mut r = 0;
    {
        let ende::Dec::DVar(ref mut d) = d;
        rt::check(good(d.array()), 23);
    }
    rt::check(d.more(), 24);
    {
        let ende::Dec::DVar(ref mut d) = d;
        rt::check(good(d.u16(&mut r)) && r == v, 25);
    }
    rt::check(!d.more() && good(d.close()), 26);
    let ende::Dec::DVar(mut d) = d;
    rt::check(d.commit().is_ok(), 27);
    rt::cover(1);
}

/// Lengths that take more than one byte.
fn c28_large() {
    let be = rt::pick(0, 1) == 1;
    let format = || if be { Format::DVarBe } else { Format::DVarLe };
    let mut out = Vec::new();
    if rt::pick(0, 1) == 0 {
        let mut s = String::new();
        for _ in 0..[255, 256, 513][rt::pick(0, 2)] {
            let c = rt::u8();
            rt::assume(c < 0x80);
            unsafe { s.as_mut_vec().push(c) };
        }
        let mut e = Enc::with(sig(b"s").into(), format(), &mut out);
        rt::check(good(e.string(&s)) && e.commit().is_ok(), 28);
        let mut source = Source { data: &out, chunk: [7, 1000][rt::pick(0, 1)], seen: Cell::new(0) };
        let mut d = Dec::with(sig(b"s").into(), format(), &mut source);
        let mut r = String::new();
        rt::check(good(d.string(&mut r)) && d.commit().is_ok(), 29);
        rt::check(same_bytes(r.as_bytes(), s.as_bytes()), 30);
        rt::cover(1);
    } else {
        let n = [127, 128, 300][rt::pick(0, 2)];
        let mut v = Vec::new();
        let mut e = Enc::with(sig(b"aq").into(), format(), &mut out);
        rt::check(good(e.array()), 31);
        for _ in 0..n {
            let k = rt::u16();
            v.push(k);
            rt::check(good(e.u16(k)), 32);
        }
        rt::check(good(e.close()) && e.commit().is_ok(), 33);
        let mut source = Source { data: &out, chunk: 1000, seen: Cell::new(0) };
        let mut d = Dec::with(sig(b"aq").into(), format(), &mut source);
        rt::check(good(d.array()), 34);
        for k in v {
            let mut r = 0;
            rt::check(d.more() && good(d.u16(&mut r)) && r == k, 35);
        }
        rt::check(!d.more() && good(d.close()) && d.commit().is_ok(), 36);
        rt::cover(2);
    }
}

/// Lengths that take more than two bytes.
fn c28_huge() {
    let n = rt::param(0);
    let be = rt::pick(0, 1) == 1;
    let format = || if be { Format::DVarBe } else { Format::DVarLe };
    let mut b = alloc::vec![b'x'; n];
    for i in [0, n / 2, n - 1] {
        let c = rt::u8();
        rt::assume(c < 0x80);
        b[i] = c;
    }
    let s = unsafe { String::from_utf8_unchecked(b) };
    let mut out = Vec::new();
    let mut e = Enc::with(sig(b"aas").into(), format(), &mut out);
    rt::check(good(e.array()) && good(e.array()) && good(e.string(&s)) && good(e.string("ab")), 37);
    rt::check(good(e.close()) && good(e.close()) && e.commit().is_ok(), 38);
    let mut source = Source { data: &out, chunk: [1000, 5000, usize::MAX][rt::pick(0, 2)], seen: Cell::new(0) };
    let mut d = Dec::with(sig(b"aas").into(), format(), &mut source);
    rt::check(good(d.array()) && d.more() && good(d.array()) && d.more(), 39);
    let mut r = String::new();
    rt::check(good(d.string(&mut r)) && same_bytes(r.as_bytes(), s.as_bytes()), 40);
    rt::check(d.more() && good(d.string(&mut r)) && r == "ab", 41);
    rt::check(!d.more() && good(d.close()) && !d.more() && good(d.close()) && d.commit().is_ok(), 42);
    rt::cover(1);
}

/// Many levels of arrays.
fn c28_deep() {
    let n = rt::param(0);
    let be = rt::pick(0, 1) == 1;
    let format = || if be { Format::DVarBe } else { Format::DVarLe };
    let mut text = alloc::vec![b'a'; n];
    text.push(b'q');
    let text: &'static [u8] = Vec::leak(text);
    let mut out = Vec::new();
    let mut e = Enc::with(sig(text).into(), format(), &mut out);
    let v = rt::u16();
    for _ in 0..n {
        rt::check(good(e.array()), 43);
    }
    rt::check(good(e.u16(v)), 44);
    for _ in 0..n {
        rt::check(good(e.close()), 45);
    }
    rt::check(e.commit().is_ok(), 46);
    let mut source = Source { data: &out, chunk: usize::MAX, seen: Cell::new(0) };
    let mut d = Dec::with(sig(text).into(), format(), &mut source);
    for _ in 0..n {
        rt::check(good(d.array()) && d.more(), 47);
    }
    let mut r = 0;
    rt::check(good(d.u16(&mut r)) && r == v, 48);
    for _ in 0..n {
        rt::check(!d.more() && good(d.close()), 49);
    }
    rt::check(d.commit().is_ok(), 50);
    rt::cover(1);
}

crate::rt::harness!(c28_large, c28_huge, c28_deep, c28_trip, c28_either);
