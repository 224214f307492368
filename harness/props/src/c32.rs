use crate::model::util::same_bytes;
use crate::rt;
use alloc::vec::Vec;
use core::mem::MaybeUninit as Uninit;
use core::ops::ControlFlow as Flow;
use tmp::io::stream::{read_map_while, More, Read, Write};

fn some(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(rt::u8());
    }
    v
}

fn hint(n: usize) -> Option<usize> {
    match rt::pick(0, n + 2) {
        v if v <= n => Some(v),
        v if v == n + 1 => Some(usize::MAX),
        _ => None,
    }
}

/// Windows of plain memory, of any size.
fn c32_read() {
    let n = rt::pick(0, 4);
    let data = some(n);
    let mut s = &data[..];
    let min = rt::usize();
    let max = if rt::pick(0, 1) == 0 { None } else { Some(rt::usize()) };
    let used = rt::pick(0, n);
    Read::advance(&mut s, used);
    rt::check(same_bytes(s, &data[used..]), 1);
    match Read::map(&s, min, max) {
        Flow::Continue(v) => {
            rt::check(min <= n - used, 2);
            rt::check(v.len() >= min && v.len() <= n - used, 3);
            rt::check(same_bytes(v, &data[used..used + v.len()]), 4);
            rt::cover(1);
        }
        Flow::Break(m) => {
            rt::check(min > n - used, 5);
            rt::check(m.min == min && m.max == max, 6);
            rt::cover(2);
        }
    }
}

/// Windows of a vector.
fn c32_vec() {
    let before = rt::pick(0, 2);
    let mut v: Vec<u8> = Vec::with_capacity(rt::pick(0, 1) * 4);
    v.extend_from_slice(&some(before));
    let held = v.clone();
    let min = rt::pick(0, rt::param(0));
    let max = hint(rt::param(0) + 1);
    let data = some(min);
    match Write::map(&mut v, min, max) {
        Flow::Continue(m) => {
            rt::check(m.len() >= min, 7);
            for i in 0..min {
                m[i].write(data[i]);
            }
        }
        Flow::Break(_) => rt::check(false, 8),
    }
    rt::check(same_bytes(&v, &held), 9);
    // mapping again, possibly more, keeps what has been written
    let more = min + rt::pick(0, 2) * 5;
    match Write::map(&mut v, more, hint(1)) {
        Flow::Continue(m) => {
            rt::check(m.len() >= more, 10);
            let m = unsafe { core::slice::from_raw_parts(m.as_ptr() as *const u8, min) };
            rt::check(same_bytes(m, &data), 11);
        }
        Flow::Break(_) => rt::check(false, 12),
    }
    let part = rt::pick(0, min);
    match unsafe { v.map_unchecked(part) } {
        Flow::Continue(m) => rt::check(m.len() == part && same_bytes(m, &data[..part]), 13),
        Flow::Break(_) => rt::check(false, 14),
    }
    unsafe { Write::commit(&mut v, part) };
    rt::check(v.len() == before + part && same_bytes(&v[..before], &held), 15);
    rt::check(same_bytes(&v[before..], &data[..part]), 16);
    // the window moved by what was committed
    match unsafe { v.map_unchecked(min - part) } {
        Flow::Continue(m) => rt::check(same_bytes(m, &data[part..]), 17),
        Flow::Break(_) => rt::check(false, 18),
    }
    // and so it does when written to in one go
    let last = some(rt::pick(0, 2));
    rt::check(matches!(Write::write(&mut v, &last), Flow::Continue(())), 19);
    rt::check(v.len() == before + part + last.len(), 20);
    rt::check(same_bytes(&v[before + part..], &last), 21);
    rt::check(same_bytes(&v[before..before + part], &data[..part]), 22);
    rt::cover(1);
}

/// A limited output.
struct Limited {
    data: Vec<u8>,
    from: usize,
    extra: bool,
}

impl Write for Limited {
    unsafe fn commit(&mut self, len: usize) {
        self.from += len;
    }
    fn map(&mut self, min: usize, max: Option<usize>) -> Flow<More, &mut [Uninit<u8>]> {
        let rem = self.data.len() - self.from;
        if min > rem {
            return Flow::Break(More { min, max });
        }
        let n = if self.extra { rem } else { min };
        Flow::Continue(unsafe { core::slice::from_raw_parts_mut(self.data.as_mut_ptr().add(self.from) as *mut Uninit<u8>, n) })
    }
}

fn c32_write() {
    let mut w = Limited { data: some(4), from: rt::pick(0, 4), extra: rt::pick(0, 1) == 1 };
    let from = w.from;
    let mut want = w.data.clone();
    let n = rt::pick(0, 5);
    let data = some(n);
    if rt::pick(0, 1) == 0 {
        match w.write(&data) {
            Flow::Continue(()) => {
                rt::check(from + n <= 4 && w.from == from + n, 23);
                want[from..from + n].copy_from_slice(&data);
                rt::cover(1);
            }
            Flow::Break(m) => {
                rt::check(from + n > 4 && w.from == from, 24);
                rt::check(m.min == n, 25);
                rt::cover(2);
            }
        }
    } else {
        match unsafe { w.map_unchecked(n) } {
            Flow::Continue(v) => rt::check(from + n <= 4 && same_bytes(v, &want[from..from + n]), 26),
            Flow::Break(m) => rt::check(from + n > 4 && m.min == n, 27),
        }
        rt::check(w.from == from, 28);
    }
    rt::check(same_bytes(&w.data, &want), 29);
}

/// A stream of which only some is there yet, handed out in windows of any
/// valid size.
struct Partial<'a> {
    data: &'a [u8],
    there: usize,
}

impl Read for Partial<'_> {
    fn advance(&mut self, len: usize) {
        self.data = &self.data[len..];
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        if min > self.there {
            return Flow::Break(More { min, max });
        }
        Flow::Continue(&self.data[..rt::pick(min, self.there)])
    }
}

fn c32_while() {
    let total = rt::param(0);
    let data = some(total);
    // the test passes for any set of bytes and positions
    let pass = rt::u8();
    let value = rt::u8();
    let limit = hint(total + 1);
    let end = limit.unwrap_or(usize::MAX);
    let test = |i: usize, b: u8| pass >> i & 1 == 1 && b != value;
    let skip = rt::pick(0, 1);
    let mut n = skip;
    let mut next = skip;
    let mut s = Partial { data: &data, there: rt::pick(0, total) };
    let mut asked = false;
    loop {
        let r = {
            let d: &dyn Read = &s;
            let f = |i: usize, b: u8| {
                // every byte once, in order
                rt::check(i == next && b == data[i], 30);
                let v = test(i, b);
                if v {
                    next += 1;
                }
                v
            };
            if asked {
                d.map_while(&mut n, limit, f)
            } else {
                read_map_while(&s, &mut n, limit, f)
            }
        };
        let mut stop = skip;
        while stop < end && stop < s.there && test(stop, data[stop]) {
            stop += 1;
        }
        match r {
            Flow::Continue(v) => {
                if end <= skip {
                    rt::check(n == skip, 31);
                    rt::cover(3);
                } else {
                    rt::check(n == stop, 32);
                    rt::check(stop == end || stop < s.there, 33);
                    rt::check(v.len() >= core::cmp::min(n + 1, end) && v.len() <= s.there, 34);
                    rt::check(same_bytes(v, &data[..v.len()]), 35);
                    rt::cover(if asked { 2 } else { 1 });
                }
                break;
            }
            Flow::Break(m) => {
                rt::check(stop == s.there || s.there < skip, 36);
                rt::check(n == core::cmp::max(stop, skip), 37);
                rt::check(m.min > s.there, 38);
                // at most what is really needed
                rt::check(m.min == core::cmp::min(n + 1, end), 39);
                if s.there == total {
                    rt::cover(4);
                    break;
                }
                s.there = rt::pick(s.there + 1, total);
                asked = true;
            }
        }
    }
}

/// Bytes of which those at the ends and in the middle are arbitrary.
fn large(n: usize) -> Vec<u8> {
    let mut v = alloc::vec![0x5a; n];
    for i in [0, 1, n / 2, n - 2, n - 1] {
        v[i] = rt::u8();
    }
    v
}

/// Large amounts of data written in one go.
fn c32_write_large() {
    let n = rt::param(0);
    let data = large(n);
    if rt::pick(0, 1) == 0 {
        let mut v = large(5);
        let held = v.clone();
        rt::check(matches!(Write::write(&mut v, &data), Flow::Continue(())), 40);
        rt::check(matches!(Write::write(&mut v, &data), Flow::Continue(())), 41);
        rt::check(v.len() == 5 + n + n && same_bytes(&v[..5], &held), 42);
        rt::check(same_bytes(&v[5..5 + n], &data) && same_bytes(&v[5 + n..], &data), 43);
    } else {
        let mut w = Limited { data: large(n + n + 1), from: 1, extra: rt::pick(0, 1) == 1 };
        let first = w.data[0];
        rt::check(matches!(w.write(&data), Flow::Continue(())) && matches!(w.write(&data), Flow::Continue(())), 44);
        rt::check(w.data[0] == first && same_bytes(&w.data[1..1 + n], &data) && same_bytes(&w.data[1 + n..], &data), 45);
        match w.write(&data) {
            Flow::Continue(()) => rt::check(false, 46),
            Flow::Break(m) => rt::check(m.min == n && w.from == n + n + 1, 47),
        }
    }
    rt::cover(1);
}

/// A stream of which only some is there yet, handed out whole or as little as
/// asked for.
struct Most<'a> {
    data: &'a [u8],
    there: usize,
    wide: bool,
}

impl Read for Most<'_> {
    fn advance(&mut self, len: usize) {
        self.data = &self.data[len..];
    }
    fn map(&self, min: usize, max: Option<usize>) -> Flow<More, &[u8]> {
        if min > self.there {
            return Flow::Break(More { min, max });
        }
        Flow::Continue(&self.data[..if self.wide { self.there } else { min }])
    }
}

/// Scanning far, stopping at an arbitrary position close to the end.
fn c32_while_large() {
    let n = rt::param(0);
    let data = large(n);
    let limit = [None, Some(n - 1), Some(n / 2), Some(n + 5)][rt::pick(0, 3)];
    let end = limit.unwrap_or(usize::MAX);
    let value = rt::u8();
    rt::assume(value != 0x5a);
    let mut s = Most { data: &data, there: [n / 2, n - 1][rt::pick(0, 1)], wide: rt::pick(0, 1) == 1 };
    let (mut at, mut next) = (0, 0);
    let mut rounds = 0;
    loop {
        let r = read_map_while(&s, &mut at, limit, |i, b| {
            rt::check(i == next && b == data[i], 48);
            next += (b != value) as usize;
            b != value
        });
        let mut stop = 0;
        while stop < end && stop < s.there && data[stop] != value {
            stop += 1;
        }
        rt::check(at == stop, 49);
        match r {
            Flow::Continue(v) => {
                rt::check(stop == end || stop < s.there, 50);
                rt::check(v.len() >= core::cmp::min(at + 1, end) && v.len() <= s.there, 51);
                rt::check(same_bytes(v, &data[..v.len()]), 52);
                rt::cover(1);
                break;
            }
            Flow::Break(m) => {
                rt::check(stop == s.there && m.min == core::cmp::min(at + 1, end), 53);
                if s.there == n {
                    rt::cover(2);
                    break;
                }
                rounds += 1;
                s.there = if rounds == 1 { n - 1 } else { n };
                if s.there < at {
                    s.there = n;
                }
            }
        }
    }
}

crate::rt::harness!(c32_write_large, c32_while_large, c32_read, c32_vec, c32_write, c32_while);
