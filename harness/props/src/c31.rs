use crate::model::util::same_bytes;
use crate::rt;
use alloc::vec::Vec;
use core::mem::MaybeUninit as Uninit;
use core::ops::ControlFlow as Flow;
use tmp::io::map::{Error, Read, Write};

/// A buffer of limited size, handed out in pieces of any length.
struct Pieces {
    data: Vec<u8>,
    piece: usize,
    extra: usize,
}

impl Pieces {
    fn new(n: usize, piece: usize, extra: usize) -> Self {
        let mut data = Vec::new();
        for _ in 0..n {
            data.push(rt::u8());
        }
        Self { data, piece, extra }
    }
    fn grant(&self, idx: usize, len: usize) -> Flow<Option<Error>, usize> {
        let Some(end) = idx.checked_add(len) else {
            return Flow::Break(Some(Error::Overflow));
        };
        if end > self.data.len() {
            return Flow::Break(Some(Error::Exceeded));
        }
        let most = (len + self.extra).min(self.data.len() - idx).min(self.piece);
        if most == 0 {
            return Flow::Continue(0);
        }
        Flow::Continue(rt::pick(1, most))
    }
}

impl Read for Pieces {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<Error>, &[u8]> {
        let n = self.grant(idx, len)?;
        Flow::Continue(&self.data[idx..idx + n])
    }
}

impl Write for Pieces {
    unsafe fn commit(&mut self, _len: usize) {}
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [Uninit<u8>]> {
        let n = self.grant(idx, len)?;
        let v = &mut self.data[idx..idx + n];
        Flow::Continue(unsafe { core::slice::from_raw_parts_mut(v.as_mut_ptr() as *mut Uninit<u8>, n) })
    }
}

fn some(n: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(rt::u8());
    }
    v
}

fn c31_read() {
    let b = Pieces::new(rt::param(0), rt::param(1), 1);
    let at = rt::pick(0, rt::param(0) + 1);
    let n = rt::pick(0, rt::param(0) - at.min(rt::param(0)) + 1);
    let mut idx = at;
    let mut out = some(n);
    let r = if rt::pick(0, 1) == 0 {
        b.read(&mut idx, &mut out)
    } else {
        let v = unsafe { core::slice::from_raw_parts_mut(out.as_mut_ptr() as *mut Uninit<u8>, n) };
        b.read_uninit(&mut idx, v)
    };
    if n == 0 || at + n <= b.data.len() {
        rt::check(matches!(r, Flow::Continue(())), 1);
        rt::check(idx == at + n, 2);
        if n > 0 {
            rt::check(same_bytes(&out, &b.data[at..at + n]), 3);
        }
        rt::cover(1);
    } else {
        rt::check(matches!(r, Flow::Break(Some(Error::Exceeded))), 4);
        rt::cover(2);
    }
}

/// All positions and lengths on plain memory.
fn c31_slice() {
    let n = rt::pick(0, 4);
    let data = some(n);
    let (idx, len) = (rt::usize(), rt::usize());
    match data[..].map(idx, len) {
        Flow::Continue(v) => {
            rt::check(idx <= n && len <= n - idx, 6);
            rt::check(v.len() == len, 7);
            let (i, l) = (rt::concrete(idx), rt::concrete(len));
            rt::check(same_bytes(v, &data[i..i + l]), 8);
            rt::cover(1);
        }
        Flow::Break(Some(Error::Overflow)) => {
            rt::check(idx.checked_add(len).is_none(), 9);
            rt::cover(2);
        }
        Flow::Break(Some(Error::Exceeded)) => {
            rt::check(idx.checked_add(len).is_some_and(|v| v > n), 10);
            rt::cover(3);
        }
        Flow::Break(None) => rt::check(false, 11),
    }
}

fn c31_write() {
    let room = rt::param(0);
    let mut b = Pieces::new(room, rt::param(1), 1);
    let at = rt::pick(0, room + 1);
    let mut want = b.data.clone();
    let mut idx = at;
    let op = rt::pick(0, 3);
    let n = rt::pick(0, room - at.min(room) + 1);
    let fits = n == 0 || at + n <= room;
    let data = match op {
        0 | 1 => some(n),
        2 => alloc::vec![rt::u8(); n],
        _ => alloc::vec![0; n],
    };
    let r = match op {
        0 => b.write(&mut idx, &data),
        1 => b.write_iter(&mut idx, &mut data.iter().copied()),
        2 => b.fill(&mut idx, n, if n > 0 { data[0] } else { 0 }),
        _ => b.zero(&mut idx, n),
    };
    if fits {
        if n > 0 {
            want[at..at + n].copy_from_slice(&data);
        }
        rt::check(matches!(r, Flow::Continue(())) && idx == at + n, 12);
        rt::check(same_bytes(&b.data, &want), 13);
        rt::cover(1);
    } else {
        rt::check(matches!(r, Flow::Break(Some(Error::Exceeded))), 14);
        rt::check(same_bytes(&b.data[..at.min(room)], &want[..at.min(room)]), 15);
        rt::cover(2);
    }
}

fn c31_align() {
    let room = rt::param(0);
    let mut b = Pieces::new(room, rt::param(1), 1);
    let mut want = b.data.clone();
    let at = rt::pick(0, room + 1);
    let exp = rt::pick(0, 4) as u8;
    let mut idx = at;
    let r = b.align_exp2(&mut idx, exp);
    let to = at.next_multiple_of(1 << exp);
    if to == at || to <= room {
        rt::check(matches!(r, Flow::Continue(())) && idx == to, 16);
        for i in at..to {
            want[i] = 0;
        }
        rt::check(same_bytes(&b.data, &want), 18);
        rt::cover(1);
    } else {
        rt::check(matches!(r, Flow::Break(Some(Error::Exceeded))), 17);
        rt::check(same_bytes(&b.data[..at.min(room)], &want[..at.min(room)]), 5);
        rt::cover(2);
    }
}

/// Counts the bytes that are asked for instead of storing them.
struct Count(usize);

impl Write for Count {
    unsafe fn commit(&mut self, _len: usize) {}
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [Uninit<u8>]> {
        rt::check(idx.checked_add(len).is_some() && len > 0, 19);
        self.0 = len;
        Flow::Break(Some(Error::Exceeded))
    }
}

/// Any alignment of any position.
fn c31_align_any() {
    let exp = rt::u8();
    let at = rt::usize();
    let mut idx = at;
    let mut b = Count(0);
    let r = b.align_exp2(&mut idx, exp);
    if exp >= 64 {
        rt::check(matches!(r, Flow::Break(Some(Error::Overflow))) || at == 0 && matches!(r, Flow::Continue(())), 20);
        rt::cover(1);
        return;
    }
    let mask = (1usize << exp) - 1;
    if at & mask == 0 {
        rt::check(matches!(r, Flow::Continue(())) && idx == at, 21);
        rt::cover(2);
    } else if (at | mask) == usize::MAX {
        rt::check(matches!(r, Flow::Break(Some(Error::Overflow))), 22);
        rt::cover(3);
    } else {
        rt::check(matches!(r, Flow::Break(Some(Error::Exceeded))), 23);
        rt::check(b.0 == mask + 1 - (at & mask), 24);
        rt::cover(4);
    }
}

/// A vector with previous content.
fn c31_vec() {
    let before = rt::pick(0, 3);
    let mut v: Vec<u8> = Vec::with_capacity(rt::pick(0, 2) * 3);
    for _ in 0..before {
        v.push(rt::u8());
    }
    let held = v.clone();
    let (a, b, c) = (some(rt::pick(0, 3)), some(rt::pick(0, 3)), some(rt::pick(0, 5)));
    let mut idx = 0;
    rt::check(matches!(Write::write(&mut v, &mut idx, &a), Flow::Continue(())), 25);
    rt::check(matches!(v.write_iter(&mut idx, &mut b.iter().copied()), Flow::Continue(())), 26);
    rt::check(matches!(v.align_exp2(&mut idx, 2), Flow::Continue(())), 27);
    let pad = (a.len() + b.len()).next_multiple_of(4);
    rt::check(idx == pad, 28);
    rt::check(matches!(Write::write(&mut v, &mut idx, &c), Flow::Continue(())), 29);
    // nothing is part of the vector until committed
    rt::check(same_bytes(&v, &held), 30);
    // change what has been written
    let mut back = 0;
    if pad > 0 {
        rt::check(matches!(v.fill(&mut back, 1, 0x55), Flow::Continue(())), 31);
    }
    let mut want = a.clone();
    want.extend_from_slice(&b);
    want.resize(pad, 0);
    want.extend_from_slice(&c);
    if pad > 0 {
        want[0] = 0x55;
    }
    let n = rt::pick(0, idx);
    unsafe { Write::commit(&mut v, n) };
    rt::check(v.len() == before + n && same_bytes(&v[..before], &held), 32);
    rt::check(same_bytes(&v[before..], &want[..n]), 33);
    if n == idx && before > 0 && n > 0 {
        // the next round starts after that
        let mut idx = 0;
        rt::check(matches!(Write::write(&mut v, &mut idx, &[9]), Flow::Continue(())), 34);
        unsafe { Write::commit(&mut v, idx) };
        rt::check(v.len() == before + n + 1 && v[before + n] == 9, 35);
        rt::check(same_bytes(&v[before..before + n], &want), 36);
        rt::cover(2);
    }
    rt::cover(1);
}

/// Offsets beyond the address space are refused.
fn c31_vec_overflow() {
    let mut v: Vec<u8> = alloc::vec![1, 2];
    let (idx, len) = (rt::usize(), rt::usize());
    rt::assume(idx.checked_add(len).is_none());
    rt::check(matches!(Write::map(&mut v, idx, len), Flow::Break(Some(Error::Overflow))), 37);
    rt::check(v.len() == 2, 38);
    rt::cover(1);
}

/// A buffer of limited size, handed out in as large pieces as possible.
struct Whole {
    data: Vec<u8>,
    piece: usize,
}

impl Read for Whole {
    fn map(&self, idx: usize, len: usize) -> Flow<Option<Error>, &[u8]> {
        self.data[..].map(idx, len).map_continue(|v| &v[..len.min(self.piece)])
    }
}

impl Write for Whole {
    unsafe fn commit(&mut self, _len: usize) {}
    fn map(&mut self, idx: usize, len: usize) -> Flow<Option<Error>, &mut [Uninit<u8>]> {
        self.data[..].map(idx, len)?;
        let n = len.min(self.piece);
        Flow::Continue(unsafe { core::slice::from_raw_parts_mut(self.data.as_mut_ptr().add(idx) as *mut Uninit<u8>, n) })
    }
}

/// Bytes of which those at the ends and in the middle are arbitrary.
fn large(n: usize) -> Vec<u8> {
    let mut v = alloc::vec![0x5a; n];
    for i in [0, 1, n / 2, n - 2, n - 1] {
        v[i] = rt::u8();
    }
    v
}

/// Large amounts of data in large pieces.
fn c31_large() {
    let n = rt::param(0);
    let at = rt::pick(0, 1) * 3;
    let piece = [usize::MAX, n - 1, n / 2 + 1, 255][rt::pick(0, 3)];
    let mut idx = at;
    let op = rt::pick(0, 5);
    if op < 2 {
        let b = Whole { data: large(n + at), piece };
        let mut out = alloc::vec![0xa5; n];
        let r = if op == 0 {
            b.read(&mut idx, &mut out)
        } else {
            let v = unsafe { core::slice::from_raw_parts_mut(out.as_mut_ptr() as *mut Uninit<u8>, n) };
            b.read_uninit(&mut idx, v)
        };
        rt::check(matches!(r, Flow::Continue(())) && idx == at + n, 39);
        rt::check(same_bytes(&out, &b.data[at..]), 40);
    } else {
        let mut b = Whole { data: large(n + at + 2), piece };
        let mut want = b.data.clone();
        let data = match op {
            2 | 3 => large(n),
            4 => alloc::vec![rt::u8(); n],
            _ => alloc::vec![0; n],
        };
        let r = match op {
            2 => b.write(&mut idx, &data),
            3 => b.write_iter(&mut idx, &mut data.iter().copied()),
            4 => b.fill(&mut idx, n, data[0]),
            _ => b.zero(&mut idx, n),
        };
        want[at..at + n].copy_from_slice(&data);
        rt::check(matches!(r, Flow::Continue(())) && idx == at + n, 41);
        rt::check(same_bytes(&b.data, &want), 42);
    }
    rt::cover(1);
}

/// Large amounts of data into a vector.
fn c31_vec_large() {
    let n = rt::param(0);
    let mut v = large(n);
    let (held, data) = (v.clone(), large(n));
    let mut idx = 0;
    rt::check(matches!(Write::write(&mut v, &mut idx, &data), Flow::Continue(())) && idx == n, 43);
    rt::check(matches!(v.align_exp2(&mut idx, 9), Flow::Continue(())), 44);
    let end = n.next_multiple_of(512);
    rt::check(idx == end, 45);
    rt::check(matches!(Write::write(&mut v, &mut idx, &data), Flow::Continue(())) && idx == end + n, 46);
    unsafe { Write::commit(&mut v, idx) };
    rt::check(v.len() == n + end + n && same_bytes(&v[..n], &held), 47);
    rt::check(same_bytes(&v[n..n + n], &data) && same_bytes(&v[n + end..], &data), 48);
    rt::check(v[n + n..n + end].iter().all(|v| *v == 0), 49);
    rt::cover(1);
}

crate::rt::harness!(c31_large, c31_vec_large, c31_read, c31_slice, c31_write, c31_align, c31_align_any, c31_vec, c31_vec_overflow);
