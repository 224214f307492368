use crate::model::sha as reference;
use crate::rt;
use alloc::vec::Vec;
use osi::hash::{sha256, Engine};

fn same(h: &osi::hash::Hash<32>, want: &[u8; 32], id: u32) {
    for i in 0..32 {
        rt::check(h.as_bytes()[i] == want[i], id);
    }
}

fn fill(n: usize) -> Vec<u8> {
    let mut m: Vec<u8> = Vec::with_capacity(n);
    for _ in 0..n {
        m.push(rt::u8());
    }
    m
}

/// `param(1)` bytes of prefix, then `param(0)` bytes cut at two arbitrary
/// places, each piece fed as data or (then being zero) through the zero-fill
/// operation.
fn c09_split() {
    let c = reference::consts();
    let k = rt::param(1);
    let n = k + rt::param(0);
    let a = rt::pick(k, n);
    let b = rt::pick(a, n);
    let zero = rt::pick(0, 3);
    let mut m = fill(n);
    let (mut lo, mut hi) = (n, n);
    match zero {
        1 => (lo, hi) = (k, a),
        2 => (lo, hi) = (a, b),
        3 => (lo, hi) = (b, n),
        _ => {}
    }
    m[lo..hi].fill(0);
    let mut e = sha256::Engine::default();
    rt::check(e.is_reset(), 1);
    e.push(&m[..k]);
    for (k, (lo, hi)) in [(k, a), (a, b), (b, n)].into_iter().enumerate() {
        if zero == k + 1 {
            e.push_zero(hi - lo);
        } else {
            e.push(&m[lo..hi]);
        }
        rt::check(e.is_reset() == (hi == 0), 2);
    }
    let want = reference::sha256(&c, &m);
    same(&e.finalize(), &want, 3);
    rt::check(e.is_reset(), 4);
    if a > k && b > a && n > b && zero > 0 {
        rt::cover(1);
    }
}

/// A message of `param(0)` bytes, cut at any place.
fn c09_cut() {
    let c = reference::consts();
    let n = rt::param(0);
    let a = rt::pick(0, n);
    let mut m = fill(n);
    let mut e = sha256::Engine::default();
    if rt::pick(0, 1) == 0 {
        e.push(&m[..a]);
        e.push(&m[a..]);
    } else {
        m[a..].fill(0);
        e.push(&m[..a]);
        e.push_zero(n - a);
    }
    same(&e.finalize(), &reference::sha256(&c, &m), 1);
    rt::cover(1);
}

/// A long message: a prefix of `param(1)` bytes, a piece of `param(0)` bytes of
/// data or zeros, and a few arbitrary bytes in front or after it.
fn c09_large() {
    let c = reference::consts();
    let (n, k) = (rt::param(0), rt::param(1));
    let zero = rt::pick(0, 1) == 1;
    let mut m: Vec<u8> = Vec::with_capacity(n + k + 3);
    let front = n < 1000 && rt::pick(0, 1) == 1;
    if front {
        m.extend(fill(1));
    }
    for i in m.len()..k + n {
        m.push(if zero && i >= k { 0 } else { (i * 7 + (i >> 8)) as u8 | 1 });
    }
    if !front {
        m.extend(fill(3));
    }
    let want = reference::sha256(&c, &m);
    let mut e = sha256::Engine::default();
    e.push(&m[..k]);
    if zero {
        e.push_zero(n);
    } else {
        e.push(&m[k..k + n]);
    }
    e.push(&m[k + n..]);
    same(&e.finalize(), &want, 1);
    same(&osi::hash::hash::<sha256::Engine>(&m), &want, 2);
    rt::cover(1);
}

/// An engine that was fed any amount of data is in use.
fn c09_used() {
    let found = [(8, 1), (8, 8), (4, 1), (4, 8)].into_iter().find_map(|(n, s)| reference::counter(n, s).map(|i| (n, s, i)));
    let Some((size, scale, at)) = found else {
        rt::cover(2);
        return;
    };
    let count = rt::u64();
    rt::assume(count > 0 && count % 64 == 0 && count < 1 << 60);
    rt::assume(size == 8 || count * scale < 1 << 32);
    let mut e = alloc::boxed::Box::new(sha256::Engine::default());
    let p = unsafe { (&raw mut *e as *mut u8).add(at) };
    unsafe {
        match size {
            4 => *(p as *mut u32) = (count * scale) as u32,
            _ => *(p as *mut u64) = count * scale,
        }
    }
    rt::check(!e.is_reset(), 1);
    e.push(&fill(rt::pick(0, 2)));
    rt::check(!e.is_reset(), 2);
    e.reset();
    rt::check(e.is_reset(), 3);
    rt::cover(1);
}

/// One engine, used several times with resets in between.
fn c09_reuse() {
    let c = reference::consts();
    let mut e = sha256::Engine::default();
    let sizes = [0, 1, 55, 56, 63, 64, 65];
    let first = sizes[rt::pick(0, 6)];
    let m = fill(first);
    e.push(&m);
    match rt::pick(0, 2) {
        0 => {
            e.reset();
            rt::cover(1);
        }
        1 => {
            same(&e.finalize(), &reference::sha256(&c, &m), 1);
            rt::cover(2);
        }
        _ => {
            e.finalize();
            e.reset();
            rt::cover(3);
        }
    }
    rt::check(e.is_reset(), 2);
    let n = sizes[rt::pick(0, 6)];
    let m = fill(n);
    let mut f = e.clone();
    e.push(&m);
    rt::check(e.is_reset() == (n == 0), 3);
    let want = reference::sha256(&c, &m);
    same(&e.finalize(), &want, 4);
    // a clone taken before is independent
    f.push(&m);
    same(&f.finalize(), &want, 5);
}

/// The zero-fill operation an engine inherits if it has none of its own.
fn c09_zero_default() {
    struct Count(Vec<usize>, usize, bool);
    impl Engine for Count {
        type Hash = ();
        fn is_reset(&self) -> bool {
            self.1 == 0
        }
        fn reset(&mut self) {
            self.1 = 0;
        }
        fn push(&mut self, d: &[u8]) {
            self.1 += d.len();
            for b in d {
                self.2 &= *b == 0;
            }
        }
        fn finalize(&mut self) {}
    }
    let n = rt::pick(0, 200) + rt::pick(0, 1) * 100;
    let mut e = Count(Vec::new(), 0, true);
    e.push_zero(n);
    rt::check(e.1 == n, 1);
    rt::check(e.2, 2);
    if n > 128 {
        rt::cover(1);
    }
}

crate::rt::harness!(c09_large, c09_used, c09_split, c09_cut, c09_reuse, c09_zero_default);
