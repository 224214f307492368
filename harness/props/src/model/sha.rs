//! FIPS 180-4, sections 4 to 6, written down step by step.

use crate::rt;
use alloc::boxed::Box;
use alloc::vec::Vec;
use osi::hash::{sha256::Engine, Engine as _};

/// First 32 bits of the fractional part of the n-th root of `p`.
fn root(p: u128, cube: bool) -> u32 {
    // largest r with r^k <= p * 2^(32 k)
    let le = |r: u128| if cube { r * r * r <= p << 96 } else { r * r <= p << 64 };
    let mut r: u128 = 0;
    let mut b = 40;
    while b > 0 {
        b -= 1;
        if le(r | 1 << b) {
            r |= 1 << b;
        }
    }
    r as u32
}

pub struct Consts {
    pub h: [u32; 8],
    pub k: [u32; 64],
}

pub fn consts() -> Consts {
    let mut c = Consts { h: [0; 8], k: [0; 64] };
    let (mut n, mut p) = (0, 2u128);
    while n < 64 {
        let mut d = 2;
        let mut prime = true;
        while d * d <= p {
            if p % d == 0 {
                prime = false;
            }
            d += 1;
        }
        if prime {
            if n < 8 {
                c.h[n] = root(p, false);
            }
            c.k[n] = root(p, true);
            n += 1;
        }
        p += 1;
    }
    c
}

fn rotr(x: u32, n: u32) -> u32 {
    x >> n | x << (32 - n)
}

pub fn sha256(c: &Consts, m: &[u8]) -> [u8; 32] {
    sha256_from(c, 0, m)
}

/// The rest of a message, after whole blocks of `before` bytes in total that
/// led to the initial state.
pub fn sha256_from(c: &Consts, before: u64, m: &[u8]) -> [u8; 32] {
    let mut p = Vec::with_capacity(m.len() + 72);
    p.extend_from_slice(m);
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    let bits = (before + m.len() as u64) << 3;
    for i in 0..8 {
        p.push((bits >> (56 - 8 * i)) as u8);
    }
    let mut hh = c.h;
    for i in 0..p.len() / 64 {
        let mut w = [0u32; 64];
        for t in 0..16 {
            for j in 0..4 {
                w[t] = w[t] << 8 | p[i * 64 + t * 4 + j] as u32;
            }
        }
        for t in 16..64 {
            let x = w[t - 15];
            let s0 = rotr(x, 7) ^ rotr(x, 18) ^ x >> 3;
            let x = w[t - 2];
            let s1 = rotr(x, 17) ^ rotr(x, 19) ^ x >> 10;
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let [mut a, mut b, mut cc, mut d, mut e, mut f, mut g, mut h] = hh;
        for t in 0..64 {
            let s1 = rotr(e, 6) ^ rotr(e, 11) ^ rotr(e, 25);
            let ch = e & f ^ !e & g;
            let t1 = h.wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k[t]).wrapping_add(w[t]);
            let s0 = rotr(a, 2) ^ rotr(a, 13) ^ rotr(a, 22);
            let maj = a & b ^ a & cc ^ b & cc;
            let t2 = s0.wrapping_add(maj);
            h = g;
            g = f;
            f = e;
            e = d.wrapping_add(t1);
            d = cc;
            cc = b;
            b = a;
            a = t1.wrapping_add(t2);
        }
        for (x, y) in hh.iter_mut().zip([a, b, cc, d, e, f, g, h]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 32];
    for i in 0..32 {
        out[i] = (hh[i / 4] >> (24 - 8 * (i % 4))) as u8;
    }
    out
}

/// Where an engine keeps the number of bytes it was given: the only place of
/// `size` bytes that holds it, times `scale`, at all times.
pub fn counter(size: usize, scale: u64) -> Option<usize> {
    let mut e = Box::new(Engine::default());
    let p = &raw const *e as *const u8;
    let mut places: Vec<usize> = (0..size_of::<Engine>() / size).map(|i| i * size).collect();
    let mut n = 0;
    for k in [0, 3, 60, 1, 1, 66, 125, 130] {
        e.push(&[0xb3; 130][..k]);
        n += k as u64;
        places.retain(|i| {
            let q = unsafe { p.add(*i) };
            rt::defined(q, size)
                && n * scale
                    == unsafe {
                        match size {
                            4 => *(q as *const u32) as u64,
                            _ => *(q as *const u64),
                        }
                    }
        });
    }
    match &places[..] {
        [i] => Some(*i),
        _ => None,
    }
}
