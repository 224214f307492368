use crate::model::sha as reference;
use crate::rt;
use alloc::boxed::Box;
use alloc::vec::Vec;
use osi::hash::{hash, sha256::Engine, Engine as _, Hash};

/// Every byte string of the lengths `param(0)..=param(1)`.
fn c08_digest() {
    let c = reference::consts();
    for n in rt::param(0)..=rt::param(1) {
        let mut m: Vec<u8> = Vec::with_capacity(n);
        for _ in 0..n {
            m.push(rt::u8());
        }
        let h = hash::<Engine>(&m);
        let want = reference::sha256(&c, &m);
        for i in 0..32 {
            rt::check(h.as_bytes()[i] == want[i], 1);
        }
        rt::cover(1);
    }
}

/// Hexadecimal rendering of every digest.
fn c08_hex() {
    let b: [u8; 32] = rt::bytes();
    let h = Hash::<32>::from_bytes(&b);
    for i in 0..32 {
        rt::check(h.as_bytes()[i] == b[i], 1);
    }
    // one byte at a time decides the rendering, all others fixed
    let at = rt::pick(0, 31);
    let mut d = [0x5au8; 32];
    d[at] = b[at];
    let s = Hash::<32>::from(&d).to_hex();
    let s = s.as_bytes();
    rt::check(s.len() == 64, 2);
    for i in 0..64 {
        let v = if i % 2 == 0 { d[i / 2] >> 4 } else { d[i / 2] & 15 };
        let want = if v < 10 { b'0' + v } else { b'a' + v - 10 };
        rt::check(s[i] == want, 3);
    }
    rt::cover(1);
}

/// The digest of messages of any length, as far as their end decides it: the
/// count of an engine is advanced without the data to go with it.
fn c08_length() {
    let c = reference::consts();
    let found = [(8, 1), (8, 8), (4, 1), (4, 8)].into_iter().find_map(|(n, s)| reference::counter(n, s).map(|i| (n, s, i)));
    let Some((size, scale, at)) = found else {
        rt::cover(2);
        return;
    };
    let before = rt::u64();
    rt::assume(before % 64 == 0 && before < 1 << 60);
    rt::assume(size == 8 || before * scale < 1 << 32);
    let mut e = Box::new(Engine::default());
    let p = unsafe { (&raw mut *e as *mut u8).add(at) };
    unsafe {
        match size {
            4 => *(p as *mut u32) = (before * scale) as u32,
            _ => *(p as *mut u64) = before * scale,
        }
    }
    let m = rt::bytes::<72>();
    let m = &m[..[0, 1, 55, 56, 63, 64, 72][rt::pick(0, 6)]];
    e.push(m);
    let h = e.finalize();
    let want = reference::sha256_from(&c, before, m);
    for i in 0..32 {
        rt::check(h.as_bytes()[i] == want[i], 1);
    }
    rt::cover(1);
}

crate::rt::harness!(c08_digest, c08_hex, c08_length);
