use crate::model::sha as reference;
use crate::rt;
use alloc::vec::Vec;
use osi::hash::{Engine, Hash};
use osi::hmac::{Hmac, HmacSha256};

/// Stand-in hash with blocks of 8 and digests of 4 bytes: order and length
/// sensitive, and simple enough to reason about for all contents.
#[derive(Default)]
struct Toy {
    state: u32,
    n: u32,
}

fn toy(m: &[u8]) -> [u8; 4] {
    let mut s = 0u32;
    for b in m {
        s = s.wrapping_mul(0x01000193).wrapping_add(*b as u32 + 1);
    }
    s.wrapping_mul(0x01000193).wrapping_add(m.len() as u32).to_le_bytes()
}

impl Engine for Toy {
    type Hash = Hash<4>;
    fn is_reset(&self) -> bool {
        self.n == 0
    }
    fn reset(&mut self) {
        *self = Default::default();
    }
    fn push(&mut self, d: &[u8]) {
        for b in d {
            self.state = self.state.wrapping_mul(0x01000193).wrapping_add(*b as u32 + 1);
            self.n += 1;
        }
    }
    fn finalize(&mut self) -> Hash<4> {
        let r = self.state.wrapping_mul(0x01000193).wrapping_add(self.n);
        self.reset();
        Hash(r.to_le_bytes())
    }
}

/// RFC 2104, section 2.
fn rfc2104(block: usize, h: &dyn Fn(&[u8]) -> Vec<u8>, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k: Vec<u8> = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut inner: Vec<u8> = k.iter().map(|v| v ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|v| v ^ 0x5c).collect();
    outer.extend_from_slice(&h(&inner));
    h(&outer)
}

fn fill(n: usize) -> Vec<u8> {
    let mut m: Vec<u8> = Vec::with_capacity(n);
    for _ in 0..n {
        m.push(rt::u8());
    }
    m
}

fn same(a: &[u8], b: &[u8], id: u32) {
    rt::check(a.len() == b.len(), id);
    for i in 0..a.len() {
        rt::check(a[i] == b[i], id);
    }
}

/// Feed an arbitrary message in up to three pieces of at most `max` bytes.
fn feed<const C: usize, const H: usize, E: Engine<Hash = Hash<H>>>(h: &mut Hmac<C, E>, pieces: usize, max: usize) -> Vec<u8> {
    let mut msg = Vec::new();
    for _ in 0..pieces {
        let n = rt::pick(0, max);
        if rt::pick(0, 1) == 1 {
            h.push_zero(n);
            msg.resize(msg.len() + n, 0);
        } else {
            let p = fill(n);
            h.push(&p);
            msg.extend_from_slice(&p);
        }
    }
    msg
}

/// The construction itself, over a stand-in hash: all key lengths around the
/// block size, all ways to feed messages, several messages on one object.
fn c10_generic() {
    let h = |m: &[u8]| toy(m).to_vec();
    let klen = rt::pick(0, rt::param(0));
    let key = fill(klen);
    let mut m = Hmac::<8, Toy>::new(&key);
    if klen > 8 {
        rt::cover(1);
    } else if klen == 8 {
        rt::cover(2);
    } else if klen == 0 {
        rt::cover(3);
    }
    if rt::pick(0, 1) == 1 {
        feed(&mut m, 1, 2);
        m.reset();
    }
    let msg = feed(&mut m, rt::param(1), rt::param(2));
    same(m.finalize().as_bytes(), &rfc2104(8, &h, &key, &msg), 1);
    let msg = feed(&mut m, 1, rt::param(2));
    same(m.finalize().as_bytes(), &rfc2104(8, &h, &key, &msg), 2);
    if msg.len() > 1 {
        rt::cover(4);
    }
}

/// Long keys and messages: concrete data with arbitrary bytes around it.
fn long(n: usize) -> Vec<u8> {
    let mut m = fill(2);
    for i in 2..n {
        m.push((i * 7 + (i >> 8)) as u8);
    }
    m.extend(fill(1));
    m
}

/// Long keys and messages, over the stand-in hash.
fn c10_large() {
    let h = |m: &[u8]| toy(m).to_vec();
    let key = long(rt::param(0));
    let mut m = Hmac::<8, Toy>::new(&key);
    for id in 1..=2 {
        let mut msg = long(rt::param(1));
        m.push(&msg);
        let n = rt::param(2);
        m.push_zero(n);
        msg.resize(msg.len() + n, 0);
        let end = fill(1);
        m.push(&end);
        msg.extend(end);
        same(m.finalize().as_bytes(), &rfc2104(8, &h, &key, &msg), id);
    }
    rt::cover(1);
}

/// With SHA-256.
fn c10_sha256() {
    let c = reference::consts();
    let h = |m: &[u8]| reference::sha256(&c, m).to_vec();
    let key = fill([0, 1, 31, 32, 33, 63, 64, 65, 100, 130][rt::pick(0, 9)]);
    let mut m = HmacSha256::new(&key);
    let msg = fill([0, 1, 63, 64, 70][rt::pick(0, 4)]);
    let cut = rt::pick(0, 2) * msg.len() / 2;
    m.push(&msg[..cut]);
    m.push(&msg[cut..]);
    same(m.finalize().as_bytes(), &rfc2104(64, &h, &key, &msg), 1);
    let msg = fill(3);
    m.push(&msg);
    same(m.finalize().as_bytes(), &rfc2104(64, &h, &key, &msg), 2);
    rt::cover(1);
}

crate::rt::harness!(c10_large, c10_generic, c10_sha256);
