use crate::model::rng as reference;
use crate::rt;
use osi::rng::{Mix64, SplitMix64, Xoshiro256pp};

/// SplitMix64 from every state, any mixture of 32-bit and 64-bit outputs.
fn c11_mix() {
    let seed = rt::u64();
    let mut a = Mix64::with_seed(seed);
    let mut b = if rt::pick(0, 1) == 0 { SplitMix64::with_seed(seed) } else { SplitMix64::from(a) };
    let mut s = seed;
    for _ in 0..rt::param(0) {
        s = s.wrapping_add(reference::GAMMA);
        if rt::pick(0, 1) == 0 {
            let want = reference::mix64(s);
            rt::check(a.next64() == want, 1);
            rt::check(b.next64() == want, 2);
            rt::cover(1);
        } else {
            let want = reference::mix32(s);
            rt::check(a.next32() == want, 3);
            rt::check(b.next32() == want, 4);
            rt::cover(2);
        }
    }
    rt::check(a == Mix64::with_seed(s), 5);
    rt::check(b == SplitMix64::with_seed(s), 6);
}

/// Outputs of a split-off generator follow its own increment.
fn c11_split() {
    let mut p = SplitMix64::with_seed(rt::u64());
    let mut a = p.split();
    // two 64-bit outputs of the same generator, and a copy taken in between
    let mut b = a;
    let x = a.next64();
    let y = a.next64();
    rt::check(b.next64() == x, 1);
    rt::check(b.next64() == y, 2);
    rt::cover(1);
}

/// xoshiro256++ from every state.
fn c11_xoshiro() {
    let seed = [rt::u64(), rt::u64(), rt::u64(), rt::u64()];
    rt::assume(seed[0] | seed[1] | seed[2] | seed[3] != 0);
    let mut x = Xoshiro256pp::with_seed(seed);
    let mut s = seed;
    for _ in 0..rt::param(0) {
        rt::check(x.next64() == reference::xoshiro(&mut s), 1);
    }
    let mut y = Xoshiro256pp::with_seed(seed);
    rt::check(x.clone() == x, 2);
    let mut s = seed;
    rt::check(y.next64() == reference::xoshiro(&mut s), 3);
    rt::cover(1);
}

crate::rt::harness!(c11_mix, c11_split, c11_xoshiro);
