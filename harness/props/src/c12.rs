use crate::model::rng as reference;
use crate::rt;
use osi::rng::{Mix64, SplitMix64, Xoshiro256pp};

/// An arbitrary generator with an arbitrary increment: split off a parent of
/// arbitrary state.
fn outputs_match(g: &mut SplitMix64, seed: u64, gamma: u64, id: u32) {
    let mut s = seed;
    for i in 0..2 {
        s = s.wrapping_add(gamma);
        if i == 0 {
            rt::check(g.next64() == reference::mix64(s), id);
        } else {
            rt::check(g.next32() == reference::mix32(s), id);
        }
    }
}

/// Splitting: seed and increment of the child, state of the parent.
fn c12_split() {
    // every state, given by the increment candidate it leads to
    let z = rt::u64();
    let s2 = reference::unmixg(z);
    let s1 = s2.wrapping_sub(reference::GAMMA);
    let seed = s1.wrapping_sub(reference::GAMMA);
    let g = reference::mixg(s2);
    rt::check(g == z | 1, 4);
    let irregular = (g ^ g >> 1).count_ones() >= 24;
    let gamma = if irregular {
        rt::cover(1);
        g
    } else {
        rt::cover(2);
        g ^ 0xaaaaaaaaaaaaaaaa
    };
    rt::check(gamma & 1 == 1, 1);
    let (mut child, mut parent);
    if rt::pick(0, 1) == 0 {
        let mut p = Mix64::with_seed(seed);
        child = p.split();
        parent = SplitMix64::from_mix64(p);
    } else {
        parent = SplitMix64::with_seed(seed);
        child = parent.split();
    }
    outputs_match(&mut child, reference::mix64(s1), gamma, 2);
    outputs_match(&mut parent, s2, reference::GAMMA, 3);
}

/// The published increment candidate always passes its own regularity rule
/// after correction: odd, and with enough transitions. Bit-level fact about
/// the correction step, for every candidate.
fn c12_gamma_rule() {
    let g = rt::u64() | 1;
    let n = (g ^ g >> 1).count_ones();
    if n < 24 {
        let h = g ^ 0xaaaaaaaaaaaaaaaa;
        rt::check((h ^ h >> 1).count_ones() >= 24, 1);
        rt::check(h & 1 == 1, 2);
        rt::cover(1);
    }
}

/// A split of a split uses the increment of the middle generator.
fn c12_resplit() {
    let mut p = SplitMix64::with_seed(rt::u64());
    let mut c = p.split();
    let mut copy = c;
    let mut d = c.split();
    // the parent is advanced by exactly two outputs
    copy.next64();
    copy.next32();
    rt::check(copy == c, 1);
    rt::check(copy.next64() == c.next64(), 2);
    rt::forget(d.next64());
    rt::cover(1);
}

/// Seeding xoshiro256++ from four words and from another generator.
fn c12_seed() {
    // every seed, given by the first output it leads to
    let first = rt::u64();
    let seed = reference::unmix64(first).wrapping_sub(reference::GAMMA);
    let mut s = seed;
    let mut words = [0u64; 4];
    for w in words.iter_mut() {
        s = s.wrapping_add(reference::GAMMA);
        *w = reference::mix64(s);
    }
    rt::check(words[0] == first, 2);
    let mut m = SplitMix64::with_seed(seed);
    let mut x = if rt::pick(0, 1) == 0 { Xoshiro256pp::from_splitmix64(&mut m) } else { Xoshiro256pp::from(m) };
    let mut st = words;
    for _ in 0..5 {
        rt::check(x.next64() == reference::xoshiro(&mut st), 1);
    }
    rt::cover(1);
}

/// The all-zero seed is replaced by the expansion of zero.
fn c12_zero() {
    let mut s = 0u64;
    let mut words = [0u64; 4];
    for w in words.iter_mut() {
        s = s.wrapping_add(reference::GAMMA);
        *w = reference::mix64(s);
    }
    let seed = [rt::u64(), rt::u64(), rt::u64(), rt::u64()];
    let x = Xoshiro256pp::with_seed(seed);
    if seed == [0; 4] {
        rt::check(x == Xoshiro256pp::with_seed(words), 1);
        rt::check(x == Xoshiro256pp::from_splitmix64(&mut SplitMix64::with_seed(0)), 2);
        rt::cover(1);
    } else {
        let mut y = x.clone();
        let mut st = seed;
        for _ in 0..4 {
            rt::check(y.next64() == reference::xoshiro(&mut st), 3);
        }
        rt::cover(2);
    }
}

fn jump(s: &mut [u64; 4], table: [u64; 4]) {
    let mut t = [0u64; 4];
    for j in table {
        for b in 0..64 {
            if j >> b & 1 != 0 {
                for i in 0..4 {
                    t[i] ^= s[i];
                }
            }
            reference::xoshiro(s);
        }
    }
    *s = t;
}

/// Jumps from every state.
fn c12_jump() {
    let seed = [rt::u64(), rt::u64(), rt::u64(), rt::u64()];
    rt::assume(seed != [0; 4]);
    let mut x = Xoshiro256pp::with_seed(seed);
    let mut s = seed;
    if rt::param(0) == 0 {
        x.jump128();
        jump(&mut s, [0x180ec6d33cfd0aba, 0xd5a61266f0c9392c, 0xa9582618e03fc9aa, 0x39abdc4529b1661c]);
    } else {
        x.jump192();
        jump(&mut s, [0x76e15d3efefdcbbf, 0xc5004e441c522fb3, 0x77710069854ee241, 0x39109bb02acbe635]);
    }
    rt::check(x.next64() == reference::xoshiro(&mut s), 1);
    rt::check(x.next64() == reference::xoshiro(&mut s), 2);
    rt::cover(1);
}

crate::rt::harness!(c12_split, c12_gamma_rule, c12_resplit, c12_seed, c12_zero, c12_jump);
