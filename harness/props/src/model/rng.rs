//! The published algorithms (Steele, Lea, Flood 2014 as in the JDK; Blackman
//! and Vigna 2019).

pub const GAMMA: u64 = 0x9e3779b97f4a7c15;

pub fn mix64(z: u64) -> u64 {
    let z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
    let z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
    z ^ z >> 31
}

pub fn mix32(z: u64) -> u32 {
    let z = (z ^ z >> 33).wrapping_mul(0x62a9d9ed799705f5);
    ((z ^ z >> 28).wrapping_mul(0xcb24d0a5c88c35b3) >> 32) as u32
}

/// Candidate increment before the regularity test.
pub fn mixg(z: u64) -> u64 {
    let z = (z ^ z >> 33).wrapping_mul(0xff51afd7ed558ccd);
    let z = (z ^ z >> 33).wrapping_mul(0xc4ceb9fe1a85ec53);
    (z ^ z >> 33) | 1
}

pub fn xoshiro(s: &mut [u64; 4]) -> u64 {
    let rotl = |x: u64, k: u32| x << k | x >> (64 - k);
    let r = rotl(s[0].wrapping_add(s[3]), 23).wrapping_add(s[0]);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    r
}

/// Inverses of the mixing functions: every input is the inverse of its output,
/// so quantifying over outputs is quantifying over inputs.
pub fn unmix64(z: u64) -> u64 {
    let z = z ^ z >> 31 ^ z >> 62;
    let z = z.wrapping_mul(inverse(0x94d049bb133111eb));
    let z = z ^ z >> 27 ^ z >> 54;
    let z = z.wrapping_mul(inverse(0xbf58476d1ce4e5b9));
    z ^ z >> 30 ^ z >> 60
}

pub fn unmixg(z: u64) -> u64 {
    let z = z ^ z >> 33;
    let z = z.wrapping_mul(inverse(0xc4ceb9fe1a85ec53));
    let z = z ^ z >> 33;
    let z = z.wrapping_mul(inverse(0xff51afd7ed558ccd));
    z ^ z >> 33
}

/// Multiplicative inverse of an odd number.
fn inverse(a: u64) -> u64 {
    let mut x = a;
    for _ in 0..6 {
        x = x.wrapping_mul(2u64.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}
