//! Small helpers shared by harnesses.

use core::hash::{Hash, Hasher};

/// Records what a value feeds into a hasher.
pub struct Rec {
    pub buf: [u8; 48],
    pub len: usize,
}

impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        for v in b {
            self.buf[self.len] = *v;
            self.len += 1;
        }
    }
    fn finish(&self) -> u64 {
        0
    }
}

pub fn recorded<T: Hash + ?Sized>(v: &T) -> Rec {
    let mut r = Rec { buf: [0; 48], len: 0 };
    v.hash(&mut r);
    r
}

/// Do both values hash alike?
pub fn same_hash<A: Hash + ?Sized, B: Hash + ?Sized>(a: &A, b: &B) -> bool {
    let (a, b) = (recorded(a), recorded(b));
    a.len == b.len && same_bytes(&a.buf[..a.len], &b.buf[..b.len])
}

/// Compare without branching on the content.
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    let mut d = 0;
    for i in 0..a.len().min(b.len()) {
        d |= a[i] ^ b[i];
    }
    d == 0 && a.len() == b.len()
}

/// Formatted output of bounded length.
pub struct Text {
    pub buf: [u8; 64],
    pub len: usize,
}

impl Text {
    pub fn of(a: core::fmt::Arguments) -> Text {
        let mut t = Text { buf: [0; 64], len: 0 };
        let _ = core::fmt::Write::write_fmt(&mut t, a);
        t
    }
    pub fn bytes(&self) -> &[u8] {
        &self.buf[..self.len]
    }
}

impl core::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for v in s.as_bytes() {
            self.buf[self.len] = *v;
            self.len += 1;
        }
        Ok(())
    }
}

/// The bytes a value occupies.
pub fn raw<T, const N: usize>(v: &T) -> [u8; N] {
    assert!(core::mem::size_of::<T>() == N);
    unsafe { core::ptr::read(v as *const T as *const [u8; N]) }
}
