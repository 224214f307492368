//! Interface between harnesses and whatever drives them: the symbolic
//! executor, or the native replay program.

extern "C" {
    fn sx_u8() -> u8;
    fn sx_u16() -> u16;
    fn sx_u32() -> u32;
    fn sx_u64() -> u64;
    fn sx_assume(c: u32);
    fn sx_check(c: u32, id: u32);
    fn sx_cover(id: u32);
    fn sx_concrete(v: u64) -> u64;
    fn sx_param(i: u32) -> u64;
    fn sx_expect_panic(on: u32);
    fn sx_alloc_limit(v: u64);
    fn sx_forget(v: u64);
    fn sx_initialised(p: *const u8, n: u64);
    fn sx_defined(p: *const u8, n: u64) -> u32;
}

pub fn u8() -> u8 {
    unsafe { sx_u8() }
}
pub fn u16() -> u16 {
    unsafe { sx_u16() }
}
pub fn u32() -> u32 {
    unsafe { sx_u32() }
}
pub fn u64() -> u64 {
    unsafe { sx_u64() }
}
pub fn usize() -> usize {
    unsafe { sx_u64() as usize }
}
pub fn u128() -> u128 {
    let (a, b) = (u64(), u64());
    (a as u128) << 64 | b as u128
}
pub fn bool() -> bool {
    let v = u8();
    assume(v < 2);
    v != 0
}
/// Restrict the values under consideration.
pub fn assume(c: bool) {
    unsafe { sx_assume(c as u32) }
}
/// The property: must hold for every value under consideration.
#[track_caller]
pub fn check(c: bool, id: u32) {
    unsafe { sx_check(c as u32, id) }
}
/// Vacuity guard: some value must reach this point.
pub fn cover(id: u32) {
    unsafe { sx_cover(id) }
}
/// Split over every feasible value; the result is a constant on each path.
pub fn concrete(v: usize) -> usize {
    unsafe { sx_concrete(v as u64) as usize }
}
/// A value in `lo..=hi`, constant on each path.
pub fn pick(lo: usize, hi: usize) -> usize {
    let v = u8() as usize;
    assume(v >= lo && v <= hi);
    concrete(v)
}
/// A value in `lo..=hi`, symbolic.
pub fn range(lo: usize, hi: usize) -> usize {
    let v = usize();
    assume(v >= lo && v <= hi);
    v
}
/// Bound given on the command line of the check.
pub fn param(i: u32) -> usize {
    unsafe { sx_param(i) as usize }
}
/// While on, a panic ends the path and is no violation.
pub fn expect_panic(on: bool) {
    unsafe { sx_expect_panic(on as u32) }
}
/// A single allocation beyond this is a violation.
pub fn alloc_limit(v: usize) {
    unsafe { sx_alloc_limit(v as u64) }
}
/// Keep a value from being optimised out.
pub fn forget(v: u64) {
    unsafe { sx_forget(v) }
}
/// Uninitialised memory here is a violation.
pub fn initialised(p: *const u8, n: usize) {
    unsafe { sx_initialised(p, n as u64) }
}
/// Whether memory is initialised, which only the engine knows.
pub fn defined(p: *const u8, n: usize) -> bool {
    unsafe { sx_defined(p, n as u64) != 0 }
}

pub fn bytes<const N: usize>() -> [u8; N] {
    let mut v = [0; N];
    for i in v.iter_mut() {
        *i = u8();
    }
    v
}
/// An arbitrary Unicode scalar value.
pub fn char() -> char {
    let v = u32();
    assume(v < 0xd800 || (v > 0xdfff && v < 0x110000));
    unsafe { char::from_u32_unchecked(v) }
}

macro_rules! harness {
    ($($name:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        pub mod export {
            $(
                #[no_mangle]
                pub extern "C" fn $name() {
                    super::$name()
                }
            )*
        }
        pub const TABLE: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}
pub(crate) use harness;
