use crate::model::util::{raw, same_bytes, same_hash, Text};
use crate::rt;
use osi::align::{AlignAs, Aligned};
use osi::ffi::{BigEndian, Integer, LittleEndian, NativeEndian, Packed};

#[repr(C, align(64))]
struct Room([u8; 64]);

/// One cell of type `C` holding a `V`, somewhere in a room, driven through a
/// sequence of operations.
macro_rules! storage {
    ($cell:ty, $v:ty, $make:expr, $default:expr, $size:expr, $align:expr) => {{
        rt::check(core::mem::size_of::<$cell>() == $size, 1);
        rt::check(core::mem::align_of::<$cell>() == $align, 2);
        let mut room = Room(rt::bytes::<64>());
        let before = Room(room.0);
        let off = 16 + rt::pick(0, 16 / $align - 1) * $align;
        let p = unsafe { room.0.as_mut_ptr().add(off) } as *mut $cell;
        let mut now: $v = $make;
        unsafe { p.write(<$cell>::new(now)) };
        let c = unsafe { &mut *p };
        rt::check(c.get() == now, 3);
        for _ in 0..rt::param(0) {
            match rt::pick(0, 3) {
                0 => {
                    now = $make;
                    c.set(now);
                }
                1 => {
                    let n = $make;
                    rt::check(c.replace(n) == now, 4);
                    now = n;
                }
                2 => {
                    rt::check(c.take() == now, 5);
                    now = $default;
                }
                _ => {
                    now = $make;
                    unsafe { c.as_mut_ptr().write_unaligned(now) };
                }
            }
            rt::check(c.get() == now, 6);
            rt::check(unsafe { c.as_ptr().read_unaligned() } == now, 7);
        }
        rt::check(c.clone().into_inner() == now, 8);
        rt::check(<$cell>::from(now).get() == now, 9);
        rt::check(<$cell>::default().get() == $default, 10);
        // as comparable as the value
        let u = $make;
        let d = <$cell>::new(u);
        rt::check((*c == d) == (now == u), 11);
        rt::check(<$cell as Ord>::cmp(c, &d) == now.cmp(&u), 12);
        rt::check(<$cell as PartialOrd>::partial_cmp(c, &d) == now.partial_cmp(&u), 13);
        rt::check(same_hash(&*c, &now), 14);
        // nothing else has changed
        rt::check(same_bytes(&room.0[..off], &before.0[..off]), 15);
        let end = off + core::mem::size_of::<$cell>();
        rt::check(same_bytes(&room.0[end..], &before.0[end..]), 16);
        rt::cover(1);
    }};
}

fn c14_storage() {
    match rt::pick(0, 13) {
        0 => storage!(Packed<u8>, u8, rt::u8(), 0, 1, 1),
        1 => storage!(Packed<i16>, i16, rt::u16() as i16, 0, 2, 1),
        2 => storage!(Packed<u32>, u32, rt::u32(), 0, 4, 1),
        3 => storage!(Packed<i64>, i64, rt::u64() as i64, 0, 8, 1),
        4 => storage!(Packed<u128>, u128, rt::u128(), 0, 16, 1),
        5 => storage!(Integer<u64, AlignAs<1>>, u64, rt::u64(), 0, 8, 1),
        6 => storage!(Integer<i64, AlignAs<2>>, i64, rt::u64() as i64, 0, 8, 2),
        7 => storage!(Integer<u64, AlignAs<4>>, u64, rt::u64(), 0, 8, 4),
        8 => storage!(Integer<u64, AlignAs<8>>, u64, rt::u64(), 0, 8, 8),
        9 => storage!(Integer<u64, AlignAs<16>>, u64, rt::u64(), 0, 16, 16),
        10 => storage!(Integer<i16, AlignAs<4>>, i16, rt::u16() as i16, 0, 4, 4),
        11 => storage!(Integer<u32, AlignAs<1>>, u32, rt::u32(), 0, 4, 1),
        12 => storage!(Integer<i128, AlignAs<8>>, i128, rt::u128() as i128, 0, 16, 8),
        _ => storage!(Packed<BigEndian<u32>>, BigEndian<u32>, BigEndian::from_raw(rt::u32()), BigEndian::from_raw(0), 4, 1),
    }
}

/// Raw and native conversions of a cell holding an endian value.
fn both<E, A, R, const N: usize>(v: R, expect: [u8; N])
where
    E: Copy + NativeEndian<R>,
    A: Aligned,
    R: Copy + PartialEq,
{
    let c = Integer::<E, A>::from_native(v);
    rt::check(c.to_native::<R>() == v, 1);
    let bytes = unsafe { core::ptr::read(c.as_ptr() as *const [u8; N]) };
    rt::check(same_bytes(&bytes, &expect), 2);
    let r: R = c.to_raw();
    rt::check(same_bytes(&raw::<_, N>(&r), &expect), 3);
    let d = Integer::<E, A>::from_raw(v);
    rt::check(d.to_raw::<R>() == v, 4);
    rt::check(Integer::<E, A>::from_raw(r).to_native::<R>() == v, 5);
    let e: Integer<E, A> = <Integer<E, A> as NativeEndian<R>>::from_native(v);
    rt::check(<Integer<E, A> as NativeEndian<R>>::to_native(e) == v, 6);
}

fn c14_endian() {
    macro_rules! all {
        ($t:ty, $v:expr, $n:literal) => {{
            let v: $t = $v;
            both::<BigEndian<$t>, AlignAs<1>, $t, $n>(v, v.to_be_bytes());
            both::<BigEndian<$t>, AlignAs<4>, $t, $n>(v, v.to_be_bytes());
            both::<LittleEndian<$t>, AlignAs<2>, $t, $n>(v, v.to_le_bytes());
            both::<LittleEndian<$t>, AlignAs<16>, $t, $n>(v, v.to_le_bytes());
            both::<$t, AlignAs<8>, $t, $n>(v, v.to_ne_bytes());
        }};
    }
    match rt::pick(0, 4) {
        0 => all!(u8, rt::u8(), 1),
        1 => all!(i16, rt::u16() as i16, 2),
        2 => all!(u32, rt::u32(), 4),
        3 => all!(i64, rt::u64() as i64, 8),
        _ => all!(u128, rt::u128(), 16),
    }
    rt::cover(1);
}

/// A value that counts how often it is dropped.
struct Token<'a>(&'a core::cell::Cell<u32>, u32);

impl Drop for Token<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() + self.1);
    }
}

/// Owned contents are handed over, never dropped twice or lost.
fn c14_owned() {
    let n = core::cell::Cell::new(0);
    let mut a = Packed::new(Token(&n, 1));
    let mut b = Integer::<Token, AlignAs<16>>::new(Token(&n, 1));
    for i in 0..rt::param(0) {
        let k = 16 << (4 * i);
        match rt::pick(0, 3) {
            0 => {
                a.set(Token(&n, k));
                rt::check(n.get() & 15 <= 2, 1);
            }
            1 => {
                let old = a.replace(Token(&n, k));
                let seen = n.get();
                rt::check(old.1 != k, 2);
                let w = old.1;
                drop(old);
                rt::check(n.get() == seen + w, 3);
            }
            2 => b.set(Token(&n, k)),
            _ => {
                let old = b.replace(Token(&n, k));
                let (seen, w) = (n.get(), old.1);
                drop(old);
                rt::check(n.get() == seen + w, 4);
            }
        }
    }
    let seen = n.get();
    let (x, y) = (a.into_inner(), b.into_inner());
    rt::check(n.get() == seen, 5);
    let w = x.1 + y.1;
    drop((x, y));
    rt::check(n.get() == seen + w, 6);
    let mut all = 2;
    for i in 0..rt::param(0) {
        all += 16 << (4 * i);
    }
    rt::check(n.get() == all, 7);
    rt::cover(1);
}

/// Displayed as the value.
fn c14_display() {
    let v = rt::u8();
    macro_rules! show {
        ($format:literal, $v:expr, $ty:ty) => {{
            let c = Text::of(format_args!($format, $v));
            let p = Text::of(format_args!($format, Packed::new($v)));
            rt::check(same_bytes(p.bytes(), c.bytes()), 1);
            let p = Text::of(format_args!($format, Integer::<$ty, AlignAs<4>>::new($v)));
            rt::check(same_bytes(p.bytes(), c.bytes()), 2);
        }};
    }
    match rt::pick(0, 3) {
        0 => show!("{}", v, u8),
        1 => show!("{:+}", v as i8, i8),
        2 => show!("{:06}", v as i8, i8),
        _ => show!("{:*<5}", v, u8),
    }
    rt::cover(1);
}

crate::rt::harness!(c14_storage, c14_endian, c14_owned, c14_display);
