use crate::model::util::{raw, same_bytes, same_hash, Text};
use crate::rt;
use osi::ffi::{BigEndian, LittleEndian, NativeEndian};

macro_rules! conversions {
    ($w:ident, $t:ty, $n:literal, $make:expr, $bytes:ident, $swap:expr, $val:expr) => {{
        let v: $t = $make;
        let e = $w::<$t>::from_native(v);
        rt::check(core::mem::size_of::<$w<$t>>() == $n && core::mem::align_of::<$w<$t>>() == core::mem::align_of::<$t>(), 1);
        rt::check(same_bytes(&raw::<_, $n>(&e), &$val(v).$bytes()), 2);
        rt::check(e.to_native() == v, 3);
        // the raw form is the stored bytes read as a native integer
        let r: $t = e.to_raw();
        rt::check(same_bytes(&raw::<_, $n>(&r), &raw::<_, $n>(&e)), 4);
        let f = $w::<$t>::from_raw(v);
        rt::check(f.to_raw() == v, 5);
        rt::check(same_bytes(&raw::<_, $n>(&f), &raw::<_, $n>(&v)), 6);
        rt::check($val(f.to_native()) == $swap($val(v)), 7);
        // trait and free functions are the same operations
        rt::check(<$w<$t> as NativeEndian<$t>>::from_native(v) == e, 8);
        rt::check(<$w<$t> as NativeEndian<$t>>::to_native(e) == v, 9);
        rt::check(<$w<$t> as NativeEndian<$t>>::from_raw(v).to_raw() == v, 10);
        rt::check(<$w<$t> as NativeEndian<$t>>::to_raw(f) == v, 11);
        rt::check(osi::ffi::from_native::<$w<$t>, $t>(v).to_native() == v, 12);
        rt::check(osi::ffi::to_native::<$w<$t>, $t>(e) == v, 13);
        let n: $t = <$t as NativeEndian<$t>>::from_native(v);
        rt::check(n == v && <$t as NativeEndian<$t>>::to_native(v) == v, 14);
        rt::check(<$t as NativeEndian<$t>>::to_raw(v) == v && <$t as NativeEndian<$t>>::from_raw(v) == v, 15);
        // behaves as its value
        let u: $t = $make;
        let g = $w::<$t>::from_native(u);
        rt::check((e == g) == (v == u) && (e != g) == (v != u), 16);
        rt::check(e.cmp(&g) == v.cmp(&u), 17);
        rt::check(e.partial_cmp(&g) == v.partial_cmp(&u), 18);
        rt::check((e < g) == (v < u) && (e >= g) == (v >= u), 19);
        rt::check(same_hash(&e, &v), 20);
        let c = e.clone();
        rt::check(c.to_native() == v, 21);
    }};
}

macro_rules! integer {
    ($t:ty, $src:ident, $n:literal) => {{
        conversions!(BigEndian, $t, $n, rt::$src() as $t, to_be_bytes, <$t>::swap_bytes, |v: $t| v);
        conversions!(LittleEndian, $t, $n, rt::$src() as $t, to_le_bytes, |v: $t| v, |v: $t| v);
        rt::check(BigEndian::<$t>::default().to_native() == 0 && LittleEndian::<$t>::default().to_native() == 0, 22);
        rt::cover(1);
    }};
}

macro_rules! nonzero {
    ($t:ty, $p:ty, $src:ident, $n:literal) => {{
        let make = || {
            let v = rt::$src() as $p;
            rt::assume(v != 0);
            unsafe { <$t>::new_unchecked(v) }
        };
        conversions!(BigEndian, $t, $n, make(), to_be_bytes, <$p>::swap_bytes, |v: $t| v.get());
        conversions!(LittleEndian, $t, $n, make(), to_le_bytes, |v: $p| v, |v: $t| v.get());
        rt::cover(1);
    }};
}

/// Every value and pair of values of one integer type.
fn c13_types() {
    use core::num::*;
    match rt::pick(0, 23) {
        0 => integer!(i8, u8, 1),
        1 => integer!(i16, u16, 2),
        2 => integer!(i32, u32, 4),
        3 => integer!(i64, u64, 8),
        4 => integer!(i128, u128, 16),
        5 => integer!(isize, u64, 8),
        6 => integer!(u8, u8, 1),
        7 => integer!(u16, u16, 2),
        8 => integer!(u32, u32, 4),
        9 => integer!(u64, u64, 8),
        10 => integer!(u128, u128, 16),
        11 => integer!(usize, u64, 8),
        12 => nonzero!(NonZeroI8, i8, u8, 1),
        13 => nonzero!(NonZeroI16, i16, u16, 2),
        14 => nonzero!(NonZeroI32, i32, u32, 4),
        15 => nonzero!(NonZeroI64, i64, u64, 8),
        16 => nonzero!(NonZeroI128, i128, u128, 16),
        17 => nonzero!(NonZeroIsize, isize, u64, 8),
        18 => nonzero!(NonZeroU8, u8, u8, 1),
        19 => nonzero!(NonZeroU16, u16, u16, 2),
        20 => nonzero!(NonZeroU32, u32, u32, 4),
        21 => nonzero!(NonZeroU64, u64, u64, 8),
        22 => nonzero!(NonZeroU128, u128, u128, 16),
        _ => nonzero!(NonZeroUsize, usize, u64, 8),
    }
}

/// Displayed as the value.
fn c13_display() {
    let v = rt::u16();
    macro_rules! show {
        ($format:literal, $v:expr) => {{
            let c = Text::of(format_args!($format, $v));
            let a = Text::of(format_args!($format, BigEndian::from_native($v)));
            rt::check(same_bytes(a.bytes(), c.bytes()), 1);
            let b = Text::of(format_args!($format, LittleEndian::from_native($v)));
            rt::check(same_bytes(b.bytes(), c.bytes()), 2);
        }};
    }
    match rt::pick(0, 3) {
        0 => show!("{}", v),
        1 => show!("{:+}", v as i16),
        2 => show!("{:08}", v as i16),
        _ => show!("{:*<7}", v),
    }
    rt::cover(1);
}

crate::rt::harness!(c13_types, c13_display);
