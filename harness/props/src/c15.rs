use crate::model::util::{raw, same_bytes, same_hash};
use crate::rt;
use core::num::{NonZeroU64, NonZeroUsize};
use osi::align::AlignAs;
use osi::ffi::{BigEndian, Integer, LittleEndian, NativeAddress, Pointer};

/// Any address in any representation.
fn address<A>()
where
    A: NativeAddress<u32> + Copy + Ord + core::hash::Hash,
{
    let v = rt::usize();
    let a = <A as NativeAddress<u32>>::from_usize(v);
    rt::check(a.is_some() == (v != 0), 1);
    let p = Pointer::<A, u32>::from_usize(v);
    rt::check(p.is_some() == (v != 0), 2);
    rt::check(Pointer::<A, u32>::try_from(v).is_ok() == (v != 0), 3);
    rt::check(Pointer::<A, u32>::try_from(v as *const u32).is_ok() == (v != 0), 4);
    rt::check(Pointer::<A, u32>::try_from(v as *mut u32).is_ok() == (v != 0), 5);
    let (Some(a), Some(mut p)) = (a, p) else {
        rt::cover(1);
        return;
    };
    rt::check(a.to_usize() == v && a.into_usize() == v, 6);
    rt::check(p.to_usize() == v && p.into_usize() == v, 7);
    rt::check(p.get().to_usize() == v && p.address().to_usize() == v && p.into_inner().to_usize() == v, 8);
    rt::check(Pointer::<A, u32>::try_from(v as *const u32).unwrap().to_usize() == v, 9);
    rt::check(Pointer::<A, u32>::try_from(v as *mut u32).unwrap().to_usize() == v, 10);
    rt::check(p.as_ptr() as usize == v && p.as_mut_ptr() as usize == v, 11);
    rt::check(Pointer::<A, u32>::new(a) == p, 12);
    rt::check(p.cast::<u8>().get().to_usize() == v, 13);
    rt::check(p.cast_into::<u8>().into_inner().to_usize() == v, 14);
    rt::check(unsafe { Pointer::<A, u32>::from_usize_unchecked(v) } == p, 15);
    let w = rt::usize();
    rt::assume(w != 0);
    let b = unsafe { A::from_usize_unchecked(w) };
    let q = Pointer::<A, u32>::new(b);
    rt::check((p == q) == (v == w), 16);
    rt::check(p.cmp(&q) == v.cmp(&w) && p.partial_cmp(&q) == Some(v.cmp(&w)), 17);
    rt::check(same_hash(&p, &a), 18);
    let c = p.clone();
    rt::check(p.replace(b).to_usize() == v && p.to_usize() == w, 19);
    p.set(a);
    rt::check(p == c && p.to_usize() == v, 20);
    rt::check(core::mem::size_of::<Pointer<A, u32>>() == core::mem::size_of::<A>(), 21);
    rt::cover(2);
}

fn c15_address() {
    match rt::pick(0, 5) {
        0 => address::<usize>(),
        1 => address::<NonZeroUsize>(),
        2 => address::<u64>(),
        3 => address::<NonZeroU64>(),
        4 => address::<Integer<u64, AlignAs<4>>>(),
        _ => address::<Integer<NonZeroU64, AlignAs<16>>>(),
    }
}

/// References survive the trip.
fn target<A: NativeAddress<u64> + NativeAddress<u8> + Copy>() {
    let mut v = rt::u64();
    let old = v;
    let at = &v as *const u64 as usize;
    let p: Pointer<A, u64> = Pointer::from(&v);
    rt::check(p.to_usize() == at && p.as_ptr() == at as *const u64, 1);
    rt::check(unsafe { *p.as_ref() } == old, 2);
    let p: Pointer<A, u64> = Pointer::from(&mut v);
    let n = rt::u64();
    unsafe { *p.as_mut() = n };
    rt::check(unsafe { *p.as_ref() } == n && v == n, 3);
    let b = p.cast::<u8>();
    rt::check(unsafe { *b.as_ref() } == n as u8, 4);
    let d = Pointer::<A, u64>::dangling();
    rt::check(d.to_usize() != 0 && d.to_usize() % core::mem::align_of::<u64>() == 0, 5);
    let e = Pointer::<A, u8>::dangling();
    rt::check(e.to_usize() != 0, 6);
    rt::cover(1);
}

fn c15_target() {
    match rt::pick(0, 3) {
        0 => target::<usize>(),
        1 => target::<NonZeroUsize>(),
        2 => target::<u64>(),
        _ => target::<Integer<NonZeroU64, AlignAs<8>>>(),
    }
}

/// Addresses stored in a named byte order.
fn c15_endian() {
    let v = rt::u64();
    rt::assume(v != 0);
    let z = NonZeroU64::new(v).unwrap();
    let p = Pointer::<BigEndian<u64>, u8>::from_native(v);
    rt::check(same_bytes(&raw::<_, 8>(&p), &v.to_be_bytes()), 1);
    rt::check(p.to_native::<u64>() == v, 2);
    let p = Pointer::<LittleEndian<NonZeroU64>, u8>::from_native(z);
    rt::check(same_bytes(&raw::<_, 8>(&p), &v.to_le_bytes()), 3);
    rt::check(p.to_native::<NonZeroU64>() == z, 4);
    let p = Pointer::<BigEndian<NonZeroU64>, u8>::from_raw(z);
    rt::check(p.to_raw::<NonZeroU64>() == z, 5);
    rt::check(p.to_native::<NonZeroU64>().get() == v.swap_bytes(), 6);
    let p = Pointer::<Integer<BigEndian<u64>, AlignAs<4>>, u8>::from_native(v);
    rt::check(same_bytes(&raw::<_, 8>(&p), &v.to_be_bytes()), 7);
    rt::check(p.to_native::<u64>() == v && p.to_raw::<u64>() == v.swap_bytes(), 8);
    let p = Pointer::<NonZeroU64, u8>::from_native(z);
    rt::check(p.to_native::<NonZeroU64>() == z && p.to_raw::<NonZeroU64>() == z && p.get() == z, 9);
    rt::cover(1);
}

crate::rt::harness!(c15_address, c15_target, c15_endian);
