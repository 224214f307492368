use crate::model::util::same_bytes;
use crate::rt;
use core::mem::MaybeUninit as Uninit;
use osi::mem;

fn swap<const N: usize>() {
    let v = rt::bytes::<N>();
    let r = unsafe { mem::bswap_copy(&v) };
    let mut e = v;
    e.reverse();
    rt::check(same_bytes(&r, &e), 1);
    // and back
    rt::check(same_bytes(&unsafe { mem::bswap_copy(&r) }, &v), 2);
    rt::cover(1);
}

/// Byte arrays of every size up to 17, and some larger ones.
fn c18_swap_bytes() {
    macro_rules! sizes {
        ($($n:literal)*) => {{
            let i = rt::pick(0, [$($n),*].len() - 1);
            let mut k = 0;
            $(
                if k == i {
                    swap::<$n>();
                }
                k += 1;
            )*
            let _ = k;
        }};
    }
    sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 24 31 32 33 64);
}

/// Aligned and composite types.
fn c18_swap_types() {
    let (a, b) = (rt::u64(), rt::u32());
    unsafe {
        rt::check(mem::bswap_copy(&(a as u8)) == a as u8, 1);
        rt::check(mem::bswap_copy(&(a as i16)) == (a as i16).swap_bytes(), 2);
        rt::check(mem::bswap_copy(&b) == b.swap_bytes(), 3);
        rt::check(mem::bswap_copy(&a) == a.swap_bytes(), 4);
        let w = (a as u128) << 64 | b as u128;
        rt::check(mem::bswap_copy(&w) == w.swap_bytes(), 5);
        let t = [a as u16, (a >> 16) as u16, b as u16];
        let r = mem::bswap_copy(&t);
        rt::check(r == [t[2].swap_bytes(), t[1].swap_bytes(), t[0].swap_bytes()], 6);
        let t = [b, a as u32, !b];
        let r = mem::bswap_copy(&t);
        rt::check(r == [t[2].swap_bytes(), t[1].swap_bytes(), t[0].swap_bytes()], 7);
        let t = [[a as u8; 3], [b as u8; 3]];
        rt::check(mem::bswap_copy(&t) == [[b as u8; 3], [a as u8; 3]], 8);
    }
    rt::cover(1);
}

/// Representation copies between sizes.
fn copy<const S: usize, const D: usize>() {
    // the operand at the end of an allocation, at any alignment
    let off = rt::pick(0, 7);
    let room = rt::bytes::<64>()[..off + S].to_vec();
    let src: &[u8; S] = room[off..].try_into().unwrap();
    let dst: [Uninit<u8>; D] = unsafe { mem::transmute_copy_uninit(src) };
    for i in 0..D.min(S) {
        rt::check(unsafe { dst[i].assume_init() } == src[i], 1);
    }
    rt::cover(1);
}

fn c18_copy() {
    match rt::pick(0, 11) {
        0 => copy::<0, 0>(),
        1 => copy::<0, 4>(),
        2 => copy::<1, 8>(),
        3 => copy::<3, 3>(),
        4 => copy::<3, 5>(),
        5 => copy::<5, 3>(),
        6 => copy::<8, 8>(),
        7 => copy::<8, 4>(),
        8 => copy::<16, 1>(),
        9 => copy::<7, 16>(),
        10 => copy::<33, 32>(),
        _ => copy::<32, 33>(),
    }
}

#[repr(C, align(8))]
struct Room([u8; 32]);

/// Representation copies across alignments.
fn c18_copy_aligned() {
    let room = Room(rt::bytes::<32>());
    let off = rt::pick(0, 7);
    let s8: &[u8; 8] = room.0[off..off + 8].try_into().unwrap();
    unsafe {
        rt::check(mem::transmute_copy_uninit::<_, u64>(s8) == u64::from_ne_bytes(*s8), 1);
        rt::check(mem::transmute_copy_uninit::<_, u32>(s8) == u32::from_ne_bytes([s8[0], s8[1], s8[2], s8[3]]), 2);
        rt::check(mem::transmute_copy_uninit::<_, u16>(s8) == u16::from_ne_bytes([s8[0], s8[1]]), 3);
        let v = rt::u64();
        rt::check(mem::transmute_copy_uninit::<_, [u8; 8]>(&v) == v.to_ne_bytes(), 4);
        rt::check(mem::transmute_copy_uninit::<_, [u8; 3]>(&v) == [v as u8, (v >> 8) as u8, (v >> 16) as u8], 5);
        let s3: &[u8; 3] = room.0[off..off + 3].try_into().unwrap();
        let d: Uninit<u32> = mem::transmute_copy_uninit(s3);
        let p = d.as_ptr() as *const u8;
        rt::check(*p == s3[0] && *p.add(1) == s3[1] && *p.add(2) == s3[2], 6);
        let s2: &[u8; 2] = room.0[off..off + 2].try_into().unwrap();
        let d: Uninit<u64> = mem::transmute_copy_uninit(s2);
        rt::check(*(d.as_ptr() as *const u8).add(1) == s2[1], 7);
    }
    rt::cover(1);
}

/// Byte views and byte equality.
fn c18_views() {
    let v = rt::u32();
    let mut w = rt::u32();
    unsafe {
        rt::check(same_bytes(mem::as_bytes(&v), &v.to_ne_bytes()), 1);
        rt::check(mem::as_bytes(&v).as_ptr() as usize == &v as *const u32 as usize, 2);
        let i = rt::pick(0, 3);
        let b = rt::u8();
        let mut e = w.to_ne_bytes();
        let m = mem::as_bytes_mut(&mut w);
        rt::check(m.len() == 4, 3);
        m[i] = b;
        e[i] = b;
        rt::check(w == u32::from_ne_bytes(e), 4);
        rt::check(mem::eq(&v, &w) == (v == w), 5);
        let a = rt::bytes::<4>();
        rt::check(mem::eq(&v, &a) == (v.to_ne_bytes() == a), 6);
        let c = rt::bytes::<3>();
        rt::check(!mem::eq(&a, &c) && !mem::eq(&c, &a), 7);
        let d = rt::bytes::<5>();
        rt::check(!mem::eq(&a, &d) && !mem::eq(&d, &v), 8);
        rt::check(mem::eq(&[0u8; 0], &()), 9);
        let x = [rt::u16(), rt::u16(), rt::u16()];
        let y = rt::bytes::<6>();
        let mut z = [0u8; 6];
        for k in 0..3 {
            z[2 * k] = x[k] as u8;
            z[2 * k + 1] = (x[k] >> 8) as u8;
        }
        rt::check(mem::eq(&x, &y) == same_bytes(&z, &y), 10);
        rt::check(mem::as_bytes(&()).is_empty(), 11);
        // views as possibly uninitialised data and back
        rt::check(mem::assume_init(mem::as_uninit(&v)) as *const u32 == &v as *const u32, 12);
        let s = mem::slice_as_uninit(&x);
        rt::check(s.len() == 3 && s.as_ptr() as usize == x.as_ptr() as usize, 13);
        rt::check(mem::slice_assume_init(s) == x, 14);
        let mut u = [Uninit::new(1u16), Uninit::new(2)];
        mem::slice_assume_init_mut(&mut u)[1] = x[0];
        *mem::assume_init_mut(&mut u[0]) = x[1];
        rt::check(u[0].assume_init() == x[1] && u[1].assume_init() == x[0], 15);
    }
    rt::cover(1);
}

/// A large value: a pattern, and a few arbitrary bytes.
fn large<const N: usize>() -> [u8; N] {
    let mut v = [0; N];
    for i in 0..N {
        v[i] = (i as u8) ^ (i >> 8) as u8;
    }
    for i in [0, N / 2, N - 1] {
        v[i] = rt::u8();
    }
    v
}

fn huge<const N: usize, const M: usize>() {
    let v = large::<N>();
    unsafe {
        let mut e = v;
        e.reverse();
        rt::check(same_bytes(&mem::bswap_copy(&v), &e), 1);
        rt::check(same_bytes(mem::as_bytes(&v), &v), 2);
        // to more and to fewer bytes
        let d: [Uninit<u8>; M] = mem::transmute_copy_uninit(&v);
        for i in 0..N.min(M) {
            rt::check(d[i].assume_init() == v[i], 3);
        }
        // a difference anywhere matters, and so does the size
        let mut w = v;
        rt::check(mem::eq(&v, &w), 4);
        let at = [0, 63, 64, N / 2, N - 1][rt::pick(0, 4)] % N;
        w[at] = rt::u8();
        rt::check(mem::eq(&v, &w) == (v[at] == w[at]), 5);
        let mut x = [0; M];
        for i in 0..N.min(M) {
            x[i] = v[i];
        }
        rt::check(!mem::eq(&v, &x) && !mem::eq(&x, &v), 6);
    }
    rt::cover(1);
}

/// Larger values.
fn c18_large() {
    match rt::pick(0, 7) {
        0 => huge::<6, 5>(),
        1 => huge::<5, 8>(),
        2 => huge::<65, 64>(),
        3 => huge::<65, 100>(),
        4 => huge::<130, 129>(),
        5 => huge::<257, 256>(),
        6 => huge::<300, 600>(),
        _ => huge::<4100, 300>(),
    }
}

crate::rt::harness!(c18_large, c18_swap_bytes, c18_swap_types, c18_copy, c18_copy_aligned, c18_views);
