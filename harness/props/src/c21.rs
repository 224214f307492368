use crate::model::util::same_hash;
use crate::rt;
use alloc::{boxed::Box, rc::Rc, vec::Vec};
use core::cmp::Ordering;
use osi::cmp::Identity;
use osi::mown::Mown;
use osi::ptr::{NonNull4, OnceRef, Ptr};

/// Laws tying equality, order and hash of three objects to a key.
fn laws<T: Ord + core::hash::Hash, K: Ord>(v: &[T; 3], k: &[K; 3]) {
    for i in 0..3 {
        for j in 0..3 {
            let (a, b) = (&v[i], &v[j]);
            rt::check((a == b) == (k[i] == k[j]), 1);
            rt::check((a != b) == (k[i] != k[j]), 2);
            rt::check(a.cmp(b) == b.cmp(a).reverse(), 3);
            rt::check((a.cmp(b) == Ordering::Equal) == (a == b), 4);
            rt::check(a.partial_cmp(b) == Some(a.cmp(b)), 5);
            rt::check((a < b) == (a.cmp(b) == Ordering::Less) && (a <= b) != (a > b), 6);
            if k[i] == k[j] {
                rt::check(same_hash(a, b), 7);
            }
            for l in 0..3 {
                if a <= b && *b <= v[l] {
                    rt::check(*a <= v[l], 8);
                }
            }
        }
    }
    rt::cover(1);
}

/// Pointers to any three of several adjacent objects with any contents.
fn c21_address() {
    let mem = rt::bytes::<4>();
    let i = [rt::range(0, 3), rt::range(0, 3), rt::range(0, 3)];
    let p = i.map(|i| &mem[i]);
    match rt::pick(0, 3) {
        0 => laws(&p.map(|p| Identity(p)), &i),
        1 => laws(&p.map(|p| Ptr::from_ref(p)), &i),
        2 => laws(&p.map(|p| OnceRef::from_ref(p)), &i),
        _ => {
            let m = [rt::u32(), rt::u32(), rt::u32(), rt::u32()];
            let t = i.map(|i| NonNull4::new(osi::ptr::nonnull_from_ref(&m[i])).unwrap());
            laws(&t, &i)
        }
    }
}

/// Identity of shared and owned objects.
fn c21_identity() {
    let v = [rt::u8(), rt::u8()];
    let r = [Rc::new(v[0]), Rc::new(v[1])];
    let i = [rt::pick(0, 1), rt::pick(0, 1), rt::pick(0, 1)];
    laws(&i.map(|i| Identity(r[i].clone())), &i.map(|i| &*r[i] as *const u8));
    let b = [Identity(Box::new(v[0])), Identity(Box::new(v[1])), Identity(Box::new(v[0]))];
    let k = [&*b[0].0 as *const u8, &*b[1].0 as *const u8, &*b[2].0 as *const u8];
    laws(&b, &k);
    rt::check(b[0] != b[2] && b[0] == b[0], 9);
}

/// Objects without size at any three addresses.
fn c21_anywhere() {
    let k = [rt::usize(), rt::usize(), rt::usize()];
    rt::assume(k[0] != 0 && k[1] != 0 && k[2] != 0);
    // Safety: A non-null pointer to an object without size is valid.
    let p = k.map(|k| unsafe { &*core::ptr::without_provenance::<()>(k) });
    match rt::pick(0, 2) {
        0 => laws(&p.map(|p| Identity(p)), &k),
        1 => laws(&p.map(|p| Ptr::from_ref(p)), &k),
        _ => laws(&p.map(|p| OnceRef::from_ref(p)), &k),
    }
}

/// Slices and trait objects: identity of whole objects.
fn c21_unsized() {
    let mem = rt::bytes::<6>();
    let i = [rt::pick(0, 2), rt::pick(0, 2), rt::pick(0, 2)];
    laws(&i.map(|i| Identity(&mem[2 * i..2 * i + 2])), &i);
    laws(&i.map(|i| Ptr::from_ref(&mem[2 * i..2 * i + 2])), &i);
}

/// Maybe-owned byte strings, held either way.
fn c21_mown() {
    let mem = rt::bytes::<6>();
    let n = [rt::pick(0, 2), rt::pick(0, 2), rt::pick(0, 2)];
    let k = [&mem[0..n[0]], &mem[2..2 + n[1]], &mem[4..4 + n[2]]];
    let v = k.map(|k| -> Mown<[u8], Vec<u8>> {
        if rt::pick(0, 1) == 0 {
            Mown::from(k)
        } else {
            Mown::new_owned(Vec::from(k))
        }
    });
    laws(&v, &k);
    for i in 0..3 {
        rt::check(same_hash(&v[i], k[i]), 10);
        rt::check(v[i].deref() == k[i] && &*v[i] == k[i], 11);
        let s: &[u8] = v[i].as_ref();
        rt::check(s == k[i], 12);
        rt::check(v[i].clone() == v[i], 13);
        for j in 0..3 {
            rt::check(v[i].cmp(&v[j]) == k[i].cmp(k[j]), 14);
        }
    }
    let d: Mown<[u8], Vec<u8>> = Default::default();
    rt::check(d.is_owned() && d.is_empty(), 15);
}

crate::rt::harness!(c21_address, c21_anywhere, c21_identity, c21_unsized, c21_mown);
