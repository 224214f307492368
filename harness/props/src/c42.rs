//! C42: markers, brands and coercions of lifetimes.

use crate::model::util::same_hash;
use crate::rt;
use core::cmp::Ordering;
use osi::marker::{PhantomInvariant, PhantomInvariantLifetime};

/// All there is to ask about values that are all the same.
fn same<T: Ord + Copy + core::hash::Hash>(x: T, y: T, id: u32) {
    rt::check(x == y && !(x != y), id);
    rt::check(x.cmp(&y) == Ordering::Equal && x.partial_cmp(&y) == Some(Ordering::Equal), id);
    rt::check(!(x < y) && x <= y && x >= y && !(x > y), id);
    let c = x;
    rt::check(c == x && Clone::clone(&x) == y, id);
}

/// Markers next to data.
#[derive(Clone, Copy, Eq, Hash, Ord, PartialEq, PartialOrd)]
struct Marked<'a> {
    a: u16,
    m: PhantomInvariant<dyn Send>,
    l: PhantomInvariantLifetime<'a>,
    b: u8,
}

fn c42_marker() {
    rt::check(size_of::<PhantomInvariant<[u64]>>() == 0 && align_of::<PhantomInvariant<u64>>() == 1, 1);
    rt::check(size_of::<PhantomInvariantLifetime<'_>>() == 0 && align_of::<PhantomInvariantLifetime<'_>>() == 1, 2);
    same(PhantomInvariant::<u8>::new(), Default::default(), 3);
    same(PhantomInvariant::<str>::new(), Default::default(), 4);
    same(PhantomInvariantLifetime::new(), Default::default(), 5);
    // the markers add nothing to what the data tells
    let of = |a, b| Marked { a, b, m: PhantomInvariant::new(), l: PhantomInvariantLifetime::new() };
    let (a, b, c, d) = (rt::u16(), rt::u8(), rt::u16(), rt::u8());
    let (x, y) = (of(a, b), of(c, d));
    rt::check((x == y) == ((a, b) == (c, d)), 6);
    rt::check(x.cmp(&y) == (a, b).cmp(&(c, d)), 7);
    rt::check(x.partial_cmp(&y) == (a, b).partial_cmp(&(c, d)), 8);
    rt::check(same_hash(&x, &(a, b)), 9);
    rt::cover(1);
}

fn c42_brand() {
    let (a, b) = (rt::u64(), rt::u8());
    let mut calls = 0;
    let r = osi::brand::unique(|u| {
        calls += 1;
        rt::check(size_of_val(&u) == 0, 1);
        rt::check(u == u && u.cmp(&u) == Ordering::Equal, 2);
        let id: osi::brand::Id<'_> = u.into();
        same(id, id, 4);
        rt::check(size_of_val(&id) == 0 && same_hash(&id, &()), 6);
        (a, b)
    });
    rt::check(calls == 1 && r == (a, b), 7);
    // one inside of another
    let r = osi::brand::unique(|_| osi::brand::unique(|_| a).wrapping_add(b as u64));
    rt::check(r == a.wrapping_add(b as u64), 8);
    rt::cover(1);
}

fn get(v: &mut [u8], at: usize) -> Option<&mut u8> {
    if v[at] == 0 { None } else { Some(&mut v[at]) }
}

/// The first place that is not zero, made one if there is none.
fn find<'a>(v: &'a mut [u8]) -> &'a mut u8 {
    for i in 0..v.len() {
        if let Some(x) = get(v, i) {
            // SAFETY: returned at once
            return unsafe { osi::polonius::coerce_unsafe!(&'_ mut u8, &'a mut u8, x) };
        }
    }
    v[0] = 1;
    &mut v[0]
}

fn c42_coerce() {
    let mut v: [u8; 4] = rt::bytes();
    let old = v;
    let base = v.as_ptr() as usize;
    let first = old.iter().position(|x| *x != 0);
    let p = find(&mut v);
    let at = p as *mut u8 as usize - base;
    match first {
        Some(i) => {
            rt::check(at == i && *p == old[i], 1);
            rt::cover(1);
        }
        None => {
            rt::check(at == 0 && *p == 1, 2);
            rt::cover(2);
        }
    }
    let new = rt::u8();
    *p = new;
    for i in 0..4 {
        rt::check(v[i] == if i == at { new } else { old[i] }, 3);
    }
    // exclusive to shared, and back and forth by value
    let mut w = rt::u32();
    let (x, q) = (w, &raw mut w);
    let s: &u32 = unsafe { osi::polonius::coerce_unsafe!(&mut u32, &u32, &mut w) };
    rt::check(core::ptr::eq(s, q) && *s == x, 4);
    let t: [u8; 4] = unsafe { osi::polonius::coerce_unsafe!([u8; 4], [u8; 4], x.to_le_bytes()) };
    rt::check(t == x.to_le_bytes(), 5);
    rt::cover(3);
}

fn c42_never() {
    let v = rt::u32();
    let r: Result<u32, osi::never::Never> = Ok(v);
    let x = match r {
        Ok(x) => x,
        Err(x) => x,
    };
    rt::check(x == v && size_of::<Result<u32, osi::never::Never>>() == 4, 1);
    rt::cover(1);
}

crate::rt::harness!(c42_marker, c42_brand, c42_coerce, c42_never);
