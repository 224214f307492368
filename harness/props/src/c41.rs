//! C41: pinned pointers.

use crate::rt;
use alloc::boxed::Box;
use alloc::rc::Rc;
use core::marker::PhantomPinned;
use core::pin::Pin;

struct Held {
    a: u8,
    b: u32,
    _p: PhantomPinned,
}

fn held() -> Held {
    Held { a: rt::u8(), b: rt::u32(), _p: PhantomPinned }
}

fn intact(p: *const Held, a: u8, b: u32) -> bool {
    unsafe { (*p).a == a && (*p).b == b }
}

/// Every kind of pinned pointer.
fn c41_ptr() {
    let mut h = held();
    let (a, b) = (h.a, h.b);
    let at = &raw mut h;
    rt::check(osi::pin::as_ptr(unsafe { Pin::new_unchecked(&h) }) as *const _ == at as *const Held, 1);
    rt::check(osi::pin::as_ptr(unsafe { Pin::new_unchecked(&mut h) }) as *const _ == at as *const Held, 2);
    rt::check(osi::pin::as_mut_ptr(unsafe { Pin::new_unchecked(&mut h) }) == at, 3);
    rt::check(intact(at, a, b), 4);
    let v = rt::u32();
    unsafe { (*osi::pin::as_mut_ptr(Pin::new_unchecked(&mut h))).b = v };
    rt::check(intact(at, a, v), 5);

    let mut x = Box::pin(held());
    let (a, b) = (x.a, x.b);
    let at: *const Held = &raw const *x;
    rt::check(core::ptr::eq(&raw const **unsafe { osi::pin::as_inner(&x) }, at), 6);
    rt::check(core::ptr::eq(osi::pin::as_ptr(x.as_ref()), at), 7);
    rt::check(core::ptr::eq(osi::pin::as_mut_ptr(x.as_mut()), at), 8);
    rt::check(intact(at, a, b), 9);

    let y = Rc::pin(held());
    let at: *const Held = &raw const *y;
    rt::check(Rc::as_ptr(unsafe { osi::pin::as_inner(&y) }) == at, 10);
    rt::check(core::ptr::eq(osi::pin::as_ptr(y.as_ref()), at), 11);

    let z: Pin<Box<[u16]>> = Box::into_pin(Box::new([rt::u16(), rt::u16(), rt::u16()]) as Box<[u16]>);
    let p = osi::pin::as_ptr(z.as_ref());
    rt::check(p.len() == 3 && core::ptr::eq(p as *const u16, z.as_ptr()), 12);
    rt::cover(1);
}

/// Any element of several.
fn c41_element() {
    let mut all = [held(), held(), held(), held(), held()];
    let i = rt::range(0, 4);
    let base = &raw const all as usize;
    let size = core::mem::size_of::<Held>();
    let at = |p: *const Held| (p as usize - base) / size == i && (p as usize - base) % size == 0;
    let v = rt::u32();
    unsafe {
        rt::check(at(osi::pin::as_ptr(Pin::new_unchecked(&all[i]))), 1);
        let p = osi::pin::as_mut_ptr(Pin::new_unchecked(&mut all[i]));
        rt::check(at(p), 2);
        (*p).b = v;
        let r: Pin<&u32> = osi::pin::map_unchecked(Pin::new_unchecked(&all[i]), |h: &Held| &h.b);
        rt::check((&raw const *r as usize - base) / size == i && *r == v, 3);
    }
    rt::cover(1);
}

/// Mapping a pinned pointer.
fn c41_map() {
    let mut h = held();
    let (a, b) = (h.a, h.b);
    let at = &raw mut h;
    let mut calls = 0;
    let r: Pin<&mut u32> = unsafe {
        osi::pin::map_unchecked(Pin::new_unchecked(&mut h), |v: &mut Held| {
            calls += 1;
            rt::check(v as *mut Held == at, 1);
            &mut v.b
        })
    };
    rt::check(calls == 1 && *r == b, 2);
    let v = rt::u32();
    *r.get_mut() = v;
    rt::check(intact(at, a, v), 3);
    let x = Box::pin(held());
    let at: *const Held = &raw const *x;
    let (a, b) = (x.a, x.b);
    let y: Pin<Rc<Box<Held>>> = unsafe { osi::pin::map_unchecked(x, Rc::new) };
    rt::check(core::ptr::eq(&raw const **y, at) && intact(at, a, b), 4);
    rt::cover(1);
}

crate::rt::harness!(c41_ptr, c41_element, c41_map);
