use crate::rt;
use alloc::{boxed::Box, rc::Rc, sync::Arc, vec::Vec};
use core::cell::Cell;
use core::ops::Deref;
use core::pin::Pin;
use osi::convert::{FromDeref, IntoDeref};
use osi::ptr::OnceRef;

struct Token<'a>(&'a Cell<u32>, u64);

impl Drop for Token<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}

fn at<T: ?Sized>(v: &T) -> usize {
    v as *const T as *const u8 as usize
}

/// One of the ways to convert and come back.
fn trip<P: IntoDeref + FromDeref>(p: P, how: usize) -> P {
    let a = at(&*p);
    let n = core::mem::size_of_val(&*p);
    let same = |x: &P::Target| at(x) == a && core::mem::size_of_val(x) == n;
    match how {
        0 => {
            let d: OnceRef<P::Target> = P::into_deref(p);
            rt::check(same(&*d) && same(d.as_ref()), 1);
            rt::check(d.as_ptr() as *mut u8 as usize == a, 2);
            unsafe { P::from_deref(d) }
        }
        1 => {
            let d = P::into_deref(p);
            // through the raw pointer
            let r = d.into_nonnull();
            unsafe { P::from_deref(OnceRef::from_nonnull(r)) }
        }
        2 => {
            let d = P::pin_into_deref(unsafe { Pin::new_unchecked(p) });
            rt::check(same(&*d), 3);
            let q: Pin<P> = unsafe { P::pin_from_deref(d) };
            rt::check(same(&*q), 4);
            unsafe { Pin::into_inner_unchecked(q) }
        }
        _ => {
            let d = P::into_deref(p);
            let r: *mut P::Target = d.into();
            unsafe { P::from_deref(OnceRef::from_ptr(r)) }
        }
    }
}

/// Up to `param(0)` steps on a set of shared owners.
fn shared<P: IntoDeref + FromDeref + Clone>(first: P, n: &Cell<u32>, value: impl Fn(&P::Target) -> u64, v: u64) {
    let a = at(&*first);
    let mut held: Vec<P> = Vec::new();
    held.push(first);
    for _ in 0..rt::param(0) {
        if held.is_empty() {
            break;
        }
        let last = held.pop().unwrap();
        match rt::pick(0, 5) {
            0 => {
                held.push(last.clone());
                held.push(last);
            }
            1 => {
                drop(last);
            }
            k => held.push(trip(last, k - 2)),
        }
        rt::check(n.get() == held.is_empty() as u32, 5);
        for p in &held {
            rt::check(at(&**p) == a && value(&**p) == v, 6);
        }
    }
    held.clear();
    rt::check(n.get() == 1, 7);
    rt::cover(1);
}

fn c20_shared() {
    let n = Cell::new(0);
    let v = rt::u64();
    match rt::pick(0, 3) {
        0 => shared(Rc::new(Token(&n, v)), &n, |t| t.1, v),
        1 => shared(Arc::new(Token(&n, v)), &n, |t| t.1, v),
        2 => shared::<Rc<[Token]>>(Rc::new([Token(&n, v)]), &n, |t| t[0].1, v),
        _ => {
            let a: Arc<Vec<Token>> = Arc::new(Vec::from([Token(&n, v)]));
            shared(a, &n, |t| t[0].1, v)
        }
    }
}

trait Value {
    fn value(&self) -> u64;
}
impl Value for Token<'_> {
    fn value(&self) -> u64 {
        self.1
    }
}

/// Sole owners.
fn single<P: IntoDeref + FromDeref>(mut p: P, n: &Cell<u32>, value: impl Fn(&P::Target) -> u64, v: u64) {
    let a = at(&*p);
    for _ in 0..rt::param(0) {
        p = trip(p, rt::pick(0, 3));
        rt::check(n.get() == 0, 8);
        rt::check(at(&*p) == a && value(&*p) == v, 9);
    }
    drop(p);
    rt::check(n.get() == 1, 10);
    rt::cover(1);
}

fn c20_single() {
    let n = Cell::new(0);
    let v = rt::u64();
    match rt::pick(0, 2) {
        0 => single(Box::new(Token(&n, v)), &n, |t| t.1, v),
        1 => single::<Box<[Token]>>(Box::new([Token(&n, v)]), &n, |t| t[0].1, v),
        _ => {
            let b: Box<dyn Value> = Box::new(Token(unsafe { &*(&n as *const Cell<u32>) }, v));
            single(b, &n, |t| t.value(), v)
        }
    }
}

/// Borrows: converting never drops, and exclusive access stays exclusive.
fn c20_borrowed() {
    let n = Cell::new(0);
    let v = rt::u64();
    let mut t = Token(&n, v);
    let a = at(&t);
    let mut r = &t;
    for _ in 0..rt::param(0) {
        r = trip(r, rt::pick(0, 3));
        rt::check(at(r) == a && r.1 == v, 11);
    }
    let w = rt::u64();
    let mut m = &mut t;
    for _ in 0..rt::param(0) {
        m = trip(m, rt::pick(0, 3));
        rt::check(at(m) == a, 12);
    }
    m.1 = w;
    rt::check(t.1 == w && n.get() == 0, 13);
    // the single-use reference on its own
    let mut o = OnceRef::from_mut(&mut t);
    rt::check(o.as_nonnull().as_ptr() as usize == a && o.deref().1 == w, 14);
    unsafe { o.as_mut().1 = v };
    rt::check(o.into_ref().1 == v, 15);
    let o: OnceRef<Token> = (&mut t).into();
    unsafe { o.into_mut().1 = w };
    let p: Pin<OnceRef<Token>> = unsafe { Pin::new_unchecked(&t) }.into();
    rt::check(at(&*p) == a, 16);
    let o = OnceRef::from_ref(&t);
    let c: *const Token = o.into();
    rt::check(c as usize == a, 17);
    let p = osi::ptr::Ptr::from_ref(&t);
    rt::check(p.as_ptr() as usize == a && unsafe { p.as_ref() }.1 == w, 18);
    let q = p;
    rt::check(q.into_ptr() as usize == a && core::ptr::NonNull::from(p).as_ptr() as usize == a, 19);
    rt::check(n.get() == 0, 20);
    drop(t);
    rt::check(n.get() == 1, 21);
    rt::cover(1);
}

/// Maybe-owned values: the owned one is dropped once, the borrowed never.
fn c20_mown() {
    use osi::mown::Mown;
    let n = Cell::new(0);
    let v = rt::u64();
    let t = Token(&n, v);
    {
        let m: Mown<Token, Rc<Token>> = if rt::pick(0, 1) == 0 {
            Mown::new_borrowed(&t)
        } else {
            Mown::new_owned(Rc::new(Token(&n, v)))
        };
        let mut held = Vec::from([m]);
        let owned = held[0].is_owned();
        for _ in 0..rt::param(0) {
            match rt::pick(0, 1) {
                0 => {
                    let c = held[0].clone();
                    rt::check(c.is_owned() == owned && c.is_borrowed() != owned, 22);
                    rt::check(at(&*c) == at(&*held[0]), 23);
                    held.push(c);
                }
                _ => {
                    if held.len() > 1 {
                        held.pop();
                    }
                }
            }
            rt::check(held[0].1 == v && held[0].deref().1 == v, 24);
            rt::check(n.get() == 0, 25);
        }
        drop(held);
        rt::check(n.get() == owned as u32, 26);
        if !owned {
            rt::cover(1);
        } else {
            rt::cover(2);
        }
    }
}

crate::rt::harness!(c20_shared, c20_single, c20_borrowed, c20_mown);
