//! C40: uncaught errors.

use crate::model::util::same_bytes;
use crate::rt;
use alloc::boxed::Box;
use alloc::rc::Rc;
use alloc::vec::Vec;
use core::cell::Cell;
use core::fmt;
use osi::error::Uncaught;
use std::error::Error;

const LEN: usize = 20;

/// An error with a text of its own for everything it shows.
struct Fault {
    debug: [u8; LEN],
    display: [u8; LEN],
    source: Option<Inner>,
    drops: Rc<Cell<usize>>,
}

struct Inner(Option<Box<Inner>>);

impl fmt::Debug for Inner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("inner")
    }
}

impl fmt::Display for Inner {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("inner")
    }
}

impl Error for Inner {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.0.as_ref().map(|v| &**v as _)
    }
}

fn text(v: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(v) }
}

impl fmt::Debug for Fault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            f.write_str("#")?;
        }
        f.pad(text(&self.debug))
    }
}

impl fmt::Display for Fault {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if f.alternate() {
            f.write_str("#")?;
        }
        f.pad(text(&self.display))
    }
}

impl Error for Fault {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        self.source.as_ref().map(|v| v as _)
    }
}

impl Drop for Fault {
    fn drop(&mut self) {
        self.drops.set(self.drops.get() + 1);
    }
}

/// Collects text, and fails at some point.
struct Sink {
    got: Vec<u8>,
    room: Option<usize>,
    failed: bool,
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        rt::check(!self.failed, 20);
        if self.room == Some(0) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.room = self.room.map(|v| v - 1);
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

fn join(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::new();
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}

fn show(r: fmt::Result, s: Sink, want: &[u8]) {
    rt::check(r.is_ok() == !s.failed, 1);
    if r.is_ok() {
        rt::cover(1);
        rt::check(same_bytes(&s.got, want), 2);
    } else {
        rt::cover(2);
        rt::check(s.got.len() < want.len() && same_bytes(&s.got, &want[..s.got.len()]), 3);
    }
}

/// Any way to fold an error in.
fn c40_fold() {
    let letter = || rt::range(0x20, 0x7e) as u8;
    let some = || {
        let mut v = *b"text of some length.";
        v[0] = letter();
        v[LEN - 1] = letter();
        v
    };
    let drops = Rc::new(Cell::new(0));
    let has_source = rt::pick(0, 1) == 1;
    let fault = Fault {
        debug: some(),
        display: some(),
        source: if has_source { Some(Inner(Some(Box::new(Inner(None))))) } else { None },
        drops: drops.clone(),
    };
    let (g, s) = (fault.debug, fault.display);
    let how = rt::pick(0, 11);
    let fixed = |f: Fault| -> &'static Fault { Box::leak(Box::new(f)) };
    let (u, name, inner_debug, inner_display): (Uncaught, &[u8], Option<[u8; LEN]>, Option<[u8; LEN]>) = match how {
        0 => (Uncaught::fold_any(Box::new(fault)), b"Any", None, None),
        1 => (Uncaught::box_any(fault), b"Any", None, None),
        2 => (Uncaught::fold_static_any(fixed(fault)), b"StaticAny", None, None),
        3 => (Uncaught::fold_debug(Box::new(fault)), b"Debug", Some(g), Some(g)),
        4 => (Uncaught::box_debug(fault), b"Debug", Some(g), Some(g)),
        5 => (Uncaught::fold_static_debug(fixed(fault)), b"StaticDebug", Some(g), Some(g)),
        6 => (Uncaught::fold_display(Box::new(fault)), b"Display", Some(s), Some(s)),
        7 => (Uncaught::box_display(fault), b"Display", Some(s), Some(s)),
        8 => (Uncaught::fold_static_display(fixed(fault)), b"StaticDisplay", Some(s), Some(s)),
        9 => (Uncaught::fold_error(Box::new(fault)), b"Error", Some(g), Some(s)),
        10 => (Uncaught::box_error(fault), b"Error", Some(g), Some(s)),
        _ => (Uncaught::fold_static_error(fixed(fault)), b"StaticError", Some(g), Some(s)),
    };
    let is_static = how % 3 == 2;
    rt::check(drops.get() == 0, 4);

    let want_debug = match &inner_debug {
        None => join(&[b"Uncaught::", name, b"()"]),
        Some(v) => join(&[b"Uncaught::", name, b"(", v, b")"]),
    };
    let want_display = match &inner_display {
        None => join(&[b"Uncaught(", name, b")"]),
        Some(v) => join(&[b"Uncaught(", name, b"): ", v]),
    };
    let room = if rt::pick(0, 1) == 1 { Some(rt::pick(0, 3)) } else { None };
    let mut sink = Sink { got: Vec::new(), room, failed: false };
    let r = fmt::write(&mut sink, format_args!("{:?}", u));
    show(r, sink, &want_debug);
    let mut sink = Sink { got: Vec::new(), room, failed: false };
    let r = fmt::write(&mut sink, format_args!("{}", u));
    show(r, sink, &want_display);

    // the source, but only of what was folded in as error
    match u.source() {
        None => rt::check(how < 9 || !has_source, 5),
        Some(v) => {
            rt::cover(3);
            rt::check(how >= 9 && has_source && v.downcast_ref::<Inner>().is_some_and(|v| v.0.is_some()), 6);
        }
    }

    // it is still there, and the very same
    match &u {
        Uncaught::Any(v) => rt::check(v.downcast_ref::<Fault>().is_some_and(|v| v.display == s && v.debug == g), 7),
        Uncaught::StaticAny(v) => rt::check(v.downcast_ref::<Fault>().is_some_and(|v| v.display == s), 8),
        Uncaught::Error(v) => rt::check(v.downcast_ref::<Fault>().is_some_and(|v| v.display == s), 9),
        _ => {}
    }
    rt::check(drops.get() == 0, 10);
    drop(u);
    rt::check(drops.get() == if is_static { 0 } else { 1 }, 11);
}

crate::rt::harness!(c40_fold);
