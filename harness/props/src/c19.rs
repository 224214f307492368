use crate::rt;
use osi::mem::typed_offset_of;
use osi::meta::{self, Field};

#[repr(C)]
struct Plain {
    a: u8,
    b: u32,
    c: u8,
    d: u64,
    e: [u16; 3],
}

struct Free {
    a: u8,
    b: u64,
    c: u16,
    d: u32,
}

#[repr(C, packed)]
struct Tight {
    a: u8,
    b: [u8; 3],
    c: [u8; 2],
}

#[repr(C, align(32))]
struct Wide {
    z: (),
    a: [u8; 5],
    b: Inner,
}

#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Inner {
    x: u16,
    y: u64,
}

macro_rules! fields {
    ($c:ty: $($f:ident $t:ty),*) => {
        $(unsafe impl Field<{ typed_offset_of!($c, $f, $t) }, $t> for $c {})*
    };
}

fields!(Plain: a u8, b u32, c u8, d u64, e [u16; 3]);
fields!(Free: a u8, b u64, c u16, d u32);
fields!(Tight: a u8, b [u8; 3], c [u8; 2]);
fields!(Wide: z (), a [u8; 5], b Inner);
fields!(Inner: x u16, y u64);

macro_rules! project {
    ($c:ident, $t:ty, $f:ident, $ft:ty, $new:expr) => {{
        const O: usize = typed_offset_of!($t, $f, $ft);
        let base = &raw mut $c;
        let at = &raw const $c.$f as usize;
        rt::check(O == core::mem::offset_of!($t, $f), 1);
        rt::check(at == base as usize + O, 2);
        let p = meta::field_of_ptr::<O, $ft, $t>(base);
        rt::check(p as usize == at, 3);
        let old: $ft = $c.$f;
        rt::check(*meta::field_of::<O, $ft, $t>(&$c) == old, 4);
        rt::check(meta::field_of::<O, $ft, $t>(&$c) as *const $ft as usize == at, 5);
        let new: $ft = $new;
        *meta::field_of_mut::<O, $ft, $t>(&mut $c) = new;
        let seen: $ft = $c.$f;
        rt::check(seen == new, 6);
        let q = meta::container_of_ptr::<O, $ft, $t>(p);
        rt::check(q == base, 7);
        rt::check(meta::field_of_ptr::<O, $ft, $t>(q) == p, 8);
        rt::cover(1);
        old
    }};
}

/// Project to one field, change it, look at all others.
fn c19_fields() {
    let mut p = Plain { a: rt::u8(), b: rt::u32(), c: rt::u8(), d: rt::u64(), e: [rt::u16(); 3] };
    let mut f = Free { a: p.c, b: p.d, c: p.e[0], d: p.b };
    let mut t = Tight { a: p.a, b: [p.a, p.c, 1], c: [p.c, p.a] };
    let mut w = Wide { z: (), a: [p.a, 1, 2, p.c, 4], b: Inner { x: p.e[0], y: p.d } };
    let (a, b, c, d, e) = (p.a, p.b, p.c, p.d, p.e);
    match rt::pick(0, 15) {
        0 => p.a = project!(p, Plain, a, u8, rt::u8()),
        1 => p.b = project!(p, Plain, b, u32, rt::u32()),
        2 => p.c = project!(p, Plain, c, u8, rt::u8()),
        3 => p.d = project!(p, Plain, d, u64, rt::u64()),
        4 => p.e = project!(p, Plain, e, [u16; 3], [rt::u16(), 1, 2]),
        5 => f.a = project!(f, Free, a, u8, rt::u8()),
        6 => f.b = project!(f, Free, b, u64, rt::u64()),
        7 => f.c = project!(f, Free, c, u16, rt::u16()),
        8 => f.d = project!(f, Free, d, u32, rt::u32()),
        9 => t.a = project!(t, Tight, a, u8, rt::u8()),
        10 => t.b = project!(t, Tight, b, [u8; 3], [rt::u8(), 3, 4]),
        11 => t.c = project!(t, Tight, c, [u8; 2], [rt::u8(), 3]),
        12 => w.z = project!(w, Wide, z, (), ()),
        13 => w.a = project!(w, Wide, a, [u8; 5], rt::bytes::<5>()),
        14 => w.b = project!(w, Wide, b, Inner, Inner { x: rt::u16(), y: rt::u64() }),
        _ => {
            let i = &mut w.b;
            let y = &raw mut i.y;
            const O: usize = typed_offset_of!(Inner, y, u64);
            rt::check(meta::container_of_ptr::<O, u64, Inner>(y) == &raw mut *i, 9);
            rt::cover(1);
        }
    }
    // after restoring the projected field everything is as before
    rt::check(p.a == a && p.b == b && p.c == c && p.d == d && p.e == e, 10);
    rt::check(f.a == c && f.b == d && f.c == e[0] && f.d == b, 11);
    rt::check(t.a == a && t.b == [a, c, 1] && t.c == [c, a], 12);
    rt::check(w.a == [a, 1, 2, c, 4] && w.b == Inner { x: e[0], y: d }, 13);
}

/// Plain address arithmetic for any address, live or not.
fn c19_address() {
    let v = rt::usize();
    const O: usize = typed_offset_of!(Plain, d, u64);
    let f = meta::field_of_ptr::<O, u64, Plain>(v as *mut Plain);
    rt::check(f as usize == v.wrapping_add(16), 1);
    rt::check(meta::container_of_ptr::<O, u64, Plain>(f) as usize == v, 2);
    let c = meta::container_of_ptr::<O, u64, Plain>(v as *mut u64);
    rt::check(c as usize == v.wrapping_sub(16), 3);
    far!(v, near u8, 0);
    far!(v, a u8, 200);
    far!(v, b u8, 256);
    far!(v, c u32, 40000);
    far!(v, d u64, 70000);
    far!(v, e u16, 0x8000_0000);
    far!(v, f u16, 0x1_0000_0000);
    rt::cover(1);
}

/// A layout with fields far away.
#[repr(C)]
struct Far {
    near: u8,
    p0: [u8; 199],
    a: u8,
    p1: [u8; 55],
    b: u8,
    p2: [u8; 39743],
    c: u32,
    p3: [u8; 29996],
    d: u64,
    p4: [u8; 0x8000_0000 - 70008],
    e: u16,
    p5: [u8; 0x7fff_fffe],
    f: u16,
}

fields!(Far: near u8, a u8, b u8, c u32, d u64, e u16, f u16);

macro_rules! far {
    ($v:ident, $f:ident $t:ty, $at:expr) => {{
        const O: usize = typed_offset_of!(Far, $f, $t);
        rt::check(O == $at, 4);
        let f = meta::field_of_ptr::<O, $t, Far>($v as *mut Far);
        rt::check(f as usize == $v.wrapping_add($at), 5);
        rt::check(meta::container_of_ptr::<O, $t, Far>($v as *mut $t) as usize == $v.wrapping_sub($at), 6);
    }};
}
use far;

crate::rt::harness!(c19_fields, c19_address);
