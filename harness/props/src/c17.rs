use crate::rt;
use core::ptr::NonNull;
use osi::ptr::NonNull4;

/// Every operation sequence of the given length on a tagged pointer behaves
/// like a pair of plain address and two flags.
fn c17_ops() {
    let addr = rt::usize();
    rt::assume(addr != 0);
    let p = NonNull::new(addr as *mut u32).unwrap();
    let r = NonNull4::new(p);
    rt::check(r.is_some() == (addr % 4 == 0), 1);
    let Some(mut t) = r else {
        rt::cover(1);
        return;
    };
    let mut meta = 0usize;
    let mut a = addr;
    for _ in 0..rt::param(0) {
        match rt::pick(0, 3) {
            0 => {
                let m = rt::usize();
                rt::assume(m < 4);
                t.set_meta(m);
                meta = m;
            }
            1 => {
                let bit = rt::u8();
                rt::assume(bit < 2);
                let f = rt::bool();
                t.set_meta_bit(bit, f);
                meta = meta & !(1 << bit) | (f as usize) << bit;
            }
            2 => {
                let n = rt::usize();
                rt::assume(n != 0 && n % 4 == 0);
                unsafe { t.set_ptr_unchecked(NonNull::new_unchecked(n as *mut u32)) };
                a = n;
            }
            _ => {
                let f = rt::bool();
                t.set0(f);
                meta = meta & !1 | f as usize;
                let f = rt::bool();
                t.set1(f);
                meta = meta & !2 | (f as usize) << 1;
            }
        }
        rt::check(t.ptr().as_ptr() as usize == a, 2);
        rt::check(t.meta() == meta, 3);
        rt::check(t.get0() == (meta & 1 != 0), 4);
        rt::check(t.get1() == (meta & 2 != 0), 5);
    }
    rt::cover(2);
}

crate::rt::harness!(c17_ops);
