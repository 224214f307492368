//! Byte-addressed memory: concrete addresses, bytes concrete, symbolic or
//! uninitialised. Objects are shared between states until written.

use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub align: u64,
    pub kind: Kind,
    pub bytes: Vec<u8>,
    /// 0 concrete, 1 uninitialised, else node id + 2. Empty if all concrete.
    pub meta: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Stack,
    Heap,
    Const,
    Global,
}

impl Obj {
    pub fn new(base: u64, size: u64, align: u64, kind: Kind, init: bool) -> Obj {
        Obj {
            base,
            size,
            align,
            kind,
            bytes: vec![0; size as usize],
            meta: if init { vec![] } else { vec![1; size as usize] },
        }
    }
    #[inline]
    pub fn byte(&self, o: usize) -> Byte {
        if self.meta.is_empty() {
            return Byte::K(self.bytes[o]);
        }
        match self.meta[o] {
            0 => Byte::K(self.bytes[o]),
            1 => Byte::U,
            n => Byte::S(n - 2),
        }
    }
    #[inline]
    pub fn set(&mut self, o: usize, b: Byte) {
        match b {
            Byte::K(v) => {
                self.bytes[o] = v;
                if !self.meta.is_empty() {
                    self.meta[o] = 0;
                }
            }
            Byte::U => {
                self.need_meta();
                self.meta[o] = 1;
            }
            Byte::S(i) => {
                self.need_meta();
                self.meta[o] = i + 2;
            }
        }
    }
    fn need_meta(&mut self) {
        if self.meta.is_empty() {
            self.meta = vec![0; self.size as usize];
        }
    }
    pub fn set_v(&mut self, o: usize, v: V) {
        let w = v.w();
        let n = (w as usize).div_ceil(8);
        match v {
            V::C(_, k) => {
                for i in 0..n {
                    self.set(o + i, Byte::K((k >> (8 * i)) as u8));
                }
            }
            V::S(_) => {
                let v = if w % 8 != 0 { zext(v, (n * 8) as u16) } else { v };
                for i in 0..n {
                    match part(v, (8 * i + 7) as u16, (8 * i) as u16) {
                        V::C(_, k) => self.set(o + i, Byte::K(k as u8)),
                        V::S(id) => self.set(o + i, Byte::S(id)),
                    }
                }
            }
        }
    }
    /// Value of `n` bytes, little endian; None if some byte is uninitialised.
    pub fn get_v(&self, o: usize, n: usize) -> V {
        if self.meta.is_empty() || self.meta[o..o + n].iter().all(|m| *m == 0) {
            let mut k: u128 = 0;
            for i in (0..n).rev() {
                k = (k << 8) | self.bytes[o + i] as u128;
            }
            return V::C((n * 8) as u16, k);
        }
        // A wholly uninitialised value is one fresh unknown.
        if self.meta[o..o + n].iter().all(|m| *m == 1) {
            return undef((n * 8) as u16);
        }
        let mut parts = Vec::with_capacity(n);
        for i in (0..n).rev() {
            parts.push(match self.byte(o + i) {
                Byte::K(v) => V::C(8, v as u128),
                Byte::S(id) => V::S(id),
                Byte::U => undef(8),
            });
        }
        tidy(concat(&parts))
    }
}

thread_local! {
    static UNDEF: std::cell::RefCell<std::collections::HashMap<u16, V>> = Default::default();
}

/// Uninitialised contents. One variable per width: no distinction is needed,
/// since any decision depending on it is looked into separately.
pub fn undef(w: u16) -> V {
    UNDEF.with(|u| *u.borrow_mut().entry(w).or_insert_with(|| new_var(w, true).1))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Byte {
    K(u8),
    U,
    S(Id),
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: BTreeMap<u64, Rc<Obj>>,
    pub next: u64,
}

impl Mem {
    pub fn find(&self, addr: u64) -> Option<&Rc<Obj>> {
        let (_, o) = self.objs.range(..=addr).next_back()?;
        if addr <= o.base + o.size {
            Some(o)
        } else {
            None
        }
    }
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind, init: bool) -> u64 {
        let align = align.max(1);
        let mut a = (self.next + 64).next_multiple_of(align);
        if align < 1 << 20 && a % (align * 2) == 0 {
            a += align;
        }
        self.next = a + size;
        self.objs.insert(a, Rc::new(Obj::new(a, size, align, kind, init)));
        a
    }
}
