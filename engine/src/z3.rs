//! Binding to libz3 (C API), and translation of terms.

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, l: P, r: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, t: P, e: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvneg(c: P, a: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_uint) {
    unsafe {
        let m = CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {}", m.to_string_lossy());
    }
    std::process::exit(70);
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    cx: P,
    inc: P,
    bv: HashMap<Id, P, BuildFx>,
    bo: HashMap<Id, P, BuildFx>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub hard_timeout_ms: u32,
    /// time left for the whole run
    pub budget_ms: u32,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(hard_timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let cx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(cx, Some(on_error));
            let inc = Z3_mk_simple_solver(cx);
            Z3_solver_inc_ref(cx, inc);
            let mut z = Z3 {
                cx,
                inc,
                bv: HashMap::with_hasher(BuildFx),
                bo: HashMap::with_hasher(BuildFx),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                hard_timeout_ms,
                budget_ms: u32::MAX,
            };
            z.params(inc, 1000);
            z
        }
    }

    fn params(&mut self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.cx);
            Z3_params_inc_ref(self.cx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(self.cx, p, Z3_mk_string_symbol(self.cx, k.as_ptr()), ms);
            Z3_solver_set_params(self.cx, s, p);
            Z3_params_dec_ref(self.cx, p);
        }
    }

    fn keep(&mut self, p: P) -> P {
        unsafe { Z3_inc_ref(self.cx, p) };
        p
    }

    fn num(&mut self, w: u16, v: u128) -> P {
        unsafe {
            if w <= 64 {
                let s = Z3_mk_bv_sort(self.cx, w as c_uint);
                let p = Z3_mk_unsigned_int64(self.cx, v as u64, s);
                self.keep(p)
            } else {
                let lo = self.num(64, v & mask(64));
                let hi = self.num(w - 64, v >> 64);
                let p = Z3_mk_concat(self.cx, hi, lo);
                self.keep(p)
            }
        }
    }

    /// Translate as bit-vector. Iterative post-order to cope with deep terms.
    fn ensure(&mut self, v: V) {
        let V::S(root) = v else { return };
        let mut st = vec![(root, false)];
        while let Some((n, done)) = st.pop() {
            if self.bv.contains_key(&n) || self.bo.contains_key(&n) {
                continue;
            }
            let k = key(n);
            if !done {
                st.push((n, true));
                for x in k.kids.iter() {
                    if let V::S(m) = x {
                        st.push((*m, false));
                    }
                }
                continue;
            }
            self.build(n, k);
        }
    }

    fn build(&mut self, n: Id, k: &'static Key) {
        let cx = self.cx;
        let ks = &k.kids;
        unsafe {
            if k.w == 1 {
                let p = match k.op {
                    Op::And | Op::Or => {
                        let mut v = vec![];
                        for x in ks.iter() {
                            v.push(self.bool_(*x));
                        }
                        if k.op == Op::And {
                            Z3_mk_and(cx, v.len() as c_uint, v.as_ptr())
                        } else {
                            Z3_mk_or(cx, v.len() as c_uint, v.as_ptr())
                        }
                    }
                    Op::Xor => {
                        let mut neg = false;
                        let mut r: Option<P> = None;
                        for x in ks.iter() {
                            match *x {
                                V::C(_, c) => neg ^= c != 0,
                                x => {
                                    let p = self.bool_(x);
                                    r = Some(match r {
                                        None => p,
                                        Some(q) => {
                                            let t = Z3_mk_xor(cx, q, p);
                                            self.keep(t)
                                        }
                                    });
                                }
                            }
                        }
                        let r = r.unwrap();
                        if neg {
                            Z3_mk_not(cx, r)
                        } else {
                            r
                        }
                    }
                    Op::Eq => {
                        let (a, b) = (ks[0], ks[1]);
                        let (a, b) = (self.bits(a), self.bits(b));
                        Z3_mk_eq(cx, a, b)
                    }
                    Op::Ult => {
                        let (a, b) = (self.bits(ks[0]), self.bits(ks[1]));
                        Z3_mk_bvult(cx, a, b)
                    }
                    Op::Slt => {
                        let (a, b) = (self.bits(ks[0]), self.bits(ks[1]));
                        Z3_mk_bvslt(cx, a, b)
                    }
                    Op::Ite => {
                        let (c, a, b) = (self.bool_(ks[0]), self.bool_(ks[1]), self.bool_(ks[2]));
                        Z3_mk_ite(cx, c, a, b)
                    }
                    _ => {
                        let p = self.build_bits(k);
                        self.keep(p);
                        self.bv.insert(n, p);
                        return;
                    }
                };
                self.keep(p);
                self.bo.insert(n, p);
            } else {
                let p = self.build_bits(k);
                self.keep(p);
                self.bv.insert(n, p);
            }
        }
    }

    unsafe fn build_bits(&mut self, k: &'static Key) -> P {
        let cx = self.cx;
        let ks = &k.kids;
        let fold = |z: &mut Z3, f: unsafe extern "C" fn(P, P, P) -> P| -> P {
            let mut r = z.bits(ks[0]);
            for x in &ks[1..] {
                let y = z.bits(*x);
                let t = f(cx, r, y);
                r = z.keep(t);
            }
            r
        };
        match k.op {
            Op::Var => {
                let s = Z3_mk_bv_sort(cx, k.w as c_uint);
                Z3_mk_const(cx, Z3_mk_int_symbol(cx, k.lo as c_int), s)
            }
            Op::Add => {
                let mut r: Option<P> = match ks[0].k() {
                    Some(0) => None,
                    _ => Some(self.bits(ks[0])),
                };
                let mut j = 1;
                while j < ks.len() {
                    let x = self.bits(ks[j]);
                    let cf = ks[j + 1].k().unwrap();
                    let t = if cf == 1 {
                        x
                    } else if cf == mask(k.w) {
                        let t = Z3_mk_bvneg(cx, x);
                        self.keep(t)
                    } else {
                        let n = self.num(k.w, cf);
                        let t = Z3_mk_bvmul(cx, n, x);
                        self.keep(t)
                    };
                    r = Some(match r {
                        None => t,
                        Some(q) => {
                            let u = Z3_mk_bvadd(cx, q, t);
                            self.keep(u)
                        }
                    });
                    j += 2;
                }
                r.unwrap()
            }
            Op::Mul => fold(self, Z3_mk_bvmul),
            Op::UDiv => fold(self, Z3_mk_bvudiv),
            Op::SDiv => fold(self, Z3_mk_bvsdiv),
            Op::URem => fold(self, Z3_mk_bvurem),
            Op::SRem => fold(self, Z3_mk_bvsrem),
            Op::And => fold(self, Z3_mk_bvand),
            Op::Or => fold(self, Z3_mk_bvor),
            Op::Xor => fold(self, Z3_mk_bvxor),
            Op::Shl => fold(self, Z3_mk_bvshl),
            Op::LShr => fold(self, Z3_mk_bvlshr),
            Op::AShr => fold(self, Z3_mk_bvashr),
            Op::Concat => fold(self, Z3_mk_concat),
            Op::Extract => {
                let x = self.bits(ks[0]);
                Z3_mk_extract(cx, k.lo + k.w as c_uint - 1, k.lo, x)
            }
            Op::SExt => {
                let x = self.bits(ks[0]);
                Z3_mk_sign_ext(cx, (k.w - ks[0].w()) as c_uint, x)
            }
            Op::Ite => {
                let (c, a, b) = (self.bool_(ks[0]), self.bits(ks[1]), self.bits(ks[2]));
                Z3_mk_ite(cx, c, a, b)
            }
            Op::Eq | Op::Ult | Op::Slt => unreachable!(),
        }
    }

    fn bits(&mut self, v: V) -> P {
        match v {
            V::C(w, k) => self.num(w, k),
            V::S(n) => {
                if let Some(&p) = self.bv.get(&n) {
                    return p;
                }
                if let Some(&p) = self.bo.get(&n) {
                    let (o, z) = (self.num(1, 1), self.num(1, 0));
                    let q = unsafe { Z3_mk_ite(self.cx, p, o, z) };
                    self.keep(q);
                    self.bv.insert(n, q);
                    return q;
                }
                self.ensure(v);
                self.bits(v)
            }
        }
    }

    fn bool_(&mut self, v: V) -> P {
        match v {
            V::C(_, k) => unsafe {
                if k != 0 {
                    Z3_mk_true(self.cx)
                } else {
                    Z3_mk_false(self.cx)
                }
            },
            V::S(n) => {
                if let Some(&p) = self.bo.get(&n) {
                    return p;
                }
                if let Some(&p) = self.bv.get(&n) {
                    let o = self.num(1, 1);
                    let q = unsafe { Z3_mk_eq(self.cx, p, o) };
                    self.keep(q);
                    self.bo.insert(n, q);
                    return q;
                }
                self.ensure(v);
                self.bool_(v)
            }
        }
    }

    /// Decide the conjunction. On sat, values for all variables that occur.
    pub fn check(&mut self, cs: &[V]) -> Res {
        self.run(cs, true)
    }

    /// Same, giving up early.
    pub fn quick(&mut self, cs: &[V]) -> Res {
        self.run(cs, false)
    }

    fn run(&mut self, cs: &[V], hard: bool) -> Res {
        let t0 = std::time::Instant::now();
        let mut vars: Vec<u32> = vec![];
        let mut asts = vec![];
        for x in cs {
            vars.extend(x.vars().iter());
            self.ensure(*x);
            asts.push(self.bool_(*x));
        }
        vars.sort();
        vars.dedup();
        let cx = self.cx;
        let res = unsafe {
            Z3_solver_push(cx, self.inc);
            for a in &asts {
                Z3_solver_assert(cx, self.inc, *a);
            }
            let r = Z3_solver_check(cx, self.inc);
            let res = self.finish(r, self.inc, &vars);
            Z3_solver_pop(cx, self.inc, 1);
            match res {
                Res::Unknown if hard => {
                    let l = CString::new("QF_BV").unwrap();
                    let s = Z3_mk_solver_for_logic(cx, Z3_mk_string_symbol(cx, l.as_ptr()));
                    Z3_solver_inc_ref(cx, s);
                    let to = self.hard_timeout_ms.min(self.budget_ms);
                    self.params(s, to);
                    for a in &asts {
                        Z3_solver_assert(cx, s, *a);
                    }
                    let r = Z3_solver_check(cx, s);
                    let res = self.finish(r, s, &vars);
                    Z3_solver_dec_ref(cx, s);
                    res
                }
                r => r,
            }
        };
        self.queries += 1;
        match res {
            Res::Sat(_) => self.sat += 1,
            Res::Unsat => self.unsat += 1,
            Res::Unknown => self.unknown += 1,
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        res
    }

    unsafe fn finish(&mut self, r: c_int, s: P, vars: &[u32]) -> Res {
        match r {
            -1 => Res::Unsat,
            1 => {
                let m = Z3_solver_get_model(self.cx, s);
                Z3_model_inc_ref(self.cx, m);
                let mut out = vec![];
                for &v in vars {
                    let n = ar().vars[v as usize].node;
                    let p = self.bits(V::S(n));
                    let mut q: P = std::ptr::null_mut();
                    if !Z3_model_eval(self.cx, m, p, true, &mut q) {
                        continue;
                    }
                    Z3_inc_ref(self.cx, q);
                    let t = CStr::from_ptr(Z3_get_numeral_string(self.cx, q)).to_string_lossy();
                    out.push((v, t.parse::<u128>().expect("z3 numeral")));
                }
                Z3_model_dec_ref(self.cx, m);
                Res::Sat(out)
            }
            _ => Res::Unknown,
        }
    }
}
