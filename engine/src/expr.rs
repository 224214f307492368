//! Bit-vector terms: hash-consed, normalised on construction.
//!
//! A value `V` is either a constant or a reference to a node. Nodes are never
//! freed. Width 1 doubles as boolean.

use std::collections::HashMap;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum V {
    C(u16, u128),
    S(Id),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Add,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    SExt,
    Ite,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Key {
    pub op: Op,
    pub w: u16,
    pub lo: u32,
    pub kids: Box<[V]>,
}

pub struct Node {
    pub key: Key,
    pub vars: Rc<[u32]>,
    pub undef: bool,
}

pub struct VarInfo {
    pub w: u16,
    pub undef: bool,
    pub node: Id,
}

pub struct Arena {
    pub nodes: Vec<&'static Node>,
    pub map: HashMap<&'static Key, Id, BuildFx>,
    pub vars: Vec<VarInfo>,
    empty: Rc<[u32]>,
    // evaluation memo
    gen: u32,
    memo_gen: Vec<u32>,
    memo: Vec<u128>,
    pub tables: HashMap<Id, [u64; 4], BuildFx>,
    // bitwise operations as sums of products, see `poly`
    polys: HashMap<Id, Option<Poly>, BuildFx>,
    by_poly: HashMap<(u16, Poly), V, BuildFx>,
    alias: HashMap<Key, V, BuildFx>,
}

#[derive(Clone, Copy, Default)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.write_u64(v as u64)
    }
}

static mut ARENA: Option<Arena> = None;

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    // Single threaded program; the arena lives for its whole duration and no
    // reference obtained here is kept across a call that appends nodes.
    unsafe {
        ARENA.get_or_insert_with(|| Arena {
            nodes: Vec::new(),
            map: HashMap::with_hasher(BuildFx),
            vars: Vec::new(),
            empty: Rc::from(Vec::new()),
            gen: 0,
            memo_gen: Vec::new(),
            memo: Vec::new(),
            tables: HashMap::with_hasher(BuildFx),
            polys: HashMap::with_hasher(BuildFx),
            by_poly: HashMap::with_hasher(BuildFx),
            alias: HashMap::with_hasher(BuildFx),
        })
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn c(w: u16, v: u128) -> V {
    V::C(w, v & mask(w))
}
pub const T: V = V::C(1, 1);
pub const F: V = V::C(1, 0);
pub fn b(v: bool) -> V {
    if v {
        T
    } else {
        F
    }
}

pub fn sx(w: u16, v: u128) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

impl V {
    #[inline]
    pub fn w(self) -> u16 {
        match self {
            V::C(w, _) => w,
            V::S(i) => ar().nodes[i as usize].key.w,
        }
    }
    #[inline]
    pub fn k(self) -> Option<u128> {
        match self {
            V::C(_, v) => Some(v),
            _ => None,
        }
    }
    pub fn is_k(self) -> bool {
        matches!(self, V::C(..))
    }
    pub fn undef(self) -> bool {
        match self {
            V::C(..) => false,
            V::S(i) => ar().nodes[i as usize].undef,
        }
    }
    pub fn vars(self) -> Rc<[u32]> {
        match self {
            V::C(..) => ar().empty.clone(),
            V::S(i) => ar().nodes[i as usize].vars.clone(),
        }
    }
}

pub fn key(i: Id) -> &'static Key {
    // Nodes are leaked and never mutated.
    &ar().nodes[i as usize].key
}

fn op_of(v: V) -> Option<Op> {
    match v {
        V::S(i) => Some(ar().nodes[i as usize].key.op),
        _ => None,
    }
}

fn kids(i: Id) -> Vec<V> {
    ar().nodes[i as usize].key.kids.to_vec()
}

pub fn new_var(w: u16, undef: bool) -> (u32, V) {
    let a = ar();
    let var = a.vars.len() as u32;
    let id = a.nodes.len() as Id;
    a.vars.push(VarInfo { w, undef, node: id });
    a.nodes.push(Box::leak(Box::new(Node {
        key: Key { op: Op::Var, w, lo: var, kids: Box::new([]) },
        vars: Rc::from(vec![var]),
        undef,
    })));
    (var, V::S(id))
}

fn union(a: &Rc<[u32]>, bb: &Rc<[u32]>) -> Rc<[u32]> {
    if Rc::ptr_eq(a, bb) || bb.is_empty() {
        return a.clone();
    }
    if a.is_empty() {
        return bb.clone();
    }
    let mut out = Vec::with_capacity(a.len() + bb.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < bb.len() {
        if j >= bb.len() || (i < a.len() && a[i] < bb[j]) {
            out.push(a[i]);
            i += 1;
        } else if i >= a.len() || bb[j] < a[i] {
            out.push(bb[j]);
            j += 1;
        } else {
            out.push(a[i]);
            i += 1;
            j += 1;
        }
    }
    if out.len() == a.len() {
        a.clone()
    } else if out.len() == bb.len() {
        bb.clone()
    } else {
        Rc::from(out)
    }
}

fn mk(op: Op, w: u16, lo: u32, kids: Vec<V>) -> V {
    let a = ar();
    let key = Key { op, w, lo, kids: kids.into_boxed_slice() };
    if let Some(&i) = a.map.get(&key) {
        return V::S(i);
    }
    let mut vars = a.empty.clone();
    let mut undef = false;
    for k in key.kids.iter() {
        if let V::S(i) = k {
            vars = union(&vars, &a.nodes[*i as usize].vars);
            undef |= a.nodes[*i as usize].undef;
        }
    }
    let id = a.nodes.len() as Id;
    let n: &'static Node = Box::leak(Box::new(Node { key, vars, undef }));
    a.nodes.push(n);
    a.map.insert(&n.key, id);
    V::S(id)
}

// ---------------------------------------------------------------- linear sums

fn lin(v: V) -> (u128, Vec<(Id, u128)>) {
    match v {
        V::C(_, k) => (k, vec![]),
        V::S(i) => {
            let n = &ar().nodes[i as usize].key;
            if n.op == Op::Add {
                let k = n.kids[0].k().unwrap();
                let mut t = Vec::with_capacity((n.kids.len() - 1) / 2);
                let mut j = 1;
                while j < n.kids.len() {
                    let V::S(x) = n.kids[j] else { unreachable!() };
                    t.push((x, n.kids[j + 1].k().unwrap()));
                    j += 2;
                }
                (k, t)
            } else {
                (0, vec![(i, 1)])
            }
        }
    }
}

fn unlin(w: u16, k: u128, t: Vec<(Id, u128)>) -> V {
    let m = mask(w);
    let k = k & m;
    if t.is_empty() {
        return V::C(w, k);
    }
    if k == 0 && t.len() == 1 && t[0].1 == 1 {
        return V::S(t[0].0);
    }
    let mut kids = Vec::with_capacity(1 + 2 * t.len());
    kids.push(V::C(w, k));
    for (i, cf) in t {
        kids.push(V::S(i));
        kids.push(V::C(w, cf));
    }
    mk(Op::Add, w, 0, kids)
}

fn lin_combine(w: u16, a: V, bb: V, fb: u128) -> V {
    let m = mask(w);
    let (ka, ta) = lin(a);
    let (kb, tb) = lin(bb);
    let mut out = Vec::with_capacity(ta.len() + tb.len());
    let (mut i, mut j) = (0, 0);
    while i < ta.len() || j < tb.len() {
        if j >= tb.len() || (i < ta.len() && ta[i].0 < tb[j].0) {
            out.push(ta[i]);
            i += 1;
        } else if i >= ta.len() || tb[j].0 < ta[i].0 {
            let cf = tb[j].1.wrapping_mul(fb) & m;
            if cf != 0 {
                out.push((tb[j].0, cf));
            }
            j += 1;
        } else {
            let cf = ta[i].1.wrapping_add(tb[j].1.wrapping_mul(fb)) & m;
            if cf != 0 {
                out.push((ta[i].0, cf));
            }
            i += 1;
            j += 1;
        }
    }
    let k = ka.wrapping_add(kb.wrapping_mul(fb));
    if let Some((i, j)) = disjoint_terms(w, &out) {
        // without carries a sum is an exclusive one
        let v = xor(V::S(out[i].0), V::S(out[j].0));
        out.remove(j);
        out.remove(i);
        return lin_combine(w, unlin(w, k, out), v, 1);
    }
    unlin(w, k, out)
}

/// Two summands that have no bits in common.
fn disjoint_terms(w: u16, t: &[(Id, u128)]) -> Option<(usize, usize)> {
    if w < 8 {
        return None;
    }
    let plain = |x: &(Id, u128)| x.1 == 1 && key(x.0).op == Op::And && !V::S(x.0).undef();
    for i in 0..t.len() {
        if !plain(&t[i]) {
            continue;
        }
        for j in i + 1..t.len() {
            if plain(&t[j]) {
                let (a, bb) = (poly(V::S(t[i].0))?, poly(V::S(t[j].0))?);
                if poly_and(&a, &bb).is_some_and(|p| p.is_empty()) {
                    return Some((i, j));
                }
            }
        }
    }
    None
}

pub fn add(a: V, bb: V) -> V {
    if let (V::C(w, x), V::C(_, y)) = (a, bb) {
        return c(w, x.wrapping_add(y));
    }
    let w = a.w();
    if w == 1 {
        return xor(a, bb);
    }
    if a.k() == Some(0) {
        return bb;
    }
    if bb.k() == Some(0) {
        return a;
    }
    if let Some(r) = push_ite(a, bb, add) {
        return r;
    }
    if let Some(r) = disjoint_merge(a, bb) {
        return r;
    }
    lin_combine(w, a, bb, 1)
}

pub fn sub(a: V, bb: V) -> V {
    if let (V::C(w, x), V::C(_, y)) = (a, bb) {
        return c(w, x.wrapping_sub(y));
    }
    let w = a.w();
    if w == 1 {
        return xor(a, bb);
    }
    if bb.k() == Some(0) {
        return a;
    }
    if let Some(r) = push_ite(a, bb, sub) {
        return r;
    }
    lin_combine(w, a, bb, mask(w))
}

pub fn mul(a: V, bb: V) -> V {
    if let (V::C(w, x), V::C(_, y)) = (a, bb) {
        return c(w, x.wrapping_mul(y));
    }
    let w = a.w();
    if w == 1 {
        return and(a, bb);
    }
    let (a, bb) = if a.is_k() { (bb, a) } else { (a, bb) };
    if let Some(k) = bb.k() {
        if k == 0 {
            return bb;
        }
        if k == 1 {
            return a;
        }
        if let Some(r) = push_ite(a, bb, mul) {
            return r;
        }
        return lin_combine(w, c(w, 0), a, k);
    }
    let (a, bb) = if a <= bb { (a, bb) } else { (bb, a) };
    mk(Op::Mul, w, 0, vec![a, bb])
}

/// `f(ite(c, k1, k2), k)` with constant arms folds into the arms.
fn push_ite(a: V, bb: V, f: fn(V, V) -> V) -> Option<V> {
    if bb.is_k() {
        if let V::S(i) = a {
            let n = key(i);
            if n.op == Op::Ite && n.kids[1].is_k() && n.kids[2].is_k() {
                let (x, y, z) = (n.kids[0], n.kids[1], n.kids[2]);
                return Some(ite(x, f(y, bb), f(z, bb)));
            }
        }
    } else if a.is_k() {
        if let V::S(i) = bb {
            let n = key(i);
            if n.op == Op::Ite && n.kids[1].is_k() && n.kids[2].is_k() {
                let (x, y, z) = (n.kids[0], n.kids[1], n.kids[2]);
                return Some(ite(x, f(a, y), f(a, z)));
            }
        }
    }
    None
}

pub fn udiv(a: V, bb: V) -> V {
    let w = a.w();
    if let Some(y) = bb.k() {
        if y == 0 {
            return c(w, !0);
        }
        if let Some(x) = a.k() {
            return c(w, x / y);
        }
        if y.is_power_of_two() {
            return lshr(a, c(w, y.trailing_zeros() as u128));
        }
    }
    mk(Op::UDiv, w, 0, vec![a, bb])
}

pub fn urem(a: V, bb: V) -> V {
    let w = a.w();
    if let Some(y) = bb.k() {
        if y == 0 {
            return a;
        }
        if let Some(x) = a.k() {
            return c(w, x % y);
        }
        if y.is_power_of_two() {
            return and(a, c(w, y - 1));
        }
    }
    mk(Op::URem, w, 0, vec![a, bb])
}

pub fn sdiv(a: V, bb: V) -> V {
    let w = a.w();
    if let (Some(x), Some(y)) = (a.k(), bb.k()) {
        if y != 0 {
            return c(w, sx(w, x).wrapping_div(sx(w, y)) as u128);
        }
    }
    mk(Op::SDiv, w, 0, vec![a, bb])
}

pub fn srem(a: V, bb: V) -> V {
    let w = a.w();
    if let (Some(x), Some(y)) = (a.k(), bb.k()) {
        if y != 0 {
            return c(w, sx(w, x).wrapping_rem(sx(w, y)) as u128);
        }
    }
    mk(Op::SRem, w, 0, vec![a, bb])
}

// ------------------------------------------------------------------- bitwise

fn pieces(v: V) -> Vec<V> {
    // high to low
    match v {
        V::S(i) if key(i).op == Op::Concat => kids(i),
        _ => vec![v],
    }
}

fn cuts_of(v: V, runs: bool) -> Option<Vec<u16>> {
    // cut positions counted from the low end, excluding 0 and w
    let w = v.w();
    match v {
        V::C(_, k) => {
            if !runs {
                return Some(vec![]);
            }
            let mut out = vec![];
            let mut prev = k & 1;
            for i in 1..w {
                let bit = (k >> i) & 1;
                if bit != prev {
                    out.push(i);
                    prev = bit;
                    if out.len() > 4 {
                        return None;
                    }
                }
            }
            Some(out)
        }
        V::S(i) if key(i).op == Op::Concat => {
            let mut out = vec![];
            let mut pos = w;
            for k in key(i).kids.iter() {
                pos -= k.w();
                if pos != 0 {
                    out.push(pos);
                }
            }
            out.reverse();
            Some(out)
        }
        _ => Some(vec![]),
    }
}

fn segments(w: u16, mut cuts: Vec<u16>) -> Vec<(u16, u16)> {
    // (hi, lo) inclusive from high to low
    cuts.sort();
    cuts.dedup();
    let mut out = vec![];
    let mut lo = 0;
    for x in cuts {
        out.push((x - 1, lo));
        lo = x;
    }
    out.push((w - 1, lo));
    out.reverse();
    out
}

fn disjoint_merge(a: V, bb: V) -> Option<V> {
    // a op b where in each segment at most one side is non-zero
    if op_of(a) != Some(Op::Concat) && op_of(bb) != Some(Op::Concat) {
        return None;
    }
    let w = a.w();
    let mut cuts = cuts_of(a, true)?;
    cuts.extend(cuts_of(bb, true)?);
    let segs = segments(w, cuts);
    if segs.len() > 40 {
        return None;
    }
    let mut out = vec![];
    for (hi, lo) in segs {
        let x = extract(a, hi, lo);
        let y = extract(bb, hi, lo);
        if x.k() == Some(0) {
            out.push(y);
        } else if y.k() == Some(0) {
            out.push(x);
        } else {
            return None;
        }
    }
    Some(concat(&out))
}

fn bit_fold(op: Op, x: u128, y: u128) -> u128 {
    match op {
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        _ => unreachable!(),
    }
}

fn bitop(op: Op, a: V, bb: V) -> V {
    let w = a.w();
    if let (Some(x), Some(y)) = (a.k(), bb.k()) {
        return c(w, bit_fold(op, x, y));
    }
    if a == bb {
        return if op == Op::Xor { c(w, 0) } else { a };
    }
    let (a, bb) = if a.is_k() { (bb, a) } else { (a, bb) };
    if let Some(k) = bb.k() {
        match op {
            Op::And => {
                if k == 0 {
                    return bb;
                }
                if k == mask(w) {
                    return a;
                }
            }
            Op::Or => {
                if k == 0 {
                    return a;
                }
                if k == mask(w) {
                    return bb;
                }
            }
            _ => {
                if k == 0 {
                    return a;
                }
            }
        }
        let f: fn(V, V) -> V = match op {
            Op::And => and,
            Op::Or => or,
            _ => xor,
        };
        if let Some(r) = push_ite(a, bb, f) {
            return r;
        }
        if w > 1 {
            let isc = op_of(a) == Some(Op::Concat);
            let mut cuts = None;
            if op != Op::Xor || isc {
                match (cuts_of(a, false), cuts_of(bb, true)) {
                    (Some(mut x), Some(y)) => {
                        x.extend(y);
                        cuts = Some(x);
                    }
                    (Some(x), None) if isc => cuts = Some(x),
                    _ => {}
                }
            }
            if let Some(cuts) = cuts {
                if !cuts.is_empty() && (isc || op == Op::And || op == Op::Or) {
                    let segs = segments(w, cuts);
                    if segs.len() <= 40 {
                        let out: Vec<V> = segs
                            .into_iter()
                            .map(|(hi, lo)| bitop(op, extract(a, hi, lo), extract(bb, hi, lo)))
                            .collect();
                        return concat(&out);
                    }
                }
            }
        }
    } else if w > 1 && op != Op::And {
        if let Some(r) = disjoint_merge(a, bb) {
            return r;
        }
    } else if w > 1 && op == Op::And && (op_of(a) == Some(Op::Concat) || op_of(bb) == Some(Op::Concat)) {
        // zero pieces annihilate
        let has0 = |v: V| pieces(v).iter().any(|p| p.is_k());
        if has0(a) || has0(bb) {
            let mut cuts = cuts_of(a, false).unwrap();
            cuts.extend(cuts_of(bb, false).unwrap());
            let segs = segments(w, cuts);
            if segs.len() > 1 && segs.len() <= 40 {
                let out: Vec<V> = segs
                    .into_iter()
                    .map(|(hi, lo)| bitop(op, extract(a, hi, lo), extract(bb, hi, lo)))
                    .collect();
                return concat(&out);
            }
        }
    }
    // n-ary flattening
    let ident = if op == Op::And { mask(w) } else { 0 };
    let mut k = ident;
    let mut terms: Vec<V> = vec![];
    for v in [a, bb] {
        match v {
            V::C(_, x) => k = bit_fold(op, k, x),
            V::S(i) if key(i).op == op => {
                for y in key(i).kids.iter() {
                    match *y {
                        V::C(_, x) => k = bit_fold(op, k, x),
                        s => terms.push(s),
                    }
                }
            }
            s => terms.push(s),
        }
    }
    terms.sort();
    if op == Op::Xor {
        let mut out: Vec<V> = vec![];
        for t in terms {
            if out.last() == Some(&t) {
                out.pop();
            } else {
                out.push(t);
            }
        }
        terms = out;
    } else {
        terms.dedup();
        // x op ~x (only for width 1, where negation is common)
        if w == 1 {
            for t in &terms {
                if terms.binary_search(&not(*t)).is_ok() {
                    return c(w, if op == Op::And { 0 } else { 1 });
                }
            }
        }
    }
    if op == Op::And && k == 0 {
        return c(w, 0);
    }
    if op == Op::Or && k == mask(w) {
        return c(w, k);
    }
    if terms.is_empty() {
        return c(w, k);
    }
    if terms.len() == 1 && k == ident {
        return terms[0];
    }
    let mut kk = Vec::with_capacity(terms.len() + 1);
    if k != ident {
        kk.push(c(w, k));
    }
    kk.extend(terms);
    mk_bitop(op, w, kk)
}

/// A bitwise function as an exclusive sum of products, each of which applies to
/// some of the bits. This is unique, up to the operands it is made of.
type Poly = Rc<[(Box<[Id]>, u128)]>;

const POLY_TERMS: usize = 12;

fn poly_norm(mut t: Vec<(Box<[Id]>, u128)>) -> Option<Poly> {
    t.sort();
    let mut out: Vec<(Box<[Id]>, u128)> = vec![];
    for (m, k) in t {
        match out.last_mut() {
            Some((n, l)) if *n == m => *l ^= k,
            _ => out.push((m, k)),
        }
    }
    out.retain(|x| x.1 != 0);
    (out.len() <= POLY_TERMS).then(|| Rc::from(out))
}

fn poly_xor(a: &Poly, bb: &Poly) -> Option<Poly> {
    poly_norm(a.iter().chain(bb.iter()).cloned().collect())
}

fn poly_and(a: &Poly, bb: &Poly) -> Option<Poly> {
    let mut out = vec![];
    for (m, k) in a.iter() {
        for (n, l) in bb.iter() {
            if k & l != 0 {
                let mut p: Vec<Id> = m.iter().chain(n.iter()).copied().collect();
                p.sort();
                p.dedup();
                out.push((p.into_boxed_slice(), k & l));
            }
        }
    }
    poly_norm(out)
}

fn poly_fold(op: Op, w: u16, kids: &[V]) -> Option<Poly> {
    let mut acc = poly(kids[0])?;
    debug_assert!(kids[0].w() == w);
    for k in &kids[1..] {
        let p = poly(*k)?;
        acc = match op {
            Op::And => poly_and(&acc, &p)?,
            Op::Xor => poly_xor(&acc, &p)?,
            _ => poly_xor(&poly_xor(&acc, &p)?, &poly_and(&acc, &p)?)?,
        };
    }
    Some(acc)
}

/// Pieces that stay in their place are parts of the whole.
fn poly_concat(w: u16, kids: &[V]) -> Option<Poly> {
    let mut out = vec![];
    let mut hi = w;
    for k in kids {
        let lo = hi - k.w();
        for (m, bits) in poly(*k)?.iter() {
            let mut up = vec![];
            for a in m.iter() {
                let x = key(*a);
                match x.kids.first() {
                    Some(V::S(y)) if x.op == Op::Extract && x.lo == lo as u32 && key(*y).w == w => up.push(*y),
                    _ => return None,
                }
            }
            up.sort();
            up.dedup();
            out.push((up.into_boxed_slice(), bits << lo));
        }
        hi = lo;
    }
    poly_norm(out)
}

fn poly(v: V) -> Option<Poly> {
    let id = match v {
        V::C(_, k) => return poly_norm(vec![(Box::from([]), k)]),
        V::S(id) => id,
    };
    if let Some(p) = ar().polys.get(&id) {
        return p.clone();
    }
    let k = key(id);
    let own = || Some(Rc::from(vec![(Box::from([id]), mask(k.w))]));
    let p = match k.op {
        Op::And | Op::Or | Op::Xor => poly_fold(k.op, k.w, &k.kids).or_else(own),
        Op::Concat => poly_concat(k.w, &k.kids).or_else(own),
        _ => own(),
    };
    ar().polys.insert(id, p.clone());
    p
}

/// A bitwise operation, unless the same function was built in another way.
fn mk_bitop(op: Op, w: u16, kids: Vec<V>) -> V {
    if w < 8 || kids.len() > 8 || kids.iter().any(|v| v.undef()) {
        return mk(op, w, 0, kids);
    }
    let key = Key { op, w, lo: 0, kids: kids.into_boxed_slice() };
    if let Some(&i) = ar().map.get(&key) {
        return V::S(i);
    }
    if let Some(&v) = ar().alias.get(&key) {
        return v;
    }
    let Some(p) = poly_fold(op, w, &key.kids) else {
        return mk(op, w, 0, key.kids.into_vec());
    };
    let known = match &p[..] {
        [] => Some(c(w, 0)),
        [(m, k)] if m.is_empty() => Some(c(w, *k)),
        [(m, k)] if m.len() == 1 && *k == mask(w) => Some(V::S(m[0])),
        _ => ar().by_poly.get(&(w, p.clone())).copied(),
    };
    if let Some(v) = known {
        ar().alias.insert(key, v);
        return v;
    }
    let v = mk(op, w, 0, key.kids.into_vec());
    ar().by_poly.insert((w, p), v);
    v
}

pub fn and(a: V, bb: V) -> V {
    bitop(Op::And, a, bb)
}
pub fn or(a: V, bb: V) -> V {
    bitop(Op::Or, a, bb)
}
pub fn xor(a: V, bb: V) -> V {
    bitop(Op::Xor, a, bb)
}
pub fn not(a: V) -> V {
    let w = a.w();
    xor(a, c(w, mask(w)))
}

pub fn shl(a: V, bb: V) -> V {
    let w = a.w();
    if let Some(n) = bb.k() {
        if n >= w as u128 {
            return c(w, 0);
        }
        let n = n as u16;
        if n == 0 {
            return a;
        }
        if let Some(x) = a.k() {
            return c(w, x << n);
        }
        return concat(&[extract(a, w - 1 - n, 0), c(n, 0)]);
    }
    mk(Op::Shl, w, 0, vec![a, bb])
}

pub fn lshr(a: V, bb: V) -> V {
    let w = a.w();
    if let Some(n) = bb.k() {
        if n >= w as u128 {
            return c(w, 0);
        }
        let n = n as u16;
        if n == 0 {
            return a;
        }
        if let Some(x) = a.k() {
            return c(w, x >> n);
        }
        return concat(&[c(n, 0), extract(a, w - 1, n)]);
    }
    mk(Op::LShr, w, 0, vec![a, bb])
}

pub fn ashr(a: V, bb: V) -> V {
    let w = a.w();
    if let Some(n) = bb.k() {
        let n = if n >= w as u128 { w - 1 } else { n as u16 };
        if n == 0 {
            return a;
        }
        if let Some(x) = a.k() {
            return c(w, (sx(w, x) >> n) as u128);
        }
        return sext(extract(a, w - 1, n), w);
    }
    mk(Op::AShr, w, 0, vec![a, bb])
}

// ------------------------------------------------------------ concat, extract

pub fn concat(parts: &[V]) -> V {
    let mut out: Vec<V> = Vec::with_capacity(parts.len());
    fn push(out: &mut Vec<V>, v: V) {
        if let Some(&l) = out.last() {
            match (l, v) {
                (V::C(w1, k1), V::C(w2, k2)) => {
                    if w1 + w2 <= 128 {
                        out.pop();
                        out.push(V::C(w1 + w2, (if w2 >= 128 { 0 } else { k1 << w2 }) | k2));
                        return;
                    }
                }
                (V::S(i), V::S(j)) => {
                    let (a, bb) = (key(i), key(j));
                    if a.op == Op::Extract && bb.op == Op::Extract && a.kids[0] == bb.kids[0] && a.lo == bb.lo + bb.w as u32 {
                        let base = a.kids[0];
                        let hi = a.lo as u16 + a.w - 1;
                        let lo = bb.lo as u16;
                        out.pop();
                        out.push(part(base, hi, lo));
                        return;
                    }
                }
                _ => {}
            }
        }
        out.push(v);
    }
    for &p in parts {
        match p {
            V::S(i) if key(i).op == Op::Concat => {
                for k in kids(i) {
                    push(&mut out, k);
                }
            }
            _ => push(&mut out, p),
        }
    }
    if out.len() == 1 {
        return out[0];
    }
    let w: u16 = out.iter().map(|v| v.w()).sum();
    if (w == 32 || w == 64) && out.len() == 2 {
        // shifts distribute over exclusive-or
        for (x, z) in [(0, 1), (1, 0)] {
            if out[z].k() == Some(0) && out[x].w() >= 20 && op_of(out[x]) == Some(Op::Xor) {
                let V::S(i) = out[x] else { continue };
                if key(i).kids[0].is_k() {
                    continue;
                }
                let mut r = c(w, 0);
                for k in kids(i) {
                    let mut p = [out[z]; 2];
                    p[x] = k;
                    r = xor(r, concat(&p));
                }
                return r;
            }
        }
    }
    mk(Op::Concat, w, 0, out)
}

/// Like `extract`, but keeps the connection to the whole value, so that the
/// parts join again. Undone by `tidy`.
pub fn part(v: V, hi: u16, lo: u16) -> V {
    let w = v.w();
    if hi - lo + 1 == w {
        return v;
    }
    let V::S(i) = v else { return extract(v, hi, lo) };
    let nd = key(i);
    match nd.op {
        Op::Concat => {
            let mut pos = w;
            let mut out = vec![];
            for k in kids(i) {
                let kw = k.w();
                let klo = pos - kw;
                let khi = pos - 1;
                if khi >= lo && klo <= hi {
                    out.push(part(k, hi.min(khi) - klo, lo.max(klo) - klo));
                }
                pos = klo;
            }
            concat(&out)
        }
        Op::Extract => part(nd.kids[0], hi + nd.lo as u16, lo + nd.lo as u16),
        Op::Xor | Op::And | Op::Or | Op::Add | Op::Ite => {
            let r = extract(v, hi, lo);
            if r.is_k() {
                r
            } else {
                mk(Op::Extract, hi - lo + 1, lo as u32, vec![v])
            }
        }
        _ => extract(v, hi, lo),
    }
}

pub fn tidy(v: V) -> V {
    match op_of(v) {
        Some(Op::Extract) => {
            let V::S(i) = v else { unreachable!() };
            let k = key(i);
            extract(k.kids[0], k.lo as u16 + k.w - 1, k.lo as u16)
        }
        Some(Op::Concat) => {
            let p: Vec<V> = pieces(v).into_iter().map(tidy).collect();
            concat(&p)
        }
        _ => v,
    }
}

/// A concatenation with a constant piece, as shifts leave it.
fn shifted(v: V) -> bool {
    match v {
        V::S(i) => {
            let n = key(i);
            n.op == Op::Concat && n.kids.iter().any(|k| k.is_k())
        }
        _ => false,
    }
}

pub fn extract(v: V, hi: u16, lo: u16) -> V {
    let w = v.w();
    debug_assert!(hi < w && lo <= hi);
    let n = hi - lo + 1;
    if n == w {
        return v;
    }
    match v {
        V::C(_, k) => c(n, k >> lo),
        V::S(i) => {
            let nd = key(i);
            match nd.op {
                Op::Extract => extract(nd.kids[0], hi + nd.lo as u16, lo + nd.lo as u16),
                Op::Concat => {
                    let ks = kids(i);
                    let mut pos = w;
                    let mut out = vec![];
                    for k in ks {
                        let kw = k.w();
                        let klo = pos - kw;
                        let khi = pos - 1;
                        if khi >= lo && klo <= hi {
                            out.push(extract(k, hi.min(khi) - klo, lo.max(klo) - klo));
                        }
                        pos = klo;
                    }
                    concat(&out)
                }
                Op::SExt => {
                    let x = nd.kids[0];
                    let xw = x.w();
                    if hi < xw {
                        extract(x, hi, lo)
                    } else if lo >= xw {
                        sext(extract(x, xw - 1, xw - 1), n)
                    } else {
                        sext(extract(x, xw - 1, lo), n)
                    }
                }
                Op::Ite if nd.kids[1].is_k() || nd.kids[2].is_k() => {
                    let (x, y, z) = (nd.kids[0], nd.kids[1], nd.kids[2]);
                    ite(x, extract(y, hi, lo), extract(z, hi, lo))
                }
                Op::And | Op::Or | Op::Xor if nd.kids[0].is_k() || (nd.kids.len() <= 6 && nd.kids.iter().any(|k| shifted(*k))) => {
                    let op = nd.op;
                    let ks = kids(i);
                    let mut r = extract(ks[0], hi, lo);
                    for k in &ks[1..] {
                        r = bitop(op, r, extract(*k, hi, lo));
                    }
                    r
                }
                Op::Add if lo == 0 && nd.kids.len() <= 5 => {
                    // low bits of a sum are the sum of the low bits, used for
                    // counters that were widened before an addition
                    let ks = kids(i);
                    let mut ok = true;
                    let mut j = 1;
                    while j < ks.len() {
                        if !matches!(op_of(ks[j]), Some(Op::Concat) | Some(Op::SExt)) {
                            ok = false;
                        }
                        j += 2;
                    }
                    if !ok {
                        return mk(Op::Extract, n, lo as u32, vec![v]);
                    }
                    let mut r = extract(ks[0], hi, 0);
                    let mut j = 1;
                    while j < ks.len() {
                        r = add(r, mul(extract(ks[j], hi, 0), extract(ks[j + 1], hi, 0)));
                        j += 2;
                    }
                    r
                }
                _ => mk(Op::Extract, n, lo as u32, vec![v]),
            }
        }
    }
}

pub fn zext(v: V, w: u16) -> V {
    let vw = v.w();
    if vw == w {
        return v;
    }
    match v {
        V::C(_, k) => V::C(w, k),
        _ => {
            if let V::S(i) = v {
                let nd = key(i);
                if nd.op == Op::Ite && nd.kids[1].is_k() && nd.kids[2].is_k() {
                    let (x, y, z) = (nd.kids[0], nd.kids[1], nd.kids[2]);
                    return ite(x, zext(y, w), zext(z, w));
                }
            }
            let gap = w - vw;
            if gap <= 128 {
                concat(&[V::C(gap, 0), v])
            } else {
                concat(&[V::C(gap - 128, 0), V::C(128, 0), v])
            }
        }
    }
}

pub fn sext(v: V, w: u16) -> V {
    let vw = v.w();
    if vw == w {
        return v;
    }
    match v {
        V::C(_, k) => c(w, sx(vw, k) as u128),
        V::S(i) => {
            let nd = key(i);
            match nd.op {
                Op::Concat if nd.kids[0].is_k() => {
                    let k = nd.kids[0];
                    let top = (k.k().unwrap() >> (k.w() - 1)) & 1;
                    if top == 0 {
                        return zext(v, w);
                    }
                }
                Op::SExt => return mk(Op::SExt, w, 0, vec![nd.kids[0]]),
                Op::Ite if nd.kids[1].is_k() && nd.kids[2].is_k() => {
                    let (x, y, z) = (nd.kids[0], nd.kids[1], nd.kids[2]);
                    return ite(x, sext(y, w), sext(z, w));
                }
                _ => {}
            }
            if vw == 1 {
                return ite(v, c(w, mask(w)), c(w, 0));
            }
            mk(Op::SExt, w, 0, vec![v])
        }
    }
}

pub fn trunc(v: V, w: u16) -> V {
    if v.w() == w {
        v
    } else {
        extract(v, w - 1, 0)
    }
}

// ---------------------------------------------------------- ite, comparisons

pub fn ite(x: V, a: V, bb: V) -> V {
    if let Some(k) = x.k() {
        return if k != 0 { a } else { bb };
    }
    if a == bb {
        return a;
    }
    let w = a.w();
    // negated condition
    if let V::S(i) = x {
        let nd = key(i);
        if nd.op == Op::Xor && nd.kids[0] == T {
            return ite(not(x), bb, a);
        }
    }
    if w == 1 {
        match (a.k(), bb.k()) {
            (Some(1), Some(0)) => return x,
            (Some(0), Some(1)) => return not(x),
            (Some(1), None) => return or(x, bb),
            (Some(0), None) => return and(not(x), bb),
            (None, Some(1)) => return or(not(x), a),
            (None, Some(0)) => return and(x, a),
            _ => {}
        }
    }
    // nested with same condition
    let a2 = match a {
        V::S(i) if key(i).op == Op::Ite && key(i).kids[0] == x => key(i).kids[1],
        _ => a,
    };
    let b2 = match bb {
        V::S(i) if key(i).op == Op::Ite && key(i).kids[0] == x => key(i).kids[2],
        _ => bb,
    };
    if a2 == b2 {
        return a2;
    }
    // common constant prefix of zero-extended arms
    if let (Some(za), Some(zb)) = (lead0(a2), lead0(b2)) {
        let z = za.min(zb);
        if z > 0 && z < w && !(a2.is_k() && b2.is_k()) {
            return concat(&[c(z, 0), ite(x, extract(a2, w - z - 1, 0), extract(b2, w - z - 1, 0))]);
        }
    }
    mk(Op::Ite, w, 0, vec![x, a2, b2])
}

/// Number of leading bits known to be zero.
fn lead0(v: V) -> Option<u16> {
    match v {
        V::C(w, k) => Some(w.saturating_sub(128 - k.leading_zeros() as u16)),
        V::S(i) => {
            let nd = key(i);
            if nd.op == Op::Concat {
                if let V::C(w, k) = nd.kids[0] {
                    return Some(w.saturating_sub(128 - k.leading_zeros() as u16));
                }
            }
            Some(0)
        }
    }
}

fn const_leaves(v: V, depth: u32) -> bool {
    match v {
        V::C(..) => true,
        V::S(i) => {
            let nd = key(i);
            depth > 0 && nd.op == Op::Ite && const_leaves(nd.kids[1], depth - 1) && const_leaves(nd.kids[2], depth - 1)
        }
    }
}

fn map_leaves(v: V, f: &dyn Fn(V) -> V) -> V {
    match v {
        V::C(..) => f(v),
        V::S(i) => {
            let nd = key(i);
            if nd.op == Op::Ite {
                let (x, y, z) = (nd.kids[0], nd.kids[1], nd.kids[2]);
                ite(x, map_leaves(y, f), map_leaves(z, f))
            } else {
                f(v)
            }
        }
    }
}

pub fn eq(a: V, bb: V) -> V {
    if a == bb {
        return T;
    }
    if let (Some(x), Some(y)) = (a.k(), bb.k()) {
        return b(x == y);
    }
    let (a, bb) = if a.is_k() { (bb, a) } else { (a, bb) };
    let w = a.w();
    if let Some(k) = bb.k() {
        if w == 1 {
            return if k == 1 { a } else { not(a) };
        }
        let V::S(i) = a else { unreachable!() };
        let nd = key(i);
        match nd.op {
            Op::Concat => {
                let ks = kids(i);
                let mut pos = w;
                let mut r = T;
                for x in ks {
                    pos -= x.w();
                    let part = c(x.w(), k >> pos.min(127));
                    r = and(r, eq(x, part));
                    if r == F {
                        return F;
                    }
                }
                return r;
            }
            Op::Add => {
                let (kk, t) = lin(a);
                if t.len() == 1 && t[0].1 & 1 == 1 {
                    // odd coefficient: invertible
                    let mut inv: u128 = 1;
                    for _ in 0..8 {
                        inv = inv.wrapping_mul(2u128.wrapping_sub(t[0].1.wrapping_mul(inv)));
                    }
                    return eq(V::S(t[0].0), c(w, k.wrapping_sub(kk).wrapping_mul(inv)));
                }
                if kk != 0 {
                    return eq(unlin(w, 0, t), c(w, k.wrapping_sub(kk)));
                }
            }
            Op::Xor => {
                if let Some(kk) = nd.kids[0].k() {
                    let rest = nd.kids[1..].to_vec();
                    let mut r = rest[0];
                    for x in &rest[1..] {
                        r = xor(r, *x);
                    }
                    return eq(r, c(w, k ^ kk));
                }
            }
            Op::Or if k == 0 => {
                let mut r = T;
                for x in kids(i) {
                    r = and(r, eq(x, c(w, 0)));
                }
                return r;
            }
            Op::SExt => {
                let x = nd.kids[0];
                let lowk = c(x.w(), k);
                if sext(lowk, w).k() == Some(k) {
                    return eq(x, lowk);
                }
                return F;
            }
            Op::Ite => {
                if const_leaves(a, 300) {
                    return map_leaves(a, &|l| eq(l, bb));
                }
                let (x, y, z) = (nd.kids[0], nd.kids[1], nd.kids[2]);
                if y.is_k() || z.is_k() {
                    return ite(x, eq(y, bb), eq(z, bb));
                }
            }
            _ => {}
        }
        return mk(Op::Eq, 1, 0, vec![bb, a]);
    }
    if op_of(a) == Some(Op::Concat) || op_of(bb) == Some(Op::Concat) {
        let mut cuts = cuts_of(a, false).unwrap();
        cuts.extend(cuts_of(bb, false).unwrap());
        let segs = segments(w, cuts);
        let mut r = T;
        for (hi, lo) in segs {
            r = and(r, eq(extract(a, hi, lo), extract(bb, hi, lo)));
            if r == F {
                return F;
            }
        }
        return r;
    }
    if w == 1 {
        return not(xor(a, bb));
    }
    if op_of(a) == Some(Op::Add) || op_of(bb) == Some(Op::Add) {
        let d = sub(a, bb);
        if let Some(k) = d.k() {
            return b(k == 0);
        }
        let (k, t) = lin(d);
        if t.len() == 1 {
            return eq(d, c(w, 0));
        }
        let _ = k;
    }
    let (a, bb) = if a <= bb { (a, bb) } else { (bb, a) };
    mk(Op::Eq, 1, 0, vec![a, bb])
}

pub fn ult(a: V, bb: V) -> V {
    if a == bb {
        return F;
    }
    let w = a.w();
    if let (Some(x), Some(y)) = (a.k(), bb.k()) {
        return b(x < y);
    }
    if bb.k() == Some(0) || a.k() == Some(mask(w)) {
        return F;
    }
    if w == 1 {
        return and(not(a), bb);
    }
    if bb.k() == Some(1) {
        return eq(a, c(w, 0));
    }
    if a.k() == Some(0) {
        return not(eq(bb, c(w, 0)));
    }
    if bb.k() == Some(mask(w)) {
        return not(eq(a, bb));
    }
    if let Some(k) = a.k() {
        return not(ult(bb, c(w, k + 1)));
    }
    let za = lead0(a).unwrap();
    let zb = lead0(bb).unwrap();
    let z = za.min(zb);
    if z > 0 && z < w {
        return ult(extract(a, w - z - 1, 0), extract(bb, w - z - 1, 0));
    }
    if let Some(k) = bb.k() {
        // a's width of possibly non-zero bits
        if za > 0 && k > mask(w - za) {
            return T;
        }
        if const_leaves(a, 300) {
            return map_leaves(a, &|l| ult(l, bb));
        }
    }
    mk(Op::Ult, 1, 0, vec![a, bb])
}

pub fn slt(a: V, bb: V) -> V {
    if a == bb {
        return F;
    }
    let w = a.w();
    if let (Some(x), Some(y)) = (a.k(), bb.k()) {
        return b(sx(w, x) < sx(w, y));
    }
    if bb.k() == Some(0) {
        return extract(a, w - 1, w - 1);
    }
    if a.k() == Some(mask(w)) {
        return not(extract(bb, w - 1, w - 1));
    }
    let na = lead0(a).unwrap() > 0;
    let nb = lead0(bb).unwrap() > 0;
    if na && nb {
        return ult(a, bb);
    }
    if let Some(k) = bb.k() {
        if na && (k >> (w - 1)) & 1 == 1 {
            return F;
        }
        if const_leaves(a, 300) {
            return map_leaves(a, &|l| slt(l, bb));
        }
    }
    if let Some(k) = a.k() {
        if nb && (k >> (w - 1)) & 1 == 1 {
            return T;
        }
        if const_leaves(bb, 300) {
            return map_leaves(bb, &|l| slt(a, l));
        }
    }
    mk(Op::Slt, 1, 0, vec![a, bb])
}

// ---------------------------------------------------------------- evaluation

pub fn eval(v: V, model: &dyn Fn(u32) -> u128) -> u128 {
    eval_begin();
    eval_shared(v, model)
}

/// Forget values computed by `eval_shared`.
pub fn eval_begin() {
    ar().gen += 1;
}

/// Like `eval`, keeping values of sub-terms from earlier calls.
pub fn eval_shared(v: V, model: &dyn Fn(u32) -> u128) -> u128 {
    match v {
        V::C(_, k) => k,
        V::S(i) => {
            let a = ar();
            if a.memo.len() < a.nodes.len() {
                a.memo.resize(a.nodes.len() + 1024, 0);
                a.memo_gen.resize(a.nodes.len() + 1024, 0);
            }
            let g = a.gen;
            // explicit stack: terms can be deep
            let mut st: Vec<(Id, bool)> = vec![(i, false)];
            while let Some((n, done)) = st.pop() {
                if a.memo_gen[n as usize] == g {
                    continue;
                }
                let nd = &a.nodes[n as usize].key;
                if !done {
                    if nd.op == Op::Var {
                        a.memo[n as usize] = model(nd.lo) & mask(nd.w);
                        a.memo_gen[n as usize] = g;
                        continue;
                    }
                    if nd.op == Op::Ite {
                        // lazy in the arms
                        if let V::S(cn) = nd.kids[0] {
                            if a.memo_gen[cn as usize] != g {
                                st.push((n, false));
                                st.push((cn, false));
                                continue;
                            }
                            let arm = if a.memo[cn as usize] != 0 { nd.kids[1] } else { nd.kids[2] };
                            match arm {
                                V::C(_, k) => {
                                    a.memo[n as usize] = k;
                                    a.memo_gen[n as usize] = g;
                                }
                                V::S(m) => {
                                    if a.memo_gen[m as usize] == g {
                                        a.memo[n as usize] = a.memo[m as usize];
                                        a.memo_gen[n as usize] = g;
                                    } else {
                                        st.push((n, false));
                                        st.push((m, false));
                                    }
                                }
                            }
                            continue;
                        }
                    }
                    st.push((n, true));
                    for k in nd.kids.iter() {
                        if let V::S(m) = k {
                            if a.memo_gen[*m as usize] != g {
                                st.push((*m, false));
                            }
                        }
                    }
                    continue;
                }
                let get = |x: V| -> u128 {
                    match x {
                        V::C(_, k) => k,
                        V::S(m) => a.memo[m as usize],
                    }
                };
                let w = nd.w;
                let k = &nd.kids;
                let r = match nd.op {
                    Op::Var => unreachable!(),
                    Op::Add => {
                        let mut r = get(k[0]);
                        let mut j = 1;
                        while j < k.len() {
                            r = r.wrapping_add(get(k[j]).wrapping_mul(get(k[j + 1])));
                            j += 2;
                        }
                        r
                    }
                    Op::Mul => get(k[0]).wrapping_mul(get(k[1])),
                    Op::UDiv => {
                        let d = get(k[1]);
                        if d == 0 {
                            mask(w)
                        } else {
                            get(k[0]) / d
                        }
                    }
                    Op::URem => {
                        let d = get(k[1]);
                        if d == 0 {
                            get(k[0])
                        } else {
                            get(k[0]) % d
                        }
                    }
                    Op::SDiv => {
                        let (x, y) = (sx(w, get(k[0])), sx(w, get(k[1])));
                        if y == 0 {
                            if x < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        } else {
                            x.wrapping_div(y) as u128
                        }
                    }
                    Op::SRem => {
                        let (x, y) = (sx(w, get(k[0])), sx(w, get(k[1])));
                        if y == 0 {
                            x as u128
                        } else {
                            x.wrapping_rem(y) as u128
                        }
                    }
                    Op::And => k.iter().fold(mask(w), |r, x| r & get(*x)),
                    Op::Or => k.iter().fold(0, |r, x| r | get(*x)),
                    Op::Xor => k.iter().fold(0, |r, x| r ^ get(*x)),
                    Op::Shl => {
                        let s = get(k[1]);
                        if s >= w as u128 {
                            0
                        } else {
                            get(k[0]) << s
                        }
                    }
                    Op::LShr => {
                        let s = get(k[1]);
                        if s >= w as u128 {
                            0
                        } else {
                            get(k[0]) >> s
                        }
                    }
                    Op::AShr => {
                        let s = get(k[1]).min(w as u128 - 1);
                        (sx(w, get(k[0])) >> s) as u128
                    }
                    Op::Concat => {
                        let mut r: u128 = 0;
                        for x in k.iter() {
                            let xw = x.w();
                            r = if xw >= 128 { get(*x) } else { (r << xw) | get(*x) };
                        }
                        r
                    }
                    Op::Extract => get(k[0]) >> nd.lo,
                    Op::SExt => sx(k[0].w(), get(k[0])) as u128,
                    Op::Ite => {
                        if get(k[0]) != 0 {
                            get(k[1])
                        } else {
                            get(k[2])
                        }
                    }
                    Op::Eq => (get(k[0]) == get(k[1])) as u128,
                    Op::Ult => (get(k[0]) < get(k[1])) as u128,
                    Op::Slt => {
                        let kw = k[0].w();
                        (sx(kw, get(k[0])) < sx(kw, get(k[1]))) as u128
                    }
                };
                a.memo[n as usize] = r & mask(w);
                a.memo_gen[n as usize] = g;
            }
            a.memo[i as usize]
        }
    }
}

/// Truth table of a boolean term over a single variable of at most 8 bits.
pub fn table(v: V) -> Option<(u32, [u64; 4])> {
    let V::S(i) = v else { return None };
    let vars = ar().nodes[i as usize].vars.clone();
    if vars.len() != 1 || ar().vars[vars[0] as usize].w > 8 || ar().vars[vars[0] as usize].undef {
        return None;
    }
    if let Some(t) = ar().tables.get(&i) {
        return Some((vars[0], *t));
    }
    let n = 1u32 << ar().vars[vars[0] as usize].w;
    let mut t = [0u64; 4];
    for x in 0..n {
        if eval(v, &|_| x as u128) != 0 {
            t[(x / 64) as usize] |= 1 << (x % 64);
        }
    }
    ar().tables.insert(i, t);
    Some((vars[0], t))
}


#[allow(dead_code)]
pub fn show(v: V) -> String {
    fn go(v: V, d: u32) -> String {
        match v {
            V::C(w, k) => format!("{:#x}:{}", k, w),
            V::S(i) => {
                let n = key(i);
                if n.op == Op::Var {
                    return format!("v{}", n.lo);
                }
                if d == 0 {
                    return format!("#{}", i);
                }
                let ks: Vec<String> = n.kids.iter().map(|k| go(*k, d - 1)).collect();
                if n.op == Op::Extract {
                    format!("{}[{}..{}]", ks[0], n.lo as u16 + n.w - 1, n.lo)
                } else {
                    format!("({:?}:{} {})", n.op, n.w, ks.join(" "))
                }
            }
        }
    }
    go(v, std::env::var("SX_SHOW").ok().and_then(|x| x.parse().ok()).unwrap_or(6))
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn xorshift_inverse() {
        let (_, x) = new_var(64, false);
        let sh = |v: V, n: u128| lshr(v, c(64, n));
        for n in [33, 31, 27, 30] {
            let y = xor(x, sh(x, n));
            let mut z = xor(y, sh(y, n));
            if n < 32 {
                z = xor(z, sh(y, 2 * n));
            }
            assert_eq!(z, x, "{} {}", n, show(z));
        }
        let m = |v: V, k: u64| mul(v, c(64, k as u128));
        let y = m(m(x, 3), 0xaaaaaaaaaaaaaaab);
        assert_eq!(y, x);
    }
}
