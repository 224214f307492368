//! Equivalence sweeping: before a hard query, internal nodes of the terms that
//! agree on random inputs are proved equal one by one with local queries and
//! merged. Two differently written but equivalent computations collapse into
//! one this way, level by level.

use crate::expr::*;
use crate::z3::{Res, Z3};
use std::collections::HashMap;

const RUNS: usize = 24;

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let z = (self.0 ^ self.0 >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        let z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    pub fn wide(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
}

fn topo(roots: &[V]) -> Vec<Id> {
    let mut out = vec![];
    let mut seen: HashMap<Id, (), BuildFx> = HashMap::default();
    let mut st: Vec<(Id, bool)> = vec![];
    for r in roots {
        if let V::S(i) = r {
            st.push((*i, false));
        }
    }
    while let Some((n, done)) = st.pop() {
        if done {
            out.push(n);
            continue;
        }
        if seen.insert(n, ()).is_some() {
            continue;
        }
        st.push((n, true));
        for k in key(n).kids.iter() {
            if let V::S(m) = k {
                if !seen.contains_key(m) {
                    st.push((*m, false));
                }
            }
        }
    }
    out
}

/// The same operation on other operands.
fn rebuild(id: Id, f: &dyn Fn(V) -> V) -> V {
    let k = key(id);
    let a: Vec<V> = k.kids.iter().map(|x| f(*x)).collect();
    match k.op {
        Op::Var => V::S(id),
        Op::Add => {
            let mut r = a[0];
            let mut j = 1;
            while j < a.len() {
                r = add(r, mul(a[j], a[j + 1]));
                j += 2;
            }
            r
        }
        Op::Mul => mul(a[0], a[1]),
        Op::UDiv => udiv(a[0], a[1]),
        Op::SDiv => sdiv(a[0], a[1]),
        Op::URem => urem(a[0], a[1]),
        Op::SRem => srem(a[0], a[1]),
        Op::And => a[1..].iter().fold(a[0], |r, x| and(r, *x)),
        Op::Or => a[1..].iter().fold(a[0], |r, x| or(r, *x)),
        Op::Xor => a[1..].iter().fold(a[0], |r, x| xor(r, *x)),
        Op::Shl => shl(a[0], a[1]),
        Op::LShr => lshr(a[0], a[1]),
        Op::AShr => ashr(a[0], a[1]),
        Op::Concat => concat(&a),
        Op::Extract => extract(a[0], k.lo as u16 + k.w - 1, k.lo as u16),
        Op::SExt => sext(a[0], k.w),
        Op::Ite => ite(a[0], a[1], a[2]),
        Op::Eq => eq(a[0], a[1]),
        Op::Ult => ult(a[0], a[1]),
        Op::Slt => slt(a[0], a[1]),
    }
}

/// Nodes within `depth` of the roots; everything below becomes a free variable.
fn cut(roots: [V; 2], depth: u32, fresh: &mut HashMap<Id, V, BuildFx>) -> [V; 2] {
    let mut level: HashMap<Id, u32, BuildFx> = HashMap::default();
    let mut front: Vec<Id> = roots.iter().filter_map(|v| if let V::S(i) = v { Some(*i) } else { None }).collect();
    for i in &front {
        level.insert(*i, 0);
    }
    for d in 0..depth {
        let mut next = vec![];
        for n in front {
            for k in key(n).kids.iter() {
                if let V::S(m) = k {
                    if !level.contains_key(m) {
                        level.insert(*m, d + 1);
                        next.push(*m);
                    }
                }
            }
        }
        front = next;
    }
    let mut done: HashMap<Id, V, BuildFx> = HashMap::default();
    for r in roots {
        let V::S(i) = r else { continue };
        let mut st = vec![(i, false)];
        while let Some((n, ready)) = st.pop() {
            if done.contains_key(&n) {
                continue;
            }
            let inner = level.get(&n).map(|l| *l < depth).unwrap_or(false);
            if !inner || key(n).op == Op::Var {
                let v = if key(n).op == Op::Var { V::S(n) } else { *fresh.entry(n).or_insert_with(|| new_var(key(n).w, false).1) };
                done.insert(n, v);
                continue;
            }
            if ready {
                let v = rebuild(n, &|x| match x {
                    V::S(m) => done[&m],
                    k => k,
                });
                done.insert(n, v);
                continue;
            }
            st.push((n, true));
            for k in key(n).kids.iter() {
                if let V::S(m) = k {
                    st.push((*m, false));
                }
            }
        }
    }
    roots.map(|r| match r {
        V::S(i) => done[&i],
        k => k,
    })
}

fn proved(z: &mut Z3, a: V, b: V, fresh: &mut HashMap<Id, V, BuildFx>, budget: &mut f64) -> bool {
    let mut last = [a, a];
    for depth in [2, 4, 7, 12] {
        if *budget <= 0.0 {
            return false;
        }
        let [x, y] = cut([a, b], depth, fresh);
        if [x, y] == last {
            return false;
        }
        last = [x, y];
        match eq(x, y) {
            V::C(_, 1) => return true,
            V::C(..) => continue,
            e => {
                let t0 = std::time::Instant::now();
                let r = z.quick(&[not(e)]);
                *budget -= t0.elapsed().as_secs_f64();
                if let Res::Unsat = r {
                    return true;
                }
            }
        }
    }
    false
}

/// Number of nodes below the roots, counting up to `limit`.
pub fn larger_than(roots: &[V], limit: usize) -> bool {
    let mut seen: HashMap<Id, (), BuildFx> = HashMap::default();
    let mut st: Vec<Id> = roots.iter().filter_map(|v| if let V::S(i) = v { Some(*i) } else { None }).collect();
    while let Some(n) = st.pop() {
        if seen.insert(n, ()).is_some() {
            continue;
        }
        if seen.len() > limit {
            return true;
        }
        for k in key(n).kids.iter() {
            if let V::S(m) = k {
                st.push(*m);
            }
        }
    }
    false
}

/// `goal` with the choices inside of it that `path` already decides made.
pub fn decided(z: &mut Z3, path: &[V], goal: V, mut budget: f64) -> V {
    let mut known: HashMap<V, V> = HashMap::new();
    let mut rep: HashMap<Id, V, BuildFx> = HashMap::default();
    for n in topo(&[goal]) {
        let get = |x: V| match x {
            V::S(m) => rep[&m],
            k => k,
        };
        let k = key(n);
        let mut v = None;
        if k.op == Op::Ite && !path.is_empty() {
            let c = get(k.kids[0]);
            if let (V::S(_), false) = (c, known.contains_key(&c)) {
                let mut r = c;
                for (q, then) in [(not(c), T), (c, F)] {
                    if r == c && budget > 0.0 && known.len() < 64 {
                        let t0 = std::time::Instant::now();
                        let mut cs = path.to_vec();
                        cs.push(q);
                        if let Res::Unsat = z.quick(&cs) {
                            r = then;
                        }
                        budget -= t0.elapsed().as_secs_f64();
                    }
                }
                known.insert(c, r);
            }
            let c = known.get(&c).copied().unwrap_or(c);
            v = Some(ite(c, get(k.kids[1]), get(k.kids[2])));
        }
        let v = v.unwrap_or_else(|| rebuild(n, &get));
        rep.insert(n, v);
    }
    match goal {
        V::S(i) => rep[&i],
        k => k,
    }
}

/// What earlier sweeps found out about pairs of terms.
#[derive(Default)]
pub struct Known {
    pairs: HashMap<(V, V), bool>,
    fresh: HashMap<Id, V, BuildFx>,
}

/// Equivalent terms after merging what can be shown equal inside of them.
pub fn sweep(z: &mut Z3, known: &mut Known, roots: &[V], mut budget: f64) -> Vec<V> {
    let t0 = std::time::Instant::now();
    let (mut tried, mut merged) = (0, 0);
    let order = topo(roots);
    let size = order.len();
    let mut rng = Rng(1);
    let nvars = ar().vars.len();
    let mut sig: HashMap<Id, [u64; RUNS], BuildFx> = HashMap::default();
    let models: Vec<Vec<u128>> = (0..RUNS).map(|_| (0..nvars).map(|_| rng.wide()).collect()).collect();
    let sign = |sig: &mut HashMap<Id, [u64; RUNS], BuildFx>, vs: &[Id]| {
        for (r, m) in models.iter().enumerate() {
            eval_begin();
            for i in vs {
                let v = eval_shared(V::S(*i), &|x| m.get(x as usize).copied().unwrap_or(0));
                sig.entry(*i).or_insert([0; RUNS])[r] = (v ^ v >> 64) as u64;
            }
        }
    };
    sign(&mut sig, &order);
    let mut rep: HashMap<Id, V, BuildFx> = HashMap::default();
    let mut class: HashMap<(u16, [u64; RUNS]), Vec<V>> = HashMap::new();
    let mut test = |v: V, x: V| {
        if let Some(r) = known.pairs.get(&(v, x)) {
            return *r;
        }
        let r = proved(z, v, x, &mut known.fresh, &mut budget);
        tried += 1;
        merged += r as u32;
        known.pairs.insert((v, x), r);
        r
    };
    for n in order {
        let v = rebuild(n, &|x| match x {
            V::S(m) => rep[&m],
            k => k,
        });
        let V::S(id) = v else {
            rep.insert(n, v);
            continue;
        };
        if key(id).op == Op::Var {
            rep.insert(n, v);
            continue;
        }
        let s = sig[&n];
        let w = v.w();
        let cands = class.entry((w, s)).or_default();
        if cands.contains(&v) {
            rep.insert(n, v);
            continue;
        }
        let mut r = None;
        // a constant in disguise?
        if s.iter().all(|x| *x == s[0]) && w <= 64 {
            let k = c(w, s[0] as u128);
            if test(v, k) {
                r = Some(k);
            }
        }
        if r.is_none() {
            let list = cands.clone();
            r = list.iter().take(3).find(|x| test(v, **x)).copied();
        }
        let r = match r {
            Some(r) => r,
            None => {
                class.entry((w, s)).or_default().push(v);
                v
            }
        };
        rep.insert(n, r);
    }
    if std::env::var_os("SX_SHOW").is_some() {
        eprintln!("sweep: {} nodes, {} pairs tried, {} merged, {:.2} s", size, tried, merged, t0.elapsed().as_secs_f64());
    }
    roots
        .iter()
        .map(|v| match v {
            V::S(i) => rep[i],
            k => *k,
        })
        .collect()
}
