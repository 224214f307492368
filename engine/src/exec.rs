//! Path exploration.

use crate::expr::*;
use crate::ir::{self, *};
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Option<Val>>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    /// constraints over more than one variable, or over a wide one
    cons: Vec<Id>,
    /// value sets of 8-bit variables
    dom: HashMap<u32, [u64; 4], BuildFx>,
    /// narrow variables that also occur in `cons`
    tangled: BTreeSet<u32>,
    fixed: HashMap<Id, u128, BuildFx>,
    model: Vec<u128>,
    inputs: Vec<V>,
    expect_panic: bool,
    alloc_limit: u64,
    steps: u64,
    trace: Option<Rc<Trace>>,
}

impl State {
    /// Truth value of a condition this path was split on.
    fn known(&self, cond: V) -> Option<bool> {
        if self.cons.is_empty() {
            return None;
        }
        let has = |v: V| matches!(v, V::S(i) if self.cons.contains(&i));
        if has(cond) {
            Some(true)
        } else if has(not(cond)) {
            Some(false)
        } else {
            None
        }
    }
}

/// What a path has shown to the outside, most recent first.
pub struct Trace {
    ev: Ev,
    prev: Option<Rc<Trace>>,
}

#[derive(Clone, Copy)]
enum Ev {
    Check(u32, V),
    Cover(u32),
    Value(V),
    Panic,
}

pub struct Sample {
    pub values: Vec<u128>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub id: u32,
    pub msg: String,
    pub stack: Vec<String>,
    pub values: Vec<u128>,
    pub widths: Vec<u16>,
}

enum Stop {
    /// path finished normally
    Done,
    /// path ended by assumption
    Killed,
    /// property violated on this path
    Bad(String, u32, String),
    /// cannot continue: unsupported or resource bound
    Cut(String),
}

type R<T> = Result<T, Stop>;

#[derive(Clone)]
enum Target {
    Func(Rc<Func>),
    Builtin(Rc<str>),
    Panic(Rc<str>),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks_solver: u64,
    pub checks_folded: u64,
    pub expected_panics: u64,
    pub branch_dom: u64,
    pub branch_model: u64,
    pub cache_hits: u64,
    pub sweeps: u64,
    pub max_path_steps: u64,
}

pub struct Exec {
    pub m: Module,
    pub z: Z3,
    funcs: HashMap<Rc<str>, u32>,
    targets: Vec<Target>,
    pub executed: BTreeMap<Rc<str>, u64>,
    pub work: std::collections::VecDeque<State>,
    pub stats: Stats,
    pub covers: BTreeMap<u32, u64>,
    pub violations: Vec<Violation>,
    pub cuts: BTreeMap<String, u64>,
    pub params: Vec<u64>,
    pub concrete: Option<Vec<u64>>,
    pub max_steps: u64,
    merges: crate::sweep::Known,
    pub deadline: Option<Instant>,
    pub max_violations: usize,
    pub solver_only: bool,
    /// Split over symbolic addresses of words, and choices between constant
    /// words.
    pub split: bool,
    input_vars: HashMap<(usize, u16), V>,
    cache: HashMap<Vec<Id>, Res, BuildFx>,
    dom_expr: HashMap<(u32, [u64; 4]), V>,
    globals: BTreeMap<u64, usize>,
    gcache: HashMap<usize, Rc<Obj>>,
    sink: Vec<State>,
    pub shard: Option<(usize, usize)>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    timed_out: bool,
}

const PTR: u16 = 64;

fn full(w: u16) -> [u64; 4] {
    let n = 1u32 << w;
    let mut t = [0u64; 4];
    for x in 0..n {
        t[(x / 64) as usize] |= 1 << (x % 64);
    }
    t
}

fn tand(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn tempty(a: &[u64; 4]) -> bool {
    *a == [0; 4]
}
fn tfirst(a: &[u64; 4]) -> u128 {
    for i in 0..4 {
        if a[i] != 0 {
            return (i as u32 * 64 + a[i].trailing_zeros()) as u128;
        }
    }
    unreachable!()
}
fn thas(a: &[u64; 4], v: u128) -> bool {
    a[(v / 64) as usize] >> (v % 64) & 1 == 1
}

impl State {
    fn eval(&self, v: V) -> u128 {
        eval(v, &|x| self.model.get(x as usize).copied().unwrap_or(0))
    }
    fn set_model(&mut self, up: &[(u32, u128)]) {
        for (v, k) in up {
            let i = *v as usize;
            if self.model.len() <= i {
                self.model.resize(i + 1, 0);
            }
            self.model[i] = *k;
        }
    }
    fn note(&mut self, ev: Ev) {
        self.trace = Some(Rc::new(Trace { ev, prev: self.trace.take() }));
    }
    fn top(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
}

/// Try random values, and variations of `model`, on a query too hard for the
/// solver's first attempt. Only ever finds witnesses; it decides nothing.
fn try_random(cs: &[V], model: &[u128], secs: f64) -> Option<Vec<(u32, u128)>> {
    let t0 = std::time::Instant::now();
    let mut vars: Vec<u32> = cs.iter().flat_map(|c| c.vars().iter().copied().collect::<Vec<_>>()).collect();
    vars.sort();
    vars.dedup();
    let mut rng = crate::sweep::Rng(11);
    let mut m: Vec<u128> = vec![0; vars.last().map_or(0, |v| *v as usize + 1)];
    let mut n = 0u32;
    while t0.elapsed().as_secs_f64() < secs && n < 200_000 {
        n += 1;
        let near = n % 2 == 0;
        for v in &vars {
            let w = ar().vars[*v as usize].w;
            let old = model.get(*v as usize).copied().unwrap_or(0);
            let r = rng.wide();
            m[*v as usize] = mask(w)
                & if !near {
                    r
                } else {
                    match r & 7 {
                        0 => old ^ 1 << ((r >> 8) % w as u128),
                        1 => old ^ (r >> 8),
                        _ => old,
                    }
                };
        }
        let f = |i: u32| m.get(i as usize).copied().unwrap_or(0);
        eval_begin();
        if cs.iter().all(|c| eval_shared(*c, &f) != 0) {
            return Some(vars.iter().map(|v| (*v, m[*v as usize])).collect());
        }
    }
    None
}

impl Exec {
    pub fn new(m: Module, z: Z3) -> Exec {
        let mut globals = BTreeMap::new();
        for (i, g) in m.globals.iter().enumerate() {
            globals.insert(g.addr, i);
        }
        Exec {
            m,
            z,
            funcs: HashMap::new(),
            targets: vec![],
            executed: BTreeMap::new(),
            work: Default::default(),
            stats: Stats::default(),
            covers: BTreeMap::new(),
            violations: vec![],
            cuts: BTreeMap::new(),
            params: vec![],
            concrete: None,
            max_steps: 5_000_000,
            merges: Default::default(),
            deadline: None,
            max_violations: 1,
            solver_only: true,
            split: false,
            input_vars: HashMap::new(),
            cache: HashMap::with_hasher(BuildFx),
            dom_expr: HashMap::new(),
            globals,
            gcache: HashMap::new(),
            sink: vec![],
            shard: None,
            samples: vec![],
            max_samples: 0,
            timed_out: false,
        }
    }

    fn target(&mut self, name: &Rc<str>) -> u32 {
        if let Some(&i) = self.funcs.get(name) {
            return i;
        }
        let n: &str = name;
        let t = if n.contains("4core9panicking") || n == "sx_panic" || n.contains("rust_begin_unwind") {
            Target::Panic(name.clone())
        } else if n.starts_with("sx_") || n.starts_with("llvm.") || matches!(n, "memcpy" | "memmove" | "memset" | "memcmp" | "bcmp" | "strlen") {
            Target::Builtin(name.clone())
        } else if let Some(f) = self.m.parse_func(n) {
            Target::Func(Rc::new(f))
        } else {
            Target::Builtin(name.clone())
        };
        let i = self.targets.len() as u32;
        self.targets.push(t);
        self.funcs.insert(name.clone(), i);
        i
    }

    pub fn seen_locations(&self) -> BTreeSet<u32> {
        let mut out = BTreeSet::new();
        for t in &self.targets {
            if let Target::Func(f) = t {
                for b in &f.blocks {
                    if b.seen.get() {
                        out.extend(b.dbg.iter().copied());
                    }
                }
            }
        }
        out
    }

    // ------------------------------------------------------------ solver side

    fn dom_v(&mut self, var: u32, t: &[u64; 4]) -> V {
        if let Some(v) = self.dom_expr.get(&(var, *t)) {
            return *v;
        }
        let w = ar().vars[var as usize].w;
        let x = V::S(ar().vars[var as usize].node);
        let n = 1u32 << w;
        let mut r = F;
        let mut i = 0;
        while i < n {
            if !thas(t, i as u128) {
                i += 1;
                continue;
            }
            let st = i;
            while i < n && thas(t, i as u128) {
                i += 1;
            }
            let e = if i - st == 1 {
                eq(x, c(w, st as u128))
            } else {
                let lo = if st == 0 { T } else { not(ult(x, c(w, st as u128))) };
                let hi = if i == n { T } else { ult(x, c(w, i as u128)) };
                and(lo, hi)
            };
            r = or(r, e);
        }
        self.dom_expr.insert((var, *t), r);
        r
    }

    /// Constraints connected to the variables of `goal`.
    fn slice(&mut self, s: &State, goal: V) -> Vec<V> {
        let mut vars: BTreeSet<u32> = goal.vars().iter().copied().collect();
        let mut used = vec![false; s.cons.len()];
        let mut out = vec![];
        loop {
            let mut grew = false;
            for (i, id) in s.cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = &ar().nodes[*id as usize].vars;
                if vs.iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    out.push(V::S(*id));
                    for v in vs.iter() {
                        grew |= vars.insert(*v);
                    }
                }
            }
            if !grew {
                break;
            }
        }
        for v in &vars {
            if let Some(t) = s.dom.get(v) {
                let e = self.dom_v(*v, t);
                if e != T {
                    out.push(e);
                }
            }
        }
        out
    }

    fn solve(&mut self, s: &State, goal: V) -> R<Option<Vec<(u32, u128)>>> {
        match goal {
            V::C(_, 0) => return Ok(None),
            V::C(..) => return Ok(Some(vec![])),
            _ => {}
        }
        let mut cs = self.slice(s, goal);
        cs.push(goal);
        let mut k: Vec<Id> = cs.iter().filter_map(|v| if let V::S(i) = v { Some(*i) } else { None }).collect();
        k.sort();
        k.dedup();
        if cs.iter().any(|v| *v == F) {
            return Ok(None);
        }
        let r = if let Some(r) = self.cache.get(&k) {
            self.stats.cache_hits += 1;
            r.clone()
        } else {
            if let Some(d) = self.deadline {
                let left = d.saturating_duration_since(std::time::Instant::now()).as_millis() as u32;
                self.z.budget_ms = left.max(1000);
            }
            let mut r = if crate::sweep::larger_than(&cs, 1500) { Res::Unknown } else { self.z.quick(&cs) };
            if let Res::Unknown = r {
                self.stats.sweeps += 1;
                if std::env::var_os("SX_SHOW").is_some() {
                    eprintln!("hard query:");
                    for v in &cs {
                        eprintln!("  {}", show(*v));
                    }
                }
                if let Some(m) = try_random(&cs, &s.model, 0.5) {
                    r = Res::Sat(m);
                } else {
                    let path = cs.len() - 1;
                    cs[path] = crate::sweep::decided(&mut self.z, &cs[..path], goal, 20.0);
                    let cs2 = crate::sweep::sweep(&mut self.z, &mut self.merges, &cs, 60.0);
                    r = if cs2.iter().any(|v| *v == F) {
                        Res::Unsat
                    } else {
                        let cs2: Vec<V> = cs2.into_iter().filter(|v| *v != T).collect();
                        match try_random(&cs2, &s.model, 3.0) {
                            Some(m) => Res::Sat(m),
                            None => self.z.check(&cs2),
                        }
                    };
                }
            }
            self.cache.insert(k, r.clone());
            r
        };
        match r {
            Res::Sat(m) => Ok(Some(m)),
            Res::Unsat => Ok(None),
            Res::Unknown => Err(Stop::Cut("solver: unknown within its time limit".into())),
        }
    }

    /// Look for values on this path that satisfy `goal` without searching.
    fn stumble(&mut self, s: &State, goal: V) -> Option<Vec<u128>> {
        let hit = |m: &Vec<u128>| {
            let f = |i: u32| m.get(i as usize).copied().unwrap_or(0);
            eval_begin();
            eval_shared(goal, &f) != 0
                && s.cons.iter().all(|x| eval_shared(V::S(*x), &f) != 0)
                && s.dom.iter().all(|(v, t)| thas(t, f(*v)))
        };
        if hit(&s.model) {
            return Some(s.model.clone());
        }
        if goal.vars().len() < 3 {
            return None;
        }
        let mut rng = crate::sweep::Rng(7);
        for _ in 0..8 {
            let mut m = s.model.clone();
            for v in goal.vars().iter() {
                let w = ar().vars[*v as usize].w;
                if m.len() <= *v as usize {
                    m.resize(*v as usize + 1, 0);
                }
                m[*v as usize] = rng.wide() & mask(w);
            }
            if hit(&m) {
                return Some(m);
            }
        }
        None
    }

    /// Can `cond` (boolean) hold in `s`? Yields model updates.
    fn feasible(&mut self, s: &State, cond: V) -> R<Option<Vec<(u32, u128)>>> {
        if !self.solver_only {
            if let Some((var, t)) = table(cond) {
                if !s.tangled.contains(&var) {
                    self.stats.branch_dom += 1;
                    let w = ar().vars[var as usize].w;
                    let d = s.dom.get(&var).copied().unwrap_or_else(|| full(w));
                    let x = tand(&d, &t);
                    return Ok(if tempty(&x) { None } else { Some(vec![(var, tfirst(&x))]) });
                }
            }
        }
        self.solve(s, cond)
    }

    /// Record `cond` as holding. The model must already satisfy it.
    fn constrain(&mut self, s: &mut State, cond: V) {
        let V::S(id) = cond else { return };
        let k = key(id);
        if k.op == Op::And && k.w == 1 {
            for x in k.kids.iter() {
                self.constrain(s, *x);
            }
            return;
        }
        if k.op == Op::Eq {
            if let (V::C(_, v), V::S(x)) = (k.kids[0], k.kids[1]) {
                s.fixed.insert(x, v);
            }
        }
        // not(or(..)) -> all negated
        if k.op == Op::Xor && k.kids.len() == 2 && k.kids[0] == T {
            if let V::S(o) = k.kids[1] {
                let ko = key(o);
                if ko.op == Op::Or && ko.w == 1 {
                    for x in ko.kids.iter() {
                        self.constrain(s, not(*x));
                    }
                    return;
                }
            }
        }
        if let Some((var, t)) = table(cond) {
            let w = ar().vars[var as usize].w;
            let d = s.dom.get(&var).copied().unwrap_or_else(|| full(w));
            let d = tand(&d, &t);
            if (d[0].count_ones() + d[1].count_ones() + d[2].count_ones() + d[3].count_ones()) == 1 {
                let node = ar().vars[var as usize].node;
                s.fixed.insert(node, tfirst(&d));
            }
            s.dom.insert(var, d);
            return;
        }
        if s.cons.contains(&id) {
            return;
        }
        for v in cond.vars().iter() {
            if ar().vars[*v as usize].w <= 8 {
                s.tangled.insert(*v);
            }
        }
        s.cons.push(id);
    }

    /// Split on a boolean. Yields the truth value for the current state, the
    /// other side is queued to re-execute the current instruction.
    fn fork(&mut self, s: &mut State, cond: V) -> R<bool> {
        if let Some(k) = cond.k() {
            return Ok(k != 0);
        }
        let V::S(id) = cond else { unreachable!() };
        if let Some(k) = s.fixed.get(&id) {
            return Ok(*k != 0);
        }
        if cond.undef() {
            self.undef_decides(s, cond, "decision")?;
        }
        let b = s.eval(cond) != 0;
        self.stats.branch_model += 1;
        let other = if b { not(cond) } else { cond };
        let mine = if b { cond } else { not(cond) };
        if let Some(up) = self.feasible(s, other)? {
            self.stats.forks += 1;
            let mut o = s.clone();
            o.set_model(&up);
            debug_assert!(o.eval(other) != 0);
            self.constrain(&mut o, other);
            o.fixed.insert(id, !b as u128);
            self.sink.push(o);
            self.constrain(s, mine);
        }
        s.fixed.insert(id, b as u128);
        Ok(b)
    }

    /// A decision on uninitialised memory: fine only if it cannot matter.
    fn undef_decides(&mut self, s: &mut State, cond: V, what: &str) -> R<()> {
        let renamed = self.rename_undef(cond);
        let goal = not(eq(cond, renamed));
        if let Some(up) = self.solve(s, goal)? {
            s.set_model(&up);
            return Err(Stop::Bad("uninit".into(), 0, format!("{} depends on uninitialised memory", what)));
        }
        Ok(())
    }

    fn rename_undef(&mut self, v: V) -> V {
        // substitute every undef variable by a second one
        let mut map: HashMap<Id, V> = HashMap::new();
        fn go(v: V, map: &mut HashMap<Id, V>) -> V {
            let V::S(i) = v else { return v };
            if !v.undef() {
                return v;
            }
            if let Some(r) = map.get(&i) {
                return *r;
            }
            let k = key(i);
            let r = if k.op == Op::Var {
                new_var(k.w, true).1
            } else {
                let ks: Vec<V> = k.kids.iter().map(|x| go(*x, map)).collect();
                rebuild(k, &ks)
            };
            map.insert(i, r);
            r
        }
        go(v, &mut map)
    }

    /// Constant value of `v` on this path, splitting over all of them.
    fn concretise(&mut self, s: &mut State, v: V, limit: usize, what: &str) -> R<u128> {
        if let Some(k) = v.k() {
            return Ok(k);
        }
        let V::S(id) = v else { unreachable!() };
        if let Some(k) = s.fixed.get(&id) {
            return Ok(*k);
        }
        if v.undef() {
            self.undef_decides(s, v, what)?;
        }
        let w = v.w();
        let mine = s.eval(v);
        let mut excl = not(eq(v, c(w, mine)));
        let mut n = 1;
        loop {
            let Some(up) = self.feasible(s, excl)? else { break };
            let mut o = s.clone();
            o.set_model(&up);
            let val = o.eval(v);
            let e = eq(v, c(w, val));
            self.constrain(&mut o, e);
            o.fixed.insert(id, val);
            self.stats.forks += 1;
            self.sink.push(o);
            excl = and(excl, not(e));
            n += 1;
            if n > limit {
                return Err(Stop::Cut(format!("{} takes more than {} values", what, limit)));
            }
        }
        let e = eq(v, c(w, mine));
        self.constrain(s, e);
        s.fixed.insert(id, mine);
        Ok(mine)
    }

    // -------------------------------------------------------------- execution

    fn new_input(&mut self, s: &mut State, w: u16) -> V {
        let i = s.inputs.len();
        let v = if let Some(cv) = &self.concrete {
            c(w, cv.get(i).copied().unwrap_or(0) as u128)
        } else {
            *self.input_vars.entry((i, w)).or_insert_with(|| new_var(w, false).1)
        };
        s.inputs.push(v);
        v
    }

    pub fn run(&mut self, entry: &str) {
        let name: Rc<str> = Rc::from(entry);
        let ti = self.target(&name);
        let Target::Func(f) = self.targets[ti as usize].clone() else {
            eprintln!("no such harness in the module: {}", entry);
            std::process::exit(72);
        };
        let mut s = State {
            frames: vec![],
            mem: Mem { objs: BTreeMap::new(), next: 0x4000_0000 },
            cons: vec![],
            dom: HashMap::with_hasher(BuildFx),
            tangled: BTreeSet::new(),
            fixed: HashMap::with_hasher(BuildFx),
            model: vec![],
            inputs: vec![],
            expect_panic: false,
            alloc_limit: 1 << 24,
            steps: 0,
            trace: None,
        };
        self.push_frame(&mut s, f, vec![], None, None);
        self.work.push_back(s);
        let mut sharding = self.shard;
        loop {
            if let Some((i, n)) = sharding {
                if self.work.len() >= n * 24 {
                    sharding = None;
                    let all: Vec<State> = self.work.drain(..).collect();
                    for (k, st) in all.into_iter().enumerate() {
                        if k % n == i {
                            self.work.push_back(st);
                        }
                    }
                    continue;
                }
            }
            let Some(st) = (if sharding.is_some() { self.work.pop_front() } else { self.work.pop_back() }) else { break };
            self.run_state(st);
            if self.violations.len() >= self.max_violations {
                break;
            }
            if self.timed_out {
                *self.cuts.entry("time limit".into()).or_insert(0) += 1 + self.work.len() as u64;
                break;
            }
        }
    }

    fn run_state(&mut self, mut s: State) {
        let mut tick = 0u32;
        let end = loop {
            tick += 1;
            if tick & 0x3ff == 0 {
                if let Some(d) = self.deadline {
                    if Instant::now() > d {
                        self.timed_out = true;
                        return;
                    }
                }
            }
            let r = self.step(&mut s);
            if !self.sink.is_empty() {
                for o in self.sink.drain(..) {
                    self.work.push_back(o);
                }
            }
            if let Err(e) = r {
                break e;
            }
            if s.steps > self.max_steps {
                break Stop::Bad("steps".into(), 0, format!("path takes more than {} instructions", self.max_steps));
            }
        };
        self.stats.steps += s.steps;
        self.stats.max_path_steps = self.stats.max_path_steps.max(s.steps);
        match end {
            Stop::Done => {
                self.stats.paths += 1;
                let n = self.stats.paths;
                if self.samples.len() < self.max_samples && (n <= self.max_samples as u64 / 2 || n.is_power_of_two()) {
                    self.sample(&s);
                }
            }
            Stop::Killed => self.stats.killed += 1,
            Stop::Cut(m) => {
                let at = s.frames.last().map(|f| f.f.name.to_string()).unwrap_or_default();
                *self.cuts.entry(format!("{} in {}", m, at)).or_insert(0) += 1;
            }
            Stop::Bad(k, id, m) => self.report(&s, k, id, m),
        }
    }

    fn sample(&mut self, s: &State) {
        let mut trace = vec![];
        let mut t = s.trace.as_ref();
        while let Some(x) = t {
            trace.push(match x.ev {
                Ev::Check(id, v) => format!("check {} {}", id, s.eval(v)),
                Ev::Cover(id) => format!("cover {}", id),
                Ev::Value(v) => format!("value {:x}", s.eval(v)),
                Ev::Panic => "panic".into(),
            });
            t = x.prev.as_ref();
        }
        trace.reverse();
        self.samples.push(Sample { values: s.inputs.iter().map(|v| s.eval(*v)).collect(), trace });
    }

    fn report(&mut self, s: &State, kind: String, id: u32, msg: String) {
        let stack: Vec<String> = s.frames.iter().rev().map(|f| f.f.name.to_string()).collect();
        let v = Violation {
            kind,
            id,
            msg,
            stack,
            values: s.inputs.iter().map(|v| s.eval(*v)).collect(),
            widths: s.inputs.iter().map(|v| v.w()).collect(),
        };
        if self.violations.iter().any(|o| o.kind == v.kind && o.id == v.id && o.stack.first() == v.stack.first()) {
            return;
        }
        self.violations.push(v);
    }

    fn push_frame(&mut self, s: &mut State, f: Rc<Func>, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) {
        *self.executed.entry(f.name.clone()).or_insert(0) += 1;
        f.blocks[0].seen.set(true);
        let mut regs = vec![None; f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = Some(a);
        }
        s.frames.push(Rc::new(Frame { f, bb: 0, ip: 0, regs, dst, normal, allocas: vec![] }));
    }

    fn jump(&mut self, s: &mut State, to: u32) -> R<()> {
        let fr = s.top();
        let from = fr.bb;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        blk.seen.set(true);
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let Some((_, o)) = inc.iter().find(|(b, _)| *b == from) else {
                    return Err(Stop::Cut("phi without edge".into()));
                };
                let v = match o {
                    Opnd::R(r) => fr.regs[*r as usize].clone().expect("phi operand"),
                    Opnd::K(v) => v.clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                fr.regs[d as usize] = Some(v);
            }
        }
        fr.bb = to;
        fr.ip = 0;
        Ok(())
    }

    fn step(&mut self, s: &mut State) -> R<()> {
        let f;
        let (bb, ip);
        {
            let fr = s.frames.last().unwrap();
            f = fr.f.clone();
            bb = fr.bb as usize;
            ip = fr.ip as usize;
        }
        let ins = &f.blocks[bb].ins[ip];
        s.steps += 1;
        macro_rules! get {
            ($o:expr) => {
                match $o {
                    Opnd::R(r) => match &s.frames.last().unwrap().regs[*r as usize] {
                        Some(v) => v.clone(),
                        None => return Err(Stop::Cut("register without value".into())),
                    },
                    Opnd::K(v) => v.clone(),
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = s.top();
                fr.regs[$d as usize] = Some(v);
                fr.ip += 1;
            }};
        }
        match ins {
            I::Bin(op, d, a, b) => {
                let (a, b) = (get!(a), get!(b));
                let r = self.lift2(s, &a, &b, &mut |e, s, x, y| e.bin(s, *op, x, y))?;
                set!(*d, r);
            }
            I::Icmp(p, d, a, b) => {
                let (a, b) = (get!(a), get!(b));
                let r = self.lift2(s, &a, &b, &mut |_, _, x, y| Ok(cmp(*p, x, y)))?;
                set!(*d, r);
            }
            I::Select(d, x, a, b) => {
                let x = get!(x);
                let (a, b) = (get!(a), get!(b));
                let r = match &x {
                    Val::S(x) => {
                        if let Some(k) = x.k().map(|k| k != 0).or_else(|| s.known(*x)) {
                            if k {
                                a
                            } else {
                                b
                            }
                        } else if self.split && matches!((&a, &b), (Val::S(V::C(w, _)), Val::S(V::C(_, _))) if *w == PTR) {
                            if self.fork(s, *x)? {
                                a
                            } else {
                                b
                            }
                        } else {
                            sel(*x, &a, &b)
                        }
                    }
                    Val::Agg(xs) => {
                        let (a, b) = (a.agg(), b.agg());
                        Val::Agg(Rc::new(xs.iter().zip(a.iter().zip(b.iter())).map(|(x, (a, b))| sel(x.v(), a, b)).collect()))
                    }
                };
                set!(*d, r);
            }
            I::Load(d, t, p, al) => {
                let p = get!(p).v();
                let r = self.load(s, t, p, *al)?;
                set!(*d, r);
            }
            I::Store(t, v, p, al) => {
                let p = get!(p).v();
                let v = get!(v);
                self.store(s, t, &v, p, *al)?;
                s.top().ip += 1;
            }
            I::Gep(d, base, k, terms) => {
                let mut r = get!(base).v();
                if *k != 0 {
                    r = add(r, c(PTR, *k as u128));
                }
                for (o, scale) in terms {
                    let v = get!(o).v();
                    let v = sext(v, PTR);
                    r = add(r, mul(v, c(PTR, *scale as u128)));
                }
                set!(*d, Val::S(r));
            }
            I::Cast(k, d, a, st, dt) => {
                let a = get!(a);
                let r = cast(*k, &a, st, dt)?;
                set!(*d, r);
            }
            I::Freeze(d, a) => {
                let a = get!(a);
                set!(*d, a);
            }
            I::Alloca(d, size, al) => {
                let a = s.mem.alloc(*size, *al, Kind::Stack, false);
                s.top().allocas.push(a);
                set!(*d, Val::S(c(PTR, a as u128)));
            }
            I::Call(d, callee, args, rt, normal) => {
                let ti = match callee {
                    Callee::Direct(n, cell) => {
                        let mut t = cell.get();
                        if t == u32::MAX {
                            t = self.target(n);
                            cell.set(t);
                        }
                        t
                    }
                    Callee::Indirect(o) => {
                        let v = get!(o).v();
                        let a = self.concretise(s, v, 64, "function pointer")? as u64;
                        let Some(n) = self.m.fname.get(&a) else {
                            return Err(Stop::Bad("memory".into(), 0, "call through an invalid function pointer".into()));
                        };
                        let n: Rc<str> = Rc::from(*n);
                        self.target(&n)
                    }
                    Callee::Asm => {
                        if let Some(d) = d {
                            set!(*d, zero(rt));
                        } else {
                            s.top().ip += 1;
                        }
                        return Ok(());
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (_, o) in args {
                    av.push(get!(o));
                }
                match self.targets[ti as usize].clone() {
                    Target::Func(f) => {
                        if s.frames.len() > 3000 {
                            return Err(Stop::Cut("call depth".into()));
                        }
                        s.top().ip += 1;
                        self.push_frame(s, f, av, *d, *normal);
                    }
                    Target::Panic(n) => return self.panic(s, &n, &av),
                    Target::Builtin(n) => {
                        let r = self.builtin(s, &n, &av, rt)?;
                        if let (Some(d), Some(r)) = (d, r) {
                            s.top().regs[*d as usize] = Some(r);
                        }
                        s.top().ip += 1;
                        if let Some(l) = normal {
                            self.jump(s, *l)?;
                        }
                    }
                }
            }
            I::ExtractValue(d, v, ix) => {
                let mut v = get!(v);
                for i in ix {
                    let n = v.agg()[*i as usize].clone();
                    v = n;
                }
                set!(*d, v);
            }
            I::InsertValue(d, v, e, ix) => {
                let v = get!(v);
                let e = get!(e);
                fn ins(v: &Val, e: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return e;
                    }
                    let mut a = v.agg().clone();
                    a[ix[0] as usize] = ins(&a[ix[0] as usize], e, &ix[1..]);
                    Val::Agg(Rc::new(a))
                }
                let r = ins(&v, e, ix);
                set!(*d, r);
            }
            I::ExtractElement(d, v, i) => {
                let v = get!(v);
                let i = get!(i).v();
                let i = self.concretise(s, i, 64, "vector index")? as usize;
                let r = v.agg()[i].clone();
                set!(*d, r);
            }
            I::InsertElement(d, v, e, i) => {
                let v = get!(v);
                let e = get!(e);
                let i = get!(i).v();
                let i = self.concretise(s, i, 64, "vector index")? as usize;
                let mut a = v.agg().clone();
                a[i] = e;
                set!(*d, Val::Agg(Rc::new(a)));
            }
            I::Shuffle(d, a, b, m) => {
                let a = get!(a);
                let b = get!(b);
                let (a, b) = (a.agg(), b.agg());
                let r: Vec<Val> = m
                    .iter()
                    .map(|i| {
                        let i = i.unwrap_or(0) as usize;
                        if i < a.len() {
                            a[i].clone()
                        } else {
                            b[i - a.len()].clone()
                        }
                    })
                    .collect();
                set!(*d, Val::Agg(Rc::new(r)));
            }
            I::AtomicRmw(d, op, t, p, v) => {
                let p = get!(p).v();
                let v = get!(v).v();
                let old = self.load(s, t, p, 1)?.v();
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => add(old, v),
                    "sub" => sub(old, v),
                    "and" => and(old, v),
                    "or" => or(old, v),
                    "xor" => xor(old, v),
                    "umax" => ite(ult(old, v), v, old),
                    "umin" => ite(ult(old, v), old, v),
                    _ => return Err(Stop::Cut(format!("atomicrmw {}", op))),
                };
                self.store(s, t, &Val::S(new), p, 1)?;
                set!(*d, Val::S(old));
            }
            I::CmpXchg(d, t, p, x, y) => {
                let p = get!(p).v();
                let (x, y) = (get!(x).v(), get!(y).v());
                let old = self.load(s, t, p, 1)?.v();
                let same = eq(old, x);
                self.store(s, t, &Val::S(ite(same, y, old)), p, 1)?;
                set!(*d, Val::Agg(Rc::new(vec![Val::S(old), Val::S(same)])));
            }
            I::Nop => s.top().ip += 1,
            I::Br(l) => self.jump(s, *l)?,
            I::CondBr(v, a, b) => {
                let v = get!(v).v();
                let t = self.fork(s, v)?;
                self.jump(s, if t { *a } else { *b })?;
            }
            I::Switch(v, dl, cs) => {
                let v = get!(v).v();
                if let Some(k) = v.k() {
                    let l = cs.iter().find(|(x, _)| *x == k).map(|x| x.1).unwrap_or(*dl);
                    self.jump(s, l)?;
                } else {
                    let V::S(id) = v else { unreachable!() };
                    if let Some(k) = s.fixed.get(&id).copied() {
                        let l = cs.iter().find(|(x, _)| *x == k).map(|x| x.1).unwrap_or(*dl);
                        return self.jump(s, l);
                    }
                    let w = v.w();
                    // group by destination, so that equal targets do not split
                    let mut groups: Vec<(u32, V)> = vec![];
                    let mut any = F;
                    for (k, l) in cs {
                        let e = eq(v, c(w, *k));
                        any = or(any, e);
                        let key = *l;
                        // phis make edges of equal target equal too
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == key) {
                            g.1 = or(g.1, e);
                        } else {
                            groups.push((key, e));
                        }
                    }
                    if let Some(g) = groups.iter_mut().find(|g| g.0 == *dl) {
                        g.1 = or(g.1, not(any));
                    } else {
                        groups.push((*dl, not(any)));
                    }
                    if v.undef() {
                        self.undef_decides(s, any, "decision")?;
                    }
                    let mut mine = None;
                    for (l, e) in groups {
                        if mine.is_none() && s.eval(e) != 0 {
                            mine = Some((l, e));
                            continue;
                        }
                        if let Some(up) = self.feasible(s, e)? {
                            self.stats.forks += 1;
                            let mut o = s.clone();
                            o.set_model(&up);
                            self.constrain(&mut o, e);
                            self.jump(&mut o, l)?;
                            self.sink.push(o);
                        }
                    }
                    let (l, e) = mine.expect("some switch edge");
                    self.constrain(s, e);
                    self.jump(s, l)?;
                }
            }
            I::Ret(v) => {
                let v = match v {
                    Some(o) => Some(get!(o)),
                    None => None,
                };
                let fr = s.frames.pop().unwrap();
                for a in &fr.allocas {
                    s.mem.objs.remove(a);
                }
                if s.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.dst, v) {
                    s.top().regs[d as usize] = Some(v);
                }
                if let Some(l) = fr.normal {
                    self.jump(s, l)?;
                }
            }
            I::Unreachable => return Err(Stop::Bad("unreachable".into(), 0, "reached code declared unreachable".into())),
            I::Unsupported(w) => return Err(Stop::Cut(format!("unsupported instruction {}", w))),
        }
        Ok(())
    }

    fn lift2(&mut self, s: &mut State, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Exec, &mut State, V, V) -> R<V>) -> R<Val> {
        match (a, b) {
            (Val::S(x), Val::S(y)) => Ok(Val::S(f(self, s, *x, *y)?)),
            (Val::Agg(x), Val::Agg(y)) => {
                let mut out = Vec::with_capacity(x.len());
                for (p, q) in x.iter().zip(y.iter()) {
                    out.push(self.lift2(s, p, q, f)?);
                }
                Ok(Val::Agg(Rc::new(out)))
            }
            _ => Err(Stop::Cut("operand shape".into())),
        }
    }

    fn bin(&mut self, s: &mut State, op: Bin, a: V, b: V) -> R<V> {
        Ok(match op {
            Bin::Add => add(a, b),
            Bin::Sub => sub(a, b),
            Bin::Mul => mul(a, b),
            Bin::And => and(a, b),
            Bin::Or => or(a, b),
            Bin::Xor => xor(a, b),
            Bin::Shl => shl(a, b),
            Bin::LShr => lshr(a, b),
            Bin::AShr => ashr(a, b),
            Bin::UDiv | Bin::SDiv | Bin::URem | Bin::SRem => {
                let z = eq(b, c(b.w(), 0));
                if self.fork(s, z)? {
                    return Err(Stop::Bad("division".into(), 0, "division by zero".into()));
                }
                match op {
                    Bin::UDiv => udiv(a, b),
                    Bin::SDiv => sdiv(a, b),
                    Bin::URem => urem(a, b),
                    _ => srem(a, b),
                }
            }
        })
    }

    // ----------------------------------------------------------------- memory

    fn global_obj(&mut self, addr: u64) -> Option<Rc<Obj>> {
        let (_, &gi) = self.globals.range(..=addr).next_back()?;
        let g = &self.m.globals[gi];
        if addr > g.addr + g.size {
            return None;
        }
        if let Some(o) = self.gcache.get(&gi) {
            return Some(o.clone());
        }
        let kind = if g.constant { Kind::Const } else { Kind::Global };
        let (base, size, align, ty) = (g.addr, g.size, g.align, g.ty.clone());
        let mut o = Obj::new(base, size, align, kind, true);
        match self.m.global_init(gi) {
            Some(v) => put(&mut o, 0, &ty, &v),
            None => return None,
        }
        let o = Rc::new(o);
        self.gcache.insert(gi, o.clone());
        Some(o)
    }

    /// The object that holds `addr..addr+n`.
    fn obj(&mut self, s: &State, addr: u64, n: u64) -> R<Rc<Obj>> {
        let o = match s.mem.find(addr) {
            Some(o) => Some(o.clone()),
            None if addr < 0x4000_0000 => self.global_obj(addr),
            None => None,
        };
        match o {
            Some(o) if addr + n <= o.base + o.size => Ok(o),
            Some(o) => Err(Stop::Bad(
                "memory".into(),
                0,
                format!("access of {} bytes at offset {} of a {} byte {:?} object", n, addr - o.base, o.size, o.kind),
            )),
            None => Err(Stop::Bad("memory".into(), 0, format!("access of {} bytes at invalid address {:#x}", n, addr))),
        }
    }

    fn obj_mut<'a>(&mut self, s: &'a mut State, addr: u64, n: u64) -> R<&'a mut Obj> {
        let o = self.obj(s, addr, n)?;
        if o.kind == Kind::Const {
            return Err(Stop::Bad("memory".into(), 0, "write to constant memory".into()));
        }
        let base = o.base;
        drop(o);
        if !s.mem.objs.contains_key(&base) {
            let g = self.global_obj(addr).unwrap();
            s.mem.objs.insert(base, g);
        }
        Ok(Rc::make_mut(s.mem.objs.get_mut(&base).unwrap()))
    }

    fn aligned(&mut self, s: &mut State, addr: V, al: u64) -> R<()> {
        if al <= 1 {
            return Ok(());
        }
        let low = and(addr, c(PTR, (al - 1) as u128));
        let ok = eq(low, c(PTR, 0));
        if ok == T {
            return Ok(());
        }
        if !self.fork(s, ok)? {
            return Err(Stop::Bad("align".into(), 0, format!("misaligned access (needs {})", al)));
        }
        Ok(())
    }

    fn load(&mut self, s: &mut State, t: &Ty, p: V, al: u64) -> R<Val> {
        let n = t.size();
        self.aligned(s, p, al)?;
        let p = self.settle(s, p, n)?;
        if let V::C(_, a) = p {
            if n == 0 {
                return Ok(zero(t));
            }
            let o = self.obj(s, a as u64, t.store_size())?;
            return Ok(read(&o, (a as u64 - o.base) as usize, t));
        }
        // symbolic address within one object
        if !t.scalar() || self.split && n >= 8 {
            let a = self.concretise(s, p, 512, "address")?;
            let o = self.obj(s, a as u64, t.store_size())?;
            return Ok(read(&o, (a as u64 - o.base) as usize, t));
        }
        let a0 = s.eval(p) as u64;
        let n = t.store_size();
        let o = self.obj(s, a0, n)?;
        let stride = stride_of(p).max(1);
        let first = (a0 - o.base) % stride;
        let mut offs = vec![];
        let mut x = first;
        while x + n <= o.size {
            offs.push(x);
            x += stride;
        }
        if offs.len() > 2048 {
            let a = self.concretise(s, p, 512, "address")?;
            return Ok(read(&o, (a as u64 - o.base) as usize, t));
        }
        let vals: Vec<V> = offs.iter().map(|x| read(&o, *x as usize, t).v()).collect();
        // runs of equal values, then a balanced decision tree over the address
        let mut runs: Vec<(u64, V)> = vec![];
        for (x, v) in offs.iter().zip(vals) {
            if runs.last().map(|r| r.1) != Some(v) {
                runs.push((o.base + *x, v));
            }
        }
        fn tree(p: V, r: &[(u64, V)]) -> V {
            if r.len() == 1 {
                return r[0].1;
            }
            let m = r.len() / 2;
            ite(ult(p, c(64, r[m].0 as u128)), tree(p, &r[..m]), tree(p, &r[m..]))
        }
        Ok(Val::S(tree(p, &runs)))
    }

    fn store(&mut self, s: &mut State, t: &Ty, v: &Val, p: V, al: u64) -> R<()> {
        let n = t.store_size();
        self.aligned(s, p, al)?;
        let p = self.settle(s, p, n)?;
        let a = self.concretise(s, p, 512, "address")? as u64;
        if n == 0 {
            return Ok(());
        }
        let o = self.obj_mut(s, a, n)?;
        let off = (a - o.base) as usize;
        put(o, off, t, v);
        Ok(())
    }

    /// Bring a symbolic address into a single object, splitting off others.
    fn settle(&mut self, s: &mut State, p: V, n: u64) -> R<V> {
        let V::S(id) = p else { return Ok(p) };
        if let Some(k) = s.fixed.get(&id) {
            return Ok(c(PTR, *k));
        }
        if p.undef() {
            self.undef_decides(s, p, "address")?;
        }
        let a0 = s.eval(p) as u64;
        let o = self.obj(s, a0, n)?;
        let inside = not(ult(c(PTR, (o.size - n) as u128), sub(p, c(PTR, o.base as u128))));
        self.fork(s, inside)?;
        Ok(p)
    }

    fn copy(&mut self, s: &mut State, d: V, src: V, n: V) -> R<()> {
        let n = self.concretise(s, n, 4096, "copy length")? as usize;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretise(s, d, 512, "address")? as u64;
        let a = self.concretise(s, src, 512, "address")? as u64;
        let o = self.obj(s, a, n as u64)?;
        let so = (a - o.base) as usize;
        let dobj = self.obj_mut(s, d, n as u64)?;
        let off = (d - dobj.base) as usize;
        if o.meta.is_empty() && dobj.meta.is_empty() {
            dobj.bytes[off..off + n].copy_from_slice(&o.bytes[so..so + n]);
        } else {
            for i in 0..n {
                dobj.set(off + i, o.byte(so + i));
            }
        }
        Ok(())
    }

    fn bytes_of(&mut self, s: &mut State, p: V, n: u64) -> R<Vec<V>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let a = self.concretise(s, p, 512, "address")? as u64;
        let o = self.obj(s, a, n)?;
        Ok((0..n).map(|i| o.get_v((a - o.base + i) as usize, 1)).collect())
    }

    fn alloc(&mut self, s: &mut State, size: V, align: V, zeroed: bool) -> R<u64> {
        if !size.is_k() {
            let lim = ult(c(64, s.alloc_limit as u128), size);
            if let Some(up) = self.feasible(s, lim)? {
                s.set_model(&up);
                return Err(Stop::Bad("alloc".into(), 0, format!("allocation of {} bytes", s.eval(size))));
            }
        }
        let n = self.concretise(s, size, 4096, "allocation size")? as u64;
        let al = self.concretise(s, align, 8, "allocation alignment")? as u64;
        if n > s.alloc_limit {
            return Err(Stop::Bad("alloc".into(), 0, format!("allocation of {} bytes", n)));
        }
        Ok(s.mem.alloc(n, al, Kind::Heap, zeroed))
    }

    fn panic(&mut self, s: &mut State, name: &str, args: &[Val]) -> R<()> {
        // `panic_nounwind*` reports broken preconditions of unsafe code and is
        // never expected.
        if s.expect_panic && !name.contains("nounwind") && !name.contains("cannot_unwind") {
            self.stats.expected_panics += 1;
            s.note(Ev::Panic);
            return Err(Stop::Done);
        }
        let mut msg = format!("panic in {}", name);
        if name.ends_with("9panicking5panic") || name.ends_with("14panic_nounwind") {
            if let (Some(Val::S(V::C(_, p))), Some(Val::S(V::C(_, n)))) = (args.first(), args.get(1)) {
                if let Ok(b) = self.bytes_of(s, c(64, *p), *n as u64) {
                    let t: Vec<u8> = b.iter().map(|v| v.k().unwrap_or(63) as u8).collect();
                    msg = format!("panic: {}", String::from_utf8_lossy(&t));
                }
            }
        }
        Err(Stop::Bad("panic".into(), 0, msg))
    }

    // --------------------------------------------------------------- builtins

    fn builtin(&mut self, s: &mut State, n: &str, a: &[Val], rt: &Ty) -> R<Option<Val>> {
        let v = |i: usize| a[i].v();
        let some = |v: V| Ok(Some(Val::S(v)));
        if let Some(sn) = n.strip_prefix("sx_") {
            match sn {
                "u8" => return Ok(Some(Val::S(self.new_input(s, 8)))),
                "u16" => return Ok(Some(Val::S(self.new_input(s, 16)))),
                "u32" => return Ok(Some(Val::S(self.new_input(s, 32)))),
                "u64" => return Ok(Some(Val::S(self.new_input(s, 64)))),
                "assume" => {
                    let x = not(eq(v(0), c(32, 0)));
                    if let Some(k) = x.k() {
                        return if k == 0 { Err(Stop::Killed) } else { Ok(None) };
                    }
                    if s.eval(x) == 0 {
                        match self.feasible(s, x)? {
                            None => return Err(Stop::Killed),
                            Some(up) => s.set_model(&up),
                        }
                    }
                    self.constrain(s, x);
                    return Ok(None);
                }
                "check" => {
                    let x = not(eq(v(0), c(32, 0)));
                    let id = v(1).k().expect("check id") as u32;
                    s.note(Ev::Check(id, x));
                    if self.concrete.is_some() {
                        return Ok(None);
                    }
                    match x.k() {
                        Some(1) => {
                            self.stats.checks_folded += 1;
                            return Ok(None);
                        }
                        Some(_) => return Err(Stop::Bad("check".into(), id, format!("check {} failed", id))),
                        None => {}
                    }
                    if x.undef() {
                        self.undef_decides(s, x, "check")?;
                    }
                    self.stats.checks_solver += 1;
                    if let Some(m) = self.stumble(s, not(x)) {
                        let mut bad = s.clone();
                        bad.model = m;
                        self.report(&bad, "check".into(), id, format!("check {} failed", id));
                        return Err(Stop::Killed);
                    }
                    if let Some(up) = self.solve(s, not(x))? {
                        let mut bad = s.clone();
                        bad.set_model(&up);
                        self.report(&bad, "check".into(), id, format!("check {} failed", id));
                        if self.violations.len() >= self.max_violations {
                            return Err(Stop::Killed);
                        }
                        // carry on with the values that pass
                        match self.solve(s, x)? {
                            None => return Err(Stop::Killed),
                            Some(up) => s.set_model(&up),
                        }
                        self.constrain(s, x);
                    }
                    return Ok(None);
                }
                "cover" => {
                    let id = v(0).k().expect("cover id") as u32;
                    *self.covers.entry(id).or_insert(0) += 1;
                    s.note(Ev::Cover(id));
                    return Ok(None);
                }
                "concrete" => {
                    let k = self.concretise(s, v(0), 4096, "value")?;
                    return some(c(64, k));
                }
                "param" => {
                    let i = v(0).k().expect("param index") as usize;
                    let Some(p) = self.params.get(i) else {
                        return Err(Stop::Cut("missing parameter".into()));
                    };
                    return some(c(64, *p as u128));
                }
                "expect_panic" => {
                    s.expect_panic = v(0).k().expect("flag") != 0;
                    return Ok(None);
                }
                "alloc_limit" => {
                    s.alloc_limit = v(0).k().expect("limit") as u64;
                    return Ok(None);
                }
                "forget" => {
                    s.note(Ev::Value(v(0)));
                    return Ok(None);
                }
                "defined" | "initialised" => {
                    let p = self.concretise(s, v(0), 64, "address")? as u64;
                    let n = self.concretise(s, v(1), 4096, "size")? as u64;
                    let o = self.obj(s, p, n)?;
                    let ok = (p - o.base..p - o.base + n).all(|i| !matches!(o.byte(i as usize), Byte::U));
                    if sn == "defined" {
                        return some(c(32, ok as u128));
                    }
                    if !ok {
                        return Err(Stop::Bad("uninit".into(), 0, "memory handed out is uninitialised".into()));
                    }
                    return Ok(None);
                }
                "alloc" | "alloc_zeroed" => {
                    let p = self.alloc(s, v(0), v(1), sn == "alloc_zeroed")?;
                    return some(c(64, p as u128));
                }
                "dealloc" => {
                    let p = self.concretise(s, v(0), 64, "address")? as u64;
                    let n = self.concretise(s, v(1), 4096, "allocation size")? as u64;
                    let al = self.concretise(s, v(2), 8, "allocation alignment")? as u64;
                    match s.mem.objs.get(&p) {
                        Some(o) if o.kind == Kind::Heap => {
                            if o.size != n || o.align != al {
                                return Err(Stop::Bad("free".into(), 0, format!("free with layout {}/{} of allocation {}/{}", n, al, o.size, o.align)));
                            }
                        }
                        _ => return Err(Stop::Bad("free".into(), 0, "free of an invalid pointer".into())),
                    }
                    s.mem.objs.remove(&p);
                    return Ok(None);
                }
                "realloc" => {
                    let p = self.concretise(s, v(0), 64, "address")? as u64;
                    let old = self.concretise(s, v(1), 4096, "allocation size")? as u64;
                    match s.mem.objs.get(&p) {
                        Some(o) if o.kind == Kind::Heap && o.size == old => {}
                        _ => return Err(Stop::Bad("free".into(), 0, "realloc of an invalid pointer".into())),
                    }
                    let q = self.alloc(s, v(3), v(2), false)?;
                    let n = s.mem.objs[&q].size.min(old);
                    self.copy(s, c(64, q as u128), c(64, p as u128), c(64, n as u128))?;
                    s.mem.objs.remove(&p);
                    return some(c(64, q as u128));
                }
                _ => return Err(Stop::Cut(format!("unknown builtin {}", n))),
            }
        }
        match n {
            "memcpy" | "memmove" => {
                self.copy(s, v(0), v(1), v(2))?;
                return some(v(0));
            }
            "memset" => {
                self.fill(s, v(0), trunc(v(1), 8), v(2))?;
                return some(v(0));
            }
            "memcmp" | "bcmp" => {
                let k = self.concretise(s, v(2), 4096, "compare length")? as u64;
                let x = self.bytes_of(s, v(0), k)?;
                let y = self.bytes_of(s, v(1), k)?;
                if n == "bcmp" {
                    let mut e = T;
                    for (p, q) in x.iter().zip(&y) {
                        e = and(e, eq(*p, *q));
                    }
                    return some(ite(e, c(32, 0), c(32, 1)));
                }
                let mut r = c(32, 0);
                for (p, q) in x.iter().zip(&y).rev() {
                    r = ite(eq(*p, *q), r, ite(ult(*p, *q), c(32, !0), c(32, 1)));
                }
                return some(r);
            }
            _ => {}
        }
        let Some(ln) = n.strip_prefix("llvm.") else {
            return Err(Stop::Cut(format!("call of external function {}", n)));
        };
        let base = |p: &str| ln.starts_with(p);
        if base("lifetime") || base("experimental.noalias") || base("dbg.") || base("assume") || base("invariant") || base("sideeffect") || base("donothing") || base("prefetch") {
            if base("assume") && v(0).k() == Some(0) {
                return Err(Stop::Bad("unreachable".into(), 0, "assumption made for the optimiser does not hold".into()));
            }
            if base("lifetime.start") {
                let p = a.last().unwrap().v();
                if let V::C(_, p) = p {
                    if let Some(o) = s.mem.objs.get_mut(&(p as u64)) {
                        if o.kind == Kind::Stack {
                            let o = Rc::make_mut(o);
                            o.meta = vec![1; o.size as usize];
                        }
                    }
                }
            }
            return Ok(if base("invariant.start") { Some(Val::S(c(64, 0))) } else { None });
        }
        if base("memcpy") || base("memmove") {
            self.copy(s, v(0), v(1), v(2))?;
            return Ok(None);
        }
        if base("memset") {
            self.fill(s, v(0), v(1), v(2))?;
            return Ok(None);
        }
        if base("expect") {
            return some(v(0));
        }
        if base("trap") || base("ubsantrap") || base("debugtrap") {
            return Err(Stop::Bad("panic".into(), 0, "abort".into()));
        }
        if base("is.constant") {
            return some(F);
        }
        if base("ptrmask") {
            return some(and(v(0), v(1)));
        }
        if base("threadlocal.address") {
            return some(v(0));
        }
        if base("vector.reduce.") {
            let k = ln["vector.reduce.".len()..].split('.').next().unwrap();
            let l = a[0].agg();
            let mut r = l[0].v();
            for x in &l[1..] {
                let x = x.v();
                r = match k {
                    "add" => add(r, x),
                    "mul" => mul(r, x),
                    "and" => and(r, x),
                    "or" => or(r, x),
                    "xor" => xor(r, x),
                    "umax" => ite(ult(r, x), x, r),
                    "umin" => ite(ult(r, x), r, x),
                    "smax" => ite(slt(r, x), x, r),
                    "smin" => ite(slt(r, x), r, x),
                    _ => return Err(Stop::Cut(format!("intrinsic {}", n))),
                };
            }
            return some(r);
        }
        // elementwise on vectors
        if let Some(Val::Agg(first)) = a.first() {
            let lanes = first.len();
            let et = match rt {
                Ty::Vector(_, e) => (**e).clone(),
                _ => return Err(Stop::Cut(format!("intrinsic {}", n))),
            };
            let mut out = vec![];
            for i in 0..lanes {
                let la: Vec<Val> = a
                    .iter()
                    .map(|x| match x {
                        Val::Agg(v) => v[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(self.builtin(s, n, &la, &et)?.unwrap());
            }
            return Ok(Some(Val::Agg(Rc::new(out))));
        }
        let w = v(0).w();
        let op = ln.split('.').next().unwrap();
        if ln.contains(".with.overflow") {
            let (x, y) = (v(0), v(1));
            let (r, o) = match op {
                "uadd" => {
                    let r = add(x, y);
                    (r, ult(r, x))
                }
                "usub" => (sub(x, y), ult(x, y)),
                "umul" => {
                    if let (Some(p), Some(q)) = (x.k(), y.k()) {
                        let (m, o) = p.overflowing_mul(q);
                        (c(w, m), b(o || m & !mask(w) != 0))
                    } else if w <= 64 {
                        if let (V::S(_), V::C(_, k)) = (x, y) {
                            // x * k overflows iff x > max / k
                            (mul(x, y), if k == 0 { F } else { ult(c(w, mask(w) / k), x) })
                        } else if let (V::C(_, k), V::S(_)) = (x, y) {
                            (mul(x, y), if k == 0 { F } else { ult(c(w, mask(w) / k), y) })
                        } else {
                            let m = mul(zext(x, 2 * w), zext(y, 2 * w));
                            (mul(x, y), not(eq(extract(m, 2 * w - 1, w), c(w, 0))))
                        }
                    } else {
                        return Err(Stop::Cut("wide multiplication".into()));
                    }
                }
                "sadd" | "ssub" => {
                    let (xx, yy) = (sext(x, w + 1), sext(y, w + 1));
                    if w + 1 > 128 {
                        return Err(Stop::Cut("wide addition".into()));
                    }
                    let m = if op == "sadd" { add(xx, yy) } else { sub(xx, yy) };
                    let r = if op == "sadd" { add(x, y) } else { sub(x, y) };
                    (r, xor(extract(m, w, w), extract(m, w - 1, w - 1)))
                }
                "smul" if w <= 64 => {
                    let m = mul(sext(x, 2 * w), sext(y, 2 * w));
                    let r = trunc(m, w);
                    (r, not(eq(m, sext(r, 2 * w))))
                }
                _ => return Err(Stop::Cut(format!("intrinsic {}", n))),
            };
            return Ok(Some(Val::Agg(Rc::new(vec![Val::S(r), Val::S(o)]))));
        }
        let r = match op {
            "umax" => ite(ult(v(0), v(1)), v(1), v(0)),
            "umin" => ite(ult(v(0), v(1)), v(0), v(1)),
            "smax" => ite(slt(v(0), v(1)), v(1), v(0)),
            "smin" => ite(slt(v(0), v(1)), v(0), v(1)),
            "abs" => ite(slt(v(0), c(w, 0)), sub(c(w, 0), v(0)), v(0)),
            "uadd" => {
                let r = add(v(0), v(1));
                ite(ult(r, v(0)), c(w, mask(w)), r)
            }
            "usub" => ite(ult(v(0), v(1)), c(w, 0), sub(v(0), v(1))),
            "ucmp" | "scmp" => {
                let lt = if op == "ucmp" { ult(v(0), v(1)) } else { slt(v(0), v(1)) };
                let rw = rt.bits();
                ite(lt, c(rw, !0), ite(eq(v(0), v(1)), c(rw, 0), c(rw, 1)))
            }
            "bswap" => {
                let mut p = vec![];
                for i in 0..w / 8 {
                    p.push(extract(v(0), i * 8 + 7, i * 8));
                }
                concat(&p)
            }
            "bitreverse" => {
                let mut p = vec![];
                for i in 0..w {
                    p.push(extract(v(0), i, i));
                }
                concat(&p)
            }
            "ctpop" => {
                let n = 16.min(w);
                let mut r = c(n, 0);
                for i in 0..w {
                    r = add(r, zext(extract(v(0), i, i), n));
                }
                zext(r, w)
            }
            "ctlz" => {
                let mut r = c(w, w as u128);
                for i in 0..w {
                    r = ite(extract(v(0), i, i), c(w, (w - 1 - i) as u128), r);
                }
                r
            }
            "cttz" => {
                let mut r = c(w, w as u128);
                for i in (0..w).rev() {
                    r = ite(extract(v(0), i, i), c(w, i as u128), r);
                }
                r
            }
            "fshl" | "fshr" => {
                let k = self.concretise(s, v(2), 128, "shift amount")? as u16 % w;
                let k = if op == "fshl" { k } else { (w - k) % w };
                if k == 0 {
                    if op == "fshl" {
                        v(0)
                    } else {
                        v(1)
                    }
                } else {
                    concat(&[extract(v(0), w - 1 - k, 0), extract(v(1), w - 1, w - k)])
                }
            }
            "objectsize" => c(rt.bits(), !0),
            _ => return Err(Stop::Cut(format!("intrinsic {}", n))),
        };
        some(r)
    }

    fn fill(&mut self, s: &mut State, d: V, b: V, n: V) -> R<()> {
        let n = self.concretise(s, n, 4096, "fill length")? as usize;
        if n == 0 {
            return Ok(());
        }
        let d = self.concretise(s, d, 512, "address")? as u64;
        let o = self.obj_mut(s, d, n as u64)?;
        let off = (d - o.base) as usize;
        for i in 0..n {
            o.set_v(off + i, b);
        }
        Ok(())
    }
}

fn stride_of(p: V) -> u64 {
    // greatest power of two dividing every variable part of the address
    match p {
        V::C(..) => 1,
        V::S(i) => {
            let k = key(i);
            match k.op {
                Op::Add => {
                    let mut z = 63;
                    let mut j = 1;
                    while j < k.kids.len() {
                        let cf = k.kids[j + 1].k().unwrap();
                        z = z.min(cf.trailing_zeros() + stride_of(k.kids[j]).trailing_zeros());
                        j += 2;
                    }
                    1 << z.min(32)
                }
                Op::Concat => match k.kids.last().unwrap() {
                    V::C(w, 0) => 1 << (*w).min(32),
                    _ => 1,
                },
                _ => 1,
            }
        }
    }
}

fn cmp(p: Pred, a: V, b: V) -> V {
    match p {
        Pred::Eq => eq(a, b),
        Pred::Ne => not(eq(a, b)),
        Pred::Ult => ult(a, b),
        Pred::Ule => not(ult(b, a)),
        Pred::Ugt => ult(b, a),
        Pred::Uge => not(ult(a, b)),
        Pred::Slt => slt(a, b),
        Pred::Sle => not(slt(b, a)),
        Pred::Sgt => slt(b, a),
        Pred::Sge => not(slt(a, b)),
    }
}

fn sel(x: V, a: &Val, b: &Val) -> Val {
    match (a, b) {
        (Val::S(a), Val::S(b)) => Val::S(ite(x, *a, *b)),
        (Val::Agg(a), Val::Agg(b)) => Val::Agg(Rc::new(a.iter().zip(b.iter()).map(|(a, b)| sel(x, a, b)).collect())),
        _ => panic!("select shape"),
    }
}

fn flat(v: &Val) -> V {
    match v {
        Val::S(v) => *v,
        Val::Agg(l) => {
            let p: Vec<V> = l.iter().rev().map(flat).collect();
            concat(&p)
        }
    }
}

fn cast(k: Cast, a: &Val, st: &Ty, dt: &Ty) -> R<Val> {
    if k == Cast::Bit {
        if st == dt {
            return Ok(a.clone());
        }
        let f = flat(a);
        return Ok(match dt {
            Ty::Vector(n, e) => {
                let w = e.bits();
                Val::Agg(Rc::new((0..*n as u16).map(|i| Val::S(extract(f, i * w + w - 1, i * w))).collect()))
            }
            _ => Val::S(f),
        });
    }
    match (a, dt) {
        (Val::Agg(l), Ty::Vector(_, e)) => {
            let se = match st {
                Ty::Vector(_, e) => (**e).clone(),
                _ => return Err(Stop::Cut("cast shape".into())),
            };
            let mut out = vec![];
            for x in l.iter() {
                out.push(cast(k, x, &se, e)?);
            }
            Ok(Val::Agg(Rc::new(out)))
        }
        (Val::S(v), _) => {
            let w = dt.bits();
            Ok(Val::S(match k {
                Cast::ZExt => zext(*v, w),
                Cast::SExt => sext(*v, w),
                _ => trunc(*v, w),
            }))
        }
        _ => Err(Stop::Cut("cast shape".into())),
    }
}

pub fn put(o: &mut Obj, off: usize, t: &Ty, v: &Val) {
    match (t, v) {
        (_, Val::S(x)) => o.set_v(off, *x),
        (Ty::Struct(f, _), Val::Agg(l)) => {
            for i in 0..f.len() {
                let (fo, ft) = t.field_offset(i as u64);
                put(o, off + fo as usize, &ft, &l[i]);
            }
        }
        (Ty::Array(_, e), Val::Agg(l)) => {
            for (i, x) in l.iter().enumerate() {
                put(o, off + i * e.size() as usize, e, x);
            }
        }
        (Ty::Vector(_, e), Val::Agg(l)) => {
            if e.bits() % 8 != 0 {
                o.set_v(off, flat(v));
                return;
            }
            for (i, x) in l.iter().enumerate() {
                put(o, off + i * (e.bits() as usize / 8), e, x);
            }
        }
        _ => panic!("store shape"),
    }
}

pub fn read(o: &Obj, off: usize, t: &Ty) -> Val {
    match t {
        Ty::Int(w) | Ty::Float(w) => {
            let n = (*w as usize).div_ceil(8);
            let v = o.get_v(off, n);
            Val::S(trunc(v, *w))
        }
        Ty::Ptr => Val::S(o.get_v(off, 8)),
        Ty::Struct(f, _) => Val::Agg(Rc::new(
            (0..f.len())
                .map(|i| {
                    let (fo, ft) = t.field_offset(i as u64);
                    read(o, off + fo as usize, &ft)
                })
                .collect(),
        )),
        Ty::Array(n, e) => Val::Agg(Rc::new((0..*n).map(|i| read(o, off + (i * e.size()) as usize, e)).collect())),
        Ty::Vector(n, e) => Val::Agg(Rc::new((0..*n as usize).map(|i| read(o, off + i * (e.bits() as usize / 8), e)).collect())),
        _ => ir::zero(t),
    }
}

fn rebuild(k: &Key, ks: &[V]) -> V {
    match k.op {
        Op::Var => unreachable!(),
        Op::Add => {
            let mut r = ks[0];
            let mut j = 1;
            while j < ks.len() {
                r = add(r, mul(ks[j], ks[j + 1]));
                j += 2;
            }
            r
        }
        Op::Mul => mul(ks[0], ks[1]),
        Op::UDiv => udiv(ks[0], ks[1]),
        Op::SDiv => sdiv(ks[0], ks[1]),
        Op::URem => urem(ks[0], ks[1]),
        Op::SRem => srem(ks[0], ks[1]),
        Op::And => ks[1..].iter().fold(ks[0], |r, x| and(r, *x)),
        Op::Or => ks[1..].iter().fold(ks[0], |r, x| or(r, *x)),
        Op::Xor => ks[1..].iter().fold(ks[0], |r, x| xor(r, *x)),
        Op::Shl => shl(ks[0], ks[1]),
        Op::LShr => lshr(ks[0], ks[1]),
        Op::AShr => ashr(ks[0], ks[1]),
        Op::Concat => concat(ks),
        Op::Extract => extract(ks[0], k.lo as u16 + k.w - 1, k.lo as u16),
        Op::SExt => sext(ks[0], k.w),
        Op::Ite => ite(ks[0], ks[1], ks[2]),
        Op::Eq => eq(ks[0], ks[1]),
        Op::Ult => ult(ks[0], ks[1]),
        Op::Slt => slt(ks[0], ks[1]),
    }
}
