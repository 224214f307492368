//! Reader for textual LLVM IR, restricted to what rustc emits. Function bodies
//! are parsed on first use.

use crate::expr::{c, V};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Float(u16),
    Struct(Rc<Vec<Ty>>, bool),
    Array(u64, Rc<Ty>),
    Vector(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) | Ty::Float(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two().max(1),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) | Ty::Float(w) => (*w as u64).div_ceil(8),
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (*n as u64 * w as u64).div_ceil(8),
                _ => *n as u64 * t.size(),
            },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Float(_) => self.store_size().next_multiple_of(self.align()),
            Ty::Ptr => 8,
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    o += t.size();
                }
                o.next_multiple_of(self.align())
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(..) => self.store_size().next_multiple_of(self.align()),
        }
    }
    pub fn field_offset(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        o = o.next_multiple_of(t.align());
                    }
                    if j as u64 == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) => (i * t.size(), (**t).clone()),
            Ty::Vector(_, t) => (i * t.size(), (**t).clone()),
            _ => panic!("field of scalar"),
        }
    }
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::Float(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Float(_) | Ty::Ptr)
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    S(V),
    Agg(Rc<Vec<Val>>),
}

impl Val {
    pub fn v(&self) -> V {
        match self {
            Val::S(v) => *v,
            _ => panic!("scalar expected"),
        }
    }
    pub fn agg(&self) -> &Vec<Val> {
        match self {
            Val::Agg(v) => v,
            _ => panic!("aggregate expected"),
        }
    }
}

pub fn zero(t: &Ty) -> Val {
    match t {
        Ty::Int(w) | Ty::Float(w) => Val::S(c(*w, 0)),
        Ty::Ptr => Val::S(c(64, 0)),
        Ty::Struct(f, _) => Val::Agg(Rc::new(f.iter().map(zero).collect())),
        Ty::Array(n, t) => Val::Agg(Rc::new((0..*n).map(|_| zero(t)).collect())),
        Ty::Vector(n, t) => Val::Agg(Rc::new((0..*n).map(|_| zero(t)).collect())),
        _ => Val::S(c(1, 0)),
    }
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    ZExt,
    SExt,
    Trunc,
    Bit,
}

#[derive(Debug)]
pub enum Callee {
    Direct(Rc<str>, std::cell::Cell<u32>),
    Indirect(Opnd),
    Asm,
}

#[derive(Debug)]
pub enum I {
    Bin(Bin, u32, Opnd, Opnd),
    Icmp(Pred, u32, Opnd, Opnd),
    Select(u32, Opnd, Opnd, Opnd),
    Load(u32, Ty, Opnd, u64),
    Store(Ty, Opnd, Opnd, u64),
    Gep(u32, Opnd, u64, Vec<(Opnd, u64)>),
    Cast(Cast, u32, Opnd, Ty, Ty),
    Alloca(u32, u64, u64),
    Call(Option<u32>, Callee, Vec<(Ty, Opnd)>, Ty, Option<u32>),
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Opnd, Opnd, Vec<u32>),
    ExtractElement(u32, Opnd, Opnd),
    InsertElement(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<Option<u32>>),
    AtomicRmw(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Freeze(u32, Opnd),
    Nop,
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
    /// source locations (metadata numbers) of the instructions
    pub dbg: Vec<u32>,
    pub seen: std::cell::Cell<bool>,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct Global {
    pub addr: u64,
    pub size: u64,
    pub align: u64,
    pub constant: bool,
    pub ty: Ty,
    pub init: Option<usize>, // line
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub types: HashMap<&'static str, Ty>,
    pub globals: Vec<Global>,
    pub gindex: HashMap<&'static str, usize>,
    pub faddr: HashMap<&'static str, u64>,
    pub fname: HashMap<u64, &'static str>,
    pub fline: HashMap<&'static str, usize>,
    pub aliases: HashMap<&'static str, &'static str>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    W(&'static str),
    L(&'static str), // %name
    G(&'static str), // @name
    S(&'static str), // "..."
    C(&'static str), // c"..."
    P(char),
    M, // metadata
}

pub fn lex(s: &'static str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let word = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+');
    while i < b.len() {
        let ch = b[i];
        match ch {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let mk = |n| if ch == b'%' { Tok::L(n) } else { Tok::G(n) };
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    out.push(mk(&s[st..j]));
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && word(b[j]) {
                        j += 1;
                    }
                    out.push(mk(&s[st..j]));
                    i = j;
                }
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::S(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::C(&s[st..j]));
                i = j + 1;
            }
            b'!' | b'#' => {
                out.push(Tok::M);
                i += 1;
                while i < b.len() && word(b[i]) {
                    i += 1;
                }
            }
            _ if word(ch) => {
                let st = i;
                while i < b.len() && word(b[i]) {
                    i += 1;
                }
                out.push(Tok::W(&s[st..i]));
            }
            _ => {
                out.push(Tok::P(ch as char));
                i += 1;
            }
        }
    }
    out
}

pub struct Cur<'m> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub m: &'m Module,
    pub regs: Option<&'m mut HashMap<&'static str, u32>>,
    pub line: &'static str,
}

const FN_BASE: u64 = 0x10_0000;

impl<'m> Cur<'m> {
    fn fail(&self, what: &str) -> ! {
        eprintln!("ir: cannot parse ({}): {} at {:?}", what, self.line, self.t.get(self.i));
        std::process::exit(71);
    }
    fn peek(&self) -> Option<Tok> {
        self.t.get(self.i).copied()
    }
    fn next(&mut self) -> Tok {
        let t = match self.t.get(self.i) {
            Some(t) => *t,
            None => self.fail("end of line"),
        };
        self.i += 1;
        t
    }
    fn eat(&mut self, ch: char) -> bool {
        if self.peek() == Some(Tok::P(ch)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, ch: char) {
        if !self.eat(ch) {
            self.fail(&format!("expected {}", ch));
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if let Some(Tok::W(x)) = self.peek() {
            if x == w {
                self.i += 1;
                return true;
            }
        }
        false
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn is_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => {
                matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "metadata" | "token" | "label" | "x86_fp80")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::L(n)) => self.m.types.contains_key(n),
            _ => false,
        }
    }
    pub fn ty(&mut self) -> Ty {
        match self.next() {
            Tok::W(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if self.eat_w("addrspace") {
                        self.balanced();
                    }
                    Ty::Ptr
                }
                "half" => Ty::Float(16),
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "fp128" => Ty::Float(128),
                "metadata" | "token" | "label" | "x86_fp80" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| self.fail("int type"))),
                _ => self.fail("type"),
            },
            Tok::L(n) => match self.m.types.get(n) {
                Some(t) => t.clone(),
                None => self.fail("named type"),
            },
            Tok::P('{') => {
                let mut f = vec![];
                while !self.eat('}') {
                    f.push(self.ty());
                    self.eat(',');
                }
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('[') => {
                let n = self.int() as u64;
                if !self.eat_w("x") {
                    self.fail("array");
                }
                let t = self.ty();
                self.expect(']');
                Ty::Array(n, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let mut f = vec![];
                    while !self.eat('}') {
                        f.push(self.ty());
                        self.eat(',');
                    }
                    self.expect('>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = self.int() as u32;
                if !self.eat_w("x") {
                    self.fail("vector");
                }
                let t = self.ty();
                self.expect('>');
                Ty::Vector(n, Rc::new(t))
            }
            _ => {
                self.i -= 1;
                self.fail("type")
            }
        }
    }
    fn int(&mut self) -> i128 {
        match self.next() {
            Tok::W(w) => match w.parse::<i128>() {
                Ok(v) => v,
                Err(_) => match w.parse::<u128>() {
                    Ok(v) => v as i128,
                    Err(_) => self.fail("integer"),
                },
            },
            _ => self.fail("integer"),
        }
    }
    fn reg(&mut self, n: &'static str) -> u32 {
        let r = self.regs.as_mut().expect("register in constant");
        let k = r.len() as u32;
        *r.entry(n).or_insert(k)
    }
    fn skip_attrs(&mut self) {
        // parameter attributes between type and value
        loop {
            match self.peek() {
                Some(Tok::W(w)) => match w {
                    "align" => {
                        self.i += 1;
                        if self.peek() == Some(Tok::P('(')) {
                            self.balanced();
                        } else {
                            self.i += 1;
                        }
                    }
                    "noundef" | "nonnull" | "noalias" | "readonly" | "readnone" | "writeonly" | "zeroext" | "signext" | "inreg"
                    | "nocapture" | "returned" | "immarg" | "allocalign" | "allocptr" | "writable" | "dead_on_unwind" | "nofree"
                    | "swiftself" | "nest" | "dead_on_return" => {
                        self.i += 1;
                        if self.peek() == Some(Tok::P('(')) {
                            self.balanced();
                        }
                    }
                    "captures" | "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "initializes" | "nofpclass"
                    | "elementtype" | "inalloca" | "preallocated" => {
                        self.i += 1;
                        self.balanced();
                    }
                    _ => return,
                },
                _ => return,
            }
        }
    }
    /// A value of the given type.
    pub fn val(&mut self, t: &Ty) -> Opnd {
        match self.peek() {
            Some(Tok::L(n)) => {
                self.i += 1;
                Opnd::R(self.reg(n))
            }
            _ => Opnd::K(self.konst(t)),
        }
    }
    pub fn konst(&mut self, t: &Ty) -> Val {
        match self.next() {
            Tok::G(n) => Val::S(c(64, self.m.addr_of(n).unwrap_or_else(|| self.fail("unknown global")) as u128)),
            Tok::C(s) => Val::Agg(Rc::new(cstring(s).into_iter().map(|x| Val::S(c(8, x as u128))).collect())),
            Tok::P('{') => {
                let mut f = vec![];
                while !self.eat('}') {
                    let t = self.ty();
                    f.push(self.konst(&t));
                    self.eat(',');
                }
                Val::Agg(Rc::new(f))
            }
            Tok::P('[') => {
                let mut f = vec![];
                while !self.eat(']') {
                    let t = self.ty();
                    f.push(self.konst(&t));
                    self.eat(',');
                }
                Val::Agg(Rc::new(f))
            }
            Tok::P('<') => {
                let packed = self.eat('{');
                let mut f = vec![];
                loop {
                    if packed && self.eat('}') {
                        self.expect('>');
                        break;
                    }
                    if !packed && self.eat('>') {
                        break;
                    }
                    let t = self.ty();
                    f.push(self.konst(&t));
                    self.eat(',');
                }
                Val::Agg(Rc::new(f))
            }
            Tok::W(w) => match w {
                "true" => Val::S(c(1, 1)),
                "false" => Val::S(c(1, 0)),
                "null" => Val::S(c(64, 0)),
                "undef" | "poison" | "zeroinitializer" | "none" => zero(t),
                "splat" => {
                    self.expect('(');
                    let et = self.ty();
                    let v = self.konst(&et);
                    self.expect(')');
                    match t {
                        Ty::Vector(n, _) => Val::Agg(Rc::new((0..*n).map(|_| v.clone()).collect())),
                        _ => self.fail("splat"),
                    }
                }
                "getelementptr" => {
                    while let Some(Tok::W(x)) = self.peek() {
                        if x == "inrange" {
                            self.i += 1;
                            self.balanced();
                        } else {
                            self.i += 1;
                        }
                    }
                    self.expect('(');
                    let et = self.ty();
                    self.expect(',');
                    let _ = self.ty();
                    let base = self.konst(&Ty::Ptr).v().k().unwrap() as u64;
                    let mut off = 0u64;
                    let mut cur = et.clone();
                    let mut first = true;
                    while self.eat(',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        let k = self.konst(&it).v();
                        let k = crate::expr::sx(k.w(), k.k().unwrap()) as i64;
                        if first {
                            off = off.wrapping_add((k as u64).wrapping_mul(cur.size()));
                            first = false;
                        } else {
                            let (o, nt) = match &cur {
                                Ty::Struct(..) => cur.field_offset(k as u64),
                                Ty::Array(_, e) => ((k as u64).wrapping_mul(e.size()), (**e).clone()),
                                _ => self.fail("gep"),
                            };
                            off = off.wrapping_add(o);
                            cur = nt;
                        }
                    }
                    self.expect(')');
                    Val::S(c(64, base.wrapping_add(off) as u128))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "sext" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.expect('(');
                    let st = self.ty();
                    let v = self.konst(&st);
                    if !self.eat_w("to") {
                        self.fail("cast");
                    }
                    let dt = self.ty();
                    self.expect(')');
                    if !dt.scalar() {
                        return v;
                    }
                    let v = v.v();
                    let r = if w == "sext" {
                        crate::expr::sext(v, dt.bits())
                    } else if v.w() < dt.bits() {
                        crate::expr::zext(v, dt.bits())
                    } else {
                        crate::expr::trunc(v, dt.bits())
                    };
                    Val::S(r)
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t1 = self.ty();
                    let a = self.konst(&t1).v();
                    self.expect(',');
                    let t2 = self.ty();
                    let b = self.konst(&t2).v();
                    self.expect(')');
                    use crate::expr as e;
                    Val::S(match w {
                        "add" => e::add(a, b),
                        "sub" => e::sub(a, b),
                        "xor" => e::xor(a, b),
                        "and" => e::and(a, b),
                        "or" => e::or(a, b),
                        _ => e::mul(a, b),
                    })
                }
                _ => match t {
                    Ty::Int(wd) => {
                        if let Some(h) = w.strip_prefix("u0x").or_else(|| w.strip_prefix("s0x")) {
                            return Val::S(c(*wd, u128::from_str_radix(h, 16).unwrap()));
                        }
                        self.i -= 1;
                        Val::S(c(*wd, self.int() as u128))
                    }
                    Ty::Float(wd) => {
                        if let Some(h) = w.strip_prefix("0x") {
                            let bits = u64::from_str_radix(h.trim_start_matches(|c| c == 'H' || c == 'K'), 16).unwrap_or(0);
                            if *wd == 32 {
                                return Val::S(c(32, (f64::from_bits(bits) as f32).to_bits() as u128));
                            }
                            return Val::S(c(*wd, bits as u128));
                        }
                        let f: f64 = w.parse().unwrap_or_else(|_| self.fail("float"));
                        if *wd == 32 {
                            Val::S(c(32, (f as f32).to_bits() as u128))
                        } else {
                            Val::S(c(*wd, f.to_bits() as u128))
                        }
                    }
                    _ => {
                        self.i -= 1;
                        self.fail("constant")
                    }
                },
            },
            _ => {
                self.i -= 1;
                self.fail("constant")
            }
        }
    }
    fn tyval(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        self.skip_attrs();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self, blocks: &HashMap<&'static str, u32>) -> u32 {
        if !self.eat_w("label") {
            self.fail("label");
        }
        match self.next() {
            Tok::L(n) => match blocks.get(n) {
                Some(b) => *b,
                None => self.fail("unknown label"),
            },
            _ => self.fail("label"),
        }
    }
}

fn cstring(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

impl Module {
    pub fn addr_of(&self, n: &str) -> Option<u64> {
        if let Some(&i) = self.gindex.get(n) {
            return Some(self.globals[i].addr);
        }
        if let Some(&a) = self.faddr.get(n) {
            return Some(a);
        }
        if let Some(t) = self.aliases.get(n) {
            return self.addr_of(t);
        }
        None
    }

    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ir").into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines,
            types: HashMap::new(),
            globals: vec![],
            gindex: HashMap::new(),
            faddr: HashMap::new(),
            fname: HashMap::new(),
            fline: HashMap::new(),
            aliases: HashMap::new(),
        };
        let n = m.lines.len();
        // Named types first, in order until fixpoint.
        let mut pend: Vec<(usize, &'static str)> = vec![];
        for i in 0..n {
            let l = m.lines[i];
            if l.starts_with('%') && l.contains(" = type ") {
                let t = lex(l);
                if let Tok::L(nm) = t[0] {
                    pend.push((i, nm));
                }
            }
        }
        for (i, nm) in pend {
            let l = m.lines[i];
            let t = lex(l);
            if t.len() > 3 && t[3] == Tok::W("opaque") {
                m.types.insert(nm, Ty::Other);
                continue;
            }
            let mut cur = Cur { t, i: 3, m: &m, regs: None, line: l };
            let ty = cur.ty();
            m.types.insert(nm, ty);
        }
        let mut fa = FN_BASE;
        for i in 0..n {
            let l = m.lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').unwrap();
                let t = lex(&l[at..]);
                let Tok::G(nm) = t[0] else { panic!("function name") };
                m.faddr.insert(nm, fa);
                m.fname.insert(fa, nm);
                fa += 16;
                if l.starts_with("define ") {
                    m.fline.insert(nm, i);
                }
            }
        }
        let mut ga = 0x1000_0000u64;
        for i in 0..n {
            let l = m.lines[i];
            if !l.starts_with('@') {
                continue;
            }
            let t = lex(l);
            let Tok::G(nm) = t[0] else { continue };
            let mut cur = Cur { t, i: 2, m: &m, regs: None, line: l };
            let mut constant = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match cur.next() {
                    Tok::W("global") => break,
                    Tok::W("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::W("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::W("external") | Tok::W("extern_weak") => external = true,
                    Tok::P('(') => {
                        cur.i -= 1;
                        cur.balanced();
                    }
                    _ => {}
                }
            }
            if alias {
                let mut target = None;
                for t in &cur.t[cur.i..] {
                    if let Tok::G(x) = t {
                        target = Some(*x);
                    }
                }
                let x = target.unwrap();
                m.aliases.insert(nm, x);
                continue;
            }
            let ty = cur.ty();
            let mut align = ty.align();
            for k in (0..cur.t.len().saturating_sub(1)).rev() {
                if cur.t[k] == Tok::W("align") {
                    if let Tok::W(x) = cur.t[k + 1] {
                        if let Ok(v) = x.parse() {
                            align = v;
                        }
                    }
                    break;
                }
            }
            let size = ty.size();
            ga = (ga + 64).next_multiple_of(align.max(1));
            // keep addresses from being more aligned than promised
            if align < 4096 && ga % (align * 2) == 0 {
                ga += align;
            }
            let g = Global { addr: ga, size, align, constant, ty, init: if external { None } else { Some(i) } };
            ga += size;
            m.gindex.insert(nm, m.globals.len());
            m.globals.push(g);
        }
        m
    }

    pub fn global_init(&self, gi: usize) -> Option<Val> {
        let g = &self.globals[gi];
        let li = g.init?;
        let l = self.lines[li];
        let t = lex(l);
        let mut cur = Cur { t, i: 2, m: self, regs: None, line: l };
        loop {
            match cur.next() {
                Tok::W("global") | Tok::W("constant") => break,
                Tok::P('(') => {
                    cur.i -= 1;
                    cur.balanced();
                }
                _ => {}
            }
        }
        let ty = cur.ty();
        Some(cur.konst(&ty))
    }

    /// Resolve location metadata to (file, function, line).
    pub fn locations(&self, ids: &std::collections::BTreeSet<u32>) -> std::collections::BTreeSet<(String, String, u32)> {
        let mut md: HashMap<u32, &'static str> = HashMap::new();
        for l in &self.lines {
            if let Some(r) = l.strip_prefix('!') {
                if let Some((n, rest)) = r.split_once(" = ") {
                    if let Ok(n) = n.parse() {
                        md.insert(n, rest);
                    }
                }
            }
        }
        fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
            for pre in ["(", ", "] {
                let pat = format!("{}{}: ", pre, k);
                if let Some(p) = s.find(&pat) {
                    let r = &s[p + pat.len()..];
                    if let Some(q) = r.strip_prefix('"') {
                        return q.find('"').map(|e| &q[..e]);
                    }
                    let e = r.find([',', ')']).unwrap_or(r.len());
                    return Some(&r[..e]);
                }
            }
            None
        }
        let reff = |s: &str| -> Option<u32> { s.strip_prefix('!')?.parse().ok() };
        let mut out = std::collections::BTreeSet::new();
        for id in ids {
            let mut cur = Some(*id);
            while let Some(i) = cur {
                let Some(t) = md.get(&i) else { break };
                let line: u32 = field(t, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
                cur = field(t, "inlinedAt").and_then(reff);
                let mut sc = field(t, "scope").and_then(reff);
                let mut hops = 0;
                while let Some(si) = sc {
                    hops += 1;
                    let Some(st) = md.get(&si) else { break };
                    if st.contains("DISubprogram(") {
                        let name = field(st, "linkageName").or(field(st, "name")).unwrap_or("?");
                        let file = field(st, "file").and_then(reff).and_then(|f| md.get(&f)).map(|f| {
                            let n = field(f, "filename").unwrap_or("?");
                            let n = n.split("/@/").next().unwrap_or(n);
                            if n.starts_with('/') {
                                n.to_string()
                            } else {
                                format!("{}/{}", field(f, "directory").unwrap_or(""), n)
                            }
                        });
                        out.insert((file.unwrap_or_default(), name.to_string(), line));
                        break;
                    }
                    if hops > 60 {
                        break;
                    }
                    sc = field(st, "scope").and_then(reff);
                }
            }
        }
        out
    }

    pub fn parse_func(&self, name: &str) -> Option<Func> {
        let name = self.aliases.get(name).copied().unwrap_or(name);
        let start = *self.fline.get(name)?;
        let mut regs: HashMap<&'static str, u32> = HashMap::new();
        // header
        let l = self.lines[start];
        let at = l.find('@').unwrap();
        let t = lex(&l[at..]);
        let mut params = vec![];
        {
            let mut cur = Cur { t, i: 1, m: self, regs: Some(&mut regs), line: l };
            cur.expect('(');
            let mut depth = 1;
            let mut last: Option<&'static str> = None;
            loop {
                match cur.next() {
                    Tok::P('(') | Tok::P('[') | Tok::P('{') | Tok::P('<') => depth += 1,
                    Tok::P(']') | Tok::P('}') | Tok::P('>') => depth -= 1,
                    Tok::P(')') => {
                        depth -= 1;
                        if depth == 0 {
                            if let Some(n) = last.take() {
                                let r = cur.reg(n);
                                params.push(r);
                            }
                            break;
                        }
                    }
                    Tok::P(',') if depth == 1 => {
                        let n = last.take().expect("parameter name");
                        let r = cur.reg(n);
                        params.push(r);
                    }
                    Tok::L(n) if depth == 1 => last = Some(n),
                    _ => {}
                }
            }
        }
        // collect logical lines and labels
        let mut blocks: HashMap<&'static str, u32> = HashMap::new();
        let mut body: Vec<(u32, String)> = vec![];
        let mut i = start + 1;
        let mut cur_b: Option<u32> = None;
        let mut nb = 0u32;
        while self.lines[i] != "}" {
            let l = self.lines[i];
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let nm: &'static str = if let Some(r) = l.strip_prefix('"') {
                    &r[..r.find('"').unwrap()]
                } else {
                    &l[..l.find(':').unwrap()]
                };
                blocks.insert(nm, nb);
                cur_b = Some(nb);
                nb += 1;
                continue;
            }
            if l.trim_start().starts_with("#dbg") {
                continue;
            }
            if cur_b.is_none() {
                // unnamed entry block
                cur_b = Some(0);
                nb = 1;
            }
            let cont = l.starts_with("   ") || l.starts_with("  ]");
            if cont {
                let last = body.last_mut().unwrap();
                last.1.push(' ');
                last.1.push_str(l);
            } else {
                body.push((cur_b.unwrap(), l.to_string()));
            }
        }
        let mut out: Vec<Block> = (0..nb).map(|_| Block::default()).collect();
        for (bi, text) in body {
            let s: &'static str = Box::leak(text.into_boxed_str());
            let t = lex(s);
            if let Some(p) = s.rfind("!dbg !") {
                let n: String = s[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = n.parse() {
                    out[bi as usize].dbg.push(n);
                }
            }
            let mut cur = Cur { t, i: 0, m: self, regs: Some(&mut regs), line: s };
            self.instr(&mut cur, &mut out[bi as usize], &blocks);
        }
        Some(Func { name: Rc::from(name), params, nregs: regs.len(), blocks: out })
    }

    fn instr(&self, c: &mut Cur, b: &mut Block, blocks: &HashMap<&'static str, u32>) {
        let mut dst = None;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (c.t.first().copied(), c.t.get(1).copied()) {
            dst = Some(c.reg(n));
            c.i = 2;
        }
        let Tok::W(mut op) = c.next() else { c.fail("opcode") };
        if matches!(op, "tail" | "musttail" | "notail") {
            let Tok::W(o) = c.next() else { c.fail("opcode") };
            op = o;
        }
        let d = dst.unwrap_or(u32::MAX);
        let bin = |o: &str| -> Option<Bin> {
            Some(match o {
                "add" => Bin::Add,
                "sub" => Bin::Sub,
                "mul" => Bin::Mul,
                "udiv" => Bin::UDiv,
                "sdiv" => Bin::SDiv,
                "urem" => Bin::URem,
                "srem" => Bin::SRem,
                "and" => Bin::And,
                "or" => Bin::Or,
                "xor" => Bin::Xor,
                "shl" => Bin::Shl,
                "lshr" => Bin::LShr,
                "ashr" => Bin::AShr,
                _ => return None,
            })
        };
        if let Some(bop) = bin(op) {
            while matches!(c.peek(), Some(Tok::W("nuw" | "nsw" | "exact" | "disjoint"))) {
                c.i += 1;
            }
            let t = c.ty();
            let x = c.val(&t);
            c.expect(',');
            let y = c.val(&t);
            b.ins.push(I::Bin(bop, d, x, y));
            return;
        }
        match op {
            "icmp" => {
                c.eat_w("samesign");
                let Tok::W(p) = c.next() else { c.fail("predicate") };
                let p = match p {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => c.fail("predicate"),
                };
                let t = c.ty();
                let x = c.val(&t);
                c.expect(',');
                let y = c.val(&t);
                b.ins.push(I::Icmp(p, d, x, y));
            }
            "select" => {
                let (_, x) = c.tyval();
                c.expect(',');
                let (_, y) = c.tyval();
                c.expect(',');
                let (_, z) = c.tyval();
                b.ins.push(I::Select(d, x, y, z));
            }
            "load" => {
                while c.eat_w("atomic") || c.eat_w("volatile") {}
                let t = c.ty();
                c.expect(',');
                let (_, p) = c.tyval();
                let al = self.find_align(c, &t);
                b.ins.push(I::Load(d, t, p, al));
            }
            "store" => {
                while c.eat_w("atomic") || c.eat_w("volatile") {}
                let (t, v) = c.tyval();
                c.expect(',');
                let (_, p) = c.tyval();
                let al = self.find_align(c, &t);
                b.ins.push(I::Store(t, v, p, al));
            }
            "getelementptr" => {
                while matches!(c.peek(), Some(Tok::W("inbounds" | "nuw" | "nusw"))) {
                    c.i += 1;
                }
                let et = c.ty();
                c.expect(',');
                let (_, base) = c.tyval();
                let mut koff = 0u64;
                let mut terms = vec![];
                let mut cur = et;
                let mut first = true;
                while c.peek() == Some(Tok::P(',')) {
                    if matches!(c.t.get(c.i + 1), Some(Tok::M)) {
                        break;
                    }
                    c.i += 1;
                    let it = c.ty();
                    let v = c.val(&it);
                    let scale;
                    if first {
                        scale = cur.size();
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let Opnd::K(k) = &v else { c.fail("struct gep") };
                                let (o, nt) = cur.field_offset(k.v().k().unwrap() as u64);
                                koff = koff.wrapping_add(o);
                                cur = nt;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                scale = e.size();
                                let nt = (**e).clone();
                                cur = nt;
                            }
                            _ => c.fail("gep type"),
                        }
                    }
                    match v {
                        Opnd::K(k) => {
                            let k = k.v();
                            let k = crate::expr::sx(k.w(), k.k().unwrap()) as i64 as u64;
                            koff = koff.wrapping_add(k.wrapping_mul(scale));
                        }
                        r => terms.push((r, scale)),
                    }
                }
                b.ins.push(I::Gep(d, base, koff, terms));
            }
            "zext" | "sext" | "trunc" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "addrspacecast" => {
                while matches!(c.peek(), Some(Tok::W("nneg" | "nuw" | "nsw"))) {
                    c.i += 1;
                }
                let (st, v) = c.tyval();
                if !c.eat_w("to") {
                    c.fail("cast");
                }
                let dt = c.ty();
                let k = match op {
                    "sext" => Cast::SExt,
                    "bitcast" => Cast::Bit,
                    _ => {
                        let bits = |t: &Ty| match t {
                            Ty::Vector(_, e) => e.bits(),
                            t => t.bits(),
                        };
                        if bits(&dt) >= bits(&st) {
                            Cast::ZExt
                        } else {
                            Cast::Trunc
                        }
                    }
                };
                b.ins.push(I::Cast(k, d, v, st, dt));
            }
            "freeze" => {
                let (t, v) = c.tyval();
                let _ = t;
                b.ins.push(I::Freeze(d, v));
            }
            "alloca" => {
                let t = c.ty();
                let mut n = 1u64;
                let mut al = t.align();
                while c.eat(',') {
                    if c.eat_w("align") {
                        al = c.int() as u64;
                    } else if c.is_type() {
                        let (_, v) = c.tyval();
                        match v {
                            Opnd::K(k) => n = k.v().k().unwrap() as u64,
                            _ => {
                                b.ins.push(I::Unsupported("dynamic alloca".into()));
                                return;
                            }
                        }
                    } else {
                        break;
                    }
                }
                b.ins.push(I::Alloca(d, t.size() * n, al));
            }
            "call" | "invoke" => {
                // skip flags, calling convention, return attributes
                while !c.is_type() {
                    match c.next() {
                        Tok::P('(') => {
                            c.i -= 1;
                            c.balanced();
                        }
                        Tok::W(_) | Tok::S(_) | Tok::M => {}
                        _ => c.fail("call"),
                    }
                }
                let rt = c.ty();
                if c.peek() == Some(Tok::P('(')) {
                    c.balanced();
                }
                let callee = match c.next() {
                    Tok::G(n) => Callee::Direct(Rc::from(n), std::cell::Cell::new(u32::MAX)),
                    Tok::L(n) => Callee::Indirect(Opnd::R(c.reg(n))),
                    Tok::W("asm") => {
                        while !matches!(c.peek(), Some(Tok::P('('))) {
                            c.i += 1;
                        }
                        Callee::Asm
                    }
                    Tok::W(_) => {
                        c.i -= 1;
                        let v = c.konst(&Ty::Ptr);
                        Callee::Indirect(Opnd::K(v))
                    }
                    _ => c.fail("callee"),
                };
                let mut args = vec![];
                c.expect('(');
                while !c.eat(')') {
                    if c.eat(',') {
                        continue;
                    }
                    if c.peek() == Some(Tok::W("metadata")) {
                        // skip to the end of this argument
                        let mut depth = 0;
                        loop {
                            match c.peek() {
                                Some(Tok::P('(')) => depth += 1,
                                Some(Tok::P(')')) => {
                                    if depth == 0 {
                                        break;
                                    }
                                    depth -= 1;
                                }
                                Some(Tok::P(',')) if depth == 0 => break,
                                None => c.fail("metadata"),
                                _ => {}
                            }
                            c.i += 1;
                        }
                        continue;
                    }
                    args.push(c.tyval());
                }
                let mut normal = None;
                if op == "invoke" {
                    while !matches!(c.peek(), Some(Tok::W("to"))) {
                        c.i += 1;
                    }
                    c.i += 1;
                    normal = Some(c.label(blocks));
                }
                b.ins.push(I::Call(dst, callee, args, rt, normal));
            }
            "extractvalue" => {
                let (_, v) = c.tyval();
                let mut ix = vec![];
                while c.peek() == Some(Tok::P(',')) && !matches!(c.t.get(c.i + 1), Some(Tok::M)) {
                    c.i += 1;
                    ix.push(c.int() as u32);
                }
                b.ins.push(I::ExtractValue(d, v, ix));
            }
            "insertvalue" => {
                let (_, v) = c.tyval();
                c.expect(',');
                let (_, e) = c.tyval();
                let mut ix = vec![];
                while c.peek() == Some(Tok::P(',')) && !matches!(c.t.get(c.i + 1), Some(Tok::M)) {
                    c.i += 1;
                    ix.push(c.int() as u32);
                }
                b.ins.push(I::InsertValue(d, v, e, ix));
            }
            "extractelement" => {
                let (_, v) = c.tyval();
                c.expect(',');
                let (_, i) = c.tyval();
                b.ins.push(I::ExtractElement(d, v, i));
            }
            "insertelement" => {
                let (_, v) = c.tyval();
                c.expect(',');
                let (_, e) = c.tyval();
                c.expect(',');
                let (_, i) = c.tyval();
                b.ins.push(I::InsertElement(d, v, e, i));
            }
            "shufflevector" => {
                let (_, x) = c.tyval();
                c.expect(',');
                let (_, y) = c.tyval();
                c.expect(',');
                let mt = c.ty();
                let m = c.konst(&mt);
                let mask = m.agg().iter().map(|v| Some(v.v().k().unwrap() as u32)).collect();
                b.ins.push(I::Shuffle(d, x, y, mask));
            }
            "phi" => {
                let t = c.ty();
                let mut inc = vec![];
                loop {
                    c.expect('[');
                    let v = c.val(&t);
                    c.expect(',');
                    let Tok::L(n) = c.next() else { c.fail("phi") };
                    c.expect(']');
                    // an entry block without label goes by the next free number
                    let from = blocks.get(n).copied().unwrap_or_else(|| {
                        assert!(n.bytes().all(|b| b.is_ascii_digit()), "phi: no block {:?}", n);
                        0
                    });
                    inc.push((from, v));
                    if !(c.peek() == Some(Tok::P(',')) && c.t.get(c.i + 1) == Some(&Tok::P('['))) {
                        break;
                    }
                    c.i += 1;
                }
                b.phis.push((d, inc));
            }
            "br" => {
                if c.peek() == Some(Tok::W("label")) {
                    let l = c.label(blocks);
                    b.ins.push(I::Br(l));
                } else {
                    let (_, v) = c.tyval();
                    c.expect(',');
                    let l1 = c.label(blocks);
                    c.expect(',');
                    let l2 = c.label(blocks);
                    b.ins.push(I::CondBr(v, l1, l2));
                }
            }
            "switch" => {
                let (t, v) = c.tyval();
                c.expect(',');
                let dl = c.label(blocks);
                c.expect('[');
                let mut cs = vec![];
                let _ = t;
                while !c.eat(']') {
                    let ct = c.ty();
                    let k = c.konst(&ct).v().k().unwrap();
                    c.expect(',');
                    cs.push((k, c.label(blocks)));
                }
                b.ins.push(I::Switch(v, dl, cs));
            }
            "ret" => {
                let t = c.ty();
                if t == Ty::Void {
                    b.ins.push(I::Ret(None));
                } else {
                    let v = c.val(&t);
                    b.ins.push(I::Ret(Some(v)));
                }
            }
            "unreachable" => b.ins.push(I::Unreachable),
            "landingpad" | "resume" | "cleanuppad" => b.ins.push(I::Unsupported(op.into())),
            "fence" => b.ins.push(I::Nop),
            "atomicrmw" => {
                c.eat_w("volatile");
                let Tok::W(k) = c.next() else { c.fail("rmw") };
                let (_, p) = c.tyval();
                c.expect(',');
                let (t, v) = c.tyval();
                b.ins.push(I::AtomicRmw(d, k.into(), t, p, v));
            }
            "cmpxchg" => {
                while c.eat_w("weak") || c.eat_w("volatile") {}
                let (_, p) = c.tyval();
                c.expect(',');
                let (t, x) = c.tyval();
                c.expect(',');
                let (_, y) = c.tyval();
                b.ins.push(I::CmpXchg(d, t, p, x, y));
            }
            _ => b.ins.push(I::Unsupported(op.into())),
        }
    }

    fn find_align(&self, c: &mut Cur, t: &Ty) -> u64 {
        while c.i < c.t.len() {
            if c.eat_w("align") {
                return c.int() as u64;
            }
            c.i += 1;
        }
        t.align()
    }
}
