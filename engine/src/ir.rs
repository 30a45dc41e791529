//! Reader for the textual LLVM IR that rustc emits; functions are decoded on first use.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Arr(u64, Rc<Ty>), Vec(u32, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Label, Meta }

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta => 0,
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; if b <= 1 { 1 } else if b <= 2 { 2 } else if b <= 4 { 4 } else if b <= 8 { 8 } else { (b + 15) / 16 * 16 } }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => { if **t == Ty::Int(1) { (*n as u64 + 7) / 8 } else { *n as u64 * t.size() } }
            Ty::Struct(f, packed) => {
                let mut o = 0;
                let mut al = 1;
                for t in f.iter() { if !packed { let a = t.align(); al = al.max(a); o = (o + a - 1) / a * a; } o += t.size(); }
                (o + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => self.size().max(1).min(16),
        }
    }
    pub fn field_off(&self, k: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (i, t) in f.iter().enumerate() { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } if i == k { return o; } o += t.size(); }
                panic!("field")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => k as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    /// scalar bit width (0 for aggregates)
    pub fn bits(&self) -> u8 { match self { Ty::Int(n) => *n as u8, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 } }
    pub fn elem(&self, k: usize) -> Ty {
        match self { Ty::Struct(f, _) => f[k].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => panic!("elem") }
    }
    pub fn count(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val { C(u64), E(u32), Agg(Rc<Vec<Val>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val), Wide(u128, u8) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { ZExt, SExt, Trunc, Bit, FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Opd), Asm }

#[derive(Debug)]
pub enum Inst {
    Bin { d: u32, op: BinK, ty: Ty, a: Opd, b: Opd },
    FNeg { d: u32, ty: Ty, a: Opd },
    ICmp { d: u32, p: Pred, ty: Ty, a: Opd, b: Opd },
    FCmp { d: u32, p: String, ty: Ty, a: Opd, b: Opd },
    Select { d: u32, cty: Ty, c: Opd, ty: Ty, a: Opd, b: Opd },
    Cast { d: u32, op: CastK, from: Ty, to: Ty, a: Opd },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u8, i64)> },
    Load { d: u32, ty: Ty, p: Opd },
    Store { ty: Ty, v: Opd, p: Opd },
    Alloca { d: u32, size: u64, n: Opd },
    Call { d: u32, ret: Ty, f: Callee, args: Vec<(Ty, Opd)>, next: Option<u32> },
    Br { t: u32 },
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { ty: Ty, v: Opd, def: u32, cases: Vec<(u64, u32)> },
    Ret { v: Option<(Ty, Opd)> },
    Unreachable,
    ExtractV { d: u32, a: Opd, idx: Vec<u32> },
    InsertV { d: u32, ty: Ty, a: Opd, v: Opd, idx: Vec<u32> },
    ExtractE { d: u32, a: Opd, i: Opd },
    InsertE { d: u32, ty: Ty, a: Opd, v: Opd, i: Opd },
    Shuffle { d: u32, ty: Ty, a: Opd, b: Opd, m: Vec<i64> },
    Rmw { d: u32, op: String, ty: Ty, p: Opd, v: Opd },
    CmpXchg { d: u32, ty: Ty, p: Opd, c: Opd, n: Opd },
    Copy { d: u32, a: Opd },
    Nop,
    Bad(String),
}

#[derive(Debug)]
pub struct Phi { pub d: u32, pub ty: Ty, pub inc: Vec<(u32, Opd)> }
#[derive(Debug)]
pub struct Block { pub phis: Vec<Phi>, pub insts: Vec<Inst> }
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub args: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<u32>>,
    live: std::cell::OnceCell<Vec<Vec<u64>>>,
    rpo: std::cell::OnceCell<Rc<Vec<u32>>>,
    tys: std::cell::OnceCell<Vec<Ty>>,
}
impl Func {
    /// Registers live on entry to each block (bit sets), phi results excluded.
    pub fn live_in(&self, b: u32) -> &Vec<u64> { &self.live.get_or_init(|| liveness(self))[b as usize] }
    /// Position of each block in reverse postorder.
    pub fn rpo(&self) -> &Rc<Vec<u32>> {
        self.rpo.get_or_init(|| {
            let n = self.blocks.len();
            let (mut seen, mut post) = (vec![false; n], vec![]);
            let mut stack = vec![(0usize, 0usize)];
            seen[0] = true;
            while let Some((v, k)) = stack.pop() {
                let s = succs(&self.blocks[v]);
                if k < s.len() { stack.push((v, k + 1)); let u = s[k] as usize; if !seen[u] { seen[u] = true; stack.push((u, 0)); } } else { post.push(v); }
            }
            let mut r = vec![u32::MAX; n];
            for (i, v) in post.iter().rev().enumerate() { r[*v] = i as u32; }
            Rc::new(r)
        })
    }
    pub fn reg_ty(&self, r: u32) -> &Ty {
        &self.tys.get_or_init(|| {
            let mut t = vec![Ty::Ptr; self.nregs as usize];
            for b in &self.blocks {
                for p in &b.phis { t[p.d as usize] = p.ty.clone(); }
                for i in &b.insts {
                    match i {
                        Inst::Bin { d, ty, .. } | Inst::FNeg { d, ty, .. } | Inst::Load { d, ty, .. } | Inst::Select { d, ty, .. } | Inst::Cast { d, to: ty, .. } | Inst::Rmw { d, ty, .. } | Inst::InsertV { d, ty, .. } => if *d != u32::MAX { t[*d as usize] = ty.clone() },
                        Inst::Call { d, ret, .. } => if *d != u32::MAX { t[*d as usize] = ret.clone() },
                        Inst::ICmp { d, ty, .. } | Inst::FCmp { d, ty, .. } => t[*d as usize] = match ty { Ty::Vec(n, _) => Ty::Vec(*n, Rc::new(Ty::Int(1))), _ => Ty::Int(1) },
                        _ => {}
                    }
                }
            }
            t
        })[r as usize]
    }
}
fn liveness(f: &Func) -> Vec<Vec<u64>> {
    let nw = (f.nregs as usize + 63) / 64;
    let n = f.blocks.len();
    let mut gen = vec![vec![0u64; nw]; n];
    let mut kill = vec![vec![0u64; nw]; n];
    let mut edge: Vec<Vec<u64>> = vec![vec![0u64; nw]; n]; // used by phis of successors on the edge out of the block
    let set = |v: &mut Vec<u64>, r: u32| v[r as usize / 64] |= 1 << (r % 64);
    for (k, b) in f.blocks.iter().enumerate() {
        for p in &b.phis { set(&mut kill[k], p.d); for (from, o) in &p.inc { if let Opd::R(r) = o { set(&mut edge[*from as usize], *r); } } }
        for i in &b.insts {
            let kk = kill[k].clone();
            uses(i, &mut |r| if kk[r as usize / 64] >> (r % 64) & 1 == 0 { gen[k][r as usize / 64] |= 1 << (r % 64) });
            if let Some(d) = def(i) { set(&mut kill[k], d); }
        }
    }
    let mut live = gen.clone();
    let mut ch = true;
    while ch {
        ch = false;
        for k in (0..n).rev() {
            let mut out = edge[k].clone();
            for s in succs(&f.blocks[k]) { for w in 0..nw { out[w] |= live[s as usize][w]; } }
            for w in 0..nw { let v = gen[k][w] | (out[w] & !kill[k][w]); if v != live[k][w] { live[k][w] = v; ch = true; } }
        }
    }
    live
}
fn def(i: &Inst) -> Option<u32> {
    let d = match i {
        Inst::Bin { d, .. } | Inst::FNeg { d, .. } | Inst::ICmp { d, .. } | Inst::FCmp { d, .. } | Inst::Select { d, .. } | Inst::Cast { d, .. } | Inst::Gep { d, .. } | Inst::Load { d, .. } | Inst::Alloca { d, .. } | Inst::Call { d, .. }
        | Inst::ExtractV { d, .. } | Inst::InsertV { d, .. } | Inst::ExtractE { d, .. } | Inst::InsertE { d, .. } | Inst::Shuffle { d, .. } | Inst::Rmw { d, .. } | Inst::CmpXchg { d, .. } | Inst::Copy { d, .. } => *d,
        _ => return None,
    };
    if d == u32::MAX { None } else { Some(d) }
}
fn uses(i: &Inst, g: &mut dyn FnMut(u32)) {
    let mut u = |o: &Opd| if let Opd::R(r) = o { g(*r) };
    match i {
        Inst::Bin { a, b, .. } | Inst::ICmp { a, b, .. } | Inst::FCmp { a, b, .. } | Inst::Shuffle { a, b, .. } => { u(a); u(b) }
        Inst::FNeg { a, .. } | Inst::Cast { a, .. } | Inst::ExtractV { a, .. } | Inst::Copy { a, .. } => u(a),
        Inst::Select { c, a, b, .. } => { u(c); u(a); u(b) }
        Inst::Gep { base, idx, .. } => { u(base); for x in idx { u(&x.0) } }
        Inst::Load { p, .. } => u(p),
        Inst::Store { v, p, .. } | Inst::Rmw { v, p, .. } => { u(v); u(p) }
        Inst::Alloca { n, .. } => u(n),
        Inst::Call { f, args, .. } => { if let Callee::Ind(o) = f { u(o) } for x in args { u(&x.1) } }
        Inst::CondBr { c, .. } => u(c),
        Inst::Switch { v, .. } => u(v),
        Inst::Ret { v } => if let Some((_, o)) = v { u(o) },
        Inst::InsertV { a, v, .. } => { u(a); u(v) }
        Inst::ExtractE { a, i, .. } => { u(a); u(i) }
        Inst::InsertE { a, v, i, .. } => { u(a); u(v); u(i) }
        Inst::CmpXchg { p, c, n, .. } => { u(p); u(c); u(n) }
        Inst::Br { .. } | Inst::Unreachable | Inst::Nop | Inst::Bad(_) => {}
    }
}

pub struct GlobalDef { pub name: String, pub line: (usize, usize), pub constant: bool, pub external: bool, pub tls: bool, pub ty: Option<Ty> }
pub struct Module {
    pub text: Rc<String>,
    pub globals: Vec<GlobalDef>,
    pub gidx: HashMap<String, u32>,
    pub fnames: Vec<String>,
    pub fidx: HashMap<String, u32>,
    pub fbody: Vec<Option<(usize, usize)>>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, String>,
}

pub const GBASE: u64 = 0x0010_0000; // global g lives at (GBASE+g)<<32
pub const FBASE: u64 = 0x4000_0000_0000_0000;
pub fn gaddr(g: u32) -> u64 { (GBASE + g as u64) << 32 }
pub fn faddr(f: u32) -> u64 { FBASE + 16 * (f as u64 + 1) }

fn name_at(s: &[u8], mut i: usize) -> (String, usize) {
    // s[i] is the first char after @ or %
    if i < s.len() && s[i] == b'"' {
        let st = i + 1;
        i = st;
        while s[i] != b'"' { i += 1; }
        return (String::from_utf8_lossy(&s[st..i]).into_owned(), i + 1);
    }
    let st = i;
    while i < s.len() && (s[i].is_ascii_alphanumeric() || matches!(s[i], b'_' | b'.' | b'$' | b'-')) { i += 1; }
    (String::from_utf8_lossy(&s[st..i]).into_owned(), i)
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = Rc::new(std::fs::read_to_string(path).expect("read ll"));
        let mut m = Module { text: text.clone(), globals: vec![], gidx: HashMap::new(), fnames: vec![], fidx: HashMap::new(), fbody: vec![], aliases: HashMap::new(), types: HashMap::new() };
        let b = text.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let e = memchr(b, i, b'\n');
            match b[i] {
                b'@' => {
                    let (n, j) = name_at(b, i + 1);
                    let l = &text[j..e];
                    let l = l.trim_start_matches(' ').trim_start_matches('=').trim_start();
                    let mut constant = false; let mut external = false; let mut alias = false; let mut tls = false;
                    for wd in l.split_ascii_whitespace() {
                        if wd == "constant" { constant = true; break; }
                        if wd == "global" { break; }
                        if wd == "external" { external = true; }
                        if wd.starts_with("thread_local") { tls = true; }
                        if wd == "alias" { alias = true; break; }
                    }
                    if alias {
                        let at = l.rfind('@').unwrap();
                        let (t, _) = name_at(l.as_bytes(), at + 1);
                        m.aliases.insert(n, t);
                    } else {
                        m.gidx.insert(n.clone(), m.globals.len() as u32);
                        m.globals.push(GlobalDef { name: n, line: (j, e), constant, external, tls, ty: None });
                    }
                }
                b'%' => {
                    let (n, j) = name_at(b, i + 1);
                    if let Some(k) = text[j..e].find("type ") { m.types.insert(n, text[j + k + 5..e].to_string()); }
                }
                b'd' if text[i..e].starts_with("define ") || text[i..e].starts_with("declare ") => {
                    let def = text[i..e].starts_with("define ");
                    // callee name: the first '@' (attributes before it may not contain one)
                    let at = i + text[i..e].find('@').unwrap();
                    let (n, _) = name_at(b, at + 1);
                    let id = m.fnames.len() as u32;
                    m.fidx.insert(n.clone(), id);
                    m.fnames.push(n);
                    if def {
                        // body ends at "\n}\n"
                        let end = e + text[e..].find("\n}\n").map(|k| k + 1).unwrap_or(text.len() - e);
                        m.fbody.push(Some((i, end)));
                        i = end + 1;
                        continue;
                    }
                    m.fbody.push(None);
                }
                _ => {}
            }
            i = e + 1;
        }
        m
    }
    pub fn resolve_alias<'a>(&'a self, n: &'a str) -> &'a str { let mut n = n; while let Some(t) = self.aliases.get(n) { n = t; } n }
    pub fn addr_of(&self, n: &str) -> u64 {
        let n = self.resolve_alias(n);
        if let Some(&g) = self.gidx.get(n) { return gaddr(g); }
        if let Some(&f) = self.fidx.get(n) { return faddr(f); }
        panic!("unknown symbol @{}", n)
    }
    /// type and initial bytes of a global
    pub fn global_init(&mut self, g: u32) -> Vec<u8> {
        let (s, e) = self.globals[g as usize].line;
        let text = self.text.clone();
        let l = &text[s..e];
        let k = l.find(" constant ").map(|k| k + 10).or_else(|| l.find(" global ").map(|k| k + 8)).expect("global");
        let external = self.globals[g as usize].external;
        let mut p = P { s: &l.as_bytes()[k..], i: 0, m: self, regs: None };
        let ty = p.ty();
        let mut out = vec![0u8; ty.size() as usize];
        if !external { p.init(&ty, &mut out); }
        out
    }
    pub fn decode(&mut self, id: u32) -> Func {
        let (s, e) = self.fbody[id as usize].expect("no body");
        let text = self.text.clone();
        let body = &text[s..e];
        decode_fn(self, id, body)
    }
}
fn memchr(b: &[u8], i: usize, c: u8) -> usize { let mut k = i; while k < b.len() && b[k] != c { k += 1; } k }

struct Regs { map: HashMap<String, u32>, n: u32, blocks: HashMap<String, u32>, nb: u32 }
impl Regs {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.map.get(n) { return r; } let r = self.n; self.n += 1; self.map.insert(n.to_string(), r); r }
    fn block(&mut self, n: &str) -> u32 { if let Some(&r) = self.blocks.get(n) { return r; } let r = self.nb; self.nb += 1; self.blocks.insert(n.to_string(), r); r }
}
struct P<'a> { s: &'a [u8], i: usize, m: &'a Module, regs: Option<&'a mut Regs> }

const CEXPR: [&str; 24] = ["true", "false", "null", "undef", "poison", "zeroinitializer", "none", "splat", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sub", "add", "xor", "mul", "shl", "ptrtoaddr", "addrspacecast", "dso_local_equivalent", "no_cfi", "blockaddress"];

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n') { self.i += 1; }
            if !self.s[self.i..].starts_with(b"/*") { return; }
            while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") { self.i += 1; }
            self.i = (self.i + 2).min(self.s.len());
        }
    }
    fn pk(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.pk() == c { self.i += 1; true } else { false } }
    fn need(&mut self, c: u8) { if !self.eat(c) { panic!("expected '{}' at: {}", c as char, self.rest()) } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i..(self.i + 80).min(self.s.len())]).into_owned() }
    fn wordpk(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'_' | b'.' | b'-')) { j += 1; }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str { let w = self.wordpk(); self.i += w.len(); w }
    fn eatw(&mut self, w: &str) -> bool { if self.wordpk() == w { self.i += w.len(); true } else { false } }
    fn name(&mut self) -> String { let (n, j) = name_at(self.s, self.i + 1); self.i = j; n }
    fn int(&mut self) -> i128 {
        let w = self.word();
        if let Some(h) = w.strip_prefix("0x") { return u128::from_str_radix(h, 16).unwrap() as i128; }
        w.parse::<i128>().unwrap_or_else(|_| w.parse::<u128>().map(|x| x as i128).unwrap_or_else(|_| panic!("int '{}' {}", w, self.rest())))
    }
    fn balanced(&mut self) {
        // at '(' '[' '{' '<'
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            match c { b'(' | b'[' | b'{' | b'<' => d += 1, b')' | b']' | b'}' | b'>' => { d -= 1; } b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} }
            self.i += 1;
            if d == 0 { return; }
        }
    }
    fn type_start(&mut self) -> bool {
        match self.pk() {
            b'[' | b'<' | b'{' | b'%' => true,
            _ => { let w = self.wordpk(); matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "half" | "token" | "fp128") || (w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())) }
        }
    }
    fn skip_to_type(&mut self) {
        while !self.type_start() {
            let c = self.pk();
            if c == b'#' || c == b'!' { self.i += 1; continue; }
            let w = self.word();
            if w.is_empty() { panic!("skip_to_type: {}", self.rest()); }
            if self.i < self.s.len() && self.s[self.i] == b'(' { self.balanced(); }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.pk() {
            b'[' => { self.i += 1; let n = self.int() as u64; assert!(self.eatw("x")); let t = self.ty(); self.need(b']'); Ty::Arr(n, Rc::new(t)) }
            b'<' => {
                self.i += 1;
                if self.pk() == b'{' {
                    self.i += 1;
                    let mut v = vec![];
                    while self.pk() != b'}' { v.push(self.ty()); self.eat(b','); }
                    self.need(b'}'); self.need(b'>');
                    Ty::Struct(Rc::new(v), true)
                } else { let n = self.int() as u32; assert!(self.eatw("x")); let t = self.ty(); self.need(b'>'); Ty::Vec(n, Rc::new(t)) }
            }
            b'{' => { self.i += 1; let mut v = vec![]; while self.pk() != b'}' { v.push(self.ty()); self.eat(b','); } self.need(b'}'); Ty::Struct(Rc::new(v), false) }
            b'%' => {
                let n = self.name();
                let t = self.m.types.get(&n).unwrap_or_else(|| panic!("type %{}", n)).clone();
                let mut q = P { s: t.as_bytes(), i: 0, m: self.m, regs: None };
                q.ty()
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" => Ty::Meta, "token" => Ty::Void,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| panic!("type {} {}", w, self.rest()))),
                    _ => panic!("type '{}' {}", w, self.rest()),
                }
            }
        };
        t
    }
    /// constant of scalar type → u128 bits
    fn scalar_const(&mut self, ty: &Ty) -> u128 {
        let w = ty.bits();
        let m = crate::expr::mask(w);
        match self.pk() {
            b'@' => { let n = self.name(); self.m.addr_of(&n) as u128 }
            c if c.is_ascii_digit() || c == b'-' => {
                match ty {
                    Ty::F64 | Ty::F32 => {
                        let mut j = self.i;
                        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || matches!(self.s[j], b'.' | b'-' | b'+')) { j += 1; }
                        let t = std::str::from_utf8(&self.s[self.i..j]).unwrap();
                        self.i = j;
                        let d = if let Some(h) = t.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { t.parse::<f64>().unwrap() };
                        if *ty == Ty::F32 { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }
                    }
                    _ => self.int() as u128 & m,
                }
            }
            _ => {
                let w0 = self.word();
                match w0 {
                    "true" => 1,
                    "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
                    "inf" => if *ty == Ty::F32 { f32::INFINITY.to_bits() as u128 } else { f64::INFINITY.to_bits() as u128 },
                    "qnan" | "nan" => if *ty == Ty::F32 { f32::NAN.to_bits() as u128 } else { f64::NAN.to_bits() as u128 },
                    // newer spelling of a float: its bits in the width of the type
                    _ if w0.starts_with("f0x") => u128::from_str_radix(&w0[3..], 16).expect("float bits"),
                    "getelementptr" => {
                        while self.pk() != b'(' { let _ = self.word(); }
                        self.need(b'(');
                        let t = self.ty(); self.need(b',');
                        let pt = self.ty();
                        let base = self.scalar_const(&pt);
                        let mut off: i128 = 0;
                        let mut cur = t; let mut first = true;
                        while self.eat(b',') {
                            self.eatw("inrange");
                            let it = self.ty();
                            let k = crate::expr::sx(self.scalar_const(&it), it.bits());
                            if first { off += k * cur.size() as i128; first = false; } else { off += cur.field_off(k as usize) as i128; cur = cur.elem(k as usize); }
                        }
                        self.need(b')');
                        (base as i128 + off) as u128 & m
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => {
                        while self.pk() != b'(' { let _ = self.word(); }
                        self.need(b'(');
                        let t = self.ty(); let v = self.scalar_const(&t);
                        assert!(self.eatw("to"));
                        let t2 = self.ty(); self.need(b')');
                        v & crate::expr::mask(t2.bits())
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" => {
                        while self.pk() != b'(' { let _ = self.word(); }
                        self.need(b'(');
                        let t = self.ty(); let a = self.scalar_const(&t); self.need(b',');
                        let t2 = self.ty(); let b = self.scalar_const(&t2); self.need(b')');
                        let op = match w0 { "add" => crate::expr::Bin::Add, "sub" => crate::expr::Bin::Sub, "xor" => crate::expr::Bin::Xor, "mul" => crate::expr::Bin::Mul, _ => crate::expr::Bin::Shl };
                        crate::expr::bin_const(op, a, b, w)
                    }
                    // newer spellings of floating point constants
                    "" if matches!(self.pk(), b'+' | b'-') => {
                        let neg = self.eat(b'-');
                        if !neg { self.need(b'+'); }
                        let v = match self.word() { "inf" => f64::INFINITY, "qnan" | "nan" => f64::NAN, x => panic!("const {}", x) };
                        let v = if neg { -v } else { v.abs() };
                        if w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }
                    }
                    _ => panic!("const '{}' {}", w0, self.rest()),
                }
            }
        }
    }
    fn cval(&mut self, ty: &Ty) -> Opd {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = vec![];
                let n = ty.count();
                match self.pk() {
                    b'c' if self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' => {
                        let mut out = vec![0u8; n];
                        self.init(ty, &mut out);
                        v = out.into_iter().map(|b| Val::C(b as u64)).collect();
                    }
                    b'{' | b'[' | b'<' => {
                        let packed = self.pk() == b'<' && matches!(ty, Ty::Struct(..));
                        self.i += 1;
                        if packed { self.need(b'{'); }
                        for k in 0..n { let t = self.ty(); debug_assert_eq!(t, ty.elem(k)); v.push(self.kval(&t)); self.eat(b','); }
                        self.ws(); self.i += 1;
                        if packed { self.need(b'>'); }
                    }
                    _ => {
                        let w = self.word();
                        if w == "splat" { self.need(b'('); let t = self.ty(); let x = self.kval(&t); self.need(b')'); v = vec![x; n]; }
                        else { for k in 0..n { v.push(zero(&ty.elem(k))); } }
                    }
                }
                Opd::K(Val::Agg(Rc::new(v)))
            }
            Ty::Void | Ty::Label | Ty::Meta => Opd::K(Val::C(0)),
            _ => { let w = ty.bits(); let x = self.scalar_const(ty); if w > 64 { Opd::Wide(x, w) } else { Opd::K(Val::C(x as u64)) } }
        }
    }
    fn kval(&mut self, ty: &Ty) -> Val { match self.cval(ty) { Opd::K(v) => v, Opd::Wide(x, _) => { if x >> 64 == 0 { Val::C(x as u64) } else { panic!("wide const in aggregate") } } _ => unreachable!() } }
    fn val(&mut self, ty: &Ty) -> Opd {
        if self.pk() == b'%' { let n = self.name(); let r = self.regs.as_mut().unwrap().reg(&n); return Opd::R(r); }
        self.cval(ty)
    }
    fn tv(&mut self) -> (Ty, Opd) { let t = self.ty(); let v = self.val(&t); (t, v) }
    fn label(&mut self) -> u32 { assert!(self.eatw("label"), "label: {}", self.rest()); self.pk(); let n = self.name(); self.regs.as_mut().unwrap().block(&n) }
    fn init(&mut self, ty: &Ty, out: &mut [u8]) {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                match self.pk() {
                    b'c' if self.s[self.i + 1] == b'"' => {
                        self.i += 2;
                        let mut k = 0;
                        while self.s[self.i] != b'"' {
                            if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { out[k] = b'\\'; self.i += 2; }
                            else if self.s[self.i] == b'\\' {
                                let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                                out[k] = u8::from_str_radix(h, 16).unwrap();
                                self.i += 3;
                            } else { out[k] = self.s[self.i]; self.i += 1; }
                            k += 1;
                        }
                        self.i += 1;
                    }
                    b'{' | b'[' | b'<' => {
                        let packed = self.pk() == b'<' && matches!(ty, Ty::Struct(..));
                        self.i += 1;
                        if packed { self.need(b'{'); }
                        for k in 0..ty.count() {
                            let t = self.ty();
                            let o = ty.field_off(k) as usize;
                            let sz = t.size() as usize;
                            self.init(&t, &mut out[o..o + sz]);
                            self.eat(b',');
                        }
                        self.ws(); self.i += 1;
                        if packed { self.need(b'>'); }
                    }
                    _ => {
                        let w = self.word();
                        if w == "splat" {
                            self.need(b'('); let t = self.ty(); let sz = t.size() as usize; let mut b = vec![0; sz]; self.init(&t, &mut b); self.need(b')');
                            for k in 0..ty.count() { out[k * sz..(k + 1) * sz].copy_from_slice(&b); }
                        }
                    }
                }
            }
            _ => { let x = self.scalar_const(ty); let n = out.len(); out.copy_from_slice(&x.to_le_bytes()[..n]); }
        }
    }
}
pub fn zero(t: &Ty) -> Val {
    match t { Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Val::Agg(Rc::new((0..t.count()).map(|k| zero(&t.elem(k))).collect())), _ => Val::C(0) }
}

fn decode_fn(m: &Module, id: u32, body: &str) -> Func {
    let mut regs = Regs { map: HashMap::new(), n: 0, blocks: HashMap::new(), nb: 0 };
    let mut lines = body.split('\n');
    let head = lines.next().unwrap();
    // arguments
    let at = head.find('@').unwrap();
    let (name, j) = name_at(head.as_bytes(), at + 1);
    let mut args = vec![];
    let mut unnamed = 0;
    {
        let mut p = P { s: head.as_bytes(), i: j, m, regs: Some(&mut regs) };
        p.need(b'(');
        while p.pk() != b')' {
            if p.s[p.i..].starts_with(b"...") { p.i += 3; continue; }
            let _t = p.ty();
            // skip attributes
            loop {
                match p.pk() {
                    b'%' => { let n = p.name(); if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; } let r = p.regs.as_mut().unwrap().reg(&n); args.push(r); break; }
                    b',' | b')' => { let n = format!("{}", unnamed); unnamed += 1; let r = p.regs.as_mut().unwrap().reg(&n); args.push(r); break; }
                    b'(' => p.balanced(),
                    _ => { let w = p.word(); if w.is_empty() { p.i += 1; } }
                }
            }
            p.eat(b',');
        }
    }
    // gather logical lines
    let mut blocks: Vec<Option<Block>> = vec![];
    let mut cur: Option<u32> = None;
    let mut it = lines.peekable();
    let mut started = false;
    while let Some(l) = it.next() {
        if l.is_empty() || l.starts_with(';') || l.starts_with('}') || l.starts_with('{') { continue; }
        let b0 = l.as_bytes()[0];
        if b0 != b' ' {
            // label
            let n = if b0 == b'"' { name_at(l.as_bytes(), 0).0 } else { l[..l.find(':').unwrap_or_else(|| panic!("label line {}", l))].to_string() };
            let k = regs.block(&n);
            while blocks.len() <= k as usize { blocks.push(None); }
            blocks[k as usize] = Some(Block { phis: vec![], insts: vec![] });
            cur = Some(k);
            started = true;
            continue;
        }
        if !started {
            let k = regs.block(&format!("{}", unnamed));
            while blocks.len() <= k as usize { blocks.push(None); }
            blocks[k as usize] = Some(Block { phis: vec![], insts: vec![] });
            cur = Some(k);
            started = true;
        }
        let t = l.trim_start();
        if t.starts_with('#') || t.starts_with(';') { continue; } // debug records
        let mut full = t.to_string();
        if t.starts_with("switch ") { while !full.contains(']') { full.push(' '); full.push_str(it.next().unwrap().trim()); } }
        while let Some(nx) = it.peek() {
            let tr = nx.trim_start();
            if nx.starts_with("          ") && (tr.starts_with("to label") || tr.starts_with("cleanup") || tr.starts_with("catch") || tr.starts_with("filter")) { full.push(' '); full.push_str(tr); it.next(); } else { break; }
        }
        let r = decode_inst(m, &mut regs, &full);
        let nb = regs.nb as usize;
        while blocks.len() < nb { blocks.push(None); }
        let blk = blocks[cur.unwrap() as usize].as_mut().unwrap();
        match r { Dec::I(i) => blk.insts.push(i), Dec::P(p) => blk.phis.push(p) }
    }
    let blocks: Vec<Block> = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], insts: vec![] })).collect();
    let ipdom = post_dominators(&blocks);
    Func { id, name, nregs: regs.n, args, blocks, ipdom, live: Default::default(), rpo: Default::default(), tys: Default::default() }
}
pub fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(Inst::Br { t }) => vec![*t],
        Some(Inst::CondBr { t, f, .. }) => vec![*t, *f],
        Some(Inst::Switch { def, cases, .. }) => { let mut v = vec![*def]; v.extend(cases.iter().map(|c| c.1)); v }
        Some(Inst::Call { next: Some(n), .. }) => vec![*n],
        _ => vec![],
    }
}
fn post_dominators(bl: &[Block]) -> Vec<Option<u32>> {
    let n = bl.len();
    let ex = n; // virtual exit
    let mut succ: Vec<Vec<usize>> = bl.iter().map(|b| succs(b).into_iter().map(|x| x as usize).collect()).collect();
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for i in 0..n { if matches!(bl[i].insts.last(), Some(Inst::Ret { .. })) { succ[i].push(ex); } for &s in &succ[i] { pred[s].push(i); } }
    // blocks that can reach the exit
    let mut reach = vec![false; n + 1];
    let mut order = vec![];
    // postorder on the reverse graph from exit
    let mut stack = vec![(ex, 0usize)];
    reach[ex] = true;
    while let Some((v, k)) = stack.pop() {
        if k < pred[v].len() { stack.push((v, k + 1)); let u = pred[v][k]; if !reach[u] { reach[u] = true; stack.push((u, 0)); } } else { order.push(v); }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, &v) in order.iter().enumerate() { num[v] = i; }
    let mut idom = vec![usize::MAX; n + 1];
    idom[ex] = ex;
    let mut ch = true;
    while ch {
        ch = false;
        for &v in order.iter().rev() {
            if v == ex { continue; }
            let mut new = usize::MAX;
            for &s in &succ[v] {
                if !reach[s] || idom[s] == usize::MAX { continue; }
                if new == usize::MAX { new = s; } else {
                    let (mut a, mut b) = (s, new);
                    while a != b { while num[a] < num[b] { a = idom[a]; } while num[b] < num[a] { b = idom[b]; } }
                    new = a;
                }
            }
            if new != usize::MAX && idom[v] != new { idom[v] = new; ch = true; }
        }
    }
    (0..n).map(|i| if idom[i] == usize::MAX || idom[i] == ex { None } else { Some(idom[i] as u32) }).collect()
}
enum Dec { I(Inst), P(Phi) }

fn decode_inst(m: &Module, regs: &mut Regs, l: &str) -> Dec {
    let mut p = P { s: l.as_bytes(), i: 0, m, regs: Some(regs) };
    let mut d = u32::MAX;
    if p.pk() == b'%' {
        let n = p.name();
        d = p.regs.as_mut().unwrap().reg(&n);
        p.need(b'=');
    }
    let mut op = p.word();
    while matches!(op, "tail" | "musttail" | "notail") { op = p.word(); }
    let i = match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            p.skip_to_type();
            let ty = p.ty();
            let a = p.val(&ty); p.need(b','); let b = p.val(&ty);
            let k = match op { "add" => BinK::Add, "sub" => BinK::Sub, "mul" => BinK::Mul, "udiv" => BinK::UDiv, "sdiv" => BinK::SDiv, "urem" => BinK::URem, "srem" => BinK::SRem, "and" => BinK::And, "or" => BinK::Or, "xor" => BinK::Xor, "shl" => BinK::Shl, "lshr" => BinK::LShr, "ashr" => BinK::AShr, "fadd" => BinK::FAdd, "fsub" => BinK::FSub, "fmul" => BinK::FMul, "fdiv" => BinK::FDiv, _ => BinK::FRem };
            Inst::Bin { d, op: k, ty, a, b }
        }
        "fneg" => { p.skip_to_type(); let (ty, a) = p.tv(); Inst::FNeg { d, ty, a } }
        "icmp" => {
            let mut w = p.word();
            if w == "samesign" { w = p.word(); }
            let pr = match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => panic!("icmp {}", w) };
            let ty = p.ty(); let a = p.val(&ty); p.need(b','); let b = p.val(&ty);
            Inst::ICmp { d, p: pr, ty, a, b }
        }
        "fcmp" => {
            let mut w = p.word();
            while matches!(w, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { w = p.word(); }
            let ty = p.ty(); let a = p.val(&ty); p.need(b','); let b = p.val(&ty);
            Inst::FCmp { d, p: w.to_string(), ty, a, b }
        }
        "select" => { p.skip_to_type(); let (cty, c) = p.tv(); p.need(b','); let (ty, a) = p.tv(); p.need(b','); let (_, b) = p.tv(); Inst::Select { d, cty, c, ty, a, b } }
        "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" | "ptrtoaddr" => {
            p.skip_to_type();
            let (from, a) = p.tv();
            assert!(p.eatw("to"));
            let to = p.ty();
            let k = match op { "zext" => CastK::ZExt, "sext" => CastK::SExt, "trunc" => CastK::Trunc, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp, "fpext" => CastK::FpExt, "fptrunc" => CastK::FpTrunc,
                "ptrtoint" | "inttoptr" => { let (f, t) = (from.bits(), to.bits()); if f == t || f == 0 { CastK::Bit } else if t > f { CastK::ZExt } else { CastK::Trunc } }
                _ => CastK::Bit };
            Inst::Cast { d, op: k, from, to, a }
        }
        "getelementptr" => {
            p.skip_to_type();
            let t = p.ty(); p.need(b',');
            let (bt, base) = p.tv();
            if let Ty::Vec(..) = bt { return Dec::I(Inst::Bad("vector gep".into())); }
            let mut off = 0i64; let mut idx = vec![];
            let mut cur = t; let mut first = true;
            while p.eat(b',') {
                if p.pk() == b'!' { break; }
                let (it, v) = p.tv();
                if first {
                    first = false;
                    let sz = cur.size() as i64;
                    match v { Opd::K(Val::C(k)) => off += crate::expr::sx(k as u128, it.bits()) as i64 * sz, o => idx.push((o, it.bits(), sz)) }
                } else {
                    match v {
                        Opd::K(Val::C(k)) => { off += cur.field_off(k as usize) as i64; cur = cur.elem(if let Ty::Struct(..) = cur { k as usize } else { 0 }); }
                        o => { let sz = cur.elem(0).size() as i64; idx.push((o, it.bits(), sz)); cur = cur.elem(0); }
                    }
                }
            }
            Inst::Gep { d, base, off, idx }
        }
        "load" => {
            p.eatw("atomic"); p.eatw("volatile");
            let ty = p.ty(); p.need(b','); let (_, q) = p.tv();
            Inst::Load { d, ty, p: q }
        }
        "store" => { p.eatw("atomic"); p.eatw("volatile"); let (ty, v) = p.tv(); p.need(b','); let (_, q) = p.tv(); Inst::Store { ty, v, p: q } }
        "alloca" => {
            p.eatw("inalloca");
            let t = p.ty();
            let mut n = Opd::K(Val::C(1));
            if p.eat(b',') && p.type_start() { n = p.tv().1; }
            Inst::Alloca { d, size: t.size(), n }
        }
        "br" => {
            if p.wordpk() == "label" { let t = p.label(); Inst::Br { t } } else {
                let (_, c) = p.tv(); p.need(b','); let t = p.label(); p.need(b','); let f = p.label();
                Inst::CondBr { c, t, f }
            }
        }
        "switch" => {
            let (ty, v) = p.tv(); p.need(b','); let def = p.label(); p.need(b'[');
            let mut cases = vec![];
            while p.pk() != b']' { let t = p.ty(); let k = p.scalar_const(&t) as u64; p.need(b','); let b = p.label(); cases.push((k, b)); }
            Inst::Switch { ty, v, def, cases }
        }
        "ret" => { let t = p.ty(); if t == Ty::Void { Inst::Ret { v: None } } else { let v = p.val(&t); Inst::Ret { v: Some((t, v)) } } }
        "unreachable" => Inst::Unreachable,
        "phi" => {
            p.skip_to_type();
            let ty = p.ty();
            let mut inc = vec![];
            loop { p.need(b'['); let v = p.val(&ty); p.need(b','); p.pk(); let n = p.name(); let b = p.regs.as_mut().unwrap().block(&n); p.need(b']'); inc.push((b, v)); if !p.eat(b',') { break; } if p.pk() != b'[' { break; } }
            return Dec::P(Phi { d, ty, inc });
        }
        "extractvalue" => { let (_, a) = p.tv(); let mut idx = vec![]; while p.eat(b',') { if p.pk() == b'!' { break; } idx.push(p.int() as u32); } Inst::ExtractV { d, a, idx } }
        "insertvalue" => { let (ty, a) = p.tv(); p.need(b','); let (_, v) = p.tv(); let mut idx = vec![]; while p.eat(b',') { if p.pk() == b'!' { break; } idx.push(p.int() as u32); } Inst::InsertV { d, ty, a, v, idx } }
        "extractelement" => { let (_, a) = p.tv(); p.need(b','); let (_, i) = p.tv(); Inst::ExtractE { d, a, i } }
        "insertelement" => { let (ty, a) = p.tv(); p.need(b','); let (_, v) = p.tv(); p.need(b','); let (_, i) = p.tv(); Inst::InsertE { d, ty, a, v, i } }
        "shufflevector" => {
            let (ty, a) = p.tv(); p.need(b','); let (_, b) = p.tv(); p.need(b','); let mt = p.ty();
            let n = mt.count();
            let mk = match p.cval(&mt) { Opd::K(Val::Agg(v)) => v.iter().map(|x| match x { Val::C(k) => *k as i32 as i64, _ => 0 }).collect(), _ => vec![0; n] };
            Inst::Shuffle { d, ty, a, b, m: mk }
        }
        "atomicrmw" => { p.eatw("volatile"); let o = p.word().to_string(); let (_, q) = p.tv(); p.need(b','); let (ty, v) = p.tv(); Inst::Rmw { d, op: o, ty, p: q, v } }
        "cmpxchg" => { p.eatw("weak"); p.eatw("volatile"); let (_, q) = p.tv(); p.need(b','); let (ty, c) = p.tv(); p.need(b','); let (_, n) = p.tv(); Inst::CmpXchg { d, ty, p: q, c, n } }
        "freeze" => { let (_, a) = p.tv(); Inst::Copy { d, a } }
        "fence" => Inst::Nop,
        "landingpad" | "resume" | "catchswitch" | "cleanuppad" | "catchpad" | "cleanupret" | "catchret" => Inst::Unreachable,
        "call" | "invoke" => {
            p.skip_to_type();
            let ret = p.ty();
            if p.pk() == b'(' { p.balanced(); }
            let f;
            match p.pk() {
                b'@' => { let n = p.name(); let n2 = m.resolve_alias(&n).to_string(); f = Callee::Fn(*m.fidx.get(&n2).unwrap_or_else(|| panic!("callee {}", n2))); }
                b'%' => { let n = p.name(); let r = p.regs.as_mut().unwrap().reg(&n); f = Callee::Ind(Opd::R(r)); }
                _ => { let w = p.word(); if w == "asm" { while p.pk() != b'(' { if p.pk() == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; } else if p.word().is_empty() { p.i += 1; } } f = Callee::Asm; } else { panic!("callee {} in {}", w, l); } }
            }
            p.need(b'(');
            let mut args = vec![];
            while p.pk() != b')' {
                let t = p.ty();
                if t == Ty::Meta {
                    let mut dep = 0;
                    loop { match p.pk() { b'(' | b'{' => dep += 1, b')' if dep == 0 => break, b')' | b'}' => dep -= 1, b',' if dep == 0 => break, _ => {} } p.i += 1; }
                    args.push((t, Opd::K(Val::C(0))));
                } else {
                    loop {
                        let c = p.pk();
                        if matches!(c, b'%' | b'@' | b'-' | b'<' | b'{' | b'[') || c.is_ascii_digit() { break; }
                        if c == b'c' && p.s[p.i + 1] == b'"' { break; }
                        let w = p.wordpk();
                        if CEXPR.contains(&w) { break; }
                        let w = p.word();
                        if w.is_empty() { panic!("arg: {}", p.rest()); }
                        if p.i < p.s.len() && p.s[p.i] == b'(' { p.balanced(); }
                        if w == "align" { p.int(); }
                    }
                    let v = p.val(&t);
                    args.push((t, v));
                }
                p.eat(b',');
            }
            p.need(b')');
            let mut next = None;
            if op == "invoke" {
                let k = l.rfind(" to label ").unwrap();
                p.i = k + 4;
                next = Some(p.label());
            }
            Inst::Call { d, ret, f, args, next }
        }
        _ => Inst::Bad(l.to_string()),
    };
    Dec::I(i)
}
