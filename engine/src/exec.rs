//! Symbolic interpreter: path exploration with solver-decided branches and merging at post-dominators.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<(Id, u8)>, pub ro: bool }
#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub b: u32, pub ip: u32, pub regs: Vec<Val>, pub allocas: Vec<u32> }
#[derive(Clone, Default)]
pub struct Fs { pub files: BTreeMap<String, Vec<(u8, Id, u8)>>, pub fds: BTreeMap<u64, (String, usize)>, pub next: u64 }
/// A thread that is not running at the moment (the running one lives in `State.frames` and `State.gl`).
#[derive(Clone, Default)]
pub struct Thr { pub frames: Vec<Frame>, pub tls: BTreeMap<u32, Rc<Obj>>, pub done: bool, pub wait: Wait }
#[derive(Clone, Copy, Default, PartialEq)]
pub enum Wait { #[default] No, Join(usize), Futex(u64, u64) }
#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub objs: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub gl: Rc<BTreeMap<u32, Rc<Obj>>>,
    pub pc: Vec<Id>,
    pub known: Rc<FxMap<Id, u64>>,
    pub model: Rc<Vec<u64>>,
    pub syms: Vec<u8>,
    pub depth: u32,
    pub phash: u64,
    pub instrs: u64,
    pub obs: Vec<(Val, u8)>,
    pub clock: (Val, Val),
    pub wall: (Val, Val),
    pub fs: Rc<Fs>,
    pub panic_ok: bool,
    pub merge_on: bool,
    pub deep: bool,
    pub checks: u32,
    pub errno: u64,
    pub thr: Vec<Thr>,
    pub cur: usize,
    pub delays: u32,
    pub choosing: Option<usize>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum End { Done, Assumed, Panic(String), Hang, Err(String) }
pub enum Ctl { Stop, Bail, End(End) }
enum R { Next, Jump, Frame, End(End), Bail, Sched }

pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<u64>, pub widths: Vec<u8> }

pub struct Exec {
    pub m: Module,
    pub pool: Pool,
    pub sol: Solver,
    funcs: Vec<Option<Rc<Func>>>,
    ginit: HashMap<u32, Rc<Obj>>,
    pub pending: Vec<State>,
    spec: u32,
    merge_stat: HashMap<(u32, u32), (u32, u32)>,
    region_fail: HashMap<(u32, u32), u32>,
    pub violations: Vec<Violation>,
    pub vio_seen: HashMap<String, u32>,
    pub paths: u64,
    pub assumed: u64,
    pub panics_ok: u64,
    pub forks: u64,
    pub merges: u64,
    pub merge_fail: u64,
    pub instrs: u64,
    pub errors: Vec<String>,
    pub checks: BTreeMap<String, (u64, u64)>, // message -> (evaluations, decided by the solver)
    pub reached: BTreeMap<u64, u64>,
    pub fn_used: HashMap<u32, u64>,
    pub samples: Vec<(Vec<u64>, Vec<u8>, Vec<u64>, String)>,
    pub max_samples: usize,
    pub max_instrs: u64,
    pub split: (u64, u64, u32),
    pub max_vio: usize,
    pub max_concretize: u32,
    pub unknown: u64,
    pub deadline: Option<Instant>,
    pub timed_out: bool,
    pub max_depth: u32,
    pub trace: bool,
}

fn panic_fn(n: &str) -> bool {
    n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("rust_begin_unwind") || n.contains("13unwrap_failed") || n.contains("13expect_failed")
        || n.contains("17capacity_overflow") || n.contains("5alloc7raw_vec12handle_error") || n.contains("18handle_alloc_error") || n.contains("10rust_panic")
        || n.contains("16slice_error_fail") || n.contains("slice_index_fail") || n.contains("5slice5index16slice_") || n.contains("_len_fail") || n.contains("20panic_already") || n.contains("__rust_start_panic")
        || n.contains("22slice_index_order_fail") || n.contains("26slice_start_index_len_fail") || n.contains("24slice_end_index_len_fail")
}

impl Exec {
    pub fn new(m: Module, sol: Solver) -> Exec {
        let n = m.fnames.len();
        let mut pool = Pool::new();
        pool.cst(0, 1); // id 0 is never a symbolic byte
        Exec {
            m, pool, sol, funcs: vec![None; n], ginit: HashMap::new(), pending: vec![], spec: 0, merge_stat: HashMap::new(), region_fail: HashMap::new(), violations: vec![], vio_seen: HashMap::new(), paths: 0, assumed: 0, panics_ok: 0,
            forks: 0, merges: 0, merge_fail: 0, instrs: 0, errors: vec![], checks: BTreeMap::new(), reached: BTreeMap::new(), fn_used: HashMap::new(), samples: vec![], max_samples: 8,
            max_instrs: 200_000_000, split: (0, 1, 0), max_vio: 20, max_concretize: 5000, unknown: 0, deadline: None, timed_out: false, max_depth: 3000, trace: std::env::var_os("MSX_TRACE").is_some(),
        }
    }
    fn func(&mut self, id: u32) -> Rc<Func> {
        if self.funcs[id as usize].is_none() { let f = self.m.decode(id); self.funcs[id as usize] = Some(Rc::new(f)); }
        self.funcs[id as usize].as_ref().unwrap().clone()
    }
    pub fn start(&mut self, entry: &str, args: &[u64]) -> State {
        let id = *self.m.fidx.get(entry).unwrap_or_else(|| { eprintln!("no entry {}", entry); std::process::exit(3) });
        let f = self.func(id);
        let mut st = State {
            frames: vec![], objs: vec![], free: vec![], gl: Rc::new(BTreeMap::new()), pc: vec![], known: Rc::new(Default::default()), model: Rc::new(vec![]), syms: vec![], depth: 0, phash: 0xcbf29ce484222325,
            instrs: 0, obs: vec![], clock: (Val::C(1000), Val::C(0)), wall: (Val::C(1000), Val::C(0)), fs: Rc::new(Fs { next: 3, ..Default::default() }), panic_ok: false, merge_on: true, deep: false, checks: 0, errno: 0, thr: vec![Thr::default()], cur: 0, delays: 0, choosing: None,
        };
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (k, &r) in f.args.iter().enumerate() { regs[r as usize] = Val::C(args.get(k).copied().unwrap_or(0)); }
        st.frames.push(Frame { f, b: 0, ip: 0, regs, allocas: vec![] });
        st
    }
    // ---------- exploration ----------
    pub fn explore(&mut self, entry: &str, args: &[u64]) {
        let s = self.start(entry, args);
        self.pending.push(s);
        while let Some(mut st) = self.pending.pop() {
            if let Some(d) = self.deadline { if Instant::now() > d { self.timed_out = true; return; } }
            let c = self.run(&mut st, None);
            match c {
                Ctl::End(e) => self.finish(st, e),
                _ => self.errors.push("unexpected control".into()),
            }
            if self.errors.len() > 3 || self.violations.len() >= self.max_vio { return; }
        }
    }
    /// A path shorter than the split depth belongs to worker 0, the others to the worker their prefix hashes to.
    fn mine(&self, st: &State) -> bool { self.split.1 <= 1 || st.depth >= self.split.2 || self.split.0 == 0 }
    fn finish(&mut self, st: State, e: End) {
        self.instrs += st.instrs;
        if !self.mine(&st) { return; }
        match e {
            End::Assumed => self.assumed += 1,
            End::Done => { self.paths += 1; self.sample(&st, "ok"); }
            End::Panic(m) => {
                self.paths += 1;
                if st.panic_ok { self.panics_ok += 1; self.sample(&st, "panic"); } else { self.violate(&st, "panic", &m, st.model.clone()); }
            }
            End::Hang => { self.paths += 1; self.violate(&st, "hang", "no termination within the instruction budget", st.model.clone()); }
            End::Err(m) => { self.errors.push(m); }
        }
    }
    fn sample(&mut self, st: &State, how: &str) {
        // reservoir by path hash: keeps a spread of paths
        let h = st.phash ^ (st.phash >> 29);
        let n = self.paths;
        let idx = if self.samples.len() < self.max_samples { self.samples.push((vec![], vec![], vec![], String::new())); self.samples.len() - 1 } else { let k = h.wrapping_mul(0x9E3779B97F4A7C15) >> 11; let j = k % n.max(1); if (j as usize) < self.max_samples { j as usize } else { return; } };
        let model = st.model.clone();
        self.pool.begin_eval();
        let obs: Vec<u64> = st.obs.iter().map(|(v, _)| match v { Val::C(x) => *x, Val::E(i) => self.pool.ev(*i, &model) as u64, _ => 0 }).collect();
        let mut inp: Vec<u64> = (*model).clone();
        inp.resize(st.syms.len(), 0);
        self.samples[idx] = (inp, st.syms.clone(), obs, how.to_string());
    }
    fn violate(&mut self, st: &State, kind: &str, msg: &str, model: Rc<Vec<u64>>) {
        let key = format!("{}:{}", kind, msg);
        let c = self.vio_seen.entry(key).or_insert(0);
        *c += 1;
        if *c > 3 { return; }
        let mut inp: Vec<u64> = (*model).clone();
        inp.resize(st.syms.len(), 0);
        self.violations.push(Violation { kind: kind.into(), msg: msg.into(), inputs: inp, widths: st.syms.clone() });
    }
    fn run(&mut self, st: &mut State, stop: Option<(usize, u32)>) -> Ctl {
        let limit = if stop.is_some() { st.instrs + 4000 } else { self.max_instrs };
        loop {
            if st.choosing.is_some() { if let Err(e) = self.schedule(st) { return match e { R::End(e) => Ctl::End(e), _ => Ctl::Bail }; } }
            let d = st.frames.len();
            if d == 0 { return Ctl::End(End::Done); }
            let f = st.frames[d - 1].f.clone();
            loop {
                let fr = &st.frames[d - 1];
                if fr.ip == 0 { if let Some((sd, sb)) = stop { if sd == d && sb == fr.b { return Ctl::Stop; } } }
                let blk = &f.blocks[fr.b as usize];
                let inst = &blk.insts[fr.ip as usize];
                st.instrs += 1;
                if st.instrs > limit {
                    if stop.is_some() { return Ctl::Bail; }
                    return Ctl::End(End::Hang);
                }
                if st.instrs & 0xfffff == 0 { if let Some(dl) = self.deadline { if Instant::now() > dl { self.timed_out = true; return Ctl::End(End::Err("time limit".into())); } } }
                match self.step(st, d - 1, inst) {
                    R::Next => st.frames[d - 1].ip += 1,
                    R::Jump => {}
                    R::Frame => break,
                    R::Bail | R::Sched => return Ctl::Bail,
                    R::End(e) => return Ctl::End(e),
                }
            }
        }
    }
    // ---------- threads ----------
    fn ready(&mut self, st: &State, t: usize) -> bool {
        if st.thr[t].done { return false; }
        match st.thr[t].wait {
            Wait::No => true,
            Wait::Join(o) => st.thr[o].done,
            Wait::Futex(a, v) => !matches!(self.load_int(st, a, 4), Ok(Val::C(x)) if x == v),
        }
    }
    fn after(&mut self, st: &State, t: usize) -> Option<usize> {
        let n = st.thr.len();
        (1..=n).map(|k| (t + k) % n).find(|&k| self.ready(st, k))
    }
    /// The running thread cannot go on: the next one that can, in turn, takes over.
    fn give_way(&mut self, st: &mut State) -> R {
        match self.after(st, st.cur) {
            Some(t) => { st.choosing = Some(t); R::Frame }
            None => R::End(End::Panic("deadlock: every thread waits".into())),
        }
    }
    /// The thread whose turn it is runs, unless the schedule passes it over; it may do so `delays` times.
    fn schedule(&mut self, st: &mut State) -> Result<(), R> {
        while let Some(t) = st.choosing {
            let alt = self.after(st, t).filter(|&a| a != t);
            if st.delays > 0 {
                if let Some(a) = alt {
                    let k = st.syms.len() as u32;
                    st.syms.push(1);
                    let e = self.pool.sym(k, 1);
                    let skip = self.branch(st, e, |x, o, b| if b { o.choosing = Some(a); o.delays -= 1; } else { x.switch(o, t); })?;
                    if skip { st.choosing = Some(a); st.delays -= 1; } else { self.switch(st, t); }
                    continue;
                }
            }
            self.switch(st, t);
        }
        Ok(())
    }
    fn switch(&self, st: &mut State, t: usize) {
        st.choosing = None;
        if t == st.cur { return; }
        let me = st.cur;
        st.thr[me].frames = std::mem::take(&mut st.frames);
        let gl = Rc::make_mut(&mut st.gl);
        let own: Vec<u32> = gl.keys().copied().filter(|&k| self.m.globals[k as usize].tls).collect();
        for k in own { let o = gl.remove(&k).unwrap(); st.thr[me].tls.insert(k, o); }
        gl.append(&mut st.thr[t].tls);
        st.frames = std::mem::take(&mut st.thr[t].frames);
        st.thr[t].wait = Wait::No;
        st.cur = t;
    }
    // ---------- values ----------
    fn val(&mut self, fr: &Frame, o: &Opd) -> Val {
        match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone(), Opd::Wide(x, w) => Val::E(self.pool.cst(*x, *w)) }
    }
    fn ex(&mut self, v: &Val, w: u8) -> Id { match v { Val::C(x) => self.pool.cst(*x as u128, w), Val::E(i) => *i, _ => panic!("aggregate as scalar") } }
    fn mk(&self, i: Id) -> Val { if self.pool.w(i) <= 64 { if let Some(v) = self.pool.get(i) { return Val::C(v as u64); } } Val::E(i) }
    fn as128(&self, v: &Val) -> Option<u128> { match v { Val::C(x) => Some(*x as u128), Val::E(i) => self.pool.get(*i), _ => None } }

    fn subst(&mut self, st: &State, i: Id) -> Id {
        let mut memo: FxMap<Id, Id> = Default::default();
        self.pool.subst(i, &st.known, &mut memo)
    }
    fn learn(&mut self, known: &mut FxMap<Id, u64>, c: Id, v: bool) {
        if self.pool.get(c).is_some() { return; }
        known.insert(c, v as u64);
        let n = self.pool.not(c);
        known.insert(n, !v as u64);
        let mut c = c; let mut v = v;
        if let Op::Not(x) = self.pool.op(c) { c = x; v = !v; }
        match self.pool.op(c) {
            Op::Bin(Bin::And, a, b) if v && self.pool.w(c) == 1 => { self.learn(known, a, true); self.learn(known, b, true); }
            Op::Bin(Bin::Or, a, b) if !v && self.pool.w(c) == 1 => { self.learn(known, a, false); self.learn(known, b, false); }
            Op::Cmp(Cmp::Eq, a, b) if v => { if let Some(k) = self.pool.get(b) { self.learn_val(known, a, k as u64); } }
            _ => {}
        }
    }
    fn learn_val(&mut self, known: &mut FxMap<Id, u64>, e: Id, k: u64) {
        if self.pool.w(e) > 64 || self.pool.get(e).is_some() { return; }
        if self.pool.w(e) == 1 { self.learn(known, e, k != 0); return; }
        known.insert(e, k);
        match self.pool.op(e) {
            Op::ZExt(x) | Op::SExt(x) => { let w = self.pool.w(x); self.learn_val(known, x, k & mask(w) as u64) }
            Op::Concat(h, l) => { let lw = self.pool.w(l); if lw < 64 { self.learn_val(known, h, k >> lw); } self.learn_val(known, l, k & mask(lw) as u64) }
            _ => {}
        }
    }
    fn add(&mut self, st: &mut State, c: Id, v: bool) {
        let cc = if v { c } else { self.pool.not(c) };
        if self.pool.get(cc).is_none() {
            st.pc.push(cc);
            let mut k = std::mem::replace(&mut st.known, Rc::new(Default::default()));
            self.learn(Rc::make_mut(&mut k), cc, true);
            st.known = k;
        }
    }
    fn note(&mut self, st: &mut State, c: Id, v: bool) {
        let mut k = std::mem::replace(&mut st.known, Rc::new(Default::default()));
        self.learn(Rc::make_mut(&mut k), c, v);
        st.known = k;
    }
    /// cheap decision without the solver
    fn quick(&mut self, st: &State, c: Id) -> (Id, Option<bool>) {
        if let Some(v) = self.pool.get(c) { return (c, Some(v != 0)); }
        if let Some(&v) = st.known.get(&c) { return (c, Some(v != 0)); }
        let s = self.subst(st, c);
        if let Some(v) = self.pool.get(s) { return (s, Some(v != 0)); }
        let mut memo: FxMap<Id, (u128, u128)> = Default::default();
        let mut fuel = 300;
        let r = self.pool.range(s, &st.known, &mut memo, &mut fuel);
        if r == (1, 1) { return (s, Some(true)); }
        if r == (0, 0) { return (s, Some(false)); }
        (s, None)
    }
    fn sat(&mut self, st: &State, extra: Id) -> Sat {
        let r = self.sol.check(&self.pool, &st.pc, extra, &st.syms);
        if let Sat::Unknown = r { self.unknown += 1; }
        r
    }
    fn split_ok(&self, st: &State) -> bool {
        if self.split.1 <= 1 || st.depth != self.split.2 { return true; }
        (st.phash ^ (st.phash >> 31)).wrapping_mul(0x9E3779B97F4A7C15) >> 33 & 0xffff_ffff == u64::MAX || ((st.phash ^ (st.phash >> 31)).wrapping_mul(0x9E3779B97F4A7C15) >> 33) % self.split.1 == self.split.0
    }
    fn mark_fork(st: &mut State, bit: u64) { st.depth += 1; st.phash = (st.phash ^ bit.wrapping_add(0x1234567)).wrapping_mul(0x100000001b3).rotate_left(17); }
    /// Decide a branch; forks when both directions are feasible. `Err` = stop this state.
    fn branch(&mut self, st: &mut State, c: Id, mut on_fork: impl FnMut(&mut Exec, &mut State, bool)) -> Result<bool, R> {
        let (s, q) = self.quick(st, c);
        if let Some(b) = q { return Ok(b); }
        let model = st.model.clone();
        let dir = self.pool.eval(s, &model) != 0;
        let neg = if dir { self.pool.not(s) } else { s };
        match self.sat(st, neg) {
            Sat::Unsat => { self.note(st, s, dir); if s != c { self.note(st, c, dir); } Ok(dir) }
            Sat::Unknown => Err(R::End(End::Err("solver returned unknown".into()))),
            Sat::Sat(mo) => {
                if self.spec > 0 { return Err(R::Bail); }
                self.forks += 1;
                let mut other = st.clone();
                other.model = Rc::new(mo);
                self.add(&mut other, s, !dir);
                if s != c { self.note(&mut other, c, !dir); }
                self.add(st, s, dir);
                if s != c { self.note(st, c, dir); }
                Self::mark_fork(&mut other, !dir as u64);
                Self::mark_fork(st, dir as u64);
                on_fork(self, &mut other, !dir);
                if self.split_ok(&other) { self.pending.push(other); }
                if !self.split_ok(st) { return Err(R::End(End::Assumed)); }
                Ok(dir)
            }
        }
    }
    /// Make a value concrete, forking over all its feasible values (the other side re-executes the instruction).
    fn conc(&mut self, st: &mut State, v: &Val, w: u8) -> Result<u64, R> {
        let i = match v { Val::C(x) => return Ok(*x), Val::E(i) => *i, _ => return Err(R::End(End::Err("concretise aggregate".into()))) };
        let _ = w;
        if let Some(&k) = st.known.get(&i) { return Ok(k); }
        let s = self.subst(st, i);
        if let Some(k) = self.pool.get(s) { return Ok(k as u64); }
        let model = st.model.clone();
        let k = self.pool.eval(s, &model) as u64;
        let kk = self.pool.cst(k as u128, self.pool.w(s));
        let eq = self.pool.cmp(Cmp::Eq, s, kk);
        let ne = self.pool.not(eq);
        match self.sat(st, ne) {
            Sat::Unsat => {
                let mut kn = std::mem::replace(&mut st.known, Rc::new(Default::default()));
                self.learn_val(Rc::make_mut(&mut kn), i, k);
                self.learn_val(Rc::make_mut(&mut kn), s, k);
                st.known = kn;
                Ok(k)
            }
            Sat::Unknown => Err(R::End(End::Err("solver returned unknown".into()))),
            Sat::Sat(mo) => {
                if self.spec > 0 { return Err(R::Bail); }
                self.forks += 1;
                let mut other = st.clone();
                other.model = Rc::new(mo);
                self.add(&mut other, eq, false);
                self.add(st, eq, true);
                let mut kn = std::mem::replace(&mut st.known, Rc::new(Default::default()));
                self.learn_val(Rc::make_mut(&mut kn), i, k);
                st.known = kn;
                Self::mark_fork(&mut other, 0x77);
                Self::mark_fork(st, k.wrapping_add(0x99));
                if self.split_ok(&other) { self.pending.push(other); }
                if !self.split_ok(st) { return Err(R::End(End::Assumed)); }
                Ok(k)
            }
        }
    }
    // ---------- memory ----------
    fn alloc(&mut self, st: &mut State, size: u64) -> u64 {
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: vec![], ro: false });
        let k = if let Some(k) = st.free.pop() { st.objs[k as usize] = Some(o); k } else { st.objs.push(Some(o)); st.objs.len() as u32 - 1 };
        (k as u64 + 16) << 32
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> Result<(), String> {
        if addr == 0 { return Ok(()); }
        let k = (addr >> 32).wrapping_sub(16);
        if addr & 0xffff_ffff != 0 || k as usize >= st.objs.len() || st.objs[k as usize].is_none() { return Err(format!("bad free {:#x}", addr)); }
        st.objs[k as usize] = None;
        st.free.push(k as u32);
        Ok(())
    }
    fn obj<'a>(&'a mut self, st: &'a State, addr: u64, n: u64) -> Result<(&'a Obj, usize), String> {
        let id = addr >> 32; let off = addr & 0xffff_ffff;
        let o: &Obj = if id >= 16 && id < GBASE {
            match st.objs.get((id - 16) as usize) { Some(Some(o)) => o, _ => return Err(format!("access to freed or unallocated memory {:#x}", addr)) }
        } else if id >= GBASE && id < GBASE + self.m.globals.len() as u64 {
            let g = (id - GBASE) as u32;
            if let Some(o) = st.gl.get(&g) { o } else { self.ensure_global(g); &self.ginit[&g] }
        } else { return Err(format!("access to invalid address {:#x}", addr)) };
        if off + n > o.data.len() as u64 { return Err(format!("out-of-bounds access {:#x}+{} (object size {})", addr, n, o.data.len())); }
        Ok((o, off as usize))
    }
    fn ensure_global(&mut self, g: u32) {
        if !self.ginit.contains_key(&g) {
            let b = self.m.global_init(g);
            let ro = self.m.globals[g as usize].constant;
            self.ginit.insert(g, Rc::new(Obj { data: b, sym: vec![], ro }));
        }
    }
    fn obj_mut<'a>(&'a mut self, st: &'a mut State, addr: u64, n: u64) -> Result<(&'a mut Obj, usize), String> {
        let id = addr >> 32; let off = addr & 0xffff_ffff;
        let o: &mut Rc<Obj> = if id >= 16 && id < GBASE {
            match st.objs.get_mut((id - 16) as usize) { Some(Some(o)) => o, _ => return Err(format!("write to freed or unallocated memory {:#x}", addr)) }
        } else if id >= GBASE && id < GBASE + self.m.globals.len() as u64 {
            let g = (id - GBASE) as u32;
            self.ensure_global(g);
            let init = self.ginit[&g].clone();
            if init.ro { return Err("write to constant memory".into()); }
            Rc::make_mut(&mut st.gl).entry(g).or_insert(init)
        } else { return Err(format!("write to invalid address {:#x}", addr)) };
        let o = Rc::make_mut(o);
        if off + n > o.data.len() as u64 { return Err(format!("out-of-bounds write {:#x}+{} (object size {})", addr, n, o.data.len())); }
        Ok((o, off as usize))
    }
    fn load_int(&mut self, st: &State, addr: u64, n: u64) -> Result<Val, String> {
        let (o, off) = self.obj(st, addr, n)?;
        let n = n as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| s.0 == 0) {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            let x = u128::from_le_bytes(b);
            if n <= 8 { return Ok(Val::C(x as u64)); }
            return Ok(Val::E(self.pool.cst(x, (n * 8) as u8)));
        }
        let sy: Vec<(Id, u8)> = o.sym[off..off + n].to_vec();
        let da: Vec<u8> = o.data[off..off + n].to_vec();
        // whole value or run by run
        let mut parts: Vec<Id> = vec![]; // low to high
        let mut k = 0;
        while k < n {
            let (e, b) = sy[k];
            let mut j = k + 1;
            if e == 0 {
                while j < n && sy[j].0 == 0 { j += 1; }
                let mut x = 0u128;
                for t in (k..j).rev() { x = x << 8 | da[t] as u128; }
                parts.push(self.pool.cst(x, ((j - k) * 8) as u8));
            } else {
                while j < n && sy[j].0 == e && sy[j].1 as usize == b as usize + (j - k) { j += 1; }
                parts.push(self.pool.extract(e, b * 8, ((j - k) * 8) as u8));
            }
            k = j;
        }
        let mut r = parts[0];
        for &p in &parts[1..] { r = self.pool.concat(p, r); }
        Ok(self.mk(r))
    }
    fn store_int(&mut self, st: &mut State, addr: u64, n: u64, v: &Val) -> Result<(), String> {
        let mut v = v.clone();
        if let Val::E(i) = v {
            if let Some(k) = self.pool.get(i) {
                let (o, off) = self.obj_mut(st, addr, n)?;
                let b = k.to_le_bytes();
                for t in 0..n as usize { o.data[off + t] = if t < 16 { b[t] } else { 0 }; if !o.sym.is_empty() { o.sym[off + t] = (0, 0); } }
                return Ok(());
            }
            let w = self.pool.w(i);
            if (w as u64) < n * 8 { v = Val::E(self.pool.zext(i, (n * 8) as u8)); }
        }
        let (o, off) = self.obj_mut(st, addr, n)?;
        match v {
            Val::C(x) => {
                let b = x.to_le_bytes();
                for t in 0..n as usize { o.data[off + t] = if t < 8 { b[t] } else { 0 }; }
                if !o.sym.is_empty() { for t in 0..n as usize { o.sym[off + t] = (0, 0); } }
            }
            Val::E(i) => {
                if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
                for t in 0..n as usize { o.sym[off + t] = (i, t as u8); o.data[off + t] = 0; }
            }
            _ => return Err("store aggregate".into()),
        }
        Ok(())
    }
    fn load(&mut self, st: &State, addr: u64, ty: &Ty) -> Result<Val, String> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let mut v = vec![];
                for k in 0..ty.count() { let t = ty.elem(k); v.push(self.load(st, addr + ty.field_off(k), &t)?); }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => {
                let n = (ty.bits() as u64 + 7) / 8;
                let v = self.load_int(st, addr, n)?;
                if ty.bits() % 8 != 0 {
                    let w = ty.bits();
                    return Ok(match v { Val::C(x) => Val::C(x & mask(w) as u64), Val::E(i) => { let e = self.pool.extract(i, 0, w); self.mk(e) } a => a });
                }
                Ok(v)
            }
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> Result<(), String> {
        match ty {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
                let a = match v { Val::Agg(a) => a.clone(), _ => return Err("store agg".into()) };
                for k in 0..ty.count() { let t = ty.elem(k); self.store(st, addr + ty.field_off(k), &t, &a[k])?; }
                Ok(())
            }
            _ => self.store_int(st, addr, (ty.bits() as u64 + 7) / 8, v),
        }
    }
    fn copy_mem(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Result<(), String> {
        if n == 0 { return Ok(()); }
        let (o, off) = self.obj(st, src, n)?;
        let n = n as usize;
        let d: Vec<u8> = o.data[off..off + n].to_vec();
        let s: Vec<(Id, u8)> = if o.sym.is_empty() { vec![] } else { o.sym[off..off + n].to_vec() };
        let (o, off) = self.obj_mut(st, dst, n as u64)?;
        o.data[off..off + n].copy_from_slice(&d);
        if !s.is_empty() {
            if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
            o.sym[off..off + n].copy_from_slice(&s);
        } else if !o.sym.is_empty() { for t in 0..n { o.sym[off + t] = (0, 0); } }
        Ok(())
    }
    fn bytes(&mut self, st: &State, addr: u64, n: u64) -> Result<Vec<(u8, Id, u8)>, String> {
        if n == 0 { return Ok(vec![]); }
        let (o, off) = self.obj(st, addr, n)?;
        Ok((0..n as usize).map(|t| { let (e, k) = if o.sym.is_empty() { (0, 0) } else { o.sym[off + t] }; (o.data[off + t], e, k) }).collect())
    }
    fn put_bytes(&mut self, st: &mut State, addr: u64, b: &[(u8, Id, u8)]) -> Result<(), String> {
        if b.is_empty() { return Ok(()); }
        let (o, off) = self.obj_mut(st, addr, b.len() as u64)?;
        if o.sym.is_empty() && b.iter().any(|x| x.1 != 0) { o.sym = vec![(0, 0); o.data.len()]; }
        for (t, x) in b.iter().enumerate() { o.data[off + t] = x.0; if !o.sym.is_empty() { o.sym[off + t] = (x.1, x.2); } }
        Ok(())
    }
    fn byte_ex(&mut self, b: (u8, Id, u8)) -> Id { if b.1 == 0 { self.pool.cst(b.0 as u128, 8) } else { self.pool.extract(b.1, b.2 * 8, 8) } }
    fn cstr(&mut self, st: &State, addr: u64) -> Result<String, String> {
        let mut s = vec![]; let mut a = addr;
        loop { match self.load_int(st, a, 1)? { Val::C(0) => break, Val::C(c) => s.push(c as u8), _ => return Err("symbolic C string".into()) } a += 1; }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }
    fn str_at(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut s = vec![];
        for k in 0..n.min(300) { match self.load_int(st, p + k, 1) { Ok(Val::C(c)) => s.push(c as u8), _ => break } }
        String::from_utf8_lossy(&s).into_owned()
    }
    fn location(&mut self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                if *p >> 32 < GBASE { continue; }
                if let (Ok(Val::C(f)), Ok(Val::C(n)), Ok(Val::C(l)), Ok(Val::C(_))) = (self.load_int(st, *p, 8), self.load_int(st, p + 8, 8), self.load_int(st, p + 16, 4), self.load_int(st, p + 20, 4)) {
                    if n > 0 && n < 300 && f >> 32 >= GBASE {
                        let s = self.str_at(st, f, n);
                        if s.ends_with(".rs") || s.contains(".rs") { let s = s.trim_end_matches('\0').to_string(); return format!("{}:{}", s.rsplit("/repo/").next().unwrap_or(&s), l); }
                    }
                }
            }
        }
        String::new()
    }
    // ---------- instructions ----------
    fn step(&mut self, st: &mut State, d: usize, inst: &Inst) -> R {
        macro_rules! v { ($o:expr) => { match $o { Opd::R(r) => st.frames[d].regs[*r as usize].clone(), Opd::K(v) => v.clone(), Opd::Wide(x, w) => Val::E(self.pool.cst(*x, *w)) } } }
        macro_rules! set { ($r:expr, $v:expr) => {{ let t = $v; st.frames[d].regs[$r as usize] = t; R::Next }} }
        macro_rules! conc { ($v:expr, $w:expr) => { match self.conc(st, $v, $w) { Ok(x) => x, Err(r) => return r } } }
        macro_rules! mem { ($e:expr) => { match $e { Ok(x) => x, Err(m) => return R::End(End::Panic(format!("memory error: {}", m))) } } }
        match inst {
            Inst::Bin { d: r, op, ty, a, b } => {
                let (x, y) = (v!(a), v!(b));
                let t = self.bin(*op, ty, &x, &y);
                match t { Ok(t) => set!(*r, t), Err(m) => R::End(End::Err(m)) }
            }
            Inst::ICmp { d: r, p, ty, a, b } => { let (x, y) = (v!(a), v!(b)); let t = self.icmp(*p, ty, &x, &y); set!(*r, t) }
            Inst::Cast { d: r, op, from, to, a } => { let x = v!(a); let t = self.cast(*op, from, to, &x); match t { Ok(t) => set!(*r, t), Err(m) => R::End(End::Err(m)) } }
            Inst::Gep { d: r, base, off, idx } => {
                let b = v!(base);
                if let (Val::C(x), true) = (&b, idx.is_empty()) { let t = Val::C(x.wrapping_add(*off as u64)); return set!(*r, t); }
                let mut conc = true;
                let mut acc = *off;
                let vals: Vec<Val> = idx.iter().map(|(o, _, _)| v!(o)).collect();
                for (k, (_, w, s)) in idx.iter().enumerate() { if let Val::C(x) = vals[k] { acc = acc.wrapping_add((sx(x as u128, *w) as i64).wrapping_mul(*s)); } else { conc = false; } }
                if let (Val::C(x), true) = (&b, conc) { let t = Val::C(x.wrapping_add(acc as u64)); return set!(*r, t); }
                let mut e = self.ex(&b, 64);
                for (k, (_, w, s)) in idx.iter().enumerate() {
                    if let Val::E(i) = vals[k] {
                        let i = if *w < 64 { self.pool.sext(i, 64) } else { self.pool.extract(i, 0, 64) };
                        let c = self.pool.cst(*s as u64 as u128, 64);
                        let t = self.pool.bin(Bin::Mul, i, c);
                        e = self.pool.bin(Bin::Add, e, t);
                    }
                }
                let c = self.pool.cst(acc as u64 as u128, 64);
                e = self.pool.bin(Bin::Add, e, c);
                let t = self.mk(e);
                set!(*r, t)
            }
            Inst::Load { d: r, ty, p } => {
                let pv = v!(p);
                if let Val::E(i) = pv { if let Some(t) = self.table_load(st, i, ty) { return set!(*r, t); } }
                let a = conc!(&pv, 64);
                let t = mem!(self.load(st, a, ty));
                set!(*r, t)
            }
            Inst::Store { ty, v: vo, p } => {
                let pv = v!(p);
                let x = v!(vo);
                if let Val::E(i) = pv { if self.table_store(st, i, ty, &x) { return R::Next; } }
                let a = conc!(&pv, 64);
                mem!(self.store(st, a, ty, &x));
                R::Next
            }
            Inst::Br { t } => { self.jump(st, d, *t); R::Jump }
            Inst::CondBr { c, t, f } => {
                let x = v!(c);
                match x {
                    Val::C(k) => { self.jump(st, d, if k & 1 != 0 { *t } else { *f }); R::Jump }
                    Val::E(i) => self.cond_branch(st, d, i, *t, *f),
                    _ => R::End(End::Err("br agg".into())),
                }
            }
            Inst::Select { d: r, cty, c, ty, a, b } => {
                let k = v!(c);
                if let Ty::Vec(..) = cty {
                    let (x, y) = (v!(a), v!(b));
                    if let (Val::Agg(kc), Val::Agg(x), Val::Agg(y)) = (k, x, y) {
                        let et = ty.elem(0);
                        let mut o = vec![];
                        for i in 0..kc.len() { o.push(self.sel(&kc[i], &x[i], &y[i], &et)); }
                        return set!(*r, Val::Agg(Rc::new(o)));
                    }
                    return R::End(End::Err("vector select".into()));
                }
                match k {
                    Val::C(k) => { let t = if k & 1 != 0 { v!(a) } else { v!(b) }; set!(*r, t) }
                    Val::E(_) => {
                        let (x, y) = (v!(a), v!(b));
                        if x == y { return set!(*r, x); }
                        let t = self.sel(&k, &x, &y, ty);
                        set!(*r, t)
                    }
                    _ => R::End(End::Err("select".into())),
                }
            }
            Inst::Call { d: r, ret, f, args, next } => self.call(st, d, *r, ret, f, args, *next),
            Inst::Ret { v: rv } => {
                let out = match rv { Some((_, o)) => v!(o), None => Val::C(0) };
                let fr = st.frames.pop().unwrap();
                for k in fr.allocas { st.objs[k as usize] = None; st.free.push(k); }
                if d == 0 {
                    if st.cur == 0 { return R::End(End::Done); }
                    if self.spec > 0 { return R::Bail; }
                    let me = st.cur;
                    st.thr[me].done = true;
                    return self.give_way(st);
                }
                let c = &mut st.frames[d - 1];
                let ff = c.f.clone();
                match &ff.blocks[c.b as usize].insts[c.ip as usize] {
                    Inst::Call { d: r, next, .. } => {
                        if *r != u32::MAX { c.regs[*r as usize] = out; }
                        if let Some(n) = next { self.jump(st, d - 1, *n); } else { c.ip += 1; }
                    }
                    _ => return R::End(End::Err("return to non-call".into())),
                }
                R::Frame
            }
            Inst::Switch { ty, v: vo, def, cases } => {
                let x = v!(vo);
                match x {
                    Val::C(k) => { let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); self.jump(st, d, t); R::Jump }
                    Val::E(i) => {
                        let w = ty.bits();
                        let s = self.subst(st, i);
                        if let Some(k) = self.pool.get(s) { let k = k as u64; let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); self.jump(st, d, t); return R::Jump; }
                        // take the target the current model picks; other targets re-execute the switch
                        let model = st.model.clone();
                        let k = self.pool.eval(s, &model) as u64;
                        let target = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        let mut cond = self.pool.fls();
                        if target == *def {
                            for c in cases.iter().filter(|c| c.1 != target) { let kk = self.pool.cst(c.0 as u128, w); let e = self.pool.cmp(Cmp::Eq, s, kk); cond = self.pool.bin(Bin::Or, cond, e); }
                            cond = self.pool.not(cond);
                        } else {
                            for c in cases.iter().filter(|c| c.1 == target) { let kk = self.pool.cst(c.0 as u128, w); let e = self.pool.cmp(Cmp::Eq, s, kk); cond = self.pool.bin(Bin::Or, cond, e); }
                        }
                        match self.branch(st, cond, |_, _, _| {}) {
                            Ok(true) => { self.jump(st, d, target); R::Jump }
                            Ok(false) => R::End(End::Err("switch".into())),
                            Err(r) => r,
                        }
                    }
                    _ => R::End(End::Err("switch agg".into())),
                }
            }
            Inst::Alloca { d: r, size, n } => {
                let nv = v!(n);
                let k = conc!(&nv, 64);
                let a = self.alloc(st, size * k);
                st.frames[d].allocas.push(((a >> 32) - 16) as u32);
                set!(*r, Val::C(a))
            }
            Inst::Unreachable => R::End(End::Panic("reached unreachable code".into())),
            Inst::ExtractV { d: r, a, idx } => {
                let mut x = v!(a);
                for &k in idx { x = match x { Val::Agg(v) => v[k as usize].clone(), o => o }; }
                set!(*r, x)
            }
            Inst::InsertV { d: r, ty, a, v: vo, idx } => {
                let x = v!(a); let y = v!(vo);
                let base = if let Val::Agg(_) = x { x } else { zero(ty) };
                fn ins(b: &Val, idx: &[u32], y: Val, ty: &Ty) -> Val {
                    if idx.is_empty() { return y; }
                    let mut v = match b { Val::Agg(v) => (**v).clone(), _ => match zero(ty) { Val::Agg(v) => (*v).clone(), _ => vec![] } };
                    let k = idx[0] as usize;
                    v[k] = ins(&v[k].clone(), &idx[1..], y, &ty.elem(k));
                    Val::Agg(Rc::new(v))
                }
                let t = ins(&base, idx, y, ty);
                set!(*r, t)
            }
            Inst::ExtractE { d: r, a, i } => { let x = v!(a); let iv = v!(i); let k = conc!(&iv, 64); let t = match x { Val::Agg(v) => v[k as usize].clone(), o => o }; set!(*r, t) }
            Inst::InsertE { d: r, ty, a, v: vo, i } => {
                let x = v!(a); let y = v!(vo); let iv = v!(i); let k = conc!(&iv, 64);
                let mut vv = match x { Val::Agg(v) => (*v).clone(), _ => match zero(ty) { Val::Agg(v) => (*v).clone(), _ => vec![] } };
                vv[k as usize] = y;
                set!(*r, Val::Agg(Rc::new(vv)))
            }
            Inst::Shuffle { d: r, ty, a, b, m } => {
                let (x, y) = (v!(a), v!(b));
                let n = ty.count() as i64;
                let z = zero(&ty.elem(0));
                let g = |v: &Val, k: usize| match v { Val::Agg(v) => v[k].clone(), _ => z.clone() };
                let o: Vec<Val> = m.iter().map(|&k| if k < 0 { z.clone() } else if k < n { g(&x, k as usize) } else { g(&y, (k - n) as usize) }).collect();
                set!(*r, Val::Agg(Rc::new(o)))
            }
            Inst::Rmw { d: r, op, ty, p, v: vo } => {
                let pv = v!(p); let a = conc!(&pv, 64); let y = v!(vo);
                let old = mem!(self.load(st, a, ty));
                let k = match op.as_str() { "add" => BinK::Add, "sub" => BinK::Sub, "and" => BinK::And, "or" => BinK::Or, "xor" => BinK::Xor, "xchg" => { mem!(self.store(st, a, ty, &y)); return set!(*r, old); } _ => return R::End(End::Err(format!("atomicrmw {}", op))) };
                let n = match self.bin(k, ty, &old, &y) { Ok(n) => n, Err(m) => return R::End(End::Err(m)) };
                mem!(self.store(st, a, ty, &n));
                set!(*r, old)
            }
            Inst::CmpXchg { d: r, ty, p, c, n } => {
                let pv = v!(p); let a = conc!(&pv, 64); let cv = v!(c); let nv = v!(n);
                let old = mem!(self.load(st, a, ty));
                let o = conc!(&old, 64); let k = conc!(&cv, 64);
                if o == k { mem!(self.store(st, a, ty, &nv)); }
                set!(*r, Val::Agg(Rc::new(vec![old, Val::C((o == k) as u64)])))
            }
            Inst::FNeg { d: r, ty, a } => {
                let x = v!(a); let w = ty.bits();
                let e = self.ex(&x, w); let m = self.pool.cst(1u128 << (w - 1), w);
                let t = self.pool.bin(Bin::Xor, e, m);
                let t = self.mk(t);
                set!(*r, t)
            }
            Inst::FCmp { d: r, p, ty, a, b } => { let (x, y) = (v!(a), v!(b)); let t = self.fcmp(p, ty.bits(), &x, &y); set!(*r, t) }
            Inst::Copy { d: r, a } => { let x = v!(a); set!(*r, x) }
            Inst::Nop => R::Next,
            Inst::Bad(s) => R::End(End::Err(format!("unsupported instruction: {}", s))),
        }
    }
    fn jump(&mut self, st: &mut State, d: usize, t: u32) {
        let fr = &mut st.frames[d];
        let from = fr.b;
        let f = fr.f.clone();
        let phis = &f.blocks[t as usize].phis;
        if !phis.is_empty() {
            if phis.len() == 1 {
                let p = &phis[0];
                let o = &p.inc.iter().find(|x| x.0 == from).expect("phi").1;
                let v = match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone(), Opd::Wide(x, w) => Val::E(self.pool.cst(*x, *w)) };
                fr.regs[p.d as usize] = v;
            } else {
                let k = phis[0].inc.iter().position(|x| x.0 == from).expect("phi");
                let mut vs = Vec::with_capacity(phis.len());
                for p in phis {
                    let o = if p.inc.len() > k && p.inc[k].0 == from { &p.inc[k].1 } else { &p.inc.iter().find(|x| x.0 == from).expect("phi").1 };
                    vs.push(match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone(), Opd::Wide(x, w) => Val::E(self.pool.cst(*x, *w)) });
                }
                for (p, v) in phis.iter().zip(vs) { fr.regs[p.d as usize] = v; }
            }
        }
        fr.b = t;
        fr.ip = 0;
    }
    fn cond_branch(&mut self, st: &mut State, d: usize, c: Id, t: u32, f: u32) -> R {
        let (s, q) = self.quick(st, c);
        if let Some(b) = q { self.jump(st, d, if b { t } else { f }); return R::Jump; }
        let model = st.model.clone();
        let dir = self.pool.eval(s, &model) != 0;
        let neg = if dir { self.pool.not(s) } else { s };
        match self.sat(st, neg) {
            Sat::Unsat => { self.note(st, s, dir); if s != c { self.note(st, c, dir); } self.jump(st, d, if dir { t } else { f }); R::Jump }
            Sat::Unknown => R::End(End::Err("solver returned unknown".into())),
            Sat::Sat(mo) => {
                let mo = Rc::new(mo);
                // merge the two sides at the post-dominator when they are small and compatible
                let fid = st.frames[d].f.id; let blk = st.frames[d].b;
                let stat = self.merge_stat.get(&(fid, blk)).copied().unwrap_or((0, 0));
                if st.deep && self.spec == 0 && self.region_fail.get(&(fid, blk)).copied().unwrap_or(0) < 3 {
                    if let Some(p) = st.frames[d].f.ipdom[blk as usize] {
                        let (mt, mf) = if dir { (model.clone(), mo.clone()) } else { (mo.clone(), model.clone()) };
                        self.spec += 1;
                        let ok = self.region(st, d, s, t, f, p, mt, mf);
                        self.spec -= 1;
                        if ok { self.merges += 1; return R::Jump; }
                        *self.region_fail.entry((fid, blk)).or_insert(0) += 1;
                    }
                }
                if st.merge_on && self.spec < 6 && !(stat.1 >= 6 && stat.1 > 4 * stat.0) {
                    if let Some(p) = st.frames[d].f.ipdom[blk as usize] {
                        let (mt, mf) = if dir { (model.clone(), mo.clone()) } else { (mo.clone(), model.clone()) };
                        let ok = self.try_merge(st, d, s, t, f, p, mt, mf);
                        let e = self.merge_stat.entry((fid, blk)).or_insert((0, 0));
                        if ok { e.0 += 1; self.merges += 1; return R::Jump; }
                        e.1 += 1; self.merge_fail += 1;
                    }
                }
                if self.spec > 0 { return R::Bail; }
                self.forks += 1;
                let mut other = st.clone();
                other.model = mo;
                self.add(&mut other, s, !dir);
                if s != c { self.note(&mut other, c, !dir); }
                self.add(st, s, dir);
                if s != c { self.note(st, c, dir); }
                Self::mark_fork(&mut other, !dir as u64);
                Self::mark_fork(st, dir as u64);
                self.jump(&mut other, d, if dir { f } else { t });
                if self.split_ok(&other) { self.pending.push(other); }
                if !self.split_ok(st) { return R::End(End::Assumed); }
                self.jump(st, d, if dir { t } else { f });
                R::Jump
            }
        }
    }
    fn try_merge(&mut self, st: &mut State, d: usize, c: Id, t: u32, f: u32, p: u32, mt: Rc<Vec<u64>>, mf: Rc<Vec<u64>>) -> bool {
        self.spec += 1;
        let r = self.try_merge2(st, d, c, t, f, p, mt, mf);
        self.spec -= 1;
        r
    }
    fn try_merge2(&mut self, st: &mut State, d: usize, c: Id, t: u32, f: u32, p: u32, mt: Rc<Vec<u64>>, mf: Rc<Vec<u64>>) -> bool {
        let mut a = st.clone();
        a.model = mt;
        self.add(&mut a, c, true);
        self.jump(&mut a, d, t);
        if !(t == p) { match self.run(&mut a, Some((d + 1, p))) { Ctl::Stop => {} _ => return false } }
        let mut b = st.clone();
        b.model = mf;
        self.add(&mut b, c, false);
        self.jump(&mut b, d, f);
        if !(f == p) { match self.run(&mut b, Some((d + 1, p))) { Ctl::Stop => {} _ => return false } }
        match self.join(st, a, b, c, d, p) { Some(x) => { *st = x; true } None => false }
    }
    /// Runs everything between a branch and the point where all ways meet again, block by block in
    /// program order, joining states as soon as they stand at the same block.
    fn region(&mut self, st: &mut State, d: usize, c: Id, t: u32, f: u32, p: u32, mt: Rc<Vec<u64>>, mf: Rc<Vec<u64>>) -> bool {
        let func = st.frames[d].f.clone();
        let rpo = func.rpo().clone();
        let nc = self.pool.not(c);
        let mut items: Vec<(State, Id, u32)> = vec![];
        let mut todo: Vec<(State, Id, u32)> = vec![];
        for (m, g, to) in [(mt, c, t), (mf, nc, f)] {
            let mut a = st.clone();
            a.model = m;
            self.add(&mut a, g, true);
            let from = a.frames[d].b;
            self.jump(&mut a, d, to);
            todo.push((a, g, (rpo[to as usize] <= rpo[from as usize]) as u32));
        }
        let limit = st.instrs + 3_000_000;
        let mut spent = st.instrs;
        loop {
            while let Some((a, g, back)) = todo.pop() {
                let blk = a.frames[d].b;
                match items.iter().position(|x| x.0.frames[d].b == blk && (blk == p || x.2 == back)) {
                    Some(k) => {
                        let (x, gx, _) = items.swap_remove(k);
                        let m = x.model.clone();
                        let last = blk == p;
                        let keep = if last { None } else { Some((x.clone(), a.clone())) };
                        match self.join(st, x, a, gx, d, blk) {
                            Some(mut j) => {
                                let o = self.pool.bin(Bin::Or, gx, g);
                                j.model = m;
                                self.add(&mut j, o, true);
                                items.push((j, o, back));
                            }
                            None => match keep {
                                Some((x, a)) => { items.push((x, gx, back)); items.push((a, g, back)); }
                                None => { if self.trace { eprintln!("region: 1 {} block {}", func.name, st.frames[d].b); } return false }
                            }
                        }
                    }
                    None => items.push((a, g, back)),
                }
                if items.len() > 48 { { if self.trace { eprintln!("region: 2 {} block {}", func.name, st.frames[d].b); } return false }; }
            }
            let k = match (0..items.len()).filter(|&k| items[k].0.frames[d].b != p).min_by_key(|&k| (items[k].2, rpo[items[k].0.frames[d].b as usize])) {
                Some(k) => k,
                None => break,
            };
            let (mut s, g, back) = items.swap_remove(k);
            let i0 = s.instrs;
            loop {
                let top = s.frames.len();
                if top < d + 1 { { if self.trace { eprintln!("region: 3 {} block {}", func.name, st.frames[d].b); } return false }; }
                let fr = &s.frames[top - 1];
                let ff = fr.f.clone();
                let inst = &ff.blocks[fr.b as usize].insts[fr.ip as usize];
                s.instrs += 1;
                if spent + (s.instrs - i0) > limit { { if self.trace { eprintln!("region: 4 {} block {}", func.name, st.frames[d].b); } return false }; }
                if top == d + 1 {
                    let from = fr.b;
                    let bk = |to: u32| back + (rpo[to as usize] <= rpo[from as usize]) as u32;
                    match inst {
                        Inst::Br { t } => { self.jump(&mut s, d, *t); let n = bk(*t); todo.push((s, g, n)); break; }
                        Inst::CondBr { c: co, t, f } => {
                            let x = self.val(&s.frames[d], co);
                            match x {
                                Val::C(k) => { let to = if k & 1 != 0 { *t } else { *f }; self.jump(&mut s, d, to); let n = bk(to); todo.push((s, g, n)); }
                                Val::E(c) => {
                                    let (e, q) = self.quick(&s, c);
                                    if let Some(b) = q { let to = if b { *t } else { *f }; self.jump(&mut s, d, to); let n = bk(to); todo.push((s, g, n)); break; }
                                    let model = s.model.clone();
                                    let dir = self.pool.eval(e, &model) != 0;
                                    let ne = self.pool.not(e);
                                    match self.sat(&s, if dir { ne } else { e }) {
                                        Sat::Unknown => { if self.trace { eprintln!("region: 5 {} block {}", func.name, st.frames[d].b); } return false },
                                        Sat::Unsat => { self.note(&mut s, e, dir); let to = if dir { *t } else { *f }; self.jump(&mut s, d, to); let n = bk(to); todo.push((s, g, n)); }
                                        Sat::Sat(mo) => {
                                            let mut o = s.clone();
                                            o.model = Rc::new(mo);
                                            self.add(&mut o, e, !dir);
                                            self.add(&mut s, e, dir);
                                            let (gs, go) = if dir { (e, ne) } else { (ne, e) };
                                            let (gs, go) = (self.pool.bin(Bin::And, g, gs), self.pool.bin(Bin::And, g, go));
                                            let (ts, to) = if dir { (*t, *f) } else { (*f, *t) };
                                            self.jump(&mut s, d, ts);
                                            self.jump(&mut o, d, to);
                                            spent += s.instrs - i0;
                                            let (n1, n2) = (bk(ts), bk(to));
                                            todo.push((s, gs, n1));
                                            todo.push((o, go, n2));
                                        }
                                    }
                                }
                                _ => { if self.trace { eprintln!("region: 6 {} block {}", func.name, st.frames[d].b); } return false },
                            }
                            break;
                        }
                        Inst::Ret { .. } => { if self.trace { eprintln!("region: 7 {} block {}", func.name, st.frames[d].b); } return false },
                        _ => {}
                    }
                    let at = fr.b;
                    match self.step(&mut s, top - 1, inst) {
                        R::Next => s.frames[top - 1].ip += 1,
                        R::Jump => { let to = s.frames[d].b; let n = back + (rpo[to as usize] <= rpo[at as usize]) as u32; todo.push((s, g, n)); break; }
                        R::Frame => {}
                        R::Bail | R::Sched | R::End(_) => { if self.trace { eprintln!("region: 8 {} block {}", func.name, st.frames[d].b); } return false },
                    }
                } else {
                    match self.step(&mut s, top - 1, inst) {
                        R::Next => s.frames[top - 1].ip += 1,
                        R::Jump | R::Frame => {}
                        R::Bail | R::Sched | R::End(_) => { if self.trace { eprintln!("region: 9 {} block {}", func.name, st.frames[d].b); } return false },
                    }
                }
            }
        }
        if items.len() != 1 { { if self.trace { eprintln!("region: 10 {} block {}", func.name, st.frames[d].b); } return false }; }
        let (x, _, _) = items.pop().unwrap();
        let pc = std::mem::take(&mut st.pc);
        let (known, model) = (st.known.clone(), st.model.clone());
        *st = x;
        st.pc = pc;
        st.known = known;
        st.model = model;
        true
    }
    /// One state for two that stand at the same block; `c` tells the first from the second.
    fn join(&mut self, st: &State, a: State, b: State, c: Id, d: usize, p: u32) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.syms.len() != b.syms.len() || a.syms.len() != st.syms.len() || a.objs.len() != b.objs.len() || a.free != b.free || a.obs.len() != b.obs.len() || a.checks != b.checks || a.errno != b.errno { { self.why(1); return None }; }
        if a.frames[d].allocas != b.frames[d].allocas || !Rc::ptr_eq(&a.fs, &b.fs) { { self.why(2); return None }; }
        // memory
        let mut patches: Vec<(usize, Vec<(usize, u64, Val)>)> = vec![];
        for k in 0..a.objs.len() {
            match (&a.objs[k], &b.objs[k]) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    if Rc::ptr_eq(x, y) { continue; }
                    if x.data.len() != y.data.len() { { self.why(3); return None }; }
                    let n = x.data.len();
                    let mut pl = vec![];
                    let get = |o: &Obj, i: usize| -> (u8, Id, u8) { if o.sym.is_empty() { (o.data[i], 0, 0) } else { let s = o.sym[i]; (o.data[i], s.0, s.1) } };
                    let (x, y) = (x.clone(), y.clone());
                    let mut i = 0;
                    while i < n {
                        if get(&x, i) == get(&y, i) { i += 1; continue; }
                        // widen to the aligned 8-byte word if it looks like a pointer or length, else 4, else 1
                        let w8 = i & !7;
                        if w8 + 8 <= n {
                            let rd = |o: &Obj| -> Option<u64> { let mut r = 0u64; for t in (0..8).rev() { let (v, e, _) = get(o, w8 + t); if e != 0 { return None; } r = r << 8 | v as u64; } Some(r) };
                            if let (Some(u), Some(w)) = (rd(&x), rd(&y)) { if u >> 32 >= 16 && u >> 32 < (1 << 24) || w >> 32 >= 16 && w >> 32 < (1 << 24) { { self.why(5); return None }; } }
                        }
                        let addr = ((k as u64 + 16) << 32) + i as u64;
                        let wd = if i % 8 == 0 && i + 8 <= n && (4..8).any(|t| get(&x, i + t) != get(&y, i + t)) { 8 } else if i % 4 == 0 && i + 4 <= n { 4 } else { 1 };
                        let (u, w) = (self.load_int(&a, addr, wd), self.load_int(&b, addr, wd));
                        let (u, w) = match (u, w) { (Ok(u), Ok(w)) => (u, w), _ => { self.why(6); return None } };
                        let (eu, ew) = (self.ex(&u, (wd * 8) as u8), self.ex(&w, (wd * 8) as u8));
                        let e = self.pool.ite(c, eu, ew);
                        let m = self.mk(e);
                        pl.push((i, wd, m));
                        i += wd as usize;
                        if pl.len() > 64 { { self.why(7); return None }; }
                    }
                    if !pl.is_empty() { patches.push((k, pl)); }
                }
                _ => { self.why(8); return None },
            }
        }
        if !Rc::ptr_eq(&a.gl, &b.gl) && *a.gl.keys().collect::<Vec<_>>() != *b.gl.keys().collect::<Vec<_>>() { { self.why(9); return None }; }
        for (k, x) in a.gl.iter() { if !Rc::ptr_eq(x, &b.gl[k]) { { self.why(10); return None }; } }
        // phi results
        let func = a.frames[d].f.clone();
        let mut pv = vec![];
        for ph in &func.blocks[p as usize].phis {
            let (x, y) = (a.frames[d].regs[ph.d as usize].clone(), b.frames[d].regs[ph.d as usize].clone());
            if x == y { continue; }
            if ph.ty == Ty::Ptr { { self.why(11); return None }; }
            let cv = Val::E(c);
            pv.push((ph.d, self.sel(&cv, &x, &y, &ph.ty)));
        }
        // values computed before the join and still live there (loops leave such values behind without a phi)
        let live = func.live_in(p);
        for (wi, &bits) in live.iter().enumerate() {
            let mut bb = bits;
            while bb != 0 {
                let r = wi * 64 + bb.trailing_zeros() as usize;
                bb &= bb - 1;
                if a.frames[d].regs[r] == b.frames[d].regs[r] { continue; }
                let ty = func.reg_ty(r as u32).clone();
                if !matches!(ty, Ty::Int(_)) { { self.why(12); return None }; }
                let (x, y) = (a.frames[d].regs[r].clone(), b.frames[d].regs[r].clone());
                let cv = Val::E(c);
                pv.push((r as u32, self.sel(&cv, &x, &y, &ty)));
            }
        }
        // clocks and observations
        for k in 0..a.obs.len() { if a.obs[k] != b.obs[k] { { self.why(13); return None }; } }
        // start from side a
        let mut o = a;
        o.instrs = o.instrs.max(b.instrs);
        o.pc = st.pc.clone();
        o.known = st.known.clone();
        o.model = st.model.clone();
        for (k, pl) in patches { for (at, wd, v) in pl { let _ = self.store_int(&mut o, ((k as u64 + 16) << 32) + at as u64, wd, &v); } }
        for (r, v) in pv { o.frames[d].regs[r as usize] = v; }
        Some(o)
    }
    fn why(&self, n: u32) { if self.trace { eprintln!("join fails: {}", n); } }
    fn sel(&mut self, c: &Val, a: &Val, b: &Val, ty: &Ty) -> Val {
        match (c, a, b) {
            (Val::C(k), _, _) => if k & 1 != 0 { a.clone() } else { b.clone() },
            (Val::E(_), Val::Agg(x), Val::Agg(y)) => { let mut o = vec![]; for i in 0..x.len() { let t = ty.elem(i); o.push(self.sel(c, &x[i], &y[i], &t)); } Val::Agg(Rc::new(o)) }
            (Val::E(k), _, _) => { let w = ty.bits(); let (x, y) = (self.ex(a, w), self.ex(b, w)); let e = self.pool.ite(*k, x, y); self.mk(e) }
            _ => a.clone(),
        }
    }
    /// A symbolic address inside one object: (base, offset, low, high, stride) of its possible slots.
    fn slots(&mut self, st: &mut State, p: Id, ty: &Ty) -> Option<(u64, Id, u64, u64, u64)> {
        if st.known.contains_key(&p) { return None; }
        let bits = ty.bits();
        if bits == 0 || bits > 64 || ty == &Ty::Ptr { return None; }
        let n = (bits as u64 + 7) / 8;
        let s = self.subst(st, p);
        if self.pool.get(s).is_some() { return None; }
        // shape: const base + offset
        let (off, base) = match self.pool.op(s) { Op::Bin(Bin::Add, x, k) => (x, self.pool.get(k)? as u64), _ => return None };
        let id = base >> 32;
        if id < 16 { return None; }
        let (size, b0) = { let (o, o0) = self.obj(st, base, 0).ok()?; (o.data.len() as u64, o0 as u64) };
        let mut memo: FxMap<Id, (u128, u128)> = Default::default();
        let mut fuel = 200;
        let r = self.pool.range(off, &st.known, &mut memo, &mut fuel);
        // alignment of the stride: trailing zero bits
        let stride = match self.pool.op(off) { Op::Concat(_, l) if self.pool.get(l) == Some(0) => 1u64 << self.pool.w(l), Op::ZExt(x) => match self.pool.op(x) { Op::Concat(_, l) if self.pool.get(l) == Some(0) => 1u64 << self.pool.w(l), _ => 1 }, _ => 1 };
        let hi = (r.1 as u64).min(size.saturating_sub(b0 + n));
        if size < b0 + n || hi / stride > 300 || r.1 > 1 << 40 { return None; }
        // the address must stay inside
        if r.1 as u64 > hi {
            let w = self.pool.w(off);
            let h = self.pool.cst(hi as u128, w);
            let oob = self.pool.cmp(Cmp::Ult, h, off);
            match self.sat(st, oob) { Sat::Unsat => { let ok = self.pool.not(oob); self.note(st, ok, true); } _ => return None }
        }
        let mut lo = r.0 as u64; lo -= lo % stride;
        Some((base, off, lo, hi, stride))
    }
    /// Read through a symbolic address as a selection over its feasible slots.
    fn table_load(&mut self, st: &mut State, p: Id, ty: &Ty) -> Option<Val> {
        let (base, off, lo, hi, stride) = self.slots(st, p, ty)?;
        let bits = ty.bits();
        let w = self.pool.w(off);
        let mut k = lo;
        let mut vals: Vec<(u64, Id)> = vec![];
        while k <= hi { let v = self.load(st, base + k, ty).ok()?; let e = self.ex(&v, bits); vals.push((k, e)); k += stride; }
        let mut r = vals.last()?.1;
        // group equal values
        let mut groups: Vec<(Id, Id)> = vec![];
        for (k, e) in vals { if e == r { continue; } let kk = self.pool.cst(k as u128, w); let c = self.pool.cmp(Cmp::Eq, off, kk); if let Some(g) = groups.iter_mut().find(|g| g.0 == e) { g.1 = self.pool.bin(Bin::Or, g.1, c); } else { groups.push((e, c)); } }
        for (e, c) in groups { r = self.pool.ite(c, e, r); }
        Some(self.mk(r))
    }
    /// Write through a symbolic address: every feasible slot takes the new value or keeps its own.
    fn table_store(&mut self, st: &mut State, p: Id, ty: &Ty, v: &Val) -> bool {
        let bits = ty.bits();
        if bits == 0 || bits % 8 != 0 || matches!(v, Val::Agg(_)) { return false; }
        let (base, off, lo, hi, stride) = match self.slots(st, p, ty) { Some(x) => x, None => return false };
        if (hi - lo) / stride > 64 || stride < (bits as u64) / 8 { return false; }
        let w = self.pool.w(off);
        let e = self.ex(v, bits);
        let mut k = lo;
        while k <= hi {
            let old = match self.load(st, base + k, ty) { Ok(o) => o, Err(_) => return false };
            let o = self.ex(&old, bits);
            let kk = self.pool.cst(k as u128, w);
            let c = self.pool.cmp(Cmp::Eq, off, kk);
            let n = self.pool.ite(c, e, o);
            let n = self.mk(n);
            if self.store(st, base + k, ty, &n).is_err() { return false; }
            k += stride;
        }
        true
    }
    fn bin(&mut self, op: BinK, ty: &Ty, a: &Val, b: &Val) -> Result<Val, String> {
        if let Ty::Vec(n, t) = ty {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let mut o = vec![]; for i in 0..*n as usize { o.push(self.bin(op, t, &x[i], &y[i])?); } return Ok(Val::Agg(Rc::new(o))); }
            return Err("vector op".into());
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = mask(w) as u64;
                let (x, y) = (*x, *y);
                let r = match op {
                    BinK::Add => x.wrapping_add(y), BinK::Sub => x.wrapping_sub(y), BinK::Mul => x.wrapping_mul(y), BinK::And => x & y, BinK::Or => x | y, BinK::Xor => x ^ y,
                    BinK::Shl => if y >= w as u64 { 0 } else { x << y }, BinK::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinK::UDiv => if y == 0 { return Err("division by zero".into()) } else { x / y }, BinK::URem => if y == 0 { return Err("division by zero".into()) } else { x % y },
                    BinK::SDiv => if y == 0 { return Err("division by zero".into()) } else { bin_const(Bin::SDiv, x as u128, y as u128, w) as u64 },
                    BinK::SRem => if y == 0 { return Err("division by zero".into()) } else { bin_const(Bin::SRem, x as u128, y as u128, w) as u64 },
                    BinK::AShr => bin_const(Bin::AShr, x as u128, y as u128, w) as u64,
                    BinK::FAdd => fp_const(Fp::Add, x as u128, y as u128, w) as u64, BinK::FSub => fp_const(Fp::Sub, x as u128, y as u128, w) as u64,
                    BinK::FMul => fp_const(Fp::Mul, x as u128, y as u128, w) as u64, BinK::FDiv => fp_const(Fp::Div, x as u128, y as u128, w) as u64, BinK::FRem => fp_const(Fp::Rem, x as u128, y as u128, w) as u64,
                };
                return Ok(Val::C(r & m));
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match op {
            BinK::Add => self.pool.bin(Bin::Add, x, y), BinK::Sub => self.pool.bin(Bin::Sub, x, y), BinK::Mul => self.pool.bin(Bin::Mul, x, y),
            BinK::UDiv => self.pool.bin(Bin::UDiv, x, y), BinK::SDiv => self.pool.bin(Bin::SDiv, x, y), BinK::URem => self.pool.bin(Bin::URem, x, y), BinK::SRem => self.pool.bin(Bin::SRem, x, y),
            BinK::And => self.pool.bin(Bin::And, x, y), BinK::Or => self.pool.bin(Bin::Or, x, y), BinK::Xor => self.pool.bin(Bin::Xor, x, y),
            BinK::Shl => self.pool.bin(Bin::Shl, x, y), BinK::LShr => self.pool.bin(Bin::LShr, x, y), BinK::AShr => self.pool.bin(Bin::AShr, x, y),
            BinK::FAdd => self.pool.fp(Fp::Add, x, y), BinK::FSub => self.pool.fp(Fp::Sub, x, y), BinK::FMul => self.pool.fp(Fp::Mul, x, y), BinK::FDiv => self.pool.fp(Fp::Div, x, y),
            BinK::FRem => return Err("symbolic frem".into()),
        };
        Ok(self.mk(e))
    }
    fn icmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> Val {
        if let Ty::Vec(n, t) = ty {
            if let (Val::Agg(x), Val::Agg(y)) = (a, b) { let o: Vec<Val> = (0..*n as usize).map(|i| self.icmp(p, t, &x[i], &y[i])).collect(); return Val::Agg(Rc::new(o)); }
        }
        let w = ty.bits();
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                _ => { let (s, t) = (sx(x as u128, w), sx(y as u128, w)); match p { Pred::Sgt => s > t, Pred::Sge => s >= t, Pred::Slt => s < t, _ => s <= t } } };
            return Val::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.pool.cmp(Cmp::Eq, x, y), Pred::Ne => { let e = self.pool.cmp(Cmp::Eq, x, y); self.pool.not(e) }
            Pred::Ugt => self.pool.cmp(Cmp::Ult, y, x), Pred::Uge => self.pool.cmp(Cmp::Ule, y, x), Pred::Ult => self.pool.cmp(Cmp::Ult, x, y), Pred::Ule => self.pool.cmp(Cmp::Ule, x, y),
            Pred::Sgt => self.pool.cmp(Cmp::Slt, y, x), Pred::Sge => self.pool.cmp(Cmp::Sle, y, x), Pred::Slt => self.pool.cmp(Cmp::Slt, x, y), Pred::Sle => self.pool.cmp(Cmp::Sle, x, y),
        };
        self.mk(e)
    }
    fn fcmp(&mut self, p: &str, w: u8, a: &Val, b: &Val) -> Val {
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let pl = &mut self.pool;
        let e = match p {
            "false" => pl.fls(), "true" => pl.tru(),
            "oeq" => pl.fcmp(Fcmp::Eq, x, y),
            "une" => { let t = pl.fcmp(Fcmp::Eq, x, y); pl.not(t) }
            "olt" => pl.fcmp(Fcmp::Lt, x, y), "ole" => pl.fcmp(Fcmp::Le, x, y), "ogt" => pl.fcmp(Fcmp::Lt, y, x), "oge" => pl.fcmp(Fcmp::Le, y, x),
            "ult" => { let t = pl.fcmp(Fcmp::Le, y, x); pl.not(t) } "ule" => { let t = pl.fcmp(Fcmp::Lt, y, x); pl.not(t) }
            "ugt" => { let t = pl.fcmp(Fcmp::Le, x, y); pl.not(t) } "uge" => { let t = pl.fcmp(Fcmp::Lt, x, y); pl.not(t) }
            "uno" => pl.fcmp(Fcmp::Uno, x, y), "ord" => { let t = pl.fcmp(Fcmp::Uno, x, y); pl.not(t) }
            "one" => { let l = pl.fcmp(Fcmp::Lt, x, y); let g = pl.fcmp(Fcmp::Lt, y, x); pl.bin(Bin::Or, l, g) }
            "ueq" => { let l = pl.fcmp(Fcmp::Lt, x, y); let g = pl.fcmp(Fcmp::Lt, y, x); let o = pl.bin(Bin::Or, l, g); pl.not(o) }
            _ => panic!("fcmp {}", p),
        };
        self.mk(e)
    }
    fn cast(&mut self, op: CastK, from: &Ty, to: &Ty, a: &Val) -> Result<Val, String> {
        if let (Ty::Vec(n, t), Ty::Vec(n2, t2)) = (from, to) {
            if n == n2 { if let Val::Agg(x) = a { let mut o = vec![]; for i in 0..*n as usize { o.push(self.cast(op, t, t2, &x[i])?); } return Ok(Val::Agg(Rc::new(o))); } }
        }
        if op == CastK::Bit {
            if from.bits() > 0 && to.bits() > 0 || from == to { return Ok(a.clone()); }
            // vector <-> integer
            if let (Ty::Vec(n, t), Val::Agg(x)) = (from, a) {
                let w = t.bits();
                let mut e = self.ex(&x[0], w);
                for i in 1..*n as usize { let h = self.ex(&x[i], w); e = self.pool.concat(h, e); }
                if to.bits() > 0 { return Ok(self.mk(e)); }
                let (n2, t2) = (to.count(), to.elem(0));
                let mut o = vec![];
                for i in 0..n2 { let w2 = t2.bits(); let p = self.pool.extract(e, i as u8 * w2, w2); o.push(self.mk(p)); }
                return Ok(Val::Agg(Rc::new(o)));
            }
            if let Ty::Vec(n, t) = to {
                let w = from.bits(); let e = self.ex(a, w); let w2 = t.bits();
                let mut o = vec![];
                for i in 0..*n { let p = self.pool.extract(e, i as u8 * w2, w2); o.push(self.mk(p)); }
                return Ok(Val::Agg(Rc::new(o)));
            }
            return Err("bitcast".into());
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::C(x) = a {
            if tw <= 64 {
                let x = *x;
                return Ok(Val::C(match op {
                    CastK::ZExt | CastK::Bit => x,
                    CastK::SExt => sx(x as u128, fw) as u64 & mask(tw) as u64,
                    CastK::Trunc => x & mask(tw) as u64,
                    CastK::FpToUi => fun_const(Fun::ToUi, x as u128, tw, fw) as u64,
                    CastK::FpToSi => fun_const(Fun::ToSi, x as u128, tw, fw) as u64,
                    CastK::UiToFp => fun_const(Fun::FromUi, x as u128, tw, fw) as u64,
                    CastK::SiToFp => fun_const(Fun::FromSi, x as u128, tw, fw) as u64,
                    CastK::FpExt | CastK::FpTrunc => fun_const(Fun::Conv, x as u128, tw, fw) as u64,
                }));
            }
        }
        let e = self.ex(a, fw);
        let r = match op {
            CastK::ZExt => self.pool.zext(e, tw), CastK::SExt => self.pool.sext(e, tw), CastK::Trunc => self.pool.extract(e, 0, tw), CastK::Bit => e,
            CastK::FpToUi => self.pool.fun(Fun::ToUi, e, tw), CastK::FpToSi => self.pool.fun(Fun::ToSi, e, tw), CastK::UiToFp => self.pool.fun(Fun::FromUi, e, tw), CastK::SiToFp => self.pool.fun(Fun::FromSi, e, tw),
            CastK::FpExt | CastK::FpTrunc => self.pool.fun(Fun::Conv, e, tw),
        };
        Ok(self.mk(r))
    }
    // ---------- calls ----------
    fn call(&mut self, st: &mut State, d: usize, r: u32, ret: &Ty, f: &Callee, args: &[(Ty, Opd)], next: Option<u32>) -> R {
        let fid = match f {
            Callee::Fn(i) => *i,
            Callee::Asm => { return self.ret_to(st, d, r, Val::C(0), next); }
            Callee::Ind(o) => {
                let p = match o { Opd::R(r) => st.frames[d].regs[*r as usize].clone(), Opd::K(v) => v.clone(), _ => Val::C(0) };
                let a = match self.conc(st, &p, 64) { Ok(a) => a, Err(r) => return r };
                if a < FBASE || (a - FBASE) % 16 != 0 || (a - FBASE) / 16 > self.m.fnames.len() as u64 { return R::End(End::Err(format!("indirect call to {:#x}", a))); }
                ((a - FBASE) / 16 - 1) as u32
            }
        };
        let mut av: Vec<Val> = Vec::with_capacity(args.len());
        for (_, o) in args { let v = match o { Opd::R(r) => st.frames[d].regs[*r as usize].clone(), Opd::K(v) => v.clone(), Opd::Wide(x, w) => Val::E(self.pool.cst(*x, *w)) }; av.push(v); }
        let has_body = self.m.fbody[fid as usize].is_some();
        let special = {
            let n = &self.m.fnames[fid as usize];
            n.starts_with("llvm.") || n.starts_with("msx_") || !has_body || panic_fn(n)
        };
        if special {
            let name = self.m.fnames[fid as usize].clone();
            if panic_fn(&name) {
                let loc = self.location(st, &av);
                let short = short_name(&name);
                return R::End(End::Panic(format!("{} at {}", short, loc)));
            }
            return match self.builtin(st, &name, ret, args, &av) {
                Ok(Some(v)) => self.ret_to(st, d, r, v, next),
                Ok(None) => R::End(End::Assumed),
                // the call is over; another thread may come first from here
                Err(R::Sched) => {
                    let c = st.cur;
                    st.choosing = Some(if name == "sched_yield" { self.after(st, c).unwrap_or(c) } else { c });
                    match self.ret_to(st, d, r, Val::C(0), next) { R::Next => st.frames[d].ip += 1, _ => {} }
                    R::Frame
                }
                Err(e) => e,
            };
        }
        if st.frames.len() as u32 > self.max_depth { return R::End(End::Panic("stack overflow (call depth)".into())); }
        let f = self.func(fid);
        *self.fn_used.entry(fid).or_insert(0) += 1;
        if self.trace { eprintln!("{}{}", " ".repeat(st.frames.len()), f.name); }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (k, &a) in f.args.iter().enumerate() { regs[a as usize] = av[k].clone(); }
        st.frames.push(Frame { f, b: 0, ip: 0, regs, allocas: vec![] });
        R::Frame
    }
    fn ret_to(&mut self, st: &mut State, d: usize, r: u32, v: Val, next: Option<u32>) -> R {
        if r != u32::MAX { st.frames[d].regs[r as usize] = v; }
        if let Some(n) = next { self.jump(st, d, n); R::Jump } else { R::Next }
    }
    fn builtin(&mut self, st: &mut State, name: &str, ret: &Ty, targs: &[(Ty, Opd)], a: &[Val]) -> Result<Option<Val>, R> {
        macro_rules! conc { ($v:expr) => { match self.conc(st, $v, 64) { Ok(x) => x, Err(r) => return Err(r) } } }
        macro_rules! mem { ($e:expr) => { match $e { Ok(x) => x, Err(m) => return Err(R::End(End::Panic(format!("memory error: {}", m)))) } } }
        let ok = |v: Val| Ok(Some(v));
        let w = targs.first().map(|t| t.0.bits()).unwrap_or(0);
        if let Some(nm) = name.strip_prefix("llvm.") {
            let base = nm;
            let st1 = |p: &str| base.starts_with(p);
            if st1("lifetime") || st1("experimental.noalias") || st1("dbg") || st1("donothing") || st1("prefetch") || st1("x86.sse2.pause") || st1("invariant") || st1("sideeffect") || st1("pseudoprobe") { return ok(Val::C(0)); }
            if st1("assume") { return ok(Val::C(0)); }
            if st1("is.constant") { return ok(Val::C(0)); }
            if st1("expect") { return ok(a[0].clone()); }
            if st1("threadlocal.address") { return ok(a[0].clone()); }
            if st1("launder") || st1("strip.invariant") || st1("ssa.copy") || st1("ptrmask") && false { return ok(a[0].clone()); }
            if st1("memcpy") || st1("memmove") { let n = conc!(&a[2]); let dst = conc!(&a[0]); let src = conc!(&a[1]); mem!(self.copy_mem(st, dst, src, n)); return ok(Val::C(0)); }
            if st1("memset") {
                let n = conc!(&a[2]); let dst = conc!(&a[0]);
                if n == 0 { return ok(Val::C(0)); }
                match &a[1] {
                    Val::C(x) => { let (o, off) = mem!(self.obj_mut(st, dst, n)); for t in 0..n as usize { o.data[off + t] = *x as u8; if !o.sym.is_empty() { o.sym[off + t] = (0, 0); } } }
                    Val::E(i) => { for t in 0..n { mem!(self.store_int(st, dst + t, 1, &Val::E(*i))); } }
                    _ => {}
                }
                return ok(Val::C(0));
            }
            if st1("trap") || st1("ubsantrap") { return Err(R::End(End::Panic("trap".into()))); }
            if let Ty::Vec(n, t) = ret {
                // elementwise
                let mut o = vec![];
                let ta: Vec<(Ty, Opd)> = targs.iter().map(|x| (if let Ty::Vec(_, e) = &x.0 { (**e).clone() } else { x.0.clone() }, x.1.clone())).collect();
                for i in 0..*n as usize {
                    let av: Vec<Val> = a.iter().map(|x| if let Val::Agg(v) = x { v[i].clone() } else { x.clone() }).collect();
                    match self.builtin(st, name, t, &ta, &av)? { Some(v) => o.push(v), None => return Ok(None) }
                }
                return ok(Val::Agg(Rc::new(o)));
            }
            if base.contains(".with.overflow.") {
                let (x, y) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let signed = base.starts_with('s');
                let op = if base[1..].starts_with("add") { Bin::Add } else if base[1..].starts_with("sub") { Bin::Sub } else { Bin::Mul };
                let r = self.pool.bin(op, x, y);
                let (ix, iy) = (self.pool.iv(x), self.pool.iv(y));
                let never = w <= 64 && match (signed, op) {
                    (false, Bin::Add) => ix.uh + iy.uh <= mask(w),
                    (false, Bin::Sub) => ix.ul >= iy.uh,
                    (true, Bin::Add) => ix.sl + iy.sl >= -(1i128 << (w - 1)) && ix.sh + iy.sh < 1i128 << (w - 1),
                    (true, Bin::Sub) => ix.sl - iy.sh >= -(1i128 << (w - 1)) && ix.sh - iy.sl < 1i128 << (w - 1),
                    (s, _) => ix.sl >= 0 && iy.sl >= 0 && ix.uh < 1 << 60 && iy.uh < 1 << 60 && ix.uh * iy.uh <= if s { mask(w) >> 1 } else { mask(w) },
                };
                let o = if never { self.pool.fls() } else { match (signed, op) {
                    (false, Bin::Add) => self.pool.cmp(Cmp::Ult, r, x),
                    (false, Bin::Sub) => self.pool.cmp(Cmp::Ult, x, y),
                    (_, Bin::Mul) => {
                        let w2 = w * 2;
                        if w2 > 128 { return Err(R::End(End::Err("wide mul overflow".into()))); }
                        let (p, q) = if signed { (self.pool.sext(x, w2), self.pool.sext(y, w2)) } else { (self.pool.zext(x, w2), self.pool.zext(y, w2)) };
                        let m = self.pool.bin(Bin::Mul, p, q);
                        let back = if signed { self.pool.sext(r, w2) } else { self.pool.zext(r, w2) };
                        let e = self.pool.cmp(Cmp::Eq, m, back);
                        self.pool.not(e)
                    }
                    (true, _) => {
                        // add/sub in one more bit
                        let (p, q) = (self.pool.sext(x, w + 1), self.pool.sext(y, w + 1));
                        let m = self.pool.bin(op, p, q);
                        let back = self.pool.sext(r, w + 1);
                        let e = self.pool.cmp(Cmp::Eq, m, back);
                        self.pool.not(e)
                    }
                    _ => unreachable!(),
                } };
                let (rv, ov) = (self.mk(r), self.mk(o));
                return ok(Val::Agg(Rc::new(vec![rv, ov])));
            }
            macro_rules! e { ($k:expr) => { self.ex(&a[$k], w) } }
            macro_rules! done { ($i:expr) => {{ let i = $i; return ok(self.mk(i)); }} }
            if st1("umax") { let (x, y) = (e!(0), e!(1)); let c = self.pool.cmp(Cmp::Ult, x, y); done!(self.pool.ite(c, y, x)) }
            if st1("umin") { let (x, y) = (e!(0), e!(1)); let c = self.pool.cmp(Cmp::Ult, x, y); done!(self.pool.ite(c, x, y)) }
            if st1("smax") { let (x, y) = (e!(0), e!(1)); let c = self.pool.cmp(Cmp::Slt, x, y); done!(self.pool.ite(c, y, x)) }
            if st1("smin") { let (x, y) = (e!(0), e!(1)); let c = self.pool.cmp(Cmp::Slt, x, y); done!(self.pool.ite(c, x, y)) }
            if st1("abs") { let x = e!(0); let z = self.pool.cst(0, w); let n = self.pool.bin(Bin::Sub, z, x); let c = self.pool.cmp(Cmp::Slt, x, z); done!(self.pool.ite(c, n, x)) }
            if st1("usub.sat") { let (x, y) = (e!(0), e!(1)); let z = self.pool.cst(0, w); let c = self.pool.cmp(Cmp::Ult, x, y); let s = self.pool.bin(Bin::Sub, x, y); done!(self.pool.ite(c, z, s)) }
            if st1("uadd.sat") { let (x, y) = (e!(0), e!(1)); let z = self.pool.cst(u128::MAX, w); let s = self.pool.bin(Bin::Add, x, y); let c = self.pool.cmp(Cmp::Ult, s, x); done!(self.pool.ite(c, z, s)) }
            if st1("sadd.sat") || st1("ssub.sat") {
                let (x, y) = (e!(0), e!(1)); let op = if st1("sadd") { Bin::Add } else { Bin::Sub };
                let (p, q) = (self.pool.sext(x, w + 1), self.pool.sext(y, w + 1));
                let m = self.pool.bin(op, p, q);
                let hi = self.pool.cst(mask(w) >> 1, w + 1); let lo0 = self.pool.cst(1u128 << (w - 1), w); let lo = self.pool.sext(lo0, w + 1);
                let c1 = self.pool.cmp(Cmp::Slt, hi, m); let c2 = self.pool.cmp(Cmp::Slt, m, lo);
                let t = self.pool.ite(c2, lo, m); let t = self.pool.ite(c1, hi, t);
                done!(self.pool.extract(t, 0, w))
            }
            if st1("ctpop") {
                let x = e!(0); let mut s = self.pool.cst(0, w);
                for k in 0..w { let b = self.pool.extract(x, k, 1); let z = self.pool.zext(b, w); s = self.pool.bin(Bin::Add, s, z); }
                done!(s)
            }
            if st1("ctlz") || st1("cttz") {
                let x = e!(0); let mut s = self.pool.cst(w as u128, w);
                let lead = st1("ctlz");
                for k in 0..w { let bit = if lead { k } else { w - 1 - k }; let b = self.pool.extract(x, bit, 1); let v = self.pool.cst(if lead { (w - 1 - bit) as u128 } else { bit as u128 }, w); s = self.pool.ite(b, v, s); }
                done!(s)
            }
            if st1("bswap") {
                let x = e!(0); let mut s = self.pool.extract(x, 0, 8);
                for k in 1..w / 8 { let b = self.pool.extract(x, k * 8, 8); s = self.pool.concat(s, b); }
                done!(s)
            }
            if st1("bitreverse") { let x = e!(0); let mut s = self.pool.extract(x, 0, 1); for k in 1..w { let b = self.pool.extract(x, k, 1); s = self.pool.concat(s, b); } done!(s) }
            if st1("fshl") || st1("fshr") {
                let (x, y) = (e!(0), e!(1));
                let k = conc!(&a[2]) % w as u64;
                if k == 0 { return ok(if st1("fshl") { a[0].clone() } else { a[1].clone() }); }
                let k = k as u8;
                let k = if st1("fshl") { k } else { w - k };
                let h = self.pool.extract(x, 0, w - k); let l = self.pool.extract(y, w - k, k);
                done!(self.pool.concat(h, l))
            }
            if st1("ucmp") || st1("scmp") {
                let (x, y) = (e!(0), e!(1)); let o = if st1("ucmp") { Cmp::Ult } else { Cmp::Slt };
                let rw = ret.bits();
                let l = self.pool.cmp(o, x, y); let g = self.pool.cmp(o, y, x);
                let (m1, z, p1) = (self.pool.cst(u128::MAX, rw), self.pool.cst(0, rw), self.pool.cst(1, rw));
                let t = self.pool.ite(g, p1, z);
                done!(self.pool.ite(l, m1, t))
            }
            if st1("is.fpclass") && (w == 64 || w == 32) {
                let x = e!(0); let k = conc!(&a[1]);
                let m = self.pool.cst(mask(w) >> 1, w); let mag = self.pool.bin(Bin::And, x, m);
                let neg = self.pool.extract(x, w - 1, 1); let pos = self.pool.not(neg);
                let (inf, small, quiet) = if w == 64 { (0x7ffu128 << 52, 1u128 << 52, 1u128 << 51) } else { (0xffu128 << 23, 1u128 << 23, 1u128 << 22) };
                let mut r = self.pool.fls();
                // class bits and the magnitudes of the class (lowest, one past the highest), and its sign
                for (bit, lo, hi, sign) in [(0, inf + 1, inf | quiet, 0), (1, inf | quiet, mask(w) / 2 + 1, 0), (2, inf, inf + 1, 2), (3, small, inf, 2), (4, 1, small, 2), (5, 0, 1, 2), (6, 0, 1, 1), (7, 1, small, 1), (8, small, inf, 1), (9, inf, inf + 1, 1)] {
                    if k >> bit & 1 == 0 { continue; }
                    let (l, h) = (self.pool.cst(lo, w), self.pool.cst(hi - 1, w));
                    let (p, q) = (self.pool.cmp(Cmp::Ule, l, mag), self.pool.cmp(Cmp::Ule, mag, h));
                    let mut t = self.pool.bin(Bin::And, p, q);
                    if sign > 0 { t = self.pool.bin(Bin::And, t, if sign == 2 { neg } else { pos }); }
                    r = self.pool.bin(Bin::Or, r, t);
                }
                done!(r)
            }
            if st1("ptrmask") { let (x, y) = (self.ex(&a[0], 64), self.ex(&a[1], 64)); done!(self.pool.bin(Bin::And, x, y)) }
            let rw = ret.bits();
            let fun = if st1("fptoui.sat") { Some(Fun::ToUiSat) } else if st1("fptosi.sat") { Some(Fun::ToSiSat) } else if st1("round.") { Some(Fun::RoundAway) } else if st1("roundeven.") || st1("rint.") || st1("nearbyint.") { Some(Fun::RoundEven) } else if st1("floor.") { Some(Fun::Floor) } else if st1("ceil.") { Some(Fun::Ceil) } else if st1("trunc.") { Some(Fun::Trunc) } else if st1("sqrt.") { Some(Fun::Sqrt) } else { None };
            if let Some(fu) = fun { let x = e!(0); done!(self.pool.fun(fu, x, rw)) }
            if st1("fabs.") { let x = e!(0); let m = self.pool.cst(mask(w) >> 1, w); done!(self.pool.bin(Bin::And, x, m)) }
            if st1("copysign.") { let (x, y) = (e!(0), e!(1)); let m = self.pool.cst(mask(w) >> 1, w); let s = self.pool.cst(1u128 << (w - 1), w); let p = self.pool.bin(Bin::And, x, m); let q = self.pool.bin(Bin::And, y, s); done!(self.pool.bin(Bin::Or, p, q)) }
            if st1("fmuladd.") || st1("fma.") { if let (Val::C(x), Val::C(y), Val::C(z)) = (&a[0], &a[1], &a[2]) { if w == 64 { return ok(Val::C(f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z)).to_bits())); } } }
            if st1("minnum.") || st1("maxnum.") || st1("minimumnum.") || st1("maximumnum.") { let (x, y) = (e!(0), e!(1)); done!(self.pool.fp(if st1("min") { Fp::Min } else { Fp::Max }, x, y)) }
            for (p, g) in [("pow.", 0), ("powi.", 1), ("exp.", 2), ("log.", 3), ("log10.", 4), ("log2.", 5), ("sin.", 6), ("cos.", 7), ("exp2.", 8)] {
                if st1(p) {
                    let x = match &a[0] { Val::C(x) => *x, _ => return Err(R::End(End::Err(format!("symbolic {}", name)))) };
                    let y = match a.get(1) { Some(Val::C(y)) => *y, None => 0, _ => return Err(R::End(End::Err(format!("symbolic {}", name)))) };
                    if w == 64 { let x = f64::from_bits(x); let r = match g { 0 => x.powf(f64::from_bits(y)), 1 => x.powi(y as i32), 2 => x.exp(), 3 => x.ln(), 4 => x.log10(), 5 => x.log2(), 6 => x.sin(), 7 => x.cos(), _ => x.exp2() }; return ok(Val::C(r.to_bits())); }
                }
            }
            return Err(R::End(End::Err(format!("unsupported intrinsic {}", name))));
        }
        match name {
            "msx_sym" | "msx_rand" => {
                let bits = conc!(&a[0]) as u8;
                if self.spec > 0 { return Err(R::Bail); }
                let k = st.syms.len() as u32;
                st.syms.push(bits);
                let e = self.pool.sym(k, bits);
                let e = self.pool.zext(e, 64);
                ok(Val::E(e))
            }
            "msx_rand_in" => {
                if self.spec > 0 { return Err(R::Bail); }
                let bits = conc!(&a[0]) as u8;
                let k = st.syms.len() as u32;
                match (&a[1], &a[2]) {
                    (Val::C(lo), Val::C(hi)) if *lo as i64 <= *hi as i64 => {
                        let (lo, hi) = (*lo as i64 as i128, *hi as i64 as i128);
                        let bits = if lo >= 0 { (128 - hi.leading_zeros()).max(1) as u8 } else { bits };
                        st.syms.push(bits);
                        let (e, c) = self.pool.sym_in(k, bits, lo, hi);
                        for x in c {
                            let model = st.model.clone();
                            if self.pool.eval(x, &model) == 0 {
                                match self.sat(st, x) { Sat::Sat(m) => st.model = Rc::new(m), Sat::Unsat => return Ok(None), Sat::Unknown => return Err(R::End(End::Err("solver returned unknown".into()))) }
                            }
                            st.pc.push(x);
                        }
                        let e = if lo < 0 { self.pool.sext(e, 64) } else { self.pool.zext(e, 64) };
                        ok(Val::E(e))
                    }
                    _ => { st.syms.push(bits); let e = self.pool.sym(k, bits); let e = self.pool.zext(e, 64); ok(Val::E(e)) }
                }
            }
            "msx_assume" => {
                if self.spec > 0 { return Err(R::Bail); }
                let c = self.bool_of(&a[0], w);
                let (s, q) = self.quick(st, c);
                match q { Some(true) => return ok(Val::C(0)), Some(false) => return Ok(None), None => {} }
                let model = st.model.clone();
                if self.pool.eval(s, &model) == 0 {
                    match self.sat(st, s) { Sat::Sat(m) => st.model = Rc::new(m), Sat::Unsat => return Ok(None), Sat::Unknown => return Err(R::End(End::Err("solver returned unknown".into()))) }
                }
                self.add(st, s, true);
                if s != c { self.note(st, c, true); }
                ok(Val::C(0))
            }
            "msx_check" => {
                if self.spec > 0 { return Err(R::Bail); }
                let c = self.bool_of(&a[0], w);
                let p = conc!(&a[1]); let n = conc!(&a[2]);
                let msg = self.str_at(st, p, n);
                st.checks += 1;
                let mine = self.mine(st);
                if mine { self.checks.entry(msg.clone()).or_insert((0, 0)).0 += 1; }
                let (s, q) = self.quick(st, c);
                match q {
                    Some(true) => ok(Val::C(0)),
                    Some(false) => { if mine { let m = st.model.clone(); self.violate(st, "check", &msg, m); } Ok(None) }
                    None => {
                        if mine { self.checks.get_mut(&msg).unwrap().1 += 1; }
                        let neg = self.pool.not(s);
                        let mut first = None;
                        if self.pool.has_fp(s) {
                            // equal operands give equal results: enough where it holds, no verdict where it does not
                            let strong = self.pool.congruent(s, 12);
                            if strong != s {
                                let n = self.pool.not(strong);
                                match self.sol.check(&self.pool, &st.pc, n, &st.syms) {
                                    Sat::Unsat => first = Some(Sat::Unsat),
                                    Sat::Sat(m) if self.pool.eval(s, &m) == 0 => first = Some(Sat::Sat(m)),
                                    _ => {}
                                }
                            }
                        }
                        let verdict = match first { Some(v) => v, None => self.sat(st, neg) };
                        match verdict {
                            Sat::Unsat => { self.note(st, s, true); ok(Val::C(0)) }
                            Sat::Unknown => Err(R::End(End::Err("solver returned unknown".into()))),
                            Sat::Sat(m) => {
                                if mine { self.violate(st, "check", &msg, Rc::new(m)); }
                                // continue on the side where it holds
                                let model = st.model.clone();
                                if self.pool.eval(s, &model) == 0 {
                                    match self.sat(st, s) { Sat::Sat(m) => st.model = Rc::new(m), Sat::Unsat => return Ok(None), Sat::Unknown => return Err(R::End(End::Err("solver returned unknown".into()))) }
                                }
                                self.add(st, s, true);
                                ok(Val::C(0))
                            }
                        }
                    }
                }
            }
            "msx_concretize" => { let k = conc!(&a[0]); ok(Val::C(k)) }
            "msx_is_symbolic" => {
                // the answer is recorded as an input, so that a native replay takes the same way
                if self.spec > 0 { return Err(R::Bail); }
                let is = matches!(a[0], Val::E(_));
                let k = st.syms.len() as u32;
                st.syms.push(1);
                let e = self.pool.sym(k, 1);
                let c = if is { e } else { self.pool.not(e) };
                let model = st.model.clone();
                if self.pool.eval(c, &model) == 0 {
                    match self.sat(st, c) { Sat::Sat(m) => st.model = Rc::new(m), _ => return Err(R::End(End::Err("is_symbolic".into()))) }
                }
                self.add(st, c, true);
                ok(Val::C(is as u64))
            }
            "msx_observe" => { if self.spec > 0 { return Err(R::Bail); } st.obs.push((a[0].clone(), w)); ok(Val::C(0)) }
            "msx_reach" => { if self.spec > 0 { return Err(R::Bail); } let k = conc!(&a[0]); if self.mine(st) { *self.reached.entry(k).or_insert(0) += 1; } ok(Val::C(0)) }
            "msx_panic_ok" => { let k = conc!(&a[0]); st.panic_ok = k & 1 != 0; ok(Val::C(0)) }
            "msx_merge" => { let k = conc!(&a[0]); st.merge_on = k & 1 != 0; st.deep = k & 2 != 0; ok(Val::C(0)) }
            "msx_set_clock" => { st.clock = (a[0].clone(), a[1].clone()); st.wall = st.clock.clone(); ok(Val::C(0)) }
            "msx_set_wall" => { st.wall = (a[0].clone(), a[1].clone()); ok(Val::C(0)) }
            "msx_file" => {
                if self.spec > 0 { return Err(R::Bail); }
                let p = conc!(&a[0]); let n = conc!(&a[1]); let dp = conc!(&a[2]); let dn = conc!(&a[3]);
                let path = self.str_at(st, p, n);
                let b = mem!(self.bytes(st, dp, dn));
                Rc::make_mut(&mut st.fs).files.insert(path, b);
                ok(Val::C(0))
            }
            "malloc" => { let n = conc!(&a[0]); if n > 1 << 31 { return ok(Val::C(0)); } let p = self.alloc(st, n); ok(Val::C(p)) }
            "calloc" => { let n = conc!(&a[0]); let m = conc!(&a[1]); if n.saturating_mul(m) > 1 << 31 { return ok(Val::C(0)); } let p = self.alloc(st, n * m); ok(Val::C(p)) }
            "posix_memalign" => { let n = conc!(&a[2]); let p = self.alloc(st, n); let q = conc!(&a[0]); mem!(self.store_int(st, q, 8, &Val::C(p))); ok(Val::C(0)) }
            "aligned_alloc" => { let n = conc!(&a[1]); let p = self.alloc(st, n); ok(Val::C(p)) }
            "realloc" => {
                let p = conc!(&a[0]); let n = conc!(&a[1]);
                if n > 1 << 31 { return ok(Val::C(0)); }
                if p == 0 { let q = self.alloc(st, n); return ok(Val::C(q)); }
                // grow in place: addresses are regions, so the object can keep its address
                let (_, off) = mem!(self.obj_mut(st, p, 0));
                if off != 0 { return Err(R::End(End::Panic("memory error: realloc of interior pointer".into()))); }
                let (o, _) = mem!(self.obj_mut(st, p, 0));
                o.data.resize(n as usize, 0);
                if !o.sym.is_empty() { o.sym.resize(n as usize, (0, 0)); }
                ok(Val::C(p))
            }
            "free" => { let p = conc!(&a[0]); mem!(self.dealloc(st, p)); ok(Val::C(0)) }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (conc!(&a[0]), conc!(&a[1]), conc!(&a[2]));
                let x = mem!(self.bytes(st, p, n)); let y = mem!(self.bytes(st, q, n));
                let mut r = self.pool.cst(0, 32);
                let (m1, p1) = (self.pool.cst(u128::MAX, 32), self.pool.cst(1, 32));
                for k in (0..n as usize).rev() {
                    let (u, v) = (self.byte_ex(x[k]), self.byte_ex(y[k]));
                    let e = self.pool.cmp(Cmp::Eq, u, v);
                    let t = if name == "bcmp" { p1 } else { let l = self.pool.cmp(Cmp::Ult, u, v); self.pool.ite(l, m1, p1) };
                    r = self.pool.ite(e, r, t);
                }
                ok(self.mk(r))
            }
            "strlen" => { let p = conc!(&a[0]); let s = mem!(self.cstr(st, p)); ok(Val::C(s.len() as u64)) }
            "memchr" | "memrchr" => Err(R::End(End::Err(format!("unsupported {}", name)))),
            "getenv" | "getcwd" => ok(Val::C(0)),
            "abort" | "exit" | "_exit" => Err(R::End(End::Panic("abort".into()))),
            "clock_gettime" => { let p = conc!(&a[1]); let id = conc!(&a[0]); let (s, n) = if id == 0 { st.wall.clone() } else { st.clock.clone() }; mem!(self.store_int(st, p, 8, &s)); mem!(self.store_int(st, p + 8, 8, &n)); ok(Val::C(0)) }
            "__errno_location" => { if st.errno == 0 { let p = self.alloc(st, 4); st.errno = p; } let p = st.errno; ok(Val::C(p)) }
            "pthread_key_delete" | "pthread_setspecific" | "pthread_getspecific" | "__cxa_thread_atexit_impl" | "gettid" => ok(Val::C(0)),
            // destructors of thread-local values are not run
            "pthread_key_create" => { let p = conc!(&a[0]); mem!(self.store_int(st, p, 4, &Val::C(1))); ok(Val::C(0)) }
            "pthread_self" => ok(Val::C(st.cur as u64)),
            "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_setname_np" | "pthread_detach" | "prctl" | "sigaltstack" => ok(Val::C(0)),
            "sysconf" => ok(Val::C(4096)),
            "dlsym" => ok(Val::C(0)),
            "pthread_create" => {
                if self.spec > 0 { return Err(R::Bail); }
                let out = conc!(&a[0]); let f = conc!(&a[2]);
                if f < FBASE { return Err(R::End(End::Err("thread start".into()))); }
                let f = self.func(((f - FBASE) / 16 - 1) as u32);
                *self.fn_used.entry(f.id).or_insert(0) += 1;
                let mut regs = vec![Val::C(0); f.nregs as usize];
                if let Some(&r) = f.args.first() { regs[r as usize] = a[3].clone(); }
                let id = st.thr.len() as u64;
                st.thr.push(Thr { frames: vec![Frame { f, b: 0, ip: 0, regs, allocas: vec![] }], ..Default::default() });
                mem!(self.store_int(st, out, 8, &Val::C(id)));
                ok(Val::C(0))
            }
            "pthread_join" => {
                let t = conc!(&a[0]) as usize;
                if t >= st.thr.len() { return ok(Val::C(3)); }
                if st.thr[t].done { return ok(Val::C(0)); }
                if self.spec > 0 { return Err(R::Bail); }
                let me = st.cur;
                st.thr[me].wait = Wait::Join(t);
                Err(self.give_way(st))
            }
            "sched_yield" => { if st.thr.len() == 1 { return ok(Val::C(0)); } if self.spec > 0 { return Err(R::Bail); } Err(R::Sched) }
            "msx_sched" => { if st.thr.len() == 1 || st.delays == 0 { return ok(Val::C(0)); } if self.spec > 0 { return Err(R::Bail); } Err(R::Sched) }
            "msx_delays" => { st.delays = conc!(&a[0]) as u32; ok(Val::C(0)) }
            "syscall" => {
                // futex wait and wake: a waiting thread may go on once the word has changed
                let n = conc!(&a[0]);
                if n != 202 { return Err(R::End(End::Err(format!("system call {}", n)))); }
                let (p, op) = (conc!(&a[1]), conc!(&a[2]) & 127);
                if op == 1 || op == 10 { return ok(Val::C(0)); }
                let v = conc!(&a[3]) & 0xffff_ffff;
                let x = mem!(self.load_int(st, p, 4));
                if conc!(&x) != v { self.set_errno(st, 11); return ok(Val::C(u64::MAX)); }
                if self.spec > 0 { return Err(R::Bail); }
                let me = st.cur;
                st.thr[me].wait = Wait::Futex(p, v);
                Err(self.give_way(st))
            }
            "open64" | "open" => {
                if self.spec > 0 { return Err(R::Bail); }
                let p = conc!(&a[0]); let fl = conc!(&a[1]);
                let path = mem!(self.cstr(st, p));
                if !st.fs.files.contains_key(&path) {
                    if fl & 0o100 == 0 { self.set_errno(st, 2); return ok(Val::C(0xffff_ffff)); }
                    Rc::make_mut(&mut st.fs).files.insert(path.clone(), vec![]);
                } else if fl & 0o300 == 0o300 { self.set_errno(st, 17); return ok(Val::C(0xffff_ffff)); }
                let fs = Rc::make_mut(&mut st.fs);
                if fl & 0o1000 != 0 { fs.files.insert(path.clone(), vec![]); }
                let fd = fs.next; fs.next += 1;
                fs.fds.insert(fd, (path, 0));
                ok(Val::C(fd))
            }
            "close" => { let fd = conc!(&a[0]); Rc::make_mut(&mut st.fs).fds.remove(&fd); ok(Val::C(0)) }
            "read" => {
                if self.spec > 0 { return Err(R::Bail); }
                let fd = conc!(&a[0]); let p = conc!(&a[1]); let n = conc!(&a[2]);
                let (b, newpos) = match st.fs.fds.get(&fd) { Some((path, pos)) => { let d = &st.fs.files[path]; let e = (*pos + n as usize).min(d.len()); (d[*pos..e].to_vec(), e) } None => return ok(Val::C(u64::MAX)) };
                Rc::make_mut(&mut st.fs).fds.get_mut(&fd).unwrap().1 = newpos;
                mem!(self.put_bytes(st, p, &b));
                ok(Val::C(b.len() as u64))
            }
            "write" => {
                if self.spec > 0 { return Err(R::Bail); }
                let fd = conc!(&a[0]); let p = conc!(&a[1]); let n = conc!(&a[2]);
                if fd > 2 {
                    let b = mem!(self.bytes(st, p, n));
                    let fs = Rc::make_mut(&mut st.fs);
                    if let Some((path, pos)) = fs.fds.get(&fd).cloned() {
                        let d = fs.files.get_mut(&path).unwrap();
                        d.truncate(pos); d.extend(b);
                        fs.fds.insert(fd, (path, pos + n as usize));
                    }
                }
                ok(Val::C(n))
            }
            "writev" => ok(Val::C(1 << 20)),
            "lseek64" | "lseek" => {
                let fd = conc!(&a[0]); let off = conc!(&a[1]); let wh = conc!(&a[2]);
                let fs = Rc::make_mut(&mut st.fs);
                let r = match fs.fds.get_mut(&fd) { Some((path, pos)) => { let len = fs.files[path].len() as u64; *pos = match wh { 0 => off, 1 => (*pos as u64).wrapping_add(off), _ => len.wrapping_add(off) } as usize; *pos as u64 } None => u64::MAX };
                ok(Val::C(r))
            }
            "statx" => {
                if self.spec > 0 { return Err(R::Bail); }
                let fd = conc!(&a[0]); let p = conc!(&a[1]); let buf = conc!(&a[4]);
                let path = if p == 0 { String::new() } else { mem!(self.cstr(st, p)) };
                let path = if path.is_empty() { st.fs.fds.get(&fd).map(|x| x.0.clone()).unwrap_or_default() } else { path };
                match st.fs.files.get(&path).map(|d| d.len()) {
                    None => { self.set_errno(st, 2); ok(Val::C(0xffff_ffff)) }
                    Some(n) => {
                        let z = vec![(0u8, 0 as Id, 0u8); 256];
                        mem!(self.put_bytes(st, buf, &z));
                        mem!(self.store_int(st, buf, 4, &Val::C(0x7ff)));
                        mem!(self.store_int(st, buf + 16, 4, &Val::C(1)));
                        mem!(self.store_int(st, buf + 28, 2, &Val::C(0o100644)));
                        mem!(self.store_int(st, buf + 40, 8, &Val::C(n as u64)));
                        ok(Val::C(0))
                    }
                }
            }
            "pow" | "powf" | "cbrt" | "exp" | "log" | "fmod" | "tgamma" => {
                match (&a[0], a.get(1)) {
                    (Val::C(x), y) => {
                        let y = match y { Some(Val::C(y)) => *y, None => 0, _ => return Err(R::End(End::Err(format!("symbolic {}", name)))) };
                        let x = f64::from_bits(*x);
                        let r = match name { "pow" => x.powf(f64::from_bits(y)), "cbrt" => x.cbrt(), "exp" => x.exp(), "log" => x.ln(), "fmod" => x % f64::from_bits(y), _ => return Err(R::End(End::Err(format!("unsupported {}", name)))) };
                        ok(Val::C(r.to_bits()))
                    }
                    _ => Err(R::End(End::Err(format!("symbolic {}", name)))),
                }
            }
            _ => Err(R::End(End::Err(format!("call to external function {}", name)))),
        }
    }
    fn set_errno(&mut self, st: &mut State, e: u64) {
        if st.errno == 0 { let p = self.alloc(st, 4); st.errno = p; }
        let p = st.errno;
        let _ = self.store_int(st, p, 4, &Val::C(e));
    }
    fn bool_of(&mut self, v: &Val, w: u8) -> Id {
        match v { Val::C(x) => self.pool.cst((x & 1) as u128, 1), Val::E(i) => { let _ = w; self.pool.extract(*i, 0, 1) } _ => self.pool.fls() }
    }
}
/// last path components of a v0-mangled name, readable enough for reports
pub fn short_name(n: &str) -> String {
    let b = n.as_bytes();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() { i += 1; }
            let k: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 0 && j + k <= b.len() && (b[j].is_ascii_alphabetic() || b[j] == b'_') && n.is_char_boundary(j + k) && n[j..j + k].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') {
                out.push(n[j..j + k].to_string());
                i = j + k;
            }
        } else { i += 1; }
    }
    if out.is_empty() { n.to_string() } else { out.join("::") }
}
