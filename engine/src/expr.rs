//! Hash-consed bit-vector (and IEEE float) expressions with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.write_u64(x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fp { Add, Sub, Mul, Div, Rem, Min, Max }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fcmp { Eq, Lt, Le, Uno }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fun { Sqrt, RoundAway, RoundEven, Floor, Ceil, Trunc, ToUi, ToSi, ToUiSat, ToSiSat, FromUi, FromSi, Conv }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u64, u64), // lo, hi
    Sym(u32),
    Bin(Bin, Id, Id),
    Not(Id),
    Ite(Id, Id, Id),
    ZExt(Id),
    SExt(Id),
    Extract(Id, u8),
    Concat(Id, Id), // hi, lo
    Cmp(Cmp, Id, Id),
    Fp(Fp, Id, Id),
    Fcmp(Fcmp, Id, Id),
    Fun(Fun, Id),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8 }

#[derive(Clone, Copy)]
pub struct Iv { pub ul: u128, pub uh: u128, pub sl: i128, pub sh: i128 }
/// Symbols are numbered below this; the bits above name the known range, if any.
pub const SYM: u32 = 1 << 20;
pub struct Pool {
    iv: Vec<Iv>,
    ranges: Vec<(i128, i128)>,
    pub nodes: Vec<Node>,
    map: FxMap<Node, Id>,
    /// leaf-constant ite marker: 0 = not, otherwise number of constant leaves (saturating)
    leaves: Vec<u8>,
    fp: Vec<bool>,
    memo_val: Vec<u128>,
    memo_ep: Vec<u32>,
    epoch: u32,
}

pub fn mask(w: u8) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u8) -> i128 { let s = 128 - w as u32; ((v << s) as i128) >> s }

pub fn bin_const(op: Bin, a: u128, b: u128, w: u8) -> u128 {
    let m = mask(w);
    let r = match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => if b == 0 { m } else { a / b },
        Bin::URem => if b == 0 { a } else { a % b },
        Bin::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x >= 0 { m } else { 1 } } else { x.wrapping_div(y) as u128 } }
        Bin::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => if b >= w as u128 { 0 } else { a << b },
        Bin::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 }
    };
    r & m
}
pub fn cmp_const(op: Cmp, a: u128, b: u128, w: u8) -> bool {
    match op {
        Cmp::Eq => a == b,
        Cmp::Ult => a < b,
        Cmp::Ule => a <= b,
        Cmp::Slt => sx(a, w) < sx(b, w),
        Cmp::Sle => sx(a, w) <= sx(b, w),
    }
}
fn f(v: u128, w: u8) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }
pub fn fp_const(op: Fp, a: u128, b: u128, w: u8) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { Fp::Add => x + y, Fp::Sub => x - y, Fp::Mul => x * y, Fp::Div => x / y, Fp::Rem => x % y, Fp::Min => x.min(y), Fp::Max => x.max(y) };
        r.to_bits() as u128
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op { Fp::Add => x + y, Fp::Sub => x - y, Fp::Mul => x * y, Fp::Div => x / y, Fp::Rem => x % y, Fp::Min => x.min(y), Fp::Max => x.max(y) };
        r.to_bits() as u128
    }
}
pub fn fcmp_const(op: Fcmp, a: u128, b: u128, w: u8) -> bool {
    let (x, y) = (f(a, w), f(b, w));
    match op { Fcmp::Eq => x == y, Fcmp::Lt => x < y, Fcmp::Le => x <= y, Fcmp::Uno => x.is_nan() || y.is_nan() }
}
/// `w` is the result width, `sw` the operand width.
pub fn fun_const(op: Fun, a: u128, w: u8, sw: u8) -> u128 {
    let r: u128 = match op {
        Fun::FromUi => { if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 } }
        Fun::FromSi => { let s = sx(a, sw); if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        Fun::Conv => { if w == 32 { (f64::from_bits(a as u64) as f32).to_bits() as u128 } else { (f32::from_bits(a as u32) as f64).to_bits() as u128 } }
        Fun::ToUi | Fun::ToUiSat => {
            let x = f(a, sw);
            if x.is_nan() || x <= -1.0 { 0 } else if x >= (2f64).powi(w as i32) { mask(w) } else { x as u128 }
        }
        Fun::ToSi | Fun::ToSiSat => {
            let x = f(a, sw);
            let lim = (2f64).powi(w as i32 - 1);
            if x.is_nan() { 0 } else if x >= lim { mask(w) >> 1 } else if x < -lim { 1u128 << (w - 1) } else { x as i128 as u128 }
        }
        _ => {
            if sw == 32 {
                let x = f32::from_bits(a as u32);
                let r = match op { Fun::Sqrt => x.sqrt(), Fun::RoundAway => x.round(), Fun::RoundEven => x.round_ties_even(), Fun::Floor => x.floor(), Fun::Ceil => x.ceil(), _ => x.trunc() };
                r.to_bits() as u128
            } else {
                let x = f64::from_bits(a as u64);
                let r = match op { Fun::Sqrt => x.sqrt(), Fun::RoundAway => x.round(), Fun::RoundEven => x.round_ties_even(), Fun::Floor => x.floor(), Fun::Ceil => x.ceil(), _ => x.trunc() };
                r.to_bits() as u128
            }
        }
    };
    r & mask(w)
}

impl Pool {
    pub fn new() -> Pool {
        Pool { nodes: vec![], map: Default::default(), leaves: vec![], fp: vec![], iv: vec![], ranges: vec![], memo_val: vec![], memo_ep: vec![], epoch: 0 }
    }
    fn intern(&mut self, op: Op, w: u8) -> Id {
        let n = Node { op, w };
        if let Some(&i) = self.map.get(&n) { return i; }
        let i = self.nodes.len() as Id;
        let lv = match op {
            Op::Const(..) => 1,
            Op::Ite(_, a, b) => {
                let (x, y) = (self.leaves[a as usize], self.leaves[b as usize]);
                if x == 0 || y == 0 { 0 } else { let s = x as u32 + y as u32; if s > 40 { 0 } else { s as u8 } }
            }
            _ => 0,
        };
        self.leaves.push(lv);
        let g = |i: Id| self.fp[i as usize];
        let fp = match op {
            Op::Const(..) | Op::Sym(_) => false,
            Op::Fp(..) | Op::Fcmp(..) | Op::Fun(..) => true,
            Op::Bin(_, a, b) | Op::Concat(a, b) | Op::Cmp(_, a, b) => g(a) || g(b),
            Op::Ite(a, b, c) => g(a) || g(b) || g(c),
            Op::Not(a) | Op::ZExt(a) | Op::SExt(a) | Op::Extract(a, _) => g(a),
        };
        self.fp.push(fp);
        let iv = self.interval(&n);
        self.iv.push(iv);
        self.nodes.push(n);
        self.map.insert(n, i);
        i
    }
    /// Bounds that hold for every input: as an unsigned and as a signed number.
    fn interval(&self, n: &Node) -> Iv {
        let w = n.w;
        if w > 64 { return Iv { ul: 0, uh: u128::MAX, sl: i128::MIN, sh: i128::MAX }; }
        let m = mask(w);
        let (smin, smax) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
        let full = Iv { ul: 0, uh: m, sl: smin, sh: smax };
        let g = |i: Id| self.iv[i as usize];
        let wide = |i: Id| self.nodes[i as usize].w > 64;
        let s_of = |l: i128, h: i128| if l >= smin && h <= smax { (l, h) } else { (smin, smax) };
        let u_of = |l: i128, h: i128| if l >= 0 && h <= m as i128 { (l as u128, h as u128) } else { (0, m) };
        let bits = |h: u128| -> u128 { if h == 0 { 0 } else { mask((128 - h.leading_zeros()) as u8) } };
        let mk = |u: (u128, u128), s: (i128, i128)| Iv { ul: u.0, uh: u.1, sl: s.0, sh: s.1 };
        let mut r = match n.op {
            Op::Const(l, _) => { let v = l as u128; let t = sx(v, w); mk((v, v), (t, t)) }
            Op::Sym(k) if k >= SYM => { let (l, h) = self.ranges[(k >> 20) as usize - 1]; if l >= 0 { mk((l as u128, h as u128), s_of(l, h)) } else { mk((0, m), (l, h)) } }
            Op::ZExt(a) if !wide(a) => { let x = g(a); mk((x.ul, x.uh), s_of(x.ul as i128, x.uh as i128)) }
            Op::SExt(a) if !wide(a) => { let x = g(a); mk((0, m), (x.sl, x.sh)) }
            Op::Ite(_, a, b) => { let (x, y) = (g(a), g(b)); mk((x.ul.min(y.ul), x.uh.max(y.uh)), (x.sl.min(y.sl), x.sh.max(y.sh))) }
            Op::Not(a) => { let x = g(a); mk((m - x.uh, m - x.ul), (-1 - x.sh, -1 - x.sl)) }
            Op::Extract(a, lo) if !wide(a) => {
                let x = g(a);
                if lo == 0 { mk(if x.uh <= m { (x.ul, x.uh) } else { (0, m) }, s_of(x.sl, x.sh)) }
                else { mk(if x.uh >> lo <= m { (x.ul >> lo, x.uh >> lo) } else { (0, m) }, (smin, smax)) }
            }
            Op::Concat(h, l) => { let (x, y) = (g(h), g(l)); let lw = self.nodes[l as usize].w; mk(((x.ul << lw) + y.ul, (x.uh << lw) + y.uh), (smin, smax)) }
            Op::Bin(o, a, b) => {
                let (x, y) = (g(a), g(b));
                let (xu, yu) = ((x.ul as i128, x.uh as i128), (y.ul as i128, y.uh as i128));
                match o {
                    Bin::Add => mk(u_of(xu.0 + yu.0, xu.1 + yu.1), s_of(x.sl + y.sl, x.sh + y.sh)),
                    Bin::Sub => mk(u_of(xu.0 - yu.1, xu.1 - yu.0), s_of(x.sl - y.sh, x.sh - y.sl)),
                    Bin::Mul if x.uh < 1 << 60 && y.uh < 1 << 60 => mk(u_of(xu.0 * yu.0, xu.1 * yu.1), s_of(if x.sl >= 0 && y.sl >= 0 { x.sl * y.sl } else { i128::MIN }, if x.sl >= 0 && y.sl >= 0 { x.sh * y.sh } else { i128::MAX })),
                    Bin::And => mk((0, x.uh.min(y.uh)), if x.sl >= 0 { (0, x.sh) } else if y.sl >= 0 { (0, y.sh) } else { (smin, x.sh.max(y.sh)) }),
                    Bin::Or => mk((x.ul.max(y.ul), bits(x.uh.max(y.uh))), (x.sl.min(y.sl), if x.sh < 0 || y.sh < 0 { -1 } else { bits(x.sh.max(y.sh) as u128) as i128 })),
                    Bin::Xor => mk((0, bits(x.uh.max(y.uh))), (smin, smax)),
                    Bin::LShr if y.ul == y.uh && y.uh < w as u128 => mk((x.ul >> y.uh, x.uh >> y.uh), (smin, smax)),
                    Bin::AShr if y.ul == y.uh && y.uh < w as u128 => mk((0, m), (x.sl >> y.uh, x.sh >> y.uh)),
                    Bin::UDiv if y.ul > 0 => mk((x.ul / y.uh, x.uh / y.ul), (smin, smax)),
                    Bin::URem if y.ul > 0 => mk((0, x.uh.min(y.uh - 1)), (smin, smax)),
                    Bin::SRem if y.sl == y.sh && y.sl > 0 => mk((0, m), (if x.sl < 0 { x.sl.max(1 - y.sl) } else { 0 }, if x.sh > 0 { x.sh.min(y.sl - 1) } else { 0 })),
                    Bin::SDiv if y.sl == y.sh && y.sl > 0 => mk((0, m), (x.sl / y.sl, x.sh / y.sl)),
                    _ => full,
                }
            }
            _ => full,
        };
        if w == 1 { r.sl = if r.uh == 0 { 0 } else { -1 }; r.sh = if r.ul == 1 { -1 } else { 0 }; return r; }
        // what one view knows helps the other
        if r.sl >= 0 { r.ul = r.ul.max(r.sl as u128); r.uh = r.uh.min(r.sh as u128); }
        if r.sh < 0 { r.ul = r.ul.max(r.sl as u128 & m); r.uh = r.uh.min(r.sh as u128 & m); }
        if r.uh <= smax as u128 { r.sl = r.sl.max(r.ul as i128); r.sh = r.sh.min(r.uh as i128); }
        r
    }
    pub fn iv(&self, i: Id) -> Iv { self.iv[i as usize] }
    /// Arithmetic on small numbers is done in as few bits as the result needs: the same sum then
    /// is the same expression whatever width the program computed it in.
    fn narrow(&mut self, op: Bin, a: Id, b: Id, w: u8) -> Option<Id> {
        if w <= 2 || w > 64 { return None; }
        let n = self.interval(&Node { op: Op::Bin(op, a, b), w });
        let (k, signed) = if n.sl >= 0 { (128 - n.uh.leading_zeros() as i32, false) }
            else { let need = |v: i128| 129 - (if v < 0 { !v } else { v }).leading_zeros() as i32; (need(n.sl).max(need(n.sh)), true) };
        let k = k.max(1);
        if k > 12 || k >= w as i32 || (signed && k < 2) { return None; }
        let small = |s: &Pool, i: Id| matches!(s.op(i), Op::Const(..) | Op::ZExt(_) | Op::SExt(_));
        if !small(self, a) || !small(self, b) { return None; }
        let (x, y) = (self.extract(a, 0, k as u8), self.extract(b, 0, k as u8));
        let r = self.bin(op, x, y);
        Some(if signed { self.sext(r, w) } else { self.zext(r, w) })
    }
    pub fn w(&self, i: Id) -> u8 { self.nodes[i as usize].w }
    pub fn has_fp(&self, i: Id) -> bool { self.fp[i as usize] }
    pub fn op(&self, i: Id) -> Op { self.nodes[i as usize].op }
    pub fn cst(&mut self, v: u128, w: u8) -> Id { let v = v & mask(w); self.intern(Op::Const(v as u64, (v >> 64) as u64), w) }
    pub fn sym(&mut self, k: u32, w: u8) -> Id { self.intern(Op::Sym(k), w) }
    /// A symbol whose value is known to lie in lo..=hi (read as signed, or unsigned when lo is not
    /// negative), and the constraint saying so.
    pub fn sym_in(&mut self, k: u32, w: u8, lo: i128, hi: i128) -> (Id, Vec<Id>) {
        let r = self.ranges.iter().position(|x| *x == (lo, hi)).unwrap_or_else(|| { self.ranges.push((lo, hi)); self.ranges.len() - 1 }) as u32 + 1;
        assert!(k < SYM && r < 1 << 12);
        let e = self.intern(Op::Sym(k | r << 20), w);
        let (a, b) = (self.cst(lo as u128, w), self.cst(hi as u128, w));
        let o = if lo < 0 { Cmp::Sle } else { Cmp::Ule };
        (e, vec![self.intern(Op::Cmp(o, a, e), 1), self.intern(Op::Cmp(o, e, b), 1)])
    }
    /// The expression as a sum of multiples, modulo 2^w.
    fn linear(&self, i: Id, k: i128, out: &mut Vec<(Id, i128)>, cst: &mut i128, fuel: &mut u32) {
        let w = self.w(i);
        let m = |v: i128| sx(v as u128 & mask(w), w);
        if *fuel == 0 { out.push((i, k)); return; }
        *fuel -= 1;
        match self.op(i) {
            Op::Const(v, _) => *cst = m(*cst + k.wrapping_mul(sx(v as u128, w))),
            Op::Bin(Bin::Add, a, b) => { self.linear(a, k, out, cst, fuel); self.linear(b, k, out, cst, fuel); }
            Op::Bin(Bin::Sub, a, b) => { self.linear(a, k, out, cst, fuel); self.linear(b, m(-k), out, cst, fuel); }
            Op::Bin(Bin::Mul, a, b) if self.get(b).is_some() => { let c = sx(self.get(b).unwrap(), w); self.linear(a, m(k.wrapping_mul(c)), out, cst, fuel); }
            _ => match out.iter_mut().find(|t| t.0 == i) { Some(t) => t.1 = m(t.1 + k), None => out.push((i, k)) }
        }
    }
    /// The expression as a sum of multiples of other expressions, exactly, as unsigned integers.
    fn exact(&self, i: Id, k: i128, out: &mut Vec<(Id, i128)>, cst: &mut i128, fuel: &mut u32) {
        let top = |i: Id| self.iv(i).uh;
        let w = self.w(i);
        if *fuel > 0 && w <= 64 && k.abs() < 1 << 50 {
            *fuel -= 1;
            match self.op(i) {
                Op::Const(v, _) => { *cst += k * v as i128; return; }
                Op::ZExt(x) => return self.exact(x, k, out, cst, fuel),
                Op::Extract(x, 0) if self.w(x) <= 64 && top(x) <= mask(w) => return self.exact(x, k, out, cst, fuel),
                Op::Bin(Bin::Add, a, b) if top(a) + top(b) <= mask(w) => { self.exact(a, k, out, cst, fuel); self.exact(b, k, out, cst, fuel); return; }
                Op::Bin(Bin::Sub, a, b) if self.iv(a).ul >= top(b) => { self.exact(a, k, out, cst, fuel); self.exact(b, -k, out, cst, fuel); return; }
                Op::Bin(Bin::Mul, a, b) if self.get(b).is_some_and(|c| c < 1 << 40 && top(a) * c <= mask(w)) => { let c = self.get(b).unwrap() as i128; self.exact(a, k * c, out, cst, fuel); return; }
                Op::Bin(Bin::Shl, a, b) if self.get(b).is_some_and(|c| c < 40 && top(a) << c <= mask(w)) => { let c = self.get(b).unwrap(); self.exact(a, k << c, out, cst, fuel); return; }
                Op::Concat(h, l) if self.w(l) < 40 => { self.exact(h, k << self.w(l), out, cst, fuel); self.exact(l, k, out, cst, fuel); return; }
                _ => {}
            }
        }
        match out.iter_mut().find(|t| t.0 == i) { Some(t) => t.1 += k, None => out.push((i, k)) }
    }
    /// Bounds of a - b as unsigned integers.
    fn gap(&self, a: Id, b: Id) -> Option<(i128, i128)> {
        let (mut t, mut c, mut fuel) = (vec![], 0, 40);
        self.exact(a, 1, &mut t, &mut c, &mut fuel);
        self.exact(b, -1, &mut t, &mut c, &mut fuel);
        let (mut lo, mut hi) = (c, c);
        for (e, k) in t {
            let v = self.iv(e);
            if k.abs() > 1 << 56 || self.w(e) > 64 { return None; }
            let (p, q) = (v.ul as i128 * k, v.uh as i128 * k);
            lo += p.min(q); hi += p.max(q);
        }
        Some((lo, hi))
    }
    /// A quotient by a constant that shares a factor with every multiple.
    fn div_exact(&mut self, a: Id, y: u128) -> Option<Id> {
        let w = self.w(a);
        if w < 8 || w > 64 || y < 2 || y >= 1 << 40 { return None; }
        let (mut t, mut c, mut fuel) = (vec![], 0, 40);
        self.exact(a, 1, &mut t, &mut c, &mut fuel);
        let d = y as i128;
        t.retain(|x| x.1 != 0);
        if c < 0 || t.is_empty() || t.iter().any(|x| x.1 < 0 || self.w(x.0) > w) { return None; }
        // floor((g A + c) / (g q)) = floor((A + floor(c / g)) / q)
        let gcd = |mut a: i128, mut b: i128| { while b != 0 { (a, b) = (b, a % b); } a };
        let g = t.iter().fold(d, |g, x| gcd(g, x.1));
        if g == 1 { return None; }
        let mut r = self.cst((c / g) as u128, w);
        for (e, k) in t {
            let (e, k) = (self.zext(e, w), self.cst((k / g) as u128, w));
            let e = self.bin(Bin::Mul, e, k);
            r = self.bin(Bin::Add, e, r);
        }
        let q = self.cst((d / g) as u128, w);
        Some(self.bin(Bin::UDiv, r, q))
    }
    /// Which of two quotients by the same constant is bigger, where the dividends tell.
    fn cmp_div(&self, op: Cmp, a: Id, b: Id) -> Option<bool> {
        let part = |mut i: Id| loop { match self.op(i) {
            Op::ZExt(x) => i = x,
            Op::Extract(x, 0) if self.w(x) <= 64 && self.iv(x).uh <= mask(self.w(i)) => i = x,
            Op::Bin(Bin::UDiv, x, y) => return self.get(y).map(|c| (x, c)),
            _ => return None,
        } };
        let ((x, c), (y, d)) = (part(a)?, part(b)?);
        if c != d { return None; }
        let (lo, hi) = self.gap(x, y)?;
        match op {
            Cmp::Ult if lo >= 0 => Some(false),
            Cmp::Ule if hi <= 0 => Some(true),
            Cmp::Eq if lo == 0 && hi == 0 => Some(true),
            _ => None,
        }
    }
    /// Sums in which something cancels.
    fn cancel(&mut self, op: Bin, a: Id, b: Id) -> Option<Id> {
        let sum = |s: &Pool, i: Id| matches!(s.op(i), Op::Bin(Bin::Add | Bin::Sub, ..));
        let w = self.w(a);
        if w < 8 || w > 64 || !(sum(self, a) || sum(self, b)) { return None; }
        let (mut t, mut c, mut fuel) = (vec![], 0, 24);
        self.linear(a, 1, &mut t, &mut c, &mut fuel);
        self.linear(b, if op == Bin::Add { 1 } else { -1 }, &mut t, &mut c, &mut fuel);
        if fuel == 0 || !t.iter().any(|x| x.1 == 0) { return None; }
        t.retain(|x| x.1 != 0);
        let mut r: Option<Id> = None;
        for (e, k) in t {
            let neg = k < 0 && r.is_some();
            let k = self.cst(if neg { -k } else { k } as u128, w);
            let e = self.bin(Bin::Mul, e, k);
            r = Some(match r { None => e, Some(x) => self.bin(if neg { Bin::Sub } else { Bin::Add }, x, e) });
        }
        let c = self.cst(c as u128, w);
        Some(match r { None => c, Some(x) => self.bin(Bin::Add, x, c) })
    }
    /// The remainder of a sum of multiples of the divisor and a constant.
    fn residue(&mut self, op: Bin, a: Id, y: u128) -> Option<Id> {
        let w = self.w(a);
        let d = sx(y, w);
        if w < 8 || w > 64 || d <= 1 { return None; }
        let (mut t, mut c, mut fuel) = (vec![], 0, 24);
        self.linear(a, 1, &mut t, &mut c, &mut fuel);
        if fuel == 0 || t.is_empty() { return None; }
        if t.iter().any(|x| x.1 % d != 0) { return self.residue_of(op, a, d, t, c); }
        let (mut lo, mut hi) = (c, c);
        for (e, k) in &t {
            let v = self.iv(*e);
            if k.abs() > 1 << 40 || v.sl < -(1 << 60) || v.sh > 1 << 60 { return None; }
            let (p, q) = (v.sl * k, v.sh * k);
            lo += p.min(q); hi += p.max(q);
        }
        if lo < -(1i128 << (w - 1)) || hi >= 1i128 << (w - 1) || (op == Bin::URem && lo < 0) { return None; }
        let m = c.rem_euclid(d);
        let r = self.cst(m as u128, w);
        if lo >= 0 || m == 0 { return Some(r); }
        let n = self.cst((m - d) as u128, w);
        let z = self.cst(0, w);
        let neg = self.cmp(Cmp::Slt, a, z);
        Some(self.ite(neg, n, r))
    }
    /// The same where the other terms sum up to something within [0, d).
    fn residue_of(&mut self, op: Bin, a: Id, d: i128, t: Vec<(Id, i128)>, c: i128) -> Option<Id> {
        let w = self.w(a);
        if t.iter().all(|x| x.1 % d != 0) { return None; }
        let (mut lo, mut hi, mut rl, mut rh) = (c, c, c, c);
        let mut r: Option<Id> = None;
        for (e, k) in &t {
            let v = self.iv(*e);
            if k.abs() > 1 << 40 || v.sl < -(1 << 60) || v.sh > 1 << 60 { return None; }
            let (p, q) = (v.sl * k, v.sh * k);
            lo += p.min(q); hi += p.max(q);
            if k % d != 0 {
                rl += p.min(q); rh += p.max(q);
                let kc = self.cst(*k as u128, w);
                let e = self.bin(Bin::Mul, *e, kc);
                r = Some(match r { None => e, Some(x) => self.bin(Bin::Add, x, e) });
            }
        }
        if lo < -(1i128 << (w - 1)) || hi >= 1i128 << (w - 1) || rl < 0 || rh >= d || (op == Bin::URem && lo < 0) { return None; }
        let c = self.cst(c as u128, w);
        let r = self.bin(Bin::Add, r?, c);
        if lo >= 0 { return Some(r); }
        let (z, dc) = (self.cst(0, w), self.cst(d as u128, w));
        let (neg, zero) = (self.cmp(Cmp::Slt, a, z), self.cmp(Cmp::Eq, r, z));
        let some = self.not(zero);
        let below = self.bin(Bin::And, neg, some);
        let n = self.bin(Bin::Sub, r, dc);
        Some(self.ite(below, n, r))
    }
    pub fn get(&self, i: Id) -> Option<u128> { match self.nodes[i as usize].op { Op::Const(l, h) => Some(l as u128 | (h as u128) << 64), _ => None } }
    pub fn tru(&mut self) -> Id { self.cst(1, 1) }
    pub fn fls(&mut self) -> Id { self.cst(0, 1) }

    fn ite_leaves(&self, i: Id) -> bool { let l = self.leaves[i as usize]; l >= 2 }

    pub fn bin(&mut self, op: Bin, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.get(a), self.get(b));
        if let (Some(x), Some(y)) = (ca, cb) { return self.cst(bin_const(op, x, y, w), w); }
        let m = mask(w);
        let comm = matches!(op, Bin::Add | Bin::Mul | Bin::And | Bin::Or | Bin::Xor);
        if comm && ca.is_some() { return self.bin(op, b, a); }
        if w == 1 {
            match op {
                Bin::Add | Bin::Sub => return self.bin(Bin::Xor, a, b),
                Bin::Mul => return self.bin(Bin::And, a, b),
                _ => {}
            }
        }
        if let Some(y) = cb {
            match op {
                Bin::Add | Bin::Sub | Bin::Or | Bin::Xor | Bin::Shl | Bin::LShr | Bin::AShr if y == 0 => return a,
                Bin::And if y == 0 => return b,
                Bin::And if y == m => return a,
                Bin::Or if y == m => return b,
                Bin::Xor if y == m => return self.not(a),
                Bin::Mul if y == 0 => return b,
                Bin::Mul if y == 1 => return a,
                Bin::UDiv | Bin::SDiv if y == 1 && w > 1 => return a,
                Bin::URem if y == 1 => return self.cst(0, w),
                Bin::Sub => { let c = self.cst(bin_const(Bin::Sub, 0, y, w), w); return self.bin(Bin::Add, a, c); }
                Bin::Shl | Bin::LShr if y >= w as u128 => return self.cst(0, w),
                Bin::Mul if y.is_power_of_two() => { let c = self.cst(y.trailing_zeros() as u128, w); return self.bin(Bin::Shl, a, c); }
                Bin::UDiv if y.is_power_of_two() => { let c = self.cst(y.trailing_zeros() as u128, w); return self.bin(Bin::LShr, a, c); }
                Bin::URem if y.is_power_of_two() => { let c = self.cst(y - 1, w); return self.bin(Bin::And, a, c); }
                _ => {}
            }
            if let Op::Bin(o2, x, c2) = self.op(a) {
                if o2 == op && matches!(op, Bin::Add | Bin::And | Bin::Or | Bin::Xor) {
                    if let Some(k) = self.get(c2) { let c = self.cst(bin_const(op, k, y, w), w); return self.bin(op, x, c); }
                }
            }
            // low mask of a zero extension
            if op == Bin::And {
                if let Op::ZExt(x) = self.op(a) {
                    let xm = mask(self.w(x));
                    if y & xm == xm { return a; }
                    if y & xm == 0 { return self.cst(0, w); }
                    let k = self.cst(y & xm, self.w(x));
                    let t = self.bin(Bin::And, x, k);
                    return self.zext(t, w);
                }
                if (y + 1).is_power_of_two() && y != m {
                    let nb = (y + 1).trailing_zeros() as u8;
                    let t = self.extract(a, 0, nb);
                    return self.zext(t, w);
                }
            }
            if op == Bin::LShr && y < w as u128 {
                let t = self.extract(a, y as u8, w - y as u8);
                return self.zext(t, w);
            }
        }
        if ca == Some(0) { match op { Bin::Shl | Bin::LShr | Bin::AShr | Bin::Mul => return a, _ => {} } }
        if a == b {
            match op {
                Bin::And | Bin::Or => return a,
                Bin::Xor | Bin::Sub => return self.cst(0, w),
                _ => {}
            }
        }
        if w == 1 && matches!(op, Bin::And | Bin::Or) {
            // x & !x, absorption with direct complements
            let na = self.not(a);
            if na == b { return self.cst(if op == Bin::And { 0 } else { 1 }, 1); }
        }
        // push constant operand through ites with constant leaves
        if cb.is_some() && self.ite_leaves(a) && w > 1 {
            if let Op::Ite(c, x, y) = self.op(a) { let p = self.bin(op, x, b); let q = self.bin(op, y, b); return self.ite(c, p, q); }
        }
        if ca.is_some() && self.ite_leaves(b) && w > 1 {
            if let Op::Ite(c, x, y) = self.op(b) { let p = self.bin(op, a, x); let q = self.bin(op, a, y); return self.ite(c, p, q); }
        }
        // disjoint concat via or/add of shifted pieces:  zext(x) | (y << k)
        if matches!(op, Bin::Or | Bin::Add | Bin::Xor) {
            if let Some(r) = self.try_concat(a, b).or_else(|| self.try_concat(b, a)) { return r; }
        }
        if op == Bin::Shl {
            if let Some(k) = cb {
                // (x << k) == concat(x[w-k-1:0], 0)
                let hi = self.extract(a, 0, w - k as u8);
                let lo = self.cst(0, k as u8);
                return self.concat(hi, lo);
            }
        }
        let (a, b) = if comm && cb.is_none() && a > b { (b, a) } else { (a, b) };
        if matches!(op, Bin::Add | Bin::Sub) { if let Some(r) = self.cancel(op, a, b) { return r; } }
        if op == Bin::UDiv { if let Some(y) = cb { if let Some(r) = self.div_exact(a, y) { return r; } } }
        if matches!(op, Bin::SRem | Bin::URem) { if let Some(y) = cb { if let Some(r) = self.residue(op, a, y) { return r; } } }
        if matches!(op, Bin::Add | Bin::Sub | Bin::Mul) { if let Some(r) = self.narrow(op, a, b, w) { return r; } }
        self.intern(Op::Bin(op, a, b), w)
    }
    /// number of low bits of `i` that are known zero (via concat with zero) / width bound of zero-extension
    fn low_zero(&self, i: Id) -> u8 {
        match self.op(i) {
            Op::Concat(_, lo) if self.get(lo) == Some(0) => self.w(lo),
            Op::ZExt(x) => self.low_zero(x),
            _ => 0,
        }
    }
    fn high_bits_used(&self, i: Id) -> u8 {
        match self.op(i) {
            Op::ZExt(x) => self.high_bits_used(x),
            Op::Concat(h, l) if self.get(h) == Some(0) => self.w(l),
            _ => self.w(i),
        }
    }
    fn try_concat(&mut self, lo: Id, hi: Id) -> Option<Id> {
        let w = self.w(lo);
        let lz = self.low_zero(hi);
        if lz == 0 || self.get(lo).is_some() { return None; }
        let used = self.high_bits_used(lo);
        if used > lz || used == 0 { return None; }
        let h = self.extract(hi, used, w - used);
        let l = self.extract(lo, 0, used);
        Some(self.concat(h, l))
    }
    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.get(a) { return self.cst(!x, w); }
        match self.op(a) {
            Op::Not(x) => return x,
            Op::Ite(c, x, y) if self.ite_leaves(a) => { let p = self.not(x); let q = self.not(y); return self.ite(c, p, q); }
            Op::Cmp(Cmp::Ult, x, y) => return self.cmp(Cmp::Ule, y, x),
            Op::Cmp(Cmp::Ule, x, y) => return self.cmp(Cmp::Ult, y, x),
            Op::Cmp(Cmp::Slt, x, y) => return self.cmp(Cmp::Sle, y, x),
            Op::Cmp(Cmp::Sle, x, y) => return self.cmp(Cmp::Slt, y, x),
            _ => {}
        }
        self.intern(Op::Not(a), w)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(v) = self.get(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Op::Not(x) = self.op(c) { return self.ite(x, b, a); }
        if w == 1 {
            match (self.get(a), self.get(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Bin::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Bin::And, n, b); }
                (None, Some(0)) => return self.bin(Bin::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Bin::Or, n, a); }
                _ => {}
            }
        }
        if let Op::Ite(c2, x, y) = self.op(a) {
            if c2 == c { return self.ite(c, x, b); }
            if y == b { let cc = self.bin(Bin::And, c, c2); return self.ite(cc, x, b); }
            let _ = x;
        }
        if let Op::Bin(o @ (Bin::Add | Bin::Sub), x, k) = self.op(a) { if let Op::Ite(c2, p, _) = self.op(x) { if c2 == c { let p = self.bin(o, p, k); return self.ite(c, p, b); } } }
        if let Op::Ite(c2, x, y) = self.op(b) {
            if c2 == c { return self.ite(c, a, y); }
            if x == a { let cc = self.bin(Bin::Or, c, c2); return self.ite(cc, a, y); }
        }
        // ite(c, 1, 0) at width w is zext(c)
        if w > 1 {
            match (self.get(a), self.get(b)) {
                (Some(1), Some(0)) => return self.zext(c, w),
                (Some(0), Some(1)) => { let n = self.not(c); return self.zext(n, w); }
                _ => {}
            }
        }
        if w == 64 && (self.fp[a as usize] || self.fp[b as usize]) { if let Some(r) = self.ite_quot(c, a, b) { return r; } }
        // one width for both arms
        if w > 8 && w <= 64 && (self.get(a).is_none() || self.get(b).is_none()) {
            let need = |s: &Pool, i: Id| match s.op(i) {
                Op::Const(v, _) if v < 1 << 12 => 64 - v.leading_zeros() as u8,
                Op::ZExt(x) => s.w(x),
                _ => 255,
            };
            let k = need(self, a).max(need(self, b)).max(1);
            if k < w {
                let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
                let t = self.ite(c, x, y);
                return self.zext(t, w);
            }
        }
        self.intern(Op::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.get(a) { return self.cst(x, w); }
        match self.op(a) {
            Op::ZExt(x) => return self.zext(x, w),
            Op::Ite(c, x, y) if self.ite_leaves(a) => { let p = self.zext(x, w); let q = self.zext(y, w); return self.ite(c, p, q); }
            _ => {}
        }
        self.intern(Op::ZExt(a), w)
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(x) = self.get(a) { return self.cst(sx(x, aw) as u128, w); }
        match self.op(a) {
            Op::SExt(x) => return self.sext(x, w),
            Op::ZExt(x) => return self.zext(x, w),
            Op::Ite(c, x, y) if self.ite_leaves(a) => { let p = self.sext(x, w); let q = self.sext(y, w); return self.ite(c, p, q); }
            _ => {}
        }
        if aw == 1 { let p = self.cst(u128::MAX, w); let q = self.cst(0, w); return self.ite(a, p, q); }
        if self.iv(a).sl >= 0 { return self.zext(a, w); }
        self.intern(Op::SExt(a), w)
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(x) = self.get(a) { return self.cst(x >> lo, w); }
        match self.op(a) {
            Op::Extract(x, l2) => return self.extract(x, l2 + lo, w),
            Op::ZExt(x) => {
                let xw = self.w(x);
                if lo >= xw { return self.cst(0, w); }
                if lo + w <= xw { return self.extract(x, lo, w); }
                let t = self.extract(x, lo, xw - lo);
                return self.zext(t, w);
            }
            Op::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw { return self.extract(x, lo, w); }
                if lo == 0 { return self.sext(x, w); }
            }
            Op::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, w); }
                if lo + w <= lw { return self.extract(l, lo, w); }
                let hh = self.extract(h, 0, lo + w - lw);
                let ll = self.extract(l, lo, lw - lo);
                return self.concat(hh, ll);
            }
            Op::Ite(c, x, y) => {
                if self.ite_leaves(a) || (w <= 8 && self.cheap(x) && self.cheap(y)) { let p = self.extract(x, lo, w); let q = self.extract(y, lo, w); return self.ite(c, p, q); }
            }
            Op::Bin(o @ (Bin::And | Bin::Or | Bin::Xor), x, y) => { let p = self.extract(x, lo, w); let q = self.extract(y, lo, w); return self.bin(o, p, q); }
            Op::Bin(o @ (Bin::Add | Bin::Sub | Bin::Mul), x, y) if lo == 0 => { let p = self.extract(x, 0, w); let q = self.extract(y, 0, w); return self.bin(o, p, q); }
            Op::Not(x) => { let p = self.extract(x, lo, w); return self.not(p); }
            _ => {}
        }
        self.intern(Op::Extract(a, lo), w)
    }
    fn cheap(&self, i: Id) -> bool { matches!(self.op(i), Op::Const(..) | Op::Sym(_) | Op::ZExt(_)) }
    pub fn concat(&mut self, h: Id, l: Id) -> Id {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        let (ch, cl) = (self.get(h), self.get(l));
        if let (Some(x), Some(y)) = (ch, cl) { return self.cst(x << lw | y, w); }
        if ch == Some(0) { return self.zext(l, w); }
        match (self.op(h), self.op(l)) {
            (Op::Extract(x, a), Op::Extract(y, b)) if x == y && a == b + lw => return self.extract(x, b, w),
            (Op::Extract(x, a), _) if x == l && a == lw => return self.extract(x, 0, w),
            (Op::Concat(hh, hl), _) if self.get(hl).is_some() && cl.is_some() => { let t = self.concat(hl, l); return self.concat(hh, t); }
            // zext(x):l with extract neighbour
            (Op::ZExt(x), _) => { let t = self.concat(x, l); return self.zext(t, w); }
            (Op::Ite(c1, a1, b1), Op::Ite(c2, a2, b2)) if c1 == c2 => { let p = self.concat(a1, a2); let q = self.concat(b1, b2); return self.ite(c1, p, q); }
            (Op::Ite(c1, a1, b1), Op::Const(..)) if self.ite_leaves(h) => { let p = self.concat(a1, l); let q = self.concat(b1, l); return self.ite(c1, p, q); }
            (Op::Const(..), Op::Ite(c1, a1, b1)) if self.ite_leaves(l) => { let p = self.concat(h, a1); let q = self.concat(h, b1); return self.ite(c1, p, q); }
            (_, Op::Concat(lh, ll)) => { let t = self.concat(h, lh);
                if !matches!(self.op(t), Op::Concat(x, _) if x == h) { return self.concat(t, ll); } }
            _ => {}
        }
        self.intern(Op::Concat(h, l), w)
    }
    pub fn cmp(&mut self, op: Cmp, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.get(a), self.get(b));
        if let (Some(x), Some(y)) = (ca, cb) { let r = cmp_const(op, x, y, w); return self.cst(r as u128, 1); }
        if a == b { return self.cst(matches!(op, Cmp::Eq | Cmp::Ule | Cmp::Sle) as u128, 1); }
        if op == Cmp::Eq && ca.is_some() { return self.cmp(op, b, a); }
        if w > 1 && w <= 64 {
            let (x, y) = (self.iv(a), self.iv(b));
            match op {
                Cmp::Eq => if x.uh < y.ul || y.uh < x.ul || x.sh < y.sl || y.sh < x.sl { return self.fls(); },
                Cmp::Ult => { if x.uh < y.ul { return self.tru(); } if x.ul >= y.uh { return self.fls(); } }
                Cmp::Ule => { if x.uh <= y.ul { return self.tru(); } if x.ul > y.uh { return self.fls(); } }
                Cmp::Slt => { if x.sh < y.sl { return self.tru(); } if x.sl >= y.sh { return self.fls(); } if x.sl >= 0 && y.sl >= 0 { return self.cmp(Cmp::Ult, a, b); } }
                Cmp::Sle => { if x.sh <= y.sl { return self.tru(); } if x.sl > y.sh { return self.fls(); } if x.sl >= 0 && y.sl >= 0 { return self.cmp(Cmp::Ule, a, b); } }
            }
        }
        let m = mask(w);
        if w >= 8 && w <= 64 && matches!(op, Cmp::Ult | Cmp::Ule | Cmp::Eq) {
            if let Some(r) = self.cmp_div(op, a, b) { return self.cst(r as u128, 1); }
            let sum = |s: &Pool, i: Id| matches!(s.op(i), Op::Bin(Bin::Add | Bin::Mul, ..) | Op::Extract(..) | Op::ZExt(..) | Op::Concat(..));
            if w >= 32 && op != Cmp::Eq && ca.is_none() && cb.is_none() && sum(self, a) && sum(self, b) {
                if let Some((lo, hi)) = self.gap(a, b) {
                    match op {
                        Cmp::Ult if lo >= 0 => return self.fls(),
                        Cmp::Ult if hi < 0 => return self.tru(),
                        Cmp::Ule if hi <= 0 => return self.tru(),
                        Cmp::Ule if lo > 0 => return self.fls(),
                        _ => {}
                    }
                }
            }
        }
        // equal as bits is equal as numbers where there is neither NaN nor a negative zero
        if w == 64 && op == Cmp::Eq && self.fp[a as usize] && self.quotient(a).is_some() {
            if let Some(y) = cb { if y == 1 << 63 || f64::from_bits(y as u64).is_nan() { return self.fls(); } }
            if cb.is_some() || self.quotient(b).is_some() { if let Some(r) = self.fcmp_int(Fcmp::Eq, a, b) { return r; } }
        }
        if w == 1 {
            match op {
                Cmp::Eq => { if let Some(y) = cb { return if y == 1 { a } else { self.not(a) }; } let t = self.bin(Bin::Xor, a, b); return self.not(t); }
                Cmp::Ult => { let n = self.not(a); return self.bin(Bin::And, n, b); }
                Cmp::Ule => { let n = self.not(a); return self.bin(Bin::Or, n, b); }
                _ => {}
            }
        }
        if let Some(y) = cb {
            match op {
                Cmp::Ult if y == 0 => return self.fls(),
                Cmp::Ule if y == m => return self.tru(),
                Cmp::Ult if y == 1 => { let z = self.cst(0, w); return self.cmp(Cmp::Eq, a, z); }
                Cmp::Ule if y == 0 => return self.cmp(Cmp::Eq, a, b),
                Cmp::Slt if y == 1u128 << (w - 1) => return self.fls(),
                _ => {}
            }
        }
        if let Some(x) = ca {
            match op {
                Cmp::Ule if x == 0 => return self.tru(),
                Cmp::Ult if x == m => return self.fls(),
                Cmp::Ult if x == 0 => { let e = self.cmp(Cmp::Eq, b, a); return self.not(e); }
                Cmp::Sle if x == 1u128 << (w - 1) => return self.tru(),
                _ => {}
            }
        }
        if cb.is_some() && self.ite_leaves(a) {
            if let Op::Ite(c, x, y) = self.op(a) { let p = self.cmp(op, x, b); let q = self.cmp(op, y, b); return self.ite(c, p, q); }
        }
        if ca.is_some() && self.ite_leaves(b) {
            if let Op::Ite(c, x, y) = self.op(b) { let p = self.cmp(op, a, x); let q = self.cmp(op, a, y); return self.ite(c, p, q); }
        }
        if let Some(y) = cb {
            // ite with one constant arm
            if let Op::Ite(c, p, q) = self.op(a) {
                if self.get(p).is_some() || self.get(q).is_some() {
                    let x1 = self.cmp(op, p, b); let x2 = self.cmp(op, q, b);
                    if self.get(x1).is_some() || self.get(x2).is_some() { return self.ite(c, x1, x2); }
                }
            }
            match (op, self.op(a)) {
                (Cmp::Eq, Op::Bin(Bin::Add, x, k)) => if let Some(kv) = self.get(k) { let c = self.cst(bin_const(Bin::Sub, y, kv, w), w); return self.cmp(op, x, c); },
                (Cmp::Eq, Op::Bin(Bin::Xor, x, k)) => if let Some(kv) = self.get(k) { let c = self.cst(y ^ kv, w); return self.cmp(op, x, c); },
                (Cmp::Eq, Op::Not(x)) => { let c = self.cst(!y, w); return self.cmp(op, x, c); }
                (Cmp::Eq, Op::Bin(Bin::Or, x, z)) if y == 0 => { let k = self.cst(0, w); let p = self.cmp(op, x, k); let q = self.cmp(op, z, k); return self.bin(Bin::And, p, q); }
                (Cmp::Eq, Op::Concat(h, l)) => {
                    let lw = self.w(l);
                    let (hc, lc) = (self.cst(y >> lw, w - lw), self.cst(y, lw));
                    let p = self.cmp(op, h, hc); let q = self.cmp(op, l, lc);
                    return self.bin(Bin::And, p, q);
                }
                (Cmp::Eq | Cmp::Ult | Cmp::Ule, Op::ZExt(x)) => {
                    let xw = self.w(x);
                    if y > mask(xw) { return self.cst((op != Cmp::Eq) as u128, 1); }
                    let c = self.cst(y, xw);
                    return self.cmp(op, x, c);
                }
                (Cmp::Slt | Cmp::Sle, Op::ZExt(x)) if self.w(x) < w => {
                    if sx(y, w) < 0 { return self.fls(); }
                    let o = if op == Cmp::Slt { Cmp::Ult } else { Cmp::Ule };
                    let _ = x;
                    return self.cmp(o, a, b);
                }
                (Cmp::Eq, Op::SExt(x)) => {
                    let xw = self.w(x);
                    let t = sx(y & mask(xw), xw) as u128 & m;
                    if t != y { return self.fls(); }
                    let c = self.cst(y, xw);
                    return self.cmp(op, x, c);
                }
                (Cmp::Slt | Cmp::Sle, Op::SExt(x)) => {
                    let xw = self.w(x);
                    let t = sx(y & mask(xw), xw) as u128 & m;
                    if t == y { let c = self.cst(y, xw); return self.cmp(op, x, c); }
                }
                _ => {}
            }
        }
        if let Some(y) = ca {
            match (op, self.op(b)) {
                (Cmp::Ult | Cmp::Ule, Op::ZExt(x)) => {
                    let xw = self.w(x);
                    if y > mask(xw) { return self.fls(); }
                    let c = self.cst(y, xw);
                    return self.cmp(op, c, x);
                }
                (Cmp::Slt | Cmp::Sle, Op::ZExt(x)) if self.w(x) < w => {
                    if sx(y, w) < 0 { return self.tru(); }
                    let o = if op == Cmp::Slt { Cmp::Ult } else { Cmp::Ule };
                    return self.cmp(o, a, b);
                }
                (Cmp::Slt | Cmp::Sle, Op::SExt(x)) => {
                    let xw = self.w(x);
                    let t = sx(y & mask(xw), xw) as u128 & m;
                    if t == y { let c = self.cst(y, xw); return self.cmp(op, c, x); }
                }
                _ => {}
            }
        }
        if let (Op::ZExt(x), Op::ZExt(y)) = (self.op(a), self.op(b)) {
            if self.w(x) == self.w(y) {
                let o = match op { Cmp::Slt => Cmp::Ult, Cmp::Sle => Cmp::Ule, o => o };
                return self.cmp(o, x, y);
            }
            let k = self.w(x).max(self.w(y));
            let o = match op { Cmp::Slt => Cmp::Ult, Cmp::Sle => Cmp::Ule, o => o };
            let (x, y) = (self.zext(x, k), self.zext(y, k));
            return self.cmp(o, x, y);
        }
        if let (Op::SExt(x), Op::ZExt(y)) | (Op::ZExt(y), Op::SExt(x)) = (self.op(a), self.op(b)) {
            let k = self.w(x).max(self.w(y) + 1);
            if k < w && !matches!(op, Cmp::Ult | Cmp::Ule) {
                let (p, q) = (self.extract(a, 0, k), self.extract(b, 0, k));
                return self.cmp(op, p, q);
            }
        }
        if let (Op::SExt(x), Op::SExt(y)) = (self.op(a), self.op(b)) {
            if !matches!(op, Cmp::Ult | Cmp::Ule) {
                let k = self.w(x).max(self.w(y));
                let (x, y) = (self.sext(x, k), self.sext(y, k));
                return self.cmp(op, x, y);
            }
        }
        let (a, b) = if op == Cmp::Eq && cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.intern(Op::Cmp(op, a, b), 1)
    }
    pub fn fp(&mut self, op: Fp, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get(a), self.get(b)) { return self.cst(fp_const(op, x, y, w), w); }
        if w == 64 {
            let (neg, pos) = (1u128 << 63, 0u128); // the two zeros
            let (ca, cb) = (self.get(a), self.get(b));
            match op {
                Fp::Add if cb == Some(neg) || cb == Some(pos) && self.quotient(a).is_some() => return a,
                Fp::Add if ca == Some(neg) || ca == Some(pos) && self.quotient(b).is_some() => return b,
                Fp::Sub if cb == Some(pos) || cb == Some(neg) && self.quotient(a).is_some() => return a,
                Fp::Mul | Fp::Div if cb == Some(1f64.to_bits() as u128) => return a,
                _ => {}
            }
        }
        self.intern(Op::Fp(op, a, b), w)
    }
    pub fn fcmp(&mut self, op: Fcmp, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.get(a), self.get(b)) { return self.cst(fcmp_const(op, x, y, w) as u128, 1); }
        if w == 64 { if let Some(r) = self.fcmp_int(op, a, b) { return r; } }
        if w == 64 { if let Some(r) = self.fcmp_near(op, a, b) { return self.cst(r as u128, 1); } }
        self.intern(Op::Fcmp(op, a, b), 1)
    }
    /// The two differ by a constant, but for rounding errors too small to matter.
    fn fcmp_near(&self, op: Fcmp, a: Id, b: Id) -> Option<bool> {
        if matches!(op, Fcmp::Uno) { return None; }
        let span = |i: Id| -> Option<(Vec<(Id, i128)>, i128, f64, f64)> {
            if let Some(c) = self.get(i) { let c = f64::from_bits(c as u64); return if c.abs() < 1e12 { Some((vec![], 1, c, 0.0)) } else { None }; }
            if let Op::ZExt(x) = self.op(i) {
                // the absolute value
                if let Op::Extract(x, 0) = self.op(x) { if self.w(i) == 64 && self.w(x) == 64 {
                    let (t, k, den, _, err) = self.rational(x, 8)?;
                    if t.iter().any(|x| x.1 != 0) { return None; }
                    let v = (k as f64 / den as f64).abs();
                    return if v == 0.0 || v > err { Some((vec![], 1, v, err)) } else { None };
                } }
            }
            if !matches!(self.op(i), Op::Fp(..)) && self.whole(i).is_none() { return None; }
            let (t, k, den, _, err) = self.rational(i, 8)?;
            Some((t.into_iter().filter(|x| x.1 != 0).collect(), den, k as f64 / den as f64, err))
        };
        let (t, d, v, e) = span(a)?;
        let (u, f, w, g) = span(b)?;
        if t.len() != u.len() || t.iter().any(|x| !u.iter().any(|y| x.0 == y.0 && x.1.checked_mul(f) == y.1.checked_mul(d))) { return None; }
        let room = (e + g) * 1.001 + (v.abs() + w.abs()) * 1e-15;
        if (v - w).abs() <= room { return None; }
        Some(v < w && op != Fcmp::Eq)
    }
    pub fn fun(&mut self, op: Fun, a: Id, w: u8) -> Id {
        let sw = self.w(a);
        if let Some(x) = self.get(a) { return self.cst(fun_const(op, x, w, sw), w); }
        match op {
            Fun::FromUi => {
                if let Op::ZExt(k) = self.op(a) { return self.fun(op, k, w); }
                if sw > 64 && self.bound(a, 8).is_some_and(|b| b < 1 << 64) { let k = self.extract(a, 0, 64); return self.fun(op, k, w); }
            }
            Fun::FromSi if w == 64 && sw <= 64 && self.iv(a).sl >= 0 => return self.fun(Fun::FromUi, a, w),
            Fun::RoundAway if w == 64 => if let Some(r) = self.nearest(a) { return r; },
            Fun::ToUi | Fun::ToUiSat | Fun::ToSi | Fun::ToSiSat if sw == 64 => if let Some(k) = self.whole(a) {
                let top = if matches!(op, Fun::ToUi | Fun::ToUiSat) { mask(w) } else { mask(w) >> 1 };
                if self.iv(k).uh <= top { let kw = self.w(k); return if kw > w { self.extract(k, 0, w) } else { self.zext(k, w) }; }
            },
            Fun::Floor | Fun::Ceil | Fun::Trunc | Fun::RoundEven if w == 64 => if self.whole(a).is_some() { return a; },
            _ => {}
        }
        self.intern(Op::Fun(op, a), w)
    }
    /// An upper bound of a wide integer.
    fn bound(&self, a: Id, fuel: u32) -> Option<u128> {
        if self.w(a) <= 64 { return Some(self.iv(a).uh); }
        if fuel == 0 { return None; }
        let lim = |x: u128| if x < 1 << 126 { Some(x) } else { None };
        match self.op(a) {
            Op::Const(..) => lim(self.get(a)?),
            Op::ZExt(x) => self.bound(x, fuel - 1),
            Op::Bin(Bin::Add, x, y) => lim(self.bound(x, fuel - 1)? + self.bound(y, fuel - 1)?),
            Op::Bin(Bin::Mul, x, y) => lim(self.bound(x, fuel - 1)?.checked_mul(self.bound(y, fuel - 1)?)?),
            Op::Bin(Bin::UDiv, x, y) => { let c = self.get(y)?; if c == 0 { None } else { Some(self.bound(x, fuel - 1)? / c) } }
            _ => None,
        }
    }
    /// A condition that implies this one: doubles are equal if they come from equal operands.
    pub fn congruent(&mut self, c: Id, fuel: u32) -> Id {
        if fuel == 0 || !self.fp[c as usize] { return c; }
        match self.op(c) {
            Op::Bin(o @ (Bin::And | Bin::Or), a, b) if self.w(c) == 1 => { let (a, b) = (self.congruent(a, fuel - 1), self.congruent(b, fuel - 1)); self.bin(o, a, b) }
            Op::Fcmp(Fcmp::Eq, a, b) if self.rational(a, 8).is_some() => { let r = self.same_operands(a, b, fuel); r.unwrap_or(c) }
            Op::Cmp(Cmp::Eq, a, b) => { let r = self.same_operands(a, b, fuel); r.unwrap_or(c) }
            _ => c,
        }
    }
    fn same_operands(&mut self, a: Id, b: Id, fuel: u32) -> Option<Id> {
        if a == b { return Some(self.tru()); }
        match (self.op(a), self.op(b)) {
            (Op::Fp(o, x, y), Op::Fp(p, z, t)) if o == p => {
                let (l, r) = (self.cmp(Cmp::Eq, x, z), self.cmp(Cmp::Eq, y, t));
                let (l, r) = (self.congruent(l, fuel - 1), self.congruent(r, fuel - 1));
                Some(self.bin(Bin::And, l, r))
            }
            (Op::Fun(o, x), Op::Fun(p, y)) if o == p => {
                let (mut x, mut y) = (x, y);
                if self.w(x) != self.w(y) { if o != Fun::FromUi { return None; } let w = self.w(x).max(self.w(y)); x = self.zext(x, w); y = self.zext(y, w); }
                let e = self.cmp(Cmp::Eq, x, y);
                Some(self.congruent(e, fuel - 1))
            }
            _ => None,
        }
    }
    /// The unsigned integer this double is exactly, if it is one converted without loss.
    fn whole(&self, a: Id) -> Option<Id> {
        match self.op(a) { Op::Fun(Fun::FromUi, k) if self.w(k) <= 64 && self.iv(k).uh < 1 << 53 => Some(k), _ => None }
    }
    fn int_const(&self, a: Id) -> Option<u64> {
        let x = f64::from_bits(self.get(a)? as u64);
        if x >= 1.0 && x <= 4096.0 && x.fract() == 0.0 { Some(x as u64) } else { None }
    }
    /// Rounding to the nearest integer where the rounding errors of the operations inside
    /// (a factor of at most 1 +- 2^-53 each, by IEEE 754) cannot reach the next tie.
    fn nearest(&mut self, a: Id) -> Option<Id> {
        if self.whole(a).is_some() { return Some(a); }
        // k / C: ties are exact, and any other quotient is at least 1/(2C) away from one
        if let Op::Fp(Fp::Div, x, c) = self.op(a) {
            if let (Some(k), Some(c)) = (self.whole(x), self.int_const(c)) {
                if self.iv(k).uh < 1 << 36 && self.w(k) <= 64 {
                    let z = self.zext(k, 64);
                    let (one, h, d) = (self.cst(1, 64), self.cst(c as u128, 64), self.cst(2 * c as u128, 64));
                    let z = self.bin(Bin::Shl, z, one);
                    let z = self.bin(Bin::Add, z, h);
                    let q = self.bin(Bin::UDiv, z, d);
                    return Some(self.fun(Fun::FromUi, q, 64));
                }
            }
        }
        // a sum of multiples that is an integer but for the errors
        let (t, c, den, max, err) = self.rational(a, 6)?;
        if err >= 0.25 || max >= (1u64 << 50) as f64 || c < 0 || c % den != 0 || t.iter().any(|x| x.1 < 0 || x.1 % den != 0) { return None; }
        let mut r = self.cst((c / den) as u128, 64);
        for (e, k) in t {
            let (e, k) = (self.zext(e, 64), self.cst((k / den) as u128, 64));
            let e = self.bin(Bin::Mul, e, k);
            r = self.bin(Bin::Add, e, r);
        }
        Some(self.fun(Fun::FromUi, r, 64))
    }
    /// What the double would be without rounding: multiples of integers over one denominator,
    /// a bound of its size and one of all rounding errors (2^-53 of the size for each operation, by IEEE 754).
    fn rational(&self, a: Id, fuel: u32) -> Option<(Vec<(Id, i128)>, i128, i128, f64, f64)> {
        if let Some(k) = self.whole(a) { return Some((vec![(k, 1)], 0, 1, self.iv(k).uh as f64, 0.0)); }
        if let Some(c) = self.get(a) {
            let c = f64::from_bits(c as u64);
            return if c.abs() < 1e12 && c.fract() == 0.0 { Some((vec![], c as i128, 1, c.abs(), 0.0)) } else { None };
        }
        if fuel == 0 { return None; }
        let Op::Fp(o, x, y) = self.op(a) else { return None };
        let round = |max: f64, err: f64| { let m = (max + err) * 1.0001; (m, err * 1.0001 + m / (1u64 << 53) as f64) };
        match o {
            Fp::Div | Fp::Mul => {
                let (x, c) = match self.int_const(y) { Some(c) => (x, c), None if o == Fp::Mul => (y, self.int_const(x)?), _ => return None };
                let (mut t, mut k, mut den, max, err) = self.rational(x, fuel - 1)?;
                let f = c as f64;
                let (max, err) = if o == Fp::Div { den *= c as i128; (max / f, err / f) } else { for x in t.iter_mut() { x.1 *= c as i128; } k *= c as i128; (max * f, err * f) };
                if den > 1 << 40 || t.iter().any(|x| x.1.abs() > 1 << 60) { return None; }
                let (max, err) = round(max, err);
                Some((t, k, den, max, err))
            }
            Fp::Add | Fp::Sub => {
                let (t, k, d, m, e) = self.rational(x, fuel - 1)?;
                let (u, l, f, n, g) = self.rational(y, fuel - 1)?;
                let s = if o == Fp::Add { 1 } else { -1 };
                if d.checked_mul(f)? > 1 << 40 { return None; }
                let mut t: Vec<_> = t.iter().map(|x| (x.0, x.1 * f)).collect();
                for x in u { match t.iter_mut().find(|y| y.0 == x.0) { Some(y) => y.1 += s * x.1 * d, None => t.push((x.0, s * x.1 * d)) } }
                let (max, err) = round(m + n, e + g);
                Some((t, k * f + s * l * d, d * f, max, err))
            }
            _ => None,
        }
    }
    /// An integer, or an integer over a constant: never NaN, never a negative zero.
    fn quotient(&self, a: Id) -> Option<(Id, u64)> {
        if let Some(k) = self.whole(a) { return Some((k, 1)); }
        if let Op::Fp(Fp::Div, x, c) = self.op(a) { return Some((self.whole(x)?, self.int_const(c)?)); }
        None
    }
    /// A choice between two integers, or between integers over the same constant, is one too.
    fn ite_quot(&mut self, c: Id, a: Id, b: Id) -> Option<Id> {
        let arm = |s: &Pool, i: Id| -> Option<Result<Id, u64>> {
            if let Some(k) = s.whole(i) { return Some(Ok(k)); }
            let v = s.get(i)? as u64; let x = f64::from_bits(v);
            if v >> 63 == 0 && x < (1u64 << 48) as f64 && x.fract() == 0.0 { Some(Err(x as u64)) } else { None }
        };
        if let (Some(x), Some(y)) = (arm(self, a), arm(self, b)) {
            let mut id = |s: &mut Pool, r| match r { Ok(k) => s.zext(k, 64), Err(v) => s.cst(v as u128, 64) };
            let (x, y) = (id(self, x), id(self, y));
            let k = self.ite(c, x, y);
            return Some(self.fun(Fun::FromUi, k, 64));
        }
        let (x, y, d) = match (self.op(a), self.op(b)) {
            (Op::Fp(Fp::Div, x, d), Op::Fp(Fp::Div, y, e)) if d == e => (x, y, d),
            (Op::Fp(Fp::Div, x, d), Op::Const(0, 0)) => (x, b, d),
            (Op::Const(0, 0), Op::Fp(Fp::Div, y, d)) => (a, y, d),
            _ => return None,
        };
        self.int_const(d)?;
        let n = self.ite_quot(c, x, y)?;
        Some(self.fp(Fp::Div, n, d))
    }
    /// An integer taken through operations that keep the order, each with a constant.
    fn chain(&self, mut a: Id) -> Option<(Id, Vec<(Fp, f64)>)> {
        let mut ops = vec![];
        loop {
            if let Some(k) = self.whole(a) { return Some((k, ops)); }
            let Op::Fp(o, x, y) = self.op(a) else { return None };
            let (x, c) = if let Some(c) = self.get(y) { (x, c) } else if matches!(o, Fp::Add | Fp::Mul) { (y, self.get(x)?) } else { return None };
            let c = f64::from_bits(c as u64);
            if !(c.abs() < 1e18) { return None; }
            match o { Fp::Add | Fp::Sub => {} Fp::Mul if c > 0.0 => {} Fp::Div if c >= 1.0 => {} _ => return None }
            ops.push((o, c));
            a = x;
            if ops.len() > 6 { return None; }
        }
    }
    /// Such a chain against a constant: rounding keeps the order, so the comparison holds up to some k.
    fn fcmp_quot(&mut self, op: Fcmp, a: Id, b: Id) -> Option<Id> {
        let (a, b, left) = if self.get(b).is_some() { (a, b, true) } else if self.get(a).is_some() { (b, a, false) } else { return None };
        let (k, ops) = self.chain(a)?;
        let val = |m: u128| { let mut q = m as f64; for (o, c) in ops.iter().rev() { q = match o { Fp::Add => q + c, Fp::Sub => q - c, Fp::Mul => q * c, _ => q / c } } q };
        let c = f64::from_bits(self.get(b)? as u64);
        if op == Fcmp::Uno || c.is_nan() { let r = (op == Fcmp::Uno && c.is_nan()) as u128; return Some(self.cst(r, 1)); }
        let top = self.iv(k).uh + 1;
        // how many k from zero on have a quotient below c (or not above it)
        let count = |strict: bool| { let (mut lo, mut hi) = (0u128, top); while lo < hi { let m = (lo + hi) / 2; let q = val(m); if (strict && q < c) || (!strict && q <= c) { lo = m + 1 } else { hi = m } } lo };
        let z = self.zext(k, 64);
        let (s, n) = (self.cst(count(true), 64), self.cst(count(false), 64));
        Some(match (op, left) {
            (Fcmp::Lt, true) => self.cmp(Cmp::Ult, z, s),
            (Fcmp::Le, true) => self.cmp(Cmp::Ult, z, n),
            (Fcmp::Lt, false) => self.cmp(Cmp::Ule, n, z),
            (Fcmp::Le, false) => self.cmp(Cmp::Ule, s, z),
            _ => { let (x, y) = (self.cmp(Cmp::Ule, s, z), self.cmp(Cmp::Ult, z, n)); self.bin(Bin::And, x, y) }
        })
    }
    /// Comparisons of doubles that are integers, or integers over the same constant.
    fn fcmp_int(&mut self, op: Fcmp, a: Id, b: Id) -> Option<Id> {
        let int = |op: Fcmp| match op { Fcmp::Eq => Some(Cmp::Eq), Fcmp::Lt => Some(Cmp::Ult), Fcmp::Le => Some(Cmp::Ule), Fcmp::Uno => None };
        let (ka, kb) = (self.whole(a), self.whole(b));
        let pair = if let (Some(x), Some(y)) = (ka, kb) { Some((x, y)) } else {
            match (self.op(a), self.op(b)) {
                // the quotients keep the order: they differ by a relative 2^-48 at least
                (Op::Fp(Fp::Div, x, c), Op::Fp(Fp::Div, y, d)) if c == d && self.int_const(c).is_some() => match (self.whole(x), self.whole(y)) {
                    (Some(x), Some(y)) if self.iv(x).uh < 1 << 48 && self.iv(y).uh < 1 << 48 => Some((x, y)),
                    _ => None,
                },
                _ => None,
            }
        };
        if let Some((x, y)) = pair {
            if op == Fcmp::Uno { return Some(self.fls()); }
            let (x, y) = (self.zext(x, 64), self.zext(y, 64));
            return Some(self.cmp(int(op)?, x, y));
        }
        // an integer and a constant
        if ka.is_none() && kb.is_none() { return self.fcmp_quot(op, a, b); }
        let (k, c, left) = match (ka, kb) { (Some(k), None) => (k, b, true), (None, Some(k)) => (k, a, false), _ => return None };
        let c = f64::from_bits(self.get(c)? as u64);
        if c.is_nan() { return Some(if op == Fcmp::Uno { self.tru() } else { self.fls() }); }
        let lim = |v: f64| -> i128 { v.max(-1.0).min(1e18) as i128 };
        let (fl, ce) = (lim(c.floor()), lim(c.ceil()));
        let z = self.zext(k, 64);
        let below = |s: &mut Pool, t: i128| if t <= 0 { s.fls() } else { let t = s.cst(t as u128, 64); s.cmp(Cmp::Ult, z, t) }; // k < t
        Some(match (op, left) {
            (Fcmp::Uno, _) => self.fls(),
            (Fcmp::Eq, _) => if fl != ce || fl < 0 { self.fls() } else { let t = self.cst(fl as u128, 64); self.cmp(Cmp::Eq, z, t) },
            (Fcmp::Lt, true) => below(self, ce),
            (Fcmp::Le, true) => below(self, fl + 1),
            (Fcmp::Lt, false) => { let r = below(self, fl + 1); self.not(r) }
            (Fcmp::Le, false) => { let r = below(self, ce); self.not(r) }
        })
    }
    /// Evaluate under a model (missing symbols are zero).
    pub fn begin_eval(&mut self) {
        self.epoch += 1;
        if self.memo_val.len() < self.nodes.len() { self.memo_val.resize(self.nodes.len() + 1024, 0); self.memo_ep.resize(self.nodes.len() + 1024, 0); }
    }
    pub fn eval(&mut self, i: Id, m: &[u64]) -> u128 {
        self.begin_eval();
        self.ev(i, m)
    }
    /// evaluate without starting a new epoch (same model as last begin_eval)
    pub fn ev(&mut self, i: Id, m: &[u64]) -> u128 {
        let n = self.nodes[i as usize];
        match n.op {
            Op::Const(l, h) => return l as u128 | (h as u128) << 64,
            Op::Sym(k) => return m.get((k % SYM) as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            _ => {}
        }
        if (i as usize) < self.memo_ep.len() && self.memo_ep[i as usize] == self.epoch { return self.memo_val[i as usize]; }
        let w = n.w;
        let r = match n.op {
            Op::Bin(o, a, b) => { let x = self.ev(a, m); let y = self.ev(b, m); bin_const(o, x, y, w) }
            Op::Not(a) => !self.ev(a, m) & mask(w),
            Op::Ite(c, a, b) => if self.ev(c, m) != 0 { self.ev(a, m) } else { self.ev(b, m) },
            Op::ZExt(a) => self.ev(a, m),
            Op::SExt(a) => { let aw = self.w(a); sx(self.ev(a, m), aw) as u128 & mask(w) }
            Op::Extract(a, lo) => (self.ev(a, m) >> lo) & mask(w),
            Op::Concat(h, l) => { let lw = self.w(l); self.ev(h, m) << lw | self.ev(l, m) }
            Op::Cmp(o, a, b) => { let aw = self.w(a); let x = self.ev(a, m); let y = self.ev(b, m); cmp_const(o, x, y, aw) as u128 }
            Op::Fp(o, a, b) => { let x = self.ev(a, m); let y = self.ev(b, m); fp_const(o, x, y, w) }
            Op::Fcmp(o, a, b) => { let aw = self.w(a); let x = self.ev(a, m); let y = self.ev(b, m); fcmp_const(o, x, y, aw) as u128 }
            Op::Fun(o, a) => { let aw = self.w(a); let x = self.ev(a, m); fun_const(o, x, w, aw) }
            Op::Const(..) | Op::Sym(_) => unreachable!(),
        };
        if (i as usize) < self.memo_ep.len() { self.memo_ep[i as usize] = self.epoch; self.memo_val[i as usize] = r; }
        #[cfg(debug_assertions)]
        if w <= 64 { let v = self.iv(i); assert!(v.ul <= r && r <= v.uh && v.sl <= sx(r, w) && sx(r, w) <= v.sh, "interval of {} is wrong: {}", self.show(i, 4), r); }
        r
    }
    /// Rewrite `i` replacing every expression with a known constant value.
    pub fn subst(&mut self, i: Id, known: &FxMap<Id, u64>, memo: &mut FxMap<Id, Id>) -> Id {
        let n = self.nodes[i as usize];
        if let Op::Const(..) = n.op { return i; }
        if let Some(&v) = known.get(&i) { return self.cst(v as u128, n.w); }
        if let Op::Sym(_) = n.op { return i; }
        if let Some(&r) = memo.get(&i) { return r; }
        let r = match n.op {
            Op::Bin(o, a, b) => { let x = self.subst(a, known, memo); let y = self.subst(b, known, memo); if x == a && y == b { i } else { self.bin(o, x, y) } }
            Op::Not(a) => { let x = self.subst(a, known, memo); if x == a { i } else { self.not(x) } }
            Op::Ite(c, a, b) => {
                let cc = self.subst(c, known, memo);
                match self.get(cc) {
                    Some(1) => self.subst(a, known, memo),
                    Some(_) => self.subst(b, known, memo),
                    None => { let x = self.subst(a, known, memo); let y = self.subst(b, known, memo); if cc == c && x == a && y == b { i } else { self.ite(cc, x, y) } }
                }
            }
            Op::ZExt(a) => { let x = self.subst(a, known, memo); if x == a { i } else { self.zext(x, n.w) } }
            Op::SExt(a) => { let x = self.subst(a, known, memo); if x == a { i } else { self.sext(x, n.w) } }
            Op::Extract(a, lo) => { let x = self.subst(a, known, memo); if x == a { i } else { self.extract(x, lo, n.w) } }
            Op::Concat(a, b) => { let x = self.subst(a, known, memo); let y = self.subst(b, known, memo); if x == a && y == b { i } else { self.concat(x, y) } }
            Op::Cmp(o, a, b) => { let x = self.subst(a, known, memo); let y = self.subst(b, known, memo); if x == a && y == b { i } else { self.cmp(o, x, y) } }
            Op::Fp(o, a, b) => { let x = self.subst(a, known, memo); let y = self.subst(b, known, memo); if x == a && y == b { i } else { self.fp(o, x, y) } }
            Op::Fcmp(o, a, b) => { let x = self.subst(a, known, memo); let y = self.subst(b, known, memo); if x == a && y == b { i } else { self.fcmp(o, x, y) } }
            Op::Fun(o, a) => { let x = self.subst(a, known, memo); if x == a { i } else { self.fun(o, x, n.w) } }
            Op::Const(..) | Op::Sym(_) => i,
        };
        memo.insert(i, r);
        r
    }
    /// Unsigned range of an expression given known constants (cheap interval analysis).
    pub fn range(&self, i: Id, known: &FxMap<Id, u64>, memo: &mut FxMap<Id, (u128, u128)>, fuel: &mut u32) -> (u128, u128) {
        let n = self.nodes[i as usize];
        let full = (0, mask(n.w));
        if let Op::Const(l, h) = n.op { let v = l as u128 | (h as u128) << 64; return (v, v); }
        if n.w > 64 || *fuel == 0 { return full; }
        if let Some(&v) = known.get(&i) { return (v as u128, v as u128); }
        if let Some(&r) = memo.get(&i) { return r; }
        *fuel -= 1;
        let m = mask(n.w);
        let r = match n.op {
            Op::ZExt(a) => self.range(a, known, memo, fuel),
            Op::Bin(Bin::Add, a, b) => {
                let (x, y) = (self.range(a, known, memo, fuel), self.range(b, known, memo, fuel));
                if x.1 + y.1 <= m { (x.0 + y.0, x.1 + y.1) }
                else if x.0 + y.0 > m && x.1 + y.1 <= 2 * m + 1 { (x.0 + y.0 - m - 1, x.1 + y.1 - m - 1) }
                else { full }
            }
            Op::Bin(Bin::And, a, b) => {
                let (x, y) = (self.range(a, known, memo, fuel), self.range(b, known, memo, fuel));
                if n.w == 1 { (x.0 & y.0, x.1 & y.1) } else { (0, x.1.min(y.1)) }
            }
            Op::Bin(Bin::Or, a, b) if n.w == 1 => {
                let (x, y) = (self.range(a, known, memo, fuel), self.range(b, known, memo, fuel));
                (x.0 | y.0, x.1 | y.1)
            }
            Op::Not(a) => { let x = self.range(a, known, memo, fuel); (m - x.1, m - x.0) }
            Op::Ite(c, a, b) => {
                let cr = self.range(c, known, memo, fuel);
                if cr == (1, 1) { self.range(a, known, memo, fuel) } else if cr == (0, 0) { self.range(b, known, memo, fuel) } else {
                    let (x, y) = (self.range(a, known, memo, fuel), self.range(b, known, memo, fuel));
                    (x.0.min(y.0), x.1.max(y.1))
                }
            }
            Op::Concat(h, l) => {
                let (x, y) = (self.range(h, known, memo, fuel), self.range(l, known, memo, fuel));
                let lw = self.w(l);
                ((x.0 << lw) + y.0, (x.1 << lw) + y.1)
            }
            Op::Extract(a, 0) => { let x = self.range(a, known, memo, fuel); if x.1 <= m { x } else { full } }
            Op::Cmp(o, a, b) => {
                let (x, y) = (self.range(a, known, memo, fuel), self.range(b, known, memo, fuel));
                let aw = self.w(a);
                let half = 1u128 << (aw - 1);
                match o {
                    Cmp::Eq => if x.0 == x.1 && x == y { (1, 1) } else if x.1 < y.0 || y.1 < x.0 { (0, 0) } else { (0, 1) },
                    Cmp::Ult => if x.1 < y.0 { (1, 1) } else if x.0 >= y.1 { (0, 0) } else { (0, 1) },
                    Cmp::Ule => if x.1 <= y.0 { (1, 1) } else if x.0 > y.1 { (0, 0) } else { (0, 1) },
                    Cmp::Slt if x.1 < half && y.1 < half => if x.1 < y.0 { (1, 1) } else if x.0 >= y.1 { (0, 0) } else { (0, 1) },
                    Cmp::Sle if x.1 < half && y.1 < half => if x.1 <= y.0 { (1, 1) } else if x.0 > y.1 { (0, 0) } else { (0, 1) },
                    _ => (0, 1),
                }
            }
            _ => full,
        };
        memo.insert(i, r);
        r
    }
    pub fn show(&self, i: Id, d: u32) -> String {
        let n = self.nodes[i as usize];
        if d == 0 { return "..".into(); }
        let s = |x: Id| self.show(x, d - 1);
        match n.op {
            Op::Const(l, _) => format!("{}", sx(l as u128 & mask(n.w), n.w)),
            Op::Sym(k) => format!("s{}", k % SYM),
            Op::Bin(o, a, b) => format!("({:?} {} {})", o, s(a), s(b)),
            Op::Not(a) => format!("!{}", s(a)),
            Op::Ite(c, a, b) => format!("(ite {} {} {})", s(c), s(a), s(b)),
            Op::ZExt(a) => format!("z{}:{}", n.w, s(a)),
            Op::SExt(a) => format!("x{}:{}", n.w, s(a)),
            Op::Extract(a, lo) => format!("{}[{}+{}]", s(a), lo, n.w),
            Op::Concat(a, b) => format!("({}++{})", s(a), s(b)),
            Op::Cmp(o, a, b) => format!("({:?} {} {})", o, s(a), s(b)),
            Op::Fp(o, a, b) => format!("({:?} {} {})", o, s(a), s(b)),
            Op::Fcmp(o, a, b) => format!("({:?} {} {})", o, s(a), s(b)),
            Op::Fun(o, a) => format!("({:?} {})", o, s(a)),
        }
    }
}
