//! Thin binding to libz3 plus the path-condition aligned incremental solver.
#![allow(non_snake_case, non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_rem(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_min(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_max(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_get_reason_unknown(c: P, s: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, mc: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(3);
}

unsafe fn k_mk_fpa_round_to_integral(c: P, r: P, a: P) -> P { let r = Z3_mk_fpa_round_to_integral(c, r, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P { let r = Z3_mk_fpa_numeral_double(c, v, s); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_to_fp_unsigned(c: P, r: P, a: P, s: P) -> P { let r = Z3_mk_fpa_to_fp_unsigned(c, r, a, s); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_to_fp_signed(c: P, r: P, a: P, s: P) -> P { let r = Z3_mk_fpa_to_fp_signed(c, r, a, s); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_to_fp_float(c: P, r: P, a: P, s: P) -> P { let r = Z3_mk_fpa_to_fp_float(c, r, a, s); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_to_ieee_bv(c: P, a: P) -> P { let r = Z3_mk_fpa_to_ieee_bv(c, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_unsigned_int64(c: P, v: u64, t: P) -> P { let r = Z3_mk_unsigned_int64(c, v, t); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P { let r = Z3_mk_fpa_to_fp_bv(c, b, s); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_sort_32(c: P) -> P { let r = Z3_mk_fpa_sort_32(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_sort_64(c: P) -> P { let r = Z3_mk_fpa_sort_64(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_to_ubv(c: P, r: P, a: P, w: c_uint) -> P { let r = Z3_mk_fpa_to_ubv(c, r, a, w); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_to_sbv(c: P, r: P, a: P, w: c_uint) -> P { let r = Z3_mk_fpa_to_sbv(c, r, a, w); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_is_nan(c: P, a: P) -> P { let r = Z3_mk_fpa_is_nan(c, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_zero_ext(c: P, n: c_uint, a: P) -> P { let r = Z3_mk_zero_ext(c, n, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_sqrt(c: P, r: P, a: P) -> P { let r = Z3_mk_fpa_sqrt(c, r, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_sign_ext(c: P, n: c_uint, a: P) -> P { let r = Z3_mk_sign_ext(c, n, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_rna(c: P) -> P { let r = Z3_mk_fpa_rna(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_rtp(c: P) -> P { let r = Z3_mk_fpa_rtp(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_numeral(c: P, s: *const c_char, t: P) -> P { let r = Z3_mk_numeral(c, s, t); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bv_sort(c: P, w: c_uint) -> P { let r = Z3_mk_bv_sort(c, w); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_rtz(c: P) -> P { let r = Z3_mk_fpa_rtz(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_div(c: P, r: P, a: P, b: P) -> P { let r = Z3_mk_fpa_div(c, r, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_add(c: P, r: P, a: P, b: P) -> P { let r = Z3_mk_fpa_add(c, r, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_rne(c: P) -> P { let r = Z3_mk_fpa_rne(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_rem(c: P, a: P, b: P) -> P { let r = Z3_mk_fpa_rem(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_leq(c: P, a: P, b: P) -> P { let r = Z3_mk_fpa_leq(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P { let r = Z3_mk_extract(c, hi, lo, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_max(c: P, a: P, b: P) -> P { let r = Z3_mk_fpa_max(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P { let r = Z3_mk_fpa_mul(c, r, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_min(c: P, a: P, b: P) -> P { let r = Z3_mk_fpa_min(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P { let r = Z3_mk_fpa_sub(c, r, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_rtn(c: P) -> P { let r = Z3_mk_fpa_rtn(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvsdiv(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsdiv(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvlshr(c: P, a: P, b: P) -> P { let r = Z3_mk_bvlshr(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_eq(c: P, a: P, b: P) -> P { let r = Z3_mk_fpa_eq(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_fpa_lt(c: P, a: P, b: P) -> P { let r = Z3_mk_fpa_lt(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvsrem(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsrem(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvurem(c: P, a: P, b: P) -> P { let r = Z3_mk_bvurem(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvudiv(c: P, a: P, b: P) -> P { let r = Z3_mk_bvudiv(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_concat(c: P, a: P, b: P) -> P { let r = Z3_mk_concat(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvashr(c: P, a: P, b: P) -> P { let r = Z3_mk_bvashr(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvsub(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsub(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvule(c: P, a: P, b: P) -> P { let r = Z3_mk_bvule(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_false(c: P) -> P { let r = Z3_mk_false(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvslt(c: P, a: P, b: P) -> P { let r = Z3_mk_bvslt(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvand(c: P, a: P, b: P) -> P { let r = Z3_mk_bvand(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvadd(c: P, a: P, b: P) -> P { let r = Z3_mk_bvadd(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_const(c: P, s: P, t: P) -> P { let r = Z3_mk_const(c, s, t); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvult(c: P, a: P, b: P) -> P { let r = Z3_mk_bvult(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvnot(c: P, a: P) -> P { let r = Z3_mk_bvnot(c, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvsle(c: P, a: P, b: P) -> P { let r = Z3_mk_bvsle(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvmul(c: P, a: P, b: P) -> P { let r = Z3_mk_bvmul(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvxor(c: P, a: P, b: P) -> P { let r = Z3_mk_bvxor(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvshl(c: P, a: P, b: P) -> P { let r = Z3_mk_bvshl(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_true(c: P) -> P { let r = Z3_mk_true(c); Z3_inc_ref(c, r); r }
unsafe fn k_mk_bvor(c: P, a: P, b: P) -> P { let r = Z3_mk_bvor(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_not(c: P, a: P) -> P { let r = Z3_mk_not(c, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_and(c: P, n: c_uint, a: *const P) -> P { let r = Z3_mk_and(c, n, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_ite(c: P, a: P, b: P, d: P) -> P { let r = Z3_mk_ite(c, a, b, d); Z3_inc_ref(c, r); r }
unsafe fn k_mk_xor(c: P, a: P, b: P) -> P { let r = Z3_mk_xor(c, a, b); Z3_inc_ref(c, r); r }
unsafe fn k_mk_or(c: P, n: c_uint, a: *const P) -> P { let r = Z3_mk_or(c, n, a); Z3_inc_ref(c, r); r }
unsafe fn k_mk_eq(c: P, a: P, b: P) -> P { let r = Z3_mk_eq(c, a, b); Z3_inc_ref(c, r); r }

pub enum Sat { Sat(Vec<u64>), Unsat, Unknown }

pub struct Solver {
    c: P,
    s: [P; 2],
    cache: Vec<P>, // expr id -> ast (bv, or Bool for width 1)
    stack: [Vec<Id>; 2],
    rne: P,
    f32s: P,
    f64s: P,
    pub queries: u64,
    pub n_sat: u64,
    pub n_unsat: u64,
    pub n_unknown: u64,
    pub time: f64,
    pub max_time: f64,
    dump: bool,
}

impl Solver {
    pub fn new(timeout_ms: u32, logic: &str) -> Solver {
        let dump = std::env::var("MSX_DUMP").is_ok();
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap(); let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_err);
            let mk = |logic: &str| {
                let s = if logic.is_empty() { Z3_mk_simple_solver(c) } else {
                    let l = CString::new(logic).unwrap();
                    Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
                };
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
                Z3_solver_set_params(c, s, p);
                s
            };
            // queries without floating point go to the incremental bit-vector solver
            let s = [mk(if logic.is_empty() { "QF_BV" } else { logic }), mk("QF_FPBV")];
            let rne = k_mk_fpa_rne(c); Z3_inc_ref(c, rne);
            let f32s = k_mk_fpa_sort_32(c); Z3_inc_ref(c, f32s);
            let f64s = k_mk_fpa_sort_64(c); Z3_inc_ref(c, f64s);
            Solver { c, s, cache: vec![], stack: [vec![], vec![]], rne, f32s, f64s, queries: 0, n_sat: 0, n_unsat: 0, n_unknown: 0, time: 0.0, max_time: 0.0, dump }
        }
    }
    unsafe fn to_fp(&self, b: P, w: u8) -> P { k_mk_fpa_to_fp_bv(self.c, b, if w == 32 { self.f32s } else { self.f64s }) }
    fn bv(&mut self, pool: &Pool, i: Id) -> P {
        let a = self.ast(pool, i);
        if pool.w(i) == 1 {
            unsafe {
                let s = k_mk_bv_sort(self.c, 1);
                let o = k_mk_unsigned_int64(self.c, 1, s); let z = k_mk_unsigned_int64(self.c, 0, s);
                k_mk_ite(self.c, a, o, z)
            }
        } else { a }
    }
    /// width-1 expressions are translated to Bool
    pub fn ast(&mut self, pool: &Pool, i: Id) -> P {
        if self.cache.len() <= i as usize { self.cache.resize(pool.nodes.len() + 256, std::ptr::null_mut()); }
        if !self.cache[i as usize].is_null() { return self.cache[i as usize]; }
        let n = pool.nodes[i as usize];
        let w = n.w;
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const(l, h) => {
                    if w == 1 { if l == 1 { k_mk_true(c) } else { k_mk_false(c) } }
                    else if w <= 64 { k_mk_unsigned_int64(c, l, k_mk_bv_sort(c, w as c_uint)) }
                    else { let v = l as u128 | (h as u128) << 64; let s = CString::new(v.to_string()).unwrap(); k_mk_numeral(c, s.as_ptr(), k_mk_bv_sort(c, w as c_uint)) }
                }
                Op::Sym(k) => {
                    let k = k % crate::expr::SYM;
                    let s = CString::new(format!("s{}_{}", k, w)).unwrap();
                    let cst = k_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), k_mk_bv_sort(c, w as c_uint));
                    if w == 1 { Z3_inc_ref(c, cst); k_mk_eq(c, cst, k_mk_unsigned_int64(c, 1, k_mk_bv_sort(c, 1))) } else { cst }
                }
                Op::Bin(o, a, b) => {
                    if w == 1 {
                        let (x, y) = (self.ast(pool, a), self.ast(pool, b));
                        match o {
                            Bin::And => k_mk_and(c, 2, [x, y].as_ptr()),
                            Bin::Or => k_mk_or(c, 2, [x, y].as_ptr()),
                            Bin::Xor => k_mk_xor(c, x, y),
                            _ => { let s1 = self.bv(pool, a); let s2 = self.bv(pool, b); let t = self.binbv(o, s1, s2); k_mk_eq(c, t, k_mk_unsigned_int64(c, 1, k_mk_bv_sort(c, 1))) }
                        }
                    } else { let (x, y) = (self.ast(pool, a), self.ast(pool, b)); self.binbv(o, x, y) }
                }
                Op::Not(a) => { let x = self.ast(pool, a); if w == 1 { k_mk_not(c, x) } else { k_mk_bvnot(c, x) } }
                Op::Ite(k, a, b) => { let t = self.ast(pool, k); let x = self.ast(pool, a); let y = self.ast(pool, b); k_mk_ite(c, t, x, y) }
                Op::ZExt(a) => {
                    let aw = pool.w(a);
                    if aw == 1 {
                        let x = self.ast(pool, a);
                        let s = k_mk_bv_sort(c, w as c_uint);
                        k_mk_ite(c, x, k_mk_unsigned_int64(c, 1, s), k_mk_unsigned_int64(c, 0, s))
                    } else { let x = self.bv(pool, a); k_mk_zero_ext(c, (w - aw) as c_uint, x) }
                }
                Op::SExt(a) => { let aw = pool.w(a); let x = self.bv(pool, a); k_mk_sign_ext(c, (w - aw) as c_uint, x) }
                Op::Extract(a, lo) => {
                    let x = self.bv(pool, a);
                    let t = k_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x);
                    if w == 1 { k_mk_eq(c, t, k_mk_unsigned_int64(c, 1, k_mk_bv_sort(c, 1))) } else { t }
                }
                Op::Concat(h, l) => { let x = self.bv(pool, h); let y = self.bv(pool, l); k_mk_concat(c, x, y) }
                Op::Cmp(o, a, b) => {
                    let aw = pool.w(a);
                    if aw == 1 && o == Cmp::Eq { let x = self.ast(pool, a); let y = self.ast(pool, b); k_mk_eq(c, x, y) } else {
                        let x = self.bv(pool, a); let y = self.bv(pool, b);
                        match o { Cmp::Eq => k_mk_eq(c, x, y), Cmp::Ult => k_mk_bvult(c, x, y), Cmp::Ule => k_mk_bvule(c, x, y), Cmp::Slt => k_mk_bvslt(c, x, y), Cmp::Sle => k_mk_bvsle(c, x, y) }
                    }
                }
                Op::Fp(o, a, b) => {
                    let x = self.bv(pool, a); let y = self.bv(pool, b);
                    let (x, y) = (self.to_fp(x, w), self.to_fp(y, w));
                    let r = match o {
                        Fp::Add => k_mk_fpa_add(c, self.rne, x, y), Fp::Sub => k_mk_fpa_sub(c, self.rne, x, y),
                        Fp::Mul => k_mk_fpa_mul(c, self.rne, x, y), Fp::Div => k_mk_fpa_div(c, self.rne, x, y),
                        Fp::Rem => k_mk_fpa_rem(c, x, y), Fp::Min => k_mk_fpa_min(c, x, y), Fp::Max => k_mk_fpa_max(c, x, y),
                    };
                    k_mk_fpa_to_ieee_bv(c, r)
                }
                Op::Fcmp(o, a, b) => {
                    let aw = pool.w(a);
                    let x = self.bv(pool, a); let y = self.bv(pool, b);
                    let (x, y) = (self.to_fp(x, aw), self.to_fp(y, aw));
                    match o { Fcmp::Eq => k_mk_fpa_eq(c, x, y), Fcmp::Lt => k_mk_fpa_lt(c, x, y), Fcmp::Le => k_mk_fpa_leq(c, x, y),
                        Fcmp::Uno => k_mk_or(c, 2, [k_mk_fpa_is_nan(c, x), k_mk_fpa_is_nan(c, y)].as_ptr()) }
                }
                Op::Fun(o, a) => {
                    let aw = pool.w(a);
                    let x = self.bv(pool, a);
                    let ds = if w == 32 { self.f32s } else { self.f64s };
                    match o {
                        Fun::FromUi => k_mk_fpa_to_ieee_bv(c, k_mk_fpa_to_fp_unsigned(c, self.rne, x, ds)),
                        Fun::FromSi => k_mk_fpa_to_ieee_bv(c, k_mk_fpa_to_fp_signed(c, self.rne, x, ds)),
                        Fun::Conv => { let t = self.to_fp(x, aw); k_mk_fpa_to_ieee_bv(c, k_mk_fpa_to_fp_float(c, self.rne, t, ds)) }
                        Fun::ToUi | Fun::ToUiSat | Fun::ToSi | Fun::ToSiSat => {
                            // saturating, NaN -> 0 (Rust `as` semantics); the plain forms agree where defined
                            let t = self.to_fp(x, aw);
                            let srt = if aw == 32 { self.f32s } else { self.f64s };
                            let bs = k_mk_bv_sort(c, w as c_uint);
                            let signed = matches!(o, Fun::ToSi | Fun::ToSiSat);
                            let (lo, hi) = if signed { (-(2f64).powi(w as i32 - 1), (2f64).powi(w as i32 - 1)) } else { (0.0, (2f64).powi(w as i32)) };
                            let (lov, hiv) = if signed { (1u128 << (w - 1), mask(w) >> 1) } else { (0, mask(w)) };
                            let flo = k_mk_fpa_numeral_double(c, lo, srt);
                            let fhi = k_mk_fpa_numeral_double(c, hi, srt);
                            let l = CString::new(lov.to_string()).unwrap(); let h = CString::new(hiv.to_string()).unwrap();
                            let lo_bv = k_mk_numeral(c, l.as_ptr(), bs); let hi_bv = k_mk_numeral(c, h.as_ptr(), bs);
                            let rtz = k_mk_fpa_rtz(c);
                            let conv = if signed { k_mk_fpa_to_sbv(c, rtz, t, w as c_uint) } else { k_mk_fpa_to_ubv(c, rtz, t, w as c_uint) };
                            let zero = k_mk_unsigned_int64(c, 0, bs);
                            let is_hi = k_mk_fpa_leq(c, fhi, t);
                            let is_lo = k_mk_fpa_leq(c, t, flo);
                            k_mk_ite(c, k_mk_fpa_is_nan(c, t), zero, k_mk_ite(c, is_hi, hi_bv, k_mk_ite(c, is_lo, lo_bv, conv)))
                        }
                        _ => {
                            let t = self.to_fp(x, aw);
                            let r = match o {
                                Fun::Sqrt => k_mk_fpa_sqrt(c, self.rne, t),
                                Fun::RoundAway => k_mk_fpa_round_to_integral(c, k_mk_fpa_rna(c), t),
                                Fun::RoundEven => k_mk_fpa_round_to_integral(c, self.rne, t),
                                Fun::Floor => k_mk_fpa_round_to_integral(c, k_mk_fpa_rtn(c), t),
                                Fun::Ceil => k_mk_fpa_round_to_integral(c, k_mk_fpa_rtp(c), t),
                                _ => k_mk_fpa_round_to_integral(c, k_mk_fpa_rtz(c), t),
                            };
                            k_mk_fpa_to_ieee_bv(c, r)
                        }
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        if self.cache.len() <= i as usize { self.cache.resize(i as usize + 256, std::ptr::null_mut()); }
        self.cache[i as usize] = r;
        r
    }
    unsafe fn binbv(&self, o: Bin, x: P, y: P) -> P {
        let c = self.c;
        match o {
            Bin::Add => k_mk_bvadd(c, x, y), Bin::Sub => k_mk_bvsub(c, x, y), Bin::Mul => k_mk_bvmul(c, x, y),
            Bin::UDiv => k_mk_bvudiv(c, x, y), Bin::SDiv => k_mk_bvsdiv(c, x, y), Bin::URem => k_mk_bvurem(c, x, y), Bin::SRem => k_mk_bvsrem(c, x, y),
            Bin::And => k_mk_bvand(c, x, y), Bin::Or => k_mk_bvor(c, x, y), Bin::Xor => k_mk_bvxor(c, x, y),
            Bin::Shl => k_mk_bvshl(c, x, y), Bin::LShr => k_mk_bvlshr(c, x, y), Bin::AShr => k_mk_bvashr(c, x, y),
        }
    }
    /// Is pc ∧ extra satisfiable?  `syms` lists the (index, width) of the symbols of this path.
    pub fn check(&mut self, pool: &Pool, pc: &[Id], extra: Id, syms: &[u8]) -> Sat {
        let t0 = Instant::now();
        self.queries += 1;
        let q = (pool.has_fp(extra) || pc.iter().any(|&k| pool.has_fp(k))) as usize;
        let s = self.s[q];
        let mut common = 0;
        while common < pc.len() && common < self.stack[q].len() && pc[common] == self.stack[q][common] { common += 1; }
        let c = self.c;
        unsafe {
            if self.stack[q].len() > common { Z3_solver_pop(c, s, (self.stack[q].len() - common) as c_uint); self.stack[q].truncate(common); }
            for &k in &pc[common..] {
                let a = self.ast(pool, k);
                Z3_solver_push(c, s);
                Z3_solver_assert(c, s, a);
                self.stack[q].push(k);
            }
            let a = self.ast(pool, extra);
            Z3_solver_push(c, s);
            Z3_solver_assert(c, s, a);
            let r = Z3_solver_check(c, s);
            let out = if r == 1 {
                self.n_sat += 1;
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut v = Vec::with_capacity(syms.len());
                for (k, &w) in syms.iter().enumerate() {
                    let nm = CString::new(format!("s{}_{}", k, w)).unwrap();
                    let cst = k_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), k_mk_bv_sort(c, w as c_uint));
                    Z3_inc_ref(c, cst);
                    let mut val: P = std::ptr::null_mut();
                    let ok = Z3_model_eval(c, m, cst, true, &mut val);
                    let mut u = 0u64;
                    if ok { Z3_inc_ref(c, val); Z3_get_numeral_uint64(c, val, &mut u); Z3_dec_ref(c, val); }
                    v.push(u);
                }
                Z3_model_dec_ref(c, m);
                Sat::Sat(v)
            } else if r == -1 { self.n_unsat += 1; Sat::Unsat } else {
                self.n_unknown += 1;
                let why = CStr::from_ptr(Z3_solver_get_reason_unknown(c, s));
                eprintln!("z3 unknown: {:?}", why);
                Sat::Unknown
            };
            Z3_solver_pop(c, s, 1);
            let d = t0.elapsed().as_secs_f64();
            if self.dump { eprintln!("Q {:.4}s {} {}", d, match out { Sat::Sat(_) => "sat", Sat::Unsat => "unsat", _ => "unknown" }, pool.show(extra, 9)); }
            self.time += d;
            if d > self.max_time { self.max_time = d; }
            out
        }
    }
}
