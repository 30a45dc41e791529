//! Interface between the harnesses and whoever executes them: the symbolic
//! engine (which intercepts these calls) or the native replayer.
#![allow(dead_code)]
extern "C" {
    fn msx_sym(bits: u32) -> u64;
    fn msx_assume(c: bool);
    fn msx_check(c: bool, m: *const u8, n: usize);
    fn msx_concretize(v: u64) -> u64;
    fn msx_observe(v: u64);
    fn msx_reach(id: u64);
    fn msx_panic_ok(on: bool);
    fn msx_merge(mode: u32);
    fn msx_set_clock(sec: u64, nsec: u64);
    fn rand_draw_limit(n: usize);
    fn rand_template(p: *const u8, n: usize);
    fn rand_same(on: bool);
    fn rand_fixed(on: bool);
    fn rand_template_used() -> usize;
    fn rand_log_clear();
    fn rand_log_shuffles() -> usize;
    fn rand_log_size(k: usize) -> usize;
    fn rand_log_bit(k: usize, i: usize) -> u64;
    fn msx_delays(n: u32);
    fn msx_set_wall(sec: u64, nsec: u64);
    fn msx_file(p: *const u8, n: usize, d: *const u8, dn: usize);
}
/// A fresh symbolic value of the given width.
pub fn sym(bits: u32) -> u64 { unsafe { msx_sym(bits) } }
pub fn sym_bool() -> bool { sym(1) != 0 }
/// A fresh symbolic value in lo..=hi.
pub fn sym_in(lo: u64, hi: u64) -> u64 {
    let span = hi - lo;
    if span == 0 { return lo; }
    let bits = 64 - span.leading_zeros();
    let v = sym(bits);
    assume(v <= span);
    lo + v
}
pub fn assume(c: bool) { unsafe { msx_assume(c) } }
pub fn check(c: bool, m: &str) { unsafe { msx_check(c, m.as_ptr(), m.len()) } }
/// Split the exploration over the feasible values of `v`.
pub fn concrete(v: u64) -> u64 { unsafe { msx_concretize(v) } }
pub fn pick(lo: u64, hi: u64) -> usize { concrete(sym_in(lo, hi)) as usize }
pub fn observe(v: u64) { unsafe { msx_observe(v) } }
pub fn reach(id: u64) { unsafe { msx_reach(id) } }
pub fn panic_ok(on: bool) { unsafe { msx_panic_ok(on) } }
pub fn merge(on: bool) { unsafe { msx_merge(on as u32) } }
/// Join all the ways through the code that follows, however long they are.
pub fn merge_deep() { unsafe { msx_merge(3) } }
pub fn set_clock(sec: u64, nsec: u64) { unsafe { msx_set_clock(sec, nsec) } }
/// The calendar alone; set_clock moves both.
pub fn set_wall(sec: u64, nsec: u64) { unsafe { msx_set_wall(sec, nsec) } }
/// Only runs with at most so many random draws from here on.
pub fn draw_limit(n: usize) { unsafe { rand_draw_limit(n) } }
pub fn file(p: &str, d: &[u8]) { unsafe { msx_file(p.as_ptr(), p.len(), d.as_ptr(), d.len()) } }
/// Every shuffle of `bits.len()` elements of two kinds from here on comes out as `bits`.
pub fn draw_template(bits: &'static [u8]) { unsafe { rand_template(bits.as_ptr(), bits.len()) } }
pub fn templated() -> usize { unsafe { rand_template_used() } }
/// How often the schedule may pass over the thread whose turn it is.
pub fn delays(n: usize) { unsafe { msx_delays(n as u32) } }
/// Every shuffle of the same elements from here on comes out the same.
pub fn same_draws(on: bool) { unsafe { rand_same(on) } }
/// The draws made by `f`, if it shuffled one list of two kinds and drew nothing else.
pub fn one_shuffle<T>(f: impl FnOnce() -> T) -> (T, Option<Vec<u64>>) {
    unsafe {
        rand_log_clear();
        let x = f();
        let l = if rand_log_shuffles() == 1 { Some((0..rand_log_size(0)).map(|i| rand_log_bit(0, i)).collect()) } else { None };
        (x, l)
    }
}
/// Draws within bounds give the lower one from here on.
pub fn fixed_draws(on: bool) { unsafe { rand_fixed(on) } }
