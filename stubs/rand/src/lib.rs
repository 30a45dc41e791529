//! Stand-in for `rand` used by the symbolic and replay builds only.
//! Every draw returns a fresh unconstrained value limited to the documented range,
//! so a property proved over it holds for every generator and every seed.
use std::ops::{Range, RangeInclusive};
extern "C" { fn msx_rand(bits: u32) -> u64; fn msx_rand_in(bits: u32, lo: i64, hi: i64) -> u64; fn msx_assume(c: bool); fn msx_sched(); fn msx_concretize(v: u64) -> u64; }
/// Another thread may run before this draw.
fn sched() { unsafe { msx_sched() } }
/// A template: the next shuffles of this many two-valued elements come out as these bits say.
static mut TPL: (*const u8, usize, usize) = (std::ptr::null(), 0, 0);
#[no_mangle] pub extern "C" fn rand_template(p: *const u8, n: usize) { unsafe { TPL = (p, n, 0); } }
#[no_mangle] pub extern "C" fn rand_template_used() -> usize { unsafe { TPL.2 } }
/// While on, every shuffle of the same elements comes out the same: as the first one, which may be any.
static mut SAME: bool = false;
static mut SEEN: Vec<(usize, usize, Vec<u8>)> = vec![];
#[no_mangle] pub extern "C" fn rand_same(on: bool) { unsafe { SAME = on; } }
/// While on, draws within bounds give the lower one (where the outcome is beside the point).
static mut FIXED: bool = false;
#[no_mangle] pub extern "C" fn rand_fixed(on: bool) { unsafe { FIXED = on; } }
/// How many more draws a harness looks at; runs that need more are outside its bound.
static mut LEFT: usize = usize::MAX;
#[no_mangle] pub extern "C" fn rand_draw_limit(n: usize) { unsafe { LEFT = n; } }
fn count() { unsafe { if LEFT != usize::MAX { if LEFT == 0 { msx_assume(false); } LEFT = LEFT.wrapping_sub(1); } } }
/// What the shuffles of two-valued slices came out as since the log was emptied, and how many other draws there were.
static mut LOG: Vec<Vec<u64>> = vec![];
static mut OTHER: usize = 0;
#[no_mangle] pub extern "C" fn rand_log_clear() { unsafe { (*std::ptr::addr_of_mut!(LOG)).clear(); OTHER = 0; } }
#[no_mangle] pub extern "C" fn rand_log_shuffles() -> usize { unsafe { if OTHER > 0 { usize::MAX } else { (*std::ptr::addr_of!(LOG)).len() } } }
#[no_mangle] pub extern "C" fn rand_log_size(k: usize) -> usize { unsafe { (&*std::ptr::addr_of!(LOG))[k].len() } }
#[no_mangle] pub extern "C" fn rand_log_bit(k: usize, i: usize) -> u64 { unsafe { (&*std::ptr::addr_of!(LOG))[k][i] } }
fn draw(bits: u32) -> u64 { unsafe { OTHER += 1; } count(); unsafe { msx_rand(bits) } }
/// A draw the engine knows the bounds of (no more than a hint: every caller assumes them as well).
fn within(bits: u32, lo: i64, hi: i64) -> u64 { if unsafe { FIXED } { return lo as u64; } unsafe { OTHER += 1; } count(); unsafe { msx_rand_in(bits, lo, hi) } }
fn assume(c: bool) { unsafe { msx_assume(c) } }

pub trait RngCore {
    fn next_u32(&mut self) -> u32 { draw(32) as u32 }
    fn next_u64(&mut self) -> u64 { draw(64) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = draw(8) as u8; } }
}
pub trait SampleUniform: Sized {
    fn sample_half_open(lo: Self, hi: Self) -> Self;
    fn sample_inclusive(lo: Self, hi: Self) -> Self;
}
macro_rules! uni { ($($t:ty, $b:expr);*) => { $(
    impl SampleUniform for $t {
        fn sample_half_open(lo: $t, hi: $t) -> $t {
            assert!(lo < hi, "cannot sample empty range");
            if hi - 1 == lo { return lo; }
            let v = within($b, lo as i64, (hi - 1) as i64) as $t; assume((v >= lo) & (v < hi)); v
        }
        fn sample_inclusive(lo: $t, hi: $t) -> $t {
            assert!(lo <= hi, "cannot sample empty range");
            if lo == hi { return lo; }
            let v = within($b, lo as i64, hi as i64) as $t; assume((v >= lo) & (v <= hi)); v
        }
    }
    impl Standard for $t { fn any() -> $t { draw($b) as $t } }
)* } }
uni!(u8,8; i8,8; u16,16; i16,16; u32,32; i32,32; u64,64; i64,64; usize,64; isize,64);
impl SampleUniform for f64 {
    fn sample_half_open(lo: f64, hi: f64) -> f64 { let v = f64::from_bits(draw(64)); assume((v >= lo) & (v < hi)); v }
    fn sample_inclusive(lo: f64, hi: f64) -> f64 { let v = f64::from_bits(draw(64)); assume((v >= lo) & (v <= hi)); v }
}
pub trait Standard { fn any() -> Self; }
impl Standard for bool { fn any() -> bool { draw(8) & 1 == 1 } }
impl Standard for f64 { fn any() -> f64 { f64::sample_half_open(0.0, 1.0) } }
pub trait SampleRange<T> { fn sample(self) -> T; }
impl<T: SampleUniform> SampleRange<T> for Range<T> { fn sample(self) -> T { T::sample_half_open(self.start, self.end) } }
impl<T: SampleUniform + Copy> SampleRange<T> for RangeInclusive<T> { fn sample(self) -> T { T::sample_inclusive(*self.start(), *self.end()) } }
pub trait Rng: RngCore {
    fn gen<T: Standard>(&mut self) -> T { sched(); T::any() }
    fn gen_range<T, R: SampleRange<T>>(&mut self, r: R) -> T { sched(); r.sample() }
    fn gen_bool(&mut self, p: f64) -> bool {
        assert!((0.0..=1.0).contains(&p));
        if p >= 1.0 { return true; }
        if p <= 0.0 { return false; }
        sched();
        bool::any()
    }
    fn gen_ratio(&mut self, n: u32, d: u32) -> bool { n != 0 && (n == d || bool::any()) }
}
impl<R: RngCore + ?Sized> Rng for R {}
impl<R: RngCore + ?Sized> RngCore for &mut R {}
pub trait SeedableRng: Sized { fn seed_from_u64(_: u64) -> Self; fn from_entropy() -> Self { Self::seed_from_u64(0) } }
pub mod rngs {
    #[derive(Clone, Debug)] pub struct ThreadRng(pub(crate) ());
    #[derive(Clone, Debug)] pub struct StdRng(());
    #[derive(Clone, Debug)] pub struct SmallRng(());
    impl crate::RngCore for ThreadRng {}
    impl crate::RngCore for StdRng {}
    impl crate::RngCore for SmallRng {}
    impl crate::SeedableRng for StdRng { fn seed_from_u64(_: u64) -> Self { StdRng(()) } }
    impl crate::SeedableRng for SmallRng { fn seed_from_u64(_: u64) -> Self { SmallRng(()) } }
}
pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng(()) }
pub fn random<T: Standard>() -> T { T::any() }
pub mod seq {
    use super::*;
    pub trait SliceRandom {
        type Item;
        fn shuffle<R: RngCore + ?Sized>(&mut self, rng: &mut R);
        fn choose<R: RngCore + ?Sized>(&self, rng: &mut R) -> Option<&Self::Item>;
    }
    extern "C" { fn msx_is_symbolic(v: u64) -> bool; }
    /// A slice of known plain numbers of only two kinds: one unconstrained bit per place,
    /// limited to the right number of each kind, is exactly "any permutation".
    fn two_valued<T>(s: &mut [T]) -> bool {
        let n = s.len();
        if std::mem::needs_drop::<T>() || n < 2 { return false; }
        let p = s.as_mut_ptr();
        let word = |i: usize| -> u64 { unsafe { match std::mem::size_of::<T>() {
            1 => *(p.add(i) as *const u8) as u64, 2 => *(p.add(i) as *const u16) as u64,
            4 => *(p.add(i) as *const u32) as u64, 8 => *(p.add(i) as *const u64), _ => i as u64 } } };
        for i in 0..n { if unsafe { msx_is_symbolic(word(i)) } { return false; } }
        let a = word(0);
        let mut b = a;
        let mut nb = 0usize;
        for i in 1..n {
            let w = word(i);
            if w == a { continue; }
            if b == a { b = w; }
            if w != b { return false; }
            nb += 1;
        }
        let mut sum = 0usize;
        let mut tpl: *const u8 = std::ptr::null();
        unsafe {
            if TPL.1 == n { tpl = TPL.0; TPL.2 += 1; }
            if SAME {
                let seen = &mut *std::ptr::addr_of_mut!(SEEN);
                if !seen.iter().any(|t| t.0 == n && t.1 == nb) {
                    let b: Vec<u64> = (0..n).map(|_| draw(1)).collect();
                    assume(b.iter().sum::<u64>() == nb as u64);
                    // taken one at a time: what follows is about the schedule
                    seen.push((n, nb, b.iter().map(|&k| msx_concretize(k) as u8).collect()));
                }
                tpl = seen.iter().find(|t| t.0 == n && t.1 == nb).unwrap().2.as_ptr();
            }
        }
        let other = unsafe { OTHER };
        let mut log = Vec::with_capacity(n);
        for i in 0..n {
            let k = if !tpl.is_null() { unsafe { *tpl.add(i) as u64 & 1 } } else { draw(1) };
            sum += k as usize;
            log.push(k);
            let v = a ^ ((a ^ b) & 0u64.wrapping_sub(k));
            unsafe { match std::mem::size_of::<T>() {
                1 => *(p.add(i) as *mut u8) = v as u8, 2 => *(p.add(i) as *mut u16) = v as u16,
                4 => *(p.add(i) as *mut u32) = v as u32, _ => *(p.add(i) as *mut u64) = v } }
        }
        assume(sum == nb);
        unsafe { OTHER = other; (*std::ptr::addr_of_mut!(LOG)).push(log); }
        true
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        // same contract as the real one: some permutation of the slice, any of them
        fn shuffle<R: RngCore + ?Sized>(&mut self, _rng: &mut R) {
            sched();
            if two_valued(self) { return; }
            for i in (1..self.len()).rev() {
                let j = usize::sample_half_open(0, i + 1);
                self.swap(i, j);
            }
        }
        fn choose<R: RngCore + ?Sized>(&self, _rng: &mut R) -> Option<&T> {
            if self.is_empty() { None } else { Some(&self[usize::sample_half_open(0, self.len())]) }
        }
    }
}
pub mod distributions { pub use super::{Standard}; }
pub mod prelude {
    pub use crate::{Rng, RngCore, SeedableRng, random, thread_rng};
    pub use crate::rngs::{StdRng, SmallRng, ThreadRng};
    pub use crate::seq::SliceRandom;
}
