//! Mine laying.
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;

/// How many ways there are to choose k of n.
fn ways(n: u128, k: u128) -> u128 {
    let (mut x, mut i) = (1, 0);
    while i < k { x = x * (n - i) / (i + 1); i += 1; }
    x
}

pub fn well_formed(b: &B, r: usize, c: usize, mines: usize) {
    check(b.len() == r, "number of rows");
    let mut m = vec![vec![false; c]; r];
    let mut n = 0usize;
    for i in 0..r {
        check(b[i].len() == c, "number of columns");
        for j in 0..c { m[i][j] = b[i][j] == -1; }
    }
    // summed in the order the layers fill the board: keeps the two sums alike for the solver
    for j in 0..c { for i in 0..r { n += m[i][j] as usize; } }
    check(n == mines, "number of mines");
    let w = number(&m);
    let mut ok = true;
    for i in 0..r { for j in 0..c { ok &= b[i][j] == w[i][j]; } }
    check(ok, "numbers agree with the mines");
}
entries! {
    // every start cell; the random numbers are symbolic
    fn h_laymine(r, c, mines) {
        let (x, y) = (pick(0, r as u64 - 1), pick(0, c as u64 - 1));
        let b = laymine(r, c, mines, x, y);
        check(b[x][y] != -1, "start cell is safe");
        well_formed(&b, r, c, mines);
        reach(1);
    }
    fn h_laymine_op(r, c, mines) {
        let (x, y) = (pick(0, r as u64 - 1), pick(0, c as u64 - 1));
        let window = around(r, c, x, y).len() + 1;
        if mines + window > r * c { assume(false); }
        let b = laymine_op(r, c, mines, x, y);
        check(b[x][y] == 0, "start cell opens");
        well_formed(&b, r, c, mines);
        reach(1);
    }
    // two outcomes of the shuffle give two boards: as many outcomes as placements, so each comes from one
    fn h_uniform(which, r, c, mines) {
        let (x, y) = (pick(0, r as u64 - 1), pick(0, c as u64 - 1));
        let window = if which == 0 { 1 } else { around(r, c, x, y).len() + 1 };
        if mines + window > r * c { assume(false); }
        let lay = || if which == 0 { laymine(r, c, mines, x, y) } else { laymine_op(r, c, mines, x, y) };
        let ((a, s), (b, t)) = (one_shuffle(lay), one_shuffle(lay));
        // drawn in another way: not decided here
        let (s, t) = match (s, t) { (Some(s), Some(t)) => (s, t), _ => { reach(2); return; } };
        if t.len() != s.len() { reach(2); return; }
        // outcomes dealt out evenly among the placements would be a multiple of them
        let mut ones = 0;
        for k in 0..s.len() { ones += s[k]; }
        let ones = concrete(ones) as u128;
        let (n, m) = (ways(s.len() as u128, ones), ways((r * c - window) as u128, mines as u128));
        check(n >= m && n % m == 0, "the outcomes of the shuffle can be dealt out evenly among the placements");
        if n != m { reach(2); return; }
        let (mut alike, mut same) = (true, a.len() == r && b.len() == r);
        for k in 0..s.len() { alike &= s[k] == t[k]; }
        if same { for i in 0..r { if a[i].len() != c || b[i].len() != c { same = false; break; } for j in 0..c { same &= a[i][j] == b[i][j]; } } }
        check(alike | !same, "no placement of mines comes from two outcomes of the shuffle");
        reach(1);
    }
    // generators of boards that need no guess: which: 0 draw again and again, 1 adjust
    fn h_generate(which, r, c, mines, times, draws) {
        draw_limit(draws);
        let (x, y) = (pick(0, r as u64 - 1), pick(0, c as u64 - 1));
        let room = r * c - around(r, c, x, y).len() - 1;
        if which == 0 && mines > room { assume(false); }
        let (b, good) = if which == 0 { laymine_solvable(r, c, mines, x, y, times) } else { laymine_solvable_adjust(r, c, mines, x, y) };
        check(b[x][y] != -1, "start cell is safe");
        if mines <= room { check(b[x][y] == 0, "start cell opens"); }
        well_formed(&b, r, c, mines);
        if times == 0 && which == 0 { check(!good, "nothing tried"); }
        let mut d = b.clone();
        for i in 0..r { for j in 0..c { d[i][j] = concrete((b[i][j] + 1) as u64) as i32 - 1; } }
        let want = crate::advice::deducible(&d, x, y);
        if good { check(want || mines + 1 == r * c, "called solvable, and is"); reach(1); } else { reach(2); }
        if which == 0 && times == 1 { observe(want as u64); }
    }
}
