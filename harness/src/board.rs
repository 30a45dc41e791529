//! Whole-board measures.
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;

/// what: 0 openings, 1 islands, 2 3BV, 3 counts of numbers
fn metrics(b: &B, what: usize) {
    let (r, c) = (b.len(), b[0].len());
    let mut zero = vec![vec![false; c]; r];
    let mut lone = vec![vec![false; c]; r];
    let mut nlone = 0u32;
    for i in 0..r {
        for j in 0..c {
            zero[i][j] = b[i][j] == 0;
            let mut near = false;
            for (x, y) in around(r, c, i, j) { near |= b[x][y] == 0; }
            lone[i][j] = (b[i][j] > 0) & !near;
            nlone += lone[i][j] as u32;
        }
    }
    match what {
        0 => { let n = cal_op(b); observe(n as u64); check(n as u32 == components(&zero), "openings"); }
        1 => { let n = cal_isl(b); observe(n as u64); check(n as u32 == components(&lone), "islands"); }
        2 => { let n = cal_bbbv(b); observe(n as u64); check(n as u32 == components(&zero) + nlone, "3BV"); }
        _ => {
            let got = cal_cell_nums(b);
            for k in 0..9 {
                let mut n = 0u32;
                for i in 0..r { for j in 0..c { n += (b[i][j] == k as i32) as u32; } }
                observe(got[k] as u64);
                check(got[k] as u32 == n, "count of a number");
            }
        }
    }
    reach(1);
}
entries! {
    fn h_metrics(what, r, c) { metrics(&any_board(r, c), what); }
}
