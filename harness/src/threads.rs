//! Generation and sampling on several threads: the schedule is part of the symbolic input.
use crate::rt::*;
use crate::spec::*;
use crate::advice::deducible;
use crate::laymines::well_formed;
use ms_toollib::*;

/// Whether all (.0) or any (.1) of the boards with this opening can be solved without a guess.
fn solvable_boards(r: usize, c: usize, mines: usize, x: usize, y: usize) -> (bool, bool) {
    let free: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).filter(|&(i, j)| i.abs_diff(x) > 1 || j.abs_diff(y) > 1).collect();
    let (mut all, mut any) = (true, false);
    for s in 0..1usize << free.len() {
        if s.count_ones() as usize != mines { continue; }
        let mut m = vec![vec![false; c]; r];
        for (k, &(i, j)) in free.iter().enumerate() { m[i][j] = s >> k & 1 == 1; }
        let d = deducible(&number(&m), x, y);
        all &= d;
        any |= d;
    }
    (all, any)
}
/// 3BV by its definition: openings, and numbers beside no empty cell.
fn bbbv(m: &Vec<Vec<bool>>) -> usize {
    let (r, c) = (m.len(), m[0].len());
    let b = number(m);
    let mut seen = vec![vec![false; c]; r];
    let mut n = 0;
    for i in 0..r { for j in 0..c {
        if b[i][j] != 0 || seen[i][j] { continue; }
        n += 1;
        let mut todo = vec![(i, j)];
        while let Some((x, y)) = todo.pop() {
            if seen[x][y] { continue; }
            seen[x][y] = true;
            if b[x][y] == 0 { for q in around(r, c, x, y) { if !seen[q.0][q.1] { todo.push(q); } } }
        }
    } }
    for i in 0..r { for j in 0..c { n += (b[i][j] > 0 && !seen[i][j]) as usize; } }
    n
}
entries! {
    // one expert board for every draw: a fixed pattern of mines around a window of symbolic cells
    fn h_sample(x, y, n, seed, top, left, h, w, inside, passes) {
        const R: usize = 16;
        const C: usize = 30;
        // the drawn list without the start cell, in the order the sampler reads it: column by column
        let mut bits = vec![0u8; R * C - 1];
        let place = |i: usize, j: usize| -> usize { let (k, p) = (i + j * R, x + y * R); if k < p { k } else { k - 1 } };
        let t = template(seed, R, C);
        let mut left_over = 99 - inside;
        let mut sum = 0usize;
        for i in 0..h { for j in 0..w { if (top + i, left + j) != (x, y) { let b = sym_bool() as u8; sum += b as usize; bits[place(top + i, left + j)] = b; } } }
        assume(sum == inside);
        for k in bits.iter_mut() { *k = concrete(*k as u64) as u8; }
        for pass in 0..2 { for j in 0..C { for i in 0..R {
            if (i >= top && i < top + h && j >= left && j < left + w) || (i, j) == (x, y) || left_over == 0 { continue; }
            let k = place(i, j);
            if bits[k] == 0 && t[i][j] != (pass == 1) { bits[k] = 1; left_over -= 1; }
        } } }
        // read row by row instead: another board, the same mines
        let mut rows = bits.clone();
        let mut by_rows = vec![vec![false; C]; R];
        let mut m = vec![vec![false; C]; R];
        rows.insert(x * C + y, 0);
        for i in 0..R { for j in 0..C {
            by_rows[i][j] = rows[i * C + j] == 1;
            if (i, j) != (x, y) { m[i][j] = bits[place(i, j)] == 1; }
        } }
        draw_template(bits.leak());
        delays(passes);
        let hist = sample_3BVs_exp(x, y, n);
        delays(0);
        let total: usize = hist.iter().sum();
        check(total == n, "every board drawn is counted once");
        // a sampler that draws or reads its boards in some other way is not judged further
        if templated() == n && n > 0 {
            let (a, b) = (bbbv(&m), bbbv(&by_rows));
            check(hist[a] == n || hist[b] == n, "counted under its 3BV");
            reach(1);
        } else { reach(2); }
    }
    // same: 1 = every draw is the same (any) board, 0 = each draw is its own
    fn h_generate_threads(r, c, mines, x, y, times, same, passes) {
        same_draws(same != 0);
        delays(passes);
        let (b, good) = laymine_solvable_thread(r, c, mines, x, y, times);
        delays(0);
        check(b[x][y] == 0, "start cell opens");
        well_formed(&b, r, c, mines);
        let mut d = b.clone();
        for i in 0..r { for j in 0..c { d[i][j] = concrete((b[i][j] + 1) as u64) as i32 - 1; } }
        let want = deducible(&d, x, y);
        if good { check(want, "called solvable, and is"); reach(1); } else { reach(2); }
        if times == 0 { check(!good, "nothing tried"); }
        else if same != 0 { check(good == want, "found when the board drawn is solvable"); }
        else if solvable_boards(r, c, mines, x, y).0 { check(good, "found when every board is solvable"); }
    }
}
