//! Revealing cells.
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;

/// What the player sees after `clicked` cells are opened on `b`, starting from `g`.
pub fn revealed(b: &B, g: &B, clicked: &Vec<Vec<bool>>) -> B {
    let (r, c) = (b.len(), b[0].len());
    let mut o = clicked.clone();
    // alternate sweeps in opposite directions, then prove that one more changes nothing
    let mut stable = true;
    let sweeps = if r == 1 || c == 1 { 3 } else { 3 + r.max(c) / 2 };
    for k in 0..sweeps {
        stable = true;
        for p in 0..r * c {
            let q = if k % 2 == 0 { p } else { r * c - 1 - p };
            let (i, j) = (q / c, q % c);
            let mut near = false;
            for (x, y) in around(r, c, i, j) { near |= o[x][y] & (b[x][y] == 0); }
            let n = o[i][j] | (near & ((g[i][j] == 10) | (g[i][j] == 12)));
            stable &= n == o[i][j];
            o[i][j] = n;
        }
    }
    check(stable, "the reference reached its fixed point");
    let mut loss = false;
    for i in 0..r { for j in 0..c { loss |= o[i][j] & (b[i][j] == -1); } }
    let mut out = g.clone();
    for i in 0..r { for j in 0..c {
        let mine = b[i][j] == -1;
        let v = if mine { 15 } else { b[i][j] };
        let w = if loss & (g[i][j] == 11) & !mine { 14 } else { g[i][j] };
        out[i][j] = if o[i][j] { v } else { w };
    } }
    out
}
/// Any position of a running game on `b`: every cell opened or hidden in one of the three ways.
pub fn any_game(b: &B) -> B {
    let (r, c) = (b.len(), b[0].len());
    let mut g = vec![vec![10; c]; r];
    for i in 0..r { for j in 0..c {
        let k = sym(2) as i32;
        let open = (k == 3) & (b[i][j] != -1);
        g[i][j] = if open { b[i][j] } else { 10 + k % 3 };
    } }
    g
}
entries! {
    // any board, any position, n clicked cells anywhere
    fn h_reveal(r, c, n) {
        let b = any_board(r, c);
        let g = any_game(&b);
        let mut clicked = vec![vec![false; c]; r];
        let mut list = vec![];
        for _ in 0..n {
            let p = pick(0, (r * c - 1) as u64);
            clicked[p / c][p % c] = true;
            list.push((p / c, p % c));
        }
        let mut out = g.clone();
        refresh_board(&b, &mut out, list);
        let want = revealed(&b, &g, &clicked);
        let mut ok = true;
        for i in 0..r { for j in 0..c { observe(out[i][j] as u64); ok &= out[i][j] == want[i][j]; } }
        check(ok, "position after revealing");
        reach(1);
    }
    // a fixed large board; the player's view is free inside a window
    fn h_reveal_big(seed, r, c, h, w) {
        let m = template(seed, r, c);
        let b = number(&m);
        let mut g = vec![vec![10; c]; r];
        let (x0, y0) = (pick(0, (r - h) as u64), pick(0, 2));
        let y0 = y0 * (c - w) / 2;
        for i in x0..x0 + h { for j in y0..y0 + w {
            let k = sym(2) as i32;
            let open = (k == 3) & (b[i][j] != -1);
            g[i][j] = if open { b[i][j] } else { 10 + k % 3 };
        } }
        let (x, y) = (x0 + pick(0, h as u64 - 1), y0 + pick(0, w as u64 - 1));
        let mut clicked = vec![vec![false; c]; r];
        clicked[x][y] = true;
        let mut out = g.clone();
        refresh_board(&b, &mut out, vec![(x, y)]);
        let want = revealed(&b, &g, &clicked);
        let mut ok = true;
        for i in 0..r { for j in 0..c { observe(out[i][j] as u64); ok &= out[i][j] == want[i][j]; } }
        check(ok, "position after revealing");
        reach(1);
    }
}
