//! Constraint matrices and deduction.
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;
type P = (usize, usize);

pub struct Pos { pub m: Vec<Vec<bool>>, pub b: B, pub g: B }
/// A position seen by a player on a board with arbitrary mines. `kinds` chooses, cell by cell,
/// 0 opened, 1 hidden, 2 hidden and already judged (correctly); mines are never opened.
pub fn position(m: Vec<Vec<bool>>, kinds: &Vec<Vec<u64>>) -> Pos {
    let (r, c) = (m.len(), m[0].len());
    let b = number(&m);
    let mut g = vec![vec![10; c]; r];
    for i in 0..r { for j in 0..c {
        match kinds[i][j] {
            0 => { assume(!m[i][j]); g[i][j] = b[i][j]; }
            1 => {}
            _ => g[i][j] = if m[i][j] { 11 } else { 12 },
        }
    } }
    Pos { m, b, g }
}
pub fn any_kinds(r: usize, c: usize, marks: bool) -> Vec<Vec<u64>> {
    let mut k = vec![vec![0; c]; r];
    for i in 0..r { for j in 0..c { k[i][j] = pick(0, 1 + marks as u64) as u64; } }
    k
}
/// Positions by number: digits of `code` in base 3, first cell first.
pub fn coded_kinds(r: usize, c: usize, code: usize) -> Vec<Vec<u64>> {
    let mut x = code;
    let mut k = vec![vec![0; c]; r];
    for i in 0..r { for j in 0..c { k[i][j] = (x % 3) as u64; x /= 3; } }
    k
}
/// Opened cells next to a hidden one / hidden cells next to an opened one, by position kinds.
pub fn borders(k: &Vec<Vec<u64>>) -> (Vec<P>, Vec<P>) {
    let (r, c) = (k.len(), k[0].len());
    let (mut num, mut hid) = (vec![], vec![]);
    for i in 0..r { for j in 0..c {
        let near = |v: u64| around(r, c, i, j).iter().any(|&(x, y)| k[x][y] == v);
        if k[i][j] == 0 && near(1) { num.push((i, j)); }
        if k[i][j] == 1 && near(0) { hid.push((i, j)); }
    } }
    (num, hid)
}
/// Groups of border cells linked by common numbers: label per hidden border cell.
pub fn groups(k: &Vec<Vec<u64>>, num: &Vec<P>, hid: &Vec<P>) -> Vec<usize> {
    let (r, c) = (k.len(), k[0].len());
    let mut l: Vec<usize> = (0..hid.len()).collect();
    for _ in 0..hid.len() + 1 {
        for &(i, j) in num {
            let near = around(r, c, i, j);
            let idx: Vec<usize> = (0..hid.len()).filter(|&t| near.contains(&hid[t])).collect();
            let lo = idx.iter().map(|&t| l[t]).min().unwrap_or(0);
            for t in idx { l[t] = lo; }
        }
    }
    l
}
/// Hidden regions, blocks with a common number taken together: label per cell.
pub fn regions(k: &Vec<Vec<u64>>, hid: &Vec<P>, l: &Vec<usize>) -> Vec<usize> {
    let (r, c) = (k.len(), k[0].len());
    let mut reg: Vec<usize> = (0..r * c).collect();
    for _ in 0..r * c {
        for i in 0..r { for j in 0..c { if k[i][j] == 1 {
            for (u, v) in around(r, c, i, j) { if k[u][v] == 1 { let m = reg[i * c + j].min(reg[u * c + v]); reg[i * c + j] = m; reg[u * c + v] = m; } }
        } } }
        for s in 0..hid.len() { for t in 0..hid.len() { if l[s] == l[t] {
            let (s, t) = (hid[s].0 * c + hid[s].1, hid[t].0 * c + hid[t].1);
            let m = reg[s].min(reg[t]); reg[s] = m; reg[t] = m;
        } } }
    }
    reg
}
/// The blocks must say exactly what the numbers say about the hidden border cells.
fn blocks_mean(p: &Pos, k: &Vec<Vec<u64>>, aa: &Vec<Vec<Vec<i32>>>, xx: &Vec<Vec<P>>, bb: &Vec<Vec<i32>>, zero_rows: bool) {
    let (r, c) = (k.len(), k[0].len());
    let (num, hid) = borders(k);
    // another assignment of the hidden border cells
    let mut y = vec![vec![0i32; c]; r];
    for &(i, j) in &hid { y[i][j] = sym(1) as i32; }
    let mut numbers = true;
    let mut nrows = 0u32;
    for &(i, j) in &num {
        let mut n = 0i32;
        for (u, v) in around(r, c, i, j) {
            n += match k[u][v] { 1 => y[u][v], 2 => p.m[u][v] as i32, _ => 0 };
        }
        let counts = zero_rows | (p.b[i][j] > 0);
        numbers &= (n == p.b[i][j]) | !counts;
        nrows += counts as u32;
    }
    let mut rows = true;
    let mut n = 0;
    check(aa.len() == xx.len() && xx.len() == bb.len(), "as many coefficient, cell and number blocks");
    for t in 0..xx.len() {
        check(aa[t].len() == bb[t].len(), "one number per row");
        for q in 0..bb[t].len() {
            check(aa[t][q].len() == xx[t].len(), "one coefficient per cell");
            let mut s = 0i32;
            for w in 0..xx[t].len() { s += aa[t][q][w] * y[xx[t][w].0][xx[t][w].1]; }
            rows &= s == bb[t][q];
            n += 1;
        }
    }
    check(n == nrows, "one row per number on the border");
    check(rows == numbers, "rows and numbers allow the same mines");
}
fn matrices(p: &Pos, k: &Vec<Vec<u64>>, which: usize) {
    let (r, c) = (k.len(), k[0].len());
    let (num, hid) = borders(k);
    if which == 0 {
        let (a, x, b) = refresh_matrix(&p.g);
        // cells next to zeros only have no row here: the position is assumed to be played out
        for &(i, j) in &num { assume(p.b[i][j] > 0); }
        check(x.len() == hid.len(), "every border cell once");
        for t in 0..x.len() { check(hid.contains(&x[t]) && !x[..t].contains(&x[t]), "every border cell once"); }
        blocks_mean(p, k, &vec![a], &vec![x], &vec![b], false);
        reach(1);
        return;
    }
    let l = groups(k, &num, &hid);
    let label = |q: &P| hid.iter().position(|h| h == q).map(|t| l[t]);
    let (a, x, b);
    if which == 1 {
        let t = refresh_matrixs(&p.g);
        let mut inner = 0;
        let mut marked = 0u32;
        for i in 0..r { for j in 0..c {
            if k[i][j] == 1 && !hid.contains(&(i, j)) { inner += 1; }
            if k[i][j] == 2 { marked += p.m[i][j] as u32; }
        } }
        check(t.3 == inner, "number of cells away from the border");
        check(t.4 as u32 == marked, "number of marked mines");
        a = t.0; x = t.1; b = t.2;
        observe(x.len() as u64);
    } else {
        // blocks gathered by hidden region
        let (aa, xx, bb) = refresh_matrixses(&p.g);
        check(aa.len() == xx.len() && xx.len() == bb.len(), "as many coefficient, cell and number groups");
        // hidden regions: 8-connected unjudged cells; blocks touching a common region belong together
        let reg = regions(k, &hid, &l);
        let mut seen: Vec<usize> = vec![];
        for s in 0..xx.len() {
            let mut mine = None;
            check(!xx[s].is_empty() || hid.is_empty(), "no empty group");
            for t in 0..xx[s].len() {
                check(!xx[s][t].is_empty(), "no empty block");
                for q in &xx[s][t] {
                    let g = reg[q.0 * c + q.1];
                    if mine.is_none() { mine = Some(g); }
                    check(mine == Some(g), "a group holds one connected region");
                }
            }
            if let Some(g) = mine { check(!seen.contains(&g), "a region is in one group"); seen.push(g); }
        }
        a = aa.concat(); x = xx.concat(); b = bb.concat();
        observe(xx.len() as u64);
    }
    let all: Vec<P> = x.concat();
    check(all.len() == hid.len(), "every border cell once");
    for t in 0..all.len() { check(hid.contains(&all[t]) && !all[..t].contains(&all[t]), "every border cell once"); }
    let mut seen: Vec<usize> = vec![];
    for blk in &x {
        if blk.is_empty() { continue; }
        let g = label(&blk[0]);
        for q in blk { check(label(q) == g, "a block only holds linked cells"); }
        let g = g.unwrap_or(999);
        check(!seen.contains(&g), "linked cells share a block");
        seen.push(g);
    }
    blocks_mean(p, k, &a, &x, &b, true);
    reach(1);
}
/// Run a deduction and check that whatever it says is true of the actual mines.
fn sound(p: &Pos, k: &Vec<Vec<u64>>, which: usize) {
    let (r, c) = (k.len(), k[0].len());
    let (mut a, mut x, mut b, _, _) = refresh_matrixs(&p.g);
    let mut g = p.g.clone();
    let res = match which {
        0 => solve_direct(&mut a, &mut x, &mut b, &mut g),
        1 => solve_minus(&mut a, &mut x, &mut b, &mut g),
        _ => { let _ = solve_direct(&mut a, &mut x, &mut b, &mut g).map(|_| ()); solve_minus(&mut a, &mut x, &mut b, &mut g) }
    };
    check(res.is_ok(), "a real position is not called contradictory");
    let (not, is) = res.unwrap();
    let mut ok = true;
    observe(not.len() as u64); observe(is.len() as u64);
    for q in &not { ok &= !p.m[q.0][q.1] & (k[q.0][q.1] == 1); ok &= g[q.0][q.1] == 12; }
    for q in &is { ok &= p.m[q.0][q.1] & (k[q.0][q.1] == 1); ok &= g[q.0][q.1] == 11; }
    for i in 0..r { for j in 0..c {
        ok &= (g[i][j] == p.g[i][j]) | ((k[i][j] == 1) & (g[i][j] == if p.m[i][j] { 11 } else { 12 }));
    } }
    check(ok, "deduced cells are what they are said to be");
    // the remaining matrices still describe the mines
    let mut ok = true;
    check(a.len() == x.len() && x.len() == b.len(), "as many coefficient, cell and number blocks");
    for t in 0..x.len() {
        check(a[t].len() == b[t].len(), "one number per row");
        check(!x[t].is_empty(), "no empty block");
        for q in &x[t] { ok &= g[q.0][q.1] == 10; }
        for q in 0..b[t].len() {
            check(a[t][q].len() == x[t].len(), "one coefficient per cell");
            let mut s = 0;
            for w in 0..x[t].len() { let z = x[t][w]; s += a[t][q][w] * p.m[z.0][z.1] as i32; }
            ok &= s == b[t][q];
        }
    }
    check(ok, "the remaining rows hold and speak of unjudged cells");
    reach(1);
}
/// For every hidden border cell: can it be a mine / safe in some arrangement the numbers allow?
pub fn possible(p: &Pos, k: &Vec<Vec<u64>>, hid: &Vec<P>, num: &Vec<P>) -> (Vec<bool>, Vec<bool>) {
    let (r, c) = (k.len(), k[0].len());
    let n = hid.len();
    let (mut mine, mut safe) = (vec![false; n], vec![false; n]);
    let rules: Vec<(usize, i32)> = num.iter().map(|&(i, j)| {
        let (mut mask, mut marked) = (0usize, 0i32);
        for (x, y) in around(r, c, i, j) {
            if k[x][y] == 2 { marked += p.m[x][y] as i32; }
            if let Some(t) = hid.iter().position(|h| *h == (x, y)) { mask |= 1 << t; }
        }
        (mask, p.b[i][j] - marked)
    }).collect();
    for s in 0..1usize << n {
        let mut ok = true;
        for (mask, need) in &rules { ok &= (s & mask).count_ones() as i32 == *need; }
        for t in 0..n { if s >> t & 1 == 1 { mine[t] |= ok; } else { safe[t] |= ok; } }
    }
    (mine, safe)
}
fn enumerate(p: &Pos, k: &Vec<Vec<u64>>) {
    let (num, hid) = borders(k);
    let (a, x, b, _, _) = refresh_matrixs(&p.g);
    merge(false);
    let (not, is) = solve_enumerate(&a, &x, &b);
    merge(true);
    let (mine, safe) = possible(p, k, &hid, &num);
    observe(not.len() as u64); observe(is.len() as u64);
    let (mut sound, mut cn, mut ci) = (true, true, true);
    for t in 0..hid.len() {
        let (n, i) = (not.iter().filter(|q| **q == hid[t]).count(), is.iter().filter(|q| **q == hid[t]).count());
        sound &= (n == 0) | !mine[t];
        sound &= (i == 0) | !safe[t];
        cn &= (n == 1) | mine[t];
        ci &= (i == 1) | safe[t];
    }
    for q in not.iter().chain(is.iter()) { check(hid.contains(q), "only border cells are judged"); }
    check(sound, "no judgement contradicts an arrangement");
    check(cn, "every certainly safe border cell is found");
    check(ci, "every certain mine on the border is found");
    reach(1);
}
/// Counting tables against a direct count over all arrangements.
fn tables(p: &Pos, k: &Vec<Vec<u64>>) {
    let (r, c) = (k.len(), k[0].len());
    let (a, x, b, _, _) = refresh_matrixs(&p.g);
    let (num, _) = borders(k);
    for t in 0..x.len() {
        let (aq, xq, rel) = combine(&a[t], &x[t]);
        check(aq.len() == a[t].len(), "merging keeps the rows");
        check(xq.len() == rel.len(), "one group per merged cell");
        // groups partition the cells into those with the same constraints
        let mut used = vec![0; x[t].len()];
        for g in 0..rel.len() {
            check(!rel[g].is_empty() && xq[g] == x[t][rel[g][0]], "a group is named by its first cell");
            for &q in &rel[g] { used[q] += 1; for w in 0..a[t].len() { check(a[t][w][q] == a[t][w][rel[g][0]], "grouped cells have the same numbers around"); } }
            for h in 0..g { check((0..a[t].len()).any(|w| a[t][w][rel[g][0]] != a[t][w][rel[h][0]]), "cells with the same numbers are grouped"); }
            for w in 0..a[t].len() { check(aq[w][g] == a[t][w][rel[g][0]] * rel[g].len() as i32, "merged coefficients count the cells"); }
        }
        check(used.iter().all(|u| *u == 1), "every cell is in one group");
        let n = x[t].len();
        merge(false);
        let res = cal_table_minenum_recursion(&aq, &xq, &b[t], &rel);
        merge(true);
        check(res.is_ok(), "a real position has arrangements");
        let ([kinds, count], cells) = res.unwrap();
        check(kinds.len() == count.len() && cells.len() == kinds.len(), "tables of one length");
        let mut total = vec![0usize; n + 1];
        let mut per = vec![vec![0usize; n]; n + 1];
        for s in 0..1usize << n {
            let mut ok = true;
            for &(i, j) in &num {
                let near = around(r, c, i, j);
                if !x[t].iter().any(|q| near.contains(q)) { continue; }
                let mut v = 0i32;
                let mut marked = 0i32;
                for (u, w) in near {
                    if k[u][w] == 2 { marked += p.m[u][w] as i32; }
                    if let Some(q) = x[t].iter().position(|h| *h == (u, w)) { v += (s >> q & 1) as i32; }
                }
                ok &= p.b[i][j] - marked == v;
            }
            let e = s.count_ones() as usize;
            total[e] += ok as usize;
            for q in 0..n { per[e][q] += ok as usize * (s >> q & 1); }
        }
        let mut ok = true;
        for e in 0..n + 1 {
            match kinds.iter().position(|v| *v == e) {
                Some(q) => {
                    ok &= count[q] == total[e];
                    observe(count[q] as u64);
                    for g in 0..rel.len() { ok &= cells[q][g] == per[e][rel[g][0]]; }
                }
                None => ok &= total[e] == 0,
            }
        }
        check(ok, "counts of arrangements");
        let mut ends = true;
        if let (Some(f), Some(l)) = (count.first(), count.last()) { ends = (*f != 0) & (*l != 0); }
        check(ends, "no impossible ends");
    }
    reach(1);
}
/// One case per combination of numbers; the mines stay symbolic.
pub fn by_numbers(p: &Pos, k: &Vec<Vec<u64>>) -> Pos {
    let (mut b, mut g) = (p.b.clone(), p.g.clone());
    for (i, j) in borders(k).0 { let v = concrete(b[i][j] as u64) as i32; b[i][j] = v; g[i][j] = v; }
    Pos { m: p.m.clone(), b, g }
}
fn run(p: &Pos, k: &Vec<Vec<u64>>, what: usize) {
    if what >= 10 {
        return run(&by_numbers(p, k), k, what - 10);
    }
    match what {
        0 | 1 | 2 => matrices(p, k, what),
        3 | 4 | 5 => sound(p, k, what - 3),
        6 => enumerate(p, k),
        _ => tables(p, k),
    }
}
entries! {
    // what: 0 refresh_matrix, 1 ..s, 2 ..ses, 3 direct, 4 minus, 5 direct then minus, 6 enumeration, 7 counting
    fn h_solver(what, r, c, marks) {
        let k = any_kinds(r, c, marks != 0);
        let p = position(any_mines(r, c), &k);
        run(&p, &k, what);
    }
    // one arrangement of opened and hidden cells, any mines
    fn h_solver_at(what, r, c, code) {
        let k = coded_kinds(r, c, code);
        let p = position(any_mines(r, c), &k);
        run(&p, &k, what);
    }
    // a larger fixed board with a free window
    fn h_solver_window(what, seed, r, c, h, w) {
        let mut m = template(seed, r, c);
        let t = template(seed / 100 * 100 + 65, r, c);
        let mut k = vec![vec![1; c]; r];
        for i in 0..r { for j in 0..c {
            k[i][j] = if what % 10 >= 6 { 2 * m[i][j] as u64 } else { (m[i][j] || !t[(i + 1) % r][j]) as u64 };
        } }
        let (x0, y0) = (pick(0, (r - h) as u64), pick(0, (c - w) as u64));
        for i in x0..x0 + h { for j in y0..y0 + w { m[i][j] = sym_bool(); k[i][j] = 1; } }
        let p = position(m, &k);
        run(&p, &k, what);
    }
}
