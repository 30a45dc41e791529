//! What the player is told: judgements, guesses, probabilities, solvability.
use crate::rt::*;
use crate::solver::*;
use crate::spec::*;
use ms_toollib::*;
type P = (usize, usize);

/// what: 0 is_able_to_solve, 1 is_guess_while_needless, 2 mark_board, 3 get_all_not_and_is_mine_on_board
fn advise(p: &Pos, k: &Vec<Vec<u64>>, what: usize) {
    let (r, c) = (k.len(), k[0].len());
    let p = by_numbers(p, k);
    let (num, hid) = borders(k);
    let mut g = p.g.clone();
    let at = pick(0, (r * c - 1) as u64);
    let at = (at / c, at % c);
    if what < 2 {
        // the player may have marked any hidden cell, rightly or wrongly
        let q = pick(0, 2);
        for i in 0..r { for j in 0..c { if k[i][j] == 1 { g[i][j] = [10, 11, 11 + ((i + j) % 2) as i32][q]; } } }
    }
    merge(false);
    let (mut mark, mut code, mut able, mut sets) = (Ok(()), 0, false, (vec![], vec![]));
    match what {
        0 => { if k[at.0][at.1] != 1 { assume(false); } able = is_able_to_solve(&mut g, &at); observe(able as u64); }
        1 => { code = is_guess_while_needless(&mut g, &at); observe(code as u64); }
        2 => { if at != (0, 0) { assume(false); } mark = mark_board(&mut g); observe(mark.is_ok() as u64); }
        _ => {
            if at != (0, 0) { assume(false); }
            let (mut a, mut x, mut b, _, _) = refresh_matrixs(&g);
            sets = get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut b, &mut g);
            observe(sets.0.len() as u64);
        }
    }
    merge(true);
    let (mine, safe) = possible(&p, k, &hid, &num);
    let here = hid.iter().position(|h| *h == at);
    match what {
        0 => {
            let sure = match here { Some(t) => !mine[t] | !safe[t], None => false };
            check(able == sure, "a cell can be judged exactly when it is the same in every arrangement");
        }
        1 => {
            let want = if k[at.0][at.1] == 0 { 5 } else {
                let reg = regions(k, &hid, &groups(k, &num, &hid));
                let mut other = false;
                for t in 0..hid.len() { if reg[hid[t].0 * c + hid[t].1] == reg[at.0 * c + at.1] { other |= !mine[t]; } }
                match here {
                    Some(t) if !mine[t] => 1,
                    Some(t) if !safe[t] => 4,
                    _ => if other { 3 } else { 2 },
                }
            };
            check(code == want, "what kind of move it was");
        }
        2 => {
            check(mark.is_ok(), "a real position is not called contradictory");
            let mut ok = true;
            for i in 0..r { for j in 0..c {
                let t = hid.iter().position(|h| *h == (i, j));
                ok &= match t {
                    Some(t) => (g[i][j] == 10) | ((g[i][j] == 11) & !safe[t]) | ((g[i][j] == 12) & !mine[t]),
                    None => g[i][j] == p.g[i][j],
                };
            } }
            check(ok, "marks are certain, everything else stays");
        }
        _ => {
            let (mut sound, mut whole) = (true, true);
            for t in 0..hid.len() {
                let (n, i) = (sets.0.iter().filter(|q| **q == hid[t]).count(), sets.1.iter().filter(|q| **q == hid[t]).count());
                sound &= ((n == 0) | !mine[t]) & ((i == 0) | !safe[t]);
                whole &= ((n == 1) | mine[t]) & ((i == 1) | safe[t]);
            }
            for q in sets.0.iter().chain(sets.1.iter()) { check(hid.contains(q), "only border cells are judged"); }
            check(sound, "no judgement contradicts an arrangement");
            check(whole, "every certain cell is found once");
        }
    }
    reach(1);
}
fn near(a: f64, b: f64) -> bool { (a - b).abs() < 1e-9 }
/// Probabilities against a count of all arrangements with the right number of mines.
/// what: 0 mine probabilities, 1 the same given a density, 2 probability of an opening,
/// 3 mine probabilities for any numbers and any number of mines
fn chances(p: &Pos, k: &Vec<Vec<u64>>, what: usize) {
    let (r, c) = (k.len(), k[0].len());
    let mut total = 0u32;
    for row in &p.m { for v in row { total += *v as u32; } }
    let mut total = if what == 3 { pick(1, (r * c) as u64) } else { concrete(total as u64) as usize };
    let mut p = if what == 3 { Pos { m: p.m.clone(), b: p.b.clone(), g: p.g.clone() } } else { by_numbers(p, k) };
    if what == 3 { for (i, j) in borders(k).0 { let v = pick(0, 5) as i32; p.b[i][j] = v; p.g[i][j] = v; } }
    let mut marked = 0;
    for i in 0..r { for j in 0..c { if k[i][j] == 2 {
        p.g[i][j] = concrete(p.g[i][j] as u64) as i32;
        marked += (p.g[i][j] == 11) as usize;
    } } }
    merge(false);
    let (num, border) = borders(k);
    let mut hid: Vec<P> = vec![];
    for i in 0..r { for j in 0..c { if k[i][j] == 1 { hid.push((i, j)); } } }
    let n = hid.len();
    let rules: Vec<(usize, i32)> = num.iter().map(|&(i, j)| {
        let mut mask = 0;
        let mut need = p.b[i][j];
        for (x, y) in around(r, c, i, j) {
            if let Some(t) = hid.iter().position(|h| *h == (x, y)) { mask |= 1usize << t; }
            need -= (k[x][y] == 2 && p.g[x][y] == 11) as i32;
        }
        (mask, need)
    }).collect();
    let (mut all, mut mines) = (0usize, vec![0usize; n]);
    let at = if what == 2 { pick(0, (r * c - 1) as u64) } else { 0 };
    let at = (at / c, at % c);
    let mut zone = 0usize;
    let mut dead = k[at.0][at.1] == 0;
    for (x, y) in around(r, c, at.0, at.1).into_iter().chain([at]) {
        if let Some(t) = hid.iter().position(|h| *h == (x, y)) { zone |= 1 << t; }
        dead |= k[x][y] == 2 && p.g[x][y] == 11;
    }
    let mut open = 0usize;
    let edge: usize = (0..n).filter(|t| border.contains(&hid[*t])).map(|t| 1usize << t).sum();
    let (mut least, mut most) = (99, 0);
    for s in 0..1usize << n {
        if !rules.iter().all(|(m, v)| (s & m).count_ones() as i32 == *v) { continue; }
        let e = (s & edge).count_ones() as usize;
        if e < least { least = e; }
        if e > most { most = e; }
    }
    let given = if what == 1 {
        let d = pick(0, 2);
        let d = [(total as f64 + 0.5) / (r * c) as f64, 0.01, 0.97][d];
        if d >= 1.0 { assume(false); }
        total = ((r * c) as f64 * d) as usize;
        total = total.max(marked + least).min(marked + most + n - border.len());
        d
    } else { total as f64 };
    for s in 0..1usize << n {
        if !rules.iter().all(|(m, v)| (s & m).count_ones() as i32 == *v) { continue; }
        if s.count_ones() as usize + marked != total { continue; }
        all += 1;
        for t in 0..n { mines[t] += s >> t & 1; }
        open += (s & zone == 0) as usize;
    }
    if what == 2 {
        let got = cal_is_op_possibility_cells(&p.g, total as f64, &vec![[at.0, at.1]]);
        observe(got[0].to_bits());
        check(got.len() == 1 && near(got[0], if dead { 0.0 } else { open as f64 / all as f64 }), "probability of an opening");
        merge(true);
        reach(1);
        return;
    }
    let got = cal_possibility(&p.g, given);
    if all == 0 {
        // no mines fit: must be rejected
        check(got.is_err(), "a contradictory position or mine number is rejected");
        observe(1);
        merge(true);
        reach(1);
        return;
    }
    check(got.is_ok(), "a real position is not called contradictory");
    let (list, inner, range, len) = got.unwrap();
    observe(list.len() as u64);
    check(list.len() == border.len(), "every border cell has one probability");
    for (q, v) in &list {
        let t = hid.iter().position(|h| h == q);
        check(border.contains(q), "only border cells are listed");
        check(list.iter().filter(|(x, _)| x == q).count() == 1, "every border cell has one probability");
        observe(v.to_bits());
        check(near(*v, mines[t.unwrap()] as f64 / all as f64), "probability of a border cell");
    }
    for t in 0..n { if !border.contains(&hid[t]) { check(near(inner, mines[t] as f64 / all as f64), "probability of a cell away from the border"); } }
    check(range[0] == marked + least, "fewest mines the numbers allow");
    check(range[1] == total, "number of mines");
    check(range[2] == marked + most + n - border.len(), "most mines the numbers allow");
    let l = groups(k, &num, &border);
    check(len == (0..l.len()).map(|t| l.iter().filter(|x| **x == l[t]).count()).max().unwrap_or(0), "size of the largest block");
    let on = cal_possibility_onboard(&p.g, given).unwrap();
    check(on.1 == range, "the same range");
    for i in 0..r { for j in 0..c {
        let want = match hid.iter().position(|h| *h == (i, j)) { Some(t) => mines[t] as f64 / all as f64, None => (p.g[i][j] == 11) as i32 as f64 };
        check(near(on.0[i][j], want), "probability on the board");
    } }
    merge(true);
    reach(1);
}
/// A chord here is as good as one next to it: opens at least as many cells as every legal chord beside.
fn good_chord(r: usize, c: usize, at: Option<(usize, usize)>, least: i32) {
    let mut g = vec![vec![0i32; c]; r];
    for i in 0..r { for j in 0..c { g[i][j] = sym_in(0, 11) as i32; assume(g[i][j] != 9); } }
    let at = at.unwrap_or_else(|| { let at = pick(0, (r * c - 1) as u64); (at / c, at % c) });
    assume(least == 0 || g[at.0][at.1] >= least && g[at.0][at.1] <= 8);
    let opens = |i: usize, j: usize| -> i32 {
        let (mut f, mut h) = (0, 0);
        for (x, y) in around(r, c, i, j) { f += (g[x][y] == 11) as i32; h += (g[x][y] == 10) as i32; }
        if (g[i][j] >= 1) & (g[i][j] <= 8) & (f == g[i][j]) { h } else { -1 }
    };
    let got = is_good_chording(&g, at);
    observe(got as u64);
    let me = opens(at.0, at.1);
    let mut want = me > 0;
    for (i, j) in around(r, c, at.0, at.1) { if i == at.0 || j == at.1 { want &= opens(i, j) <= me; } }
    check(got == want, "a good chord opens something and no less than a legal chord beside it");
    reach(1);
}
/// Opening from (x0, y0) and then only what is certain from the visible numbers.
pub fn deducible(b: &B, x0: usize, y0: usize) -> bool {
    let (r, c) = (b.len(), b[0].len());
    let mut open = vec![vec![false; c]; r];
    let mut todo = vec![(x0, y0)];
    loop {
        while let Some((i, j)) = todo.pop() {
            if open[i][j] { continue; }
            open[i][j] = true;
            if b[i][j] == 0 { for q in around(r, c, i, j) { todo.push(q); } }
        }
        let mut hid = vec![];
        let mut left = 0;
        for i in 0..r { for j in 0..c { if !open[i][j] {
            left += (b[i][j] != -1) as usize;
            if around(r, c, i, j).iter().any(|&(x, y)| open[x][y]) { hid.push((i, j)); }
        } } }
        if left == 0 { return true; }
        let n = hid.len();
        let mut rules: Vec<(usize, u32)> = vec![];
        for i in 0..r { for j in 0..c { if open[i][j] {
            let mut m = 0;
            for q in around(r, c, i, j) { if let Some(t) = hid.iter().position(|h| *h == q) { m |= 1usize << t; } }
            if m != 0 { rules.push((m, b[i][j] as u32)); }
        } } }
        let mut mine = 0usize;
        for s in 0..1usize << n { if rules.iter().all(|(m, v)| (s & m).count_ones() == *v) { mine |= s; } }
        for t in 0..n { if mine >> t & 1 == 0 { todo.push(hid[t]); } }
        if todo.is_empty() { return false; }
    }
}
entries! {
    fn h_advise(what, r, c) { let k = any_kinds(r, c, false); let p = position(any_mines(r, c), &k); advise(&p, &k, what); }
    fn h_advise_at(what, r, c, code) { let k = coded_kinds(r, c, code); let p = position(any_mines(r, c), &k); advise(&p, &k, what); }
    fn h_chances(what, r, c, marks) { let k = any_kinds(r, c, marks != 0); let p = position(any_mines(r, c), &k); chances(&p, &k, what); }
    fn h_chances_at(what, r, c, code) { let k = coded_kinds(r, c, code); let p = position(any_mines(r, c), &k); chances(&p, &k, what); }
    fn h_good_chord(r, c) { good_chord(r, c, None, 0); }
    fn h_good_chord_at(r, c, i, j, least) { good_chord(r, c, Some((i, j)), least as i32); }
    // a rejected board really cannot be solved: some cells can be exchanged without any number changing
    fn h_structure(r, c) {
        let m = any_mines(r, c);
        let b = number(&m);
        merge_deep();
        let got = unsolvable_structure(&b);
        merge(true);
        let mut twin = false;
        for i in 0..r - 1 { for j in 0..c - 1 { for flip in 1..16usize {
            let f: Vec<P> = (0..4).filter(|t| flip >> t & 1 == 1).map(|t| (i + t / 2, j + t % 2)).collect();
            let (mut hidden, mut quiet) = (false, true);
            for &(x, y) in &f { hidden |= !m[x][y]; quiet &= b[x][y] != 0; }
            for x in i.saturating_sub(1)..(i + 3).min(r) { for y in j.saturating_sub(1)..(j + 3).min(c) {
                if f.contains(&(x, y)) { continue; }
                let mut d = 0i32;
                for q in around(r, c, x, y) { if f.contains(&q) { d += 1 - 2 * m[q.0][q.1] as i32; } }
                quiet &= m[x][y] | (d == 0);
            } }
            twin |= hidden & quiet;
        } } }
        observe(got as u64);
        check(!got | twin, "a rejected board has a twin that looks the same");
        reach(1);
    }
    // `free` cells of a fixed board may be mines or not; the start is one of the corners or the middle
    fn h_solvable(seed, r, c, h, w) {
        let mut m = template(seed, r, c);
        let (x0, y0) = (pick(0, (r - h) as u64), pick(0, (c - w) as u64));
        for i in x0..x0 + h { for j in y0..y0 + w { m[i][j] = pick(0, 1) == 1; } }
        let b = number(&m);
        let s = [(0, 0), (0, c - 1), (r - 1, 0), (r / 2, c / 2)][pick(0, 3)];
        if b[s.0][s.1] != 0 { assume(false); }
        let got = is_solvable(&b, s.0, s.1);
        observe(got as u64);
        check(got == deducible(&b, s.0, s.1), "solvable exactly when pure deduction opens everything");
        reach(1);
    }
}
