//! Wrappers: cached metrics, cached judgements, the encoded board.
use crate::rt::*;
use crate::solver::*;
use crate::spec::*;
use ms_toollib::*;
type P = (usize, usize);

fn ask(w: &mut Board, k: usize) -> usize {
    match k {
        0 => w.get_bbbv(), 1 => w.get_op(), 2 => w.get_isl(), 3 => w.get_cell0(), 4 => w.get_cell1(), 5 => w.get_cell2(), 6 => w.get_cell3(),
        7 => w.get_cell4(), 8 => w.get_cell5(), 9 => w.get_cell6(), 10 => w.get_cell7(), _ => w.get_cell8(),
    }
}
fn truth(b: &B, k: usize) -> usize {
    match k { 0 => cal_bbbv(b), 1 => cal_op(b), 2 => cal_isl(b), _ => cal_cell_nums(b)[k - 3] }
}
fn sorted(v: &Vec<P>) -> Vec<P> { let mut v = v.clone(); v.sort(); v }
/// One question to the wrapper of a position; the lists are compared as sets.
fn question(w: &mut GameBoard, k: usize) -> (Vec<P>, Vec<Vec<f64>>) {
    match k {
        0 => (sorted(w.get_basic_not_mine()), vec![]), 1 => (sorted(w.get_basic_is_mine()), vec![]),
        2 => (sorted(w.get_enum_not_mine()), vec![]), 3 => (sorted(w.get_enum_is_mine()), vec![]),
        _ => (vec![], w.get_poss().clone()),
    }
}
fn equal(a: &(Vec<P>, Vec<Vec<f64>>), b: &(Vec<P>, Vec<Vec<f64>>)) -> bool {
    a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| (p - q).abs() < 1e-9))
}
/// Any position with its numbers fixed one by one; returns it with its number of mines.
fn fixed(r: usize, c: usize) -> (Pos, Vec<Vec<u64>>, usize) {
    let k = any_kinds(r, c, false);
    let p = position(any_mines(r, c), &k);
    let mut n = 0u32;
    for row in &p.m { for v in row { n += *v as u32; } }
    let n = concrete(n as u64) as usize;
    (by_numbers(&p, &k), k, n)
}
const CELLS: u64 = 19; // -3..=16
entries! {
    fn h_board(r, c, n) {
        let b = any_board(r, c);
        let mut w = Board::new(b.clone());
        for _ in 0..n {
            let k = pick(0, 11);
            let got = ask(&mut w, k);
            observe(got as u64);
            check(got == truth(&b, k), "a cached measure equals the direct one");
        }
        let mut t = true;
        for i in 0..r { for j in 0..c { t &= w.board[i][j] == b[i][j]; } }
        check(t, "the board stays");
        reach(1);
    }
    // n questions in any order, then another position in the same wrapper, again n questions
    fn h_game_board(r, c, n) {
        let (p, k, mines) = fixed(r, c);
        merge(false);
        let mut w = GameBoard::new(mines);
        // what was asked about an earlier position must leave no trace
        let mut old = p.g.clone();
        for row in old.iter_mut() { for v in row.iter_mut() { *v = 10; } }
        if mines > 0 && r > 1 && c > 1 && mines - 1 <= r * c - 4 { old[0][0] = 1; }
        if n > 1 { w.set_game_board(&old); let _ = question(&mut w, pick(0, 4)); }
        // the player's own marks are not trusted
        let mut g = p.g.clone();
        if pick(0, 1) == 1 { for i in 0..r { for j in 0..c { if k[i][j] == 1 { g[i][j] = 11; } } } }
        w.set_game_board(&g);
        for _ in 0..n {
            let q = pick(0, 4);
            let mut f = GameBoard::new(mines);
            f.set_game_board(&p.g);
            let got = question(&mut w, q);
            check(equal(&got, &question(&mut f, q)), "the same answer whatever was asked before");
            observe(got.0.len() as u64);
        }
        // together the lists name every certain border cell, each in one list, and nothing else
        let (bn, bi, en, ei) = (question(&mut w, 0).0, question(&mut w, 1).0, question(&mut w, 2).0, question(&mut w, 3).0);
        let poss = question(&mut w, 4).1;
        merge(true);
        let (num, hid) = borders(&k);
        let (mine, safe) = possible(&p, &k, &hid, &num);
        let (mut right, mut chance) = (true, true);
        for t in 0..hid.len() {
            let n = bn.contains(&hid[t]) as u32 + en.contains(&hid[t]) as u32;
            let i = bi.contains(&hid[t]) as u32 + ei.contains(&hid[t]) as u32;
            right &= n == !mine[t] as u32;
            right &= i == !safe[t] as u32;
            let v = poss[hid[t].0][hid[t].1];
            chance &= (v < 1e-9) | mine[t];
            chance &= (v > 1.0 - 1e-9) | safe[t];
        }
        check(right, "the lists are exactly the certain cells");
        check(chance, "certain cells have certain probabilities");
        for q in bn.iter().chain(&bi).chain(&en).chain(&ei) { check(hid.contains(q), "only border cells are judged"); }
        check(w.game_board == g, "the position stays");
        reach(1);
    }
    // every value a cell can have (one cell at any place, the others fixed), every randomness
    fn h_safe(r, c) {
        let mut b = vec![vec![0i32; c]; r];
        for i in 0..r { for j in 0..c { b[i][j] = ((i * 7 + j * 3) % 20) as i32 - 3; } }
        let (i, j) = (pick(0, r as u64 - 1), pick(0, c as u64 - 1));
        b[i][j] = pick(0, CELLS) as i32 - 3;
        let s = SafeBoard::new(b.clone());
        check(s.into_vec_vec() == b, "decoding gives the board back");
        let mut t = true;
        for i in 0..r { for j in 0..c { t &= s[i][j] == b[i][j]; } }
        check(t, "indexing gives the cells");
        for i in 0..r { check(s[i].into_vec() == b[i], "a row decodes"); check(s[i].len() == c, "length of a row"); }
        let mut n = 0;
        for row in s.clone() {
            let v: Vec<i32> = row.collect();
            check(n < r && v == b[n], "iteration gives the cells");
            n += 1;
        }
        check(n == r, "iteration visits every row");
        let mut u = SafeBoard::new(vec![vec![0; 2]; 3]);
        u.set(b.clone());
        check(u.into_vec_vec() == b, "setting replaces the board");
        let d = s.clone();
        check(d.into_vec_vec() == b, "a copy is the same board");
        observe(s[0][0] as u64);
        reach(1);
    }
    // a game on the encoded board is the game on the plain one
    fn h_safe_game(r, c, n) {
        let b = any_board(r, c);
        let mut v = MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone());
        // the encoding is exact for any randomness (h_safe); here each cell is decided first
        let mut w = MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.iter().map(|x| x.iter().map(|y| concrete(*y as u32 as u64) as u32 as i32).collect()).collect()));
        for _ in 0..n {
            let k = pick(0, (3 * r * c - 1) as u64);
            let pos = (k / 3 / c, k / 3 % c);
            let list: &[&str] = match k % 3 { 0 => &["lc", "lr"], 1 => &["rc", "rr"], _ => &["rc", "lc", "lr", "rr"] };
            for e in list { check(v.step(e, pos) == w.step(e, pos), "the same answer"); }
        }
        check(v.game_board == w.game_board, "the same view");
        check(v.game_board_state == w.game_board_state && v.mouse_state == w.mouse_state, "the same state");
        check((v.left == w.left) & (v.right == w.right) & (v.double == w.double) & (v.ce == w.ce) & (v.flag == w.flag) & (v.bbbv_solved == w.bbbv_solved), "the same counters");
        observe(w.left as u64);
        reach(1);
    }
    // measures of the encoded board
    fn h_safe_metrics(r, c) {
        let b: B = any_board(r, c).iter().map(|x| x.iter().map(|y| concrete(*y as u32 as u64) as u32 as i32).collect()).collect();
        let s = SafeBoard::new(b.clone());
        check(cal_op(&s) == cal_op(&b), "openings"); check(cal_isl(&s) == cal_isl(&b), "islands"); check(cal_bbbv(&s) == cal_bbbv(&b), "3BV");
        check(cal_cell_nums(&s) == cal_cell_nums(&b), "counts");
        observe(cal_bbbv(&s) as u64);
        reach(1);
    }
}
