//! The game state machine: one event from any state, and short games from the start.
use crate::reveal::revealed;
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;
use GameBoardState as G;
use MouseState as M;
type Game = MinesweeperBoard<Vec<Vec<i32>>>;
pub const EVENTS: [&str; 15] = ["mv", "lc", "lr", "l", "rc", "rr", "r", "cc", "crl", "crr", "mc", "mr", "m", "pf", "zz"];
pub const MICE: [M; 7] = [M::UpUp, M::DownUp, M::UpDown, M::UpDownNotFlag, M::Chording, M::ChordingNotFlag, M::DownUpAfterChording];

/// Everything observable, and what the game has to remember.
#[derive(Clone)]
pub struct State {
    pub b: B, pub g: B, pub gs: G, pub ms: M,
    pub left: usize, pub right: usize, pub double: usize, pub ce: usize, pub flag: usize, pub solved: usize,
    pub seen: Vec<Vec<bool>>, // mines flagged before
    pub mid: bool,
}
fn lone(b: &B, i: usize, j: usize) -> bool {
    let mut z = false;
    for (x, y) in around(b.len(), b[0].len(), i, j) { z |= b[x][y] == 0; }
    (b[i][j] > 0) & !z
}
/// The part of the 3BV that position `g` of board `b` has solved: opened numbers that touch no
/// empty cell, and completely opened openings.
pub fn solved(b: &B, g: &B) -> usize {
    let (r, c) = (b.len(), b[0].len());
    let n = r * c;
    let mut k = 0usize;
    for i in 0..r { for j in 0..c { k += (lone(b, i, j) & (g[i][j] == b[i][j])) as usize; } }
    // smallest index of the opening, and whether any of it is still closed
    let mut l: Vec<u16> = (0..n).map(|p| if b[p / c][p % c] == 0 { p as u16 } else { 999 }).collect();
    let mut closed: Vec<bool> = (0..n).map(|p| (b[p / c][p % c] == 0) & (g[p / c][p % c] != 0)).collect();
    let rounds = if r == 1 || c == 1 { n } else { (n + 1) / 2 + 1 };
    for _ in 0..rounds {
        let (mut l2, mut c2) = (l.clone(), closed.clone());
        for p in 0..n {
            let (i, j) = (p / c, p % c);
            for (x, y) in around(r, c, i, j) {
                let q = x * c + y;
                let both = (b[i][j] == 0) & (b[x][y] == 0);
                let m = if l[q] < l2[p] { l[q] } else { l2[p] };
                l2[p] = if both { m } else { l2[p] };
                c2[p] |= both & closed[q];
            }
        }
        l = l2; closed = c2;
    }
    for p in 0..n { k += ((l[p] == p as u16) & !closed[p]) as usize; }
    k
}
pub fn all_open(b: &B, g: &B) -> bool {
    let mut t = true;
    for i in 0..b.len() { for j in 0..b[0].len() { t &= (b[i][j] == -1) | (g[i][j] == b[i][j]); } }
    t
}
pub fn flags(g: &B) -> usize {
    let mut n = 0usize;
    for row in g { for v in row { n += (*v == 11) as usize; } }
    n
}
impl State {
    fn reveal(&mut self, cells: &Vec<Vec<bool>>) {
        let (r, c) = (self.b.len(), self.b[0].len());
        let mut hit = false;
        for i in 0..r { for j in 0..c { hit |= cells[i][j] & (self.b[i][j] == -1); } }
        self.g = revealed(&self.b, &self.g, cells);
        if hit { self.gs = G::Loss } else if all_open(&self.b, &self.g) { self.gs = G::Win }
    }
    fn left_click(&mut self, x: usize, y: usize) -> u8 {
        self.left += 1;
        if self.g[x][y] != 10 { return 0; }
        let mut cells = vec![vec![false; self.b[0].len()]; self.b.len()];
        cells[x][y] = true;
        let safe = self.b[x][y] != -1;
        self.reveal(&cells);
        self.ce += safe as usize;
        if safe { 2 } else { 0 }
    }
    fn right_click(&mut self, x: usize, y: usize) -> u8 {
        self.right += 1;
        if self.g[x][y] < 10 { return 0; }
        if self.g[x][y] == 10 {
            self.g[x][y] = 11;
            self.flag += 1;
            let mine = self.b[x][y] == -1;
            self.ce += (mine & !self.seen[x][y]) as usize;
            self.seen[x][y] |= mine;
        } else { self.g[x][y] = 10; self.flag = self.flag.wrapping_sub(1); }
        1
    }
    fn chord(&mut self, x: usize, y: usize) -> u8 {
        self.double += 1;
        let (r, c) = (self.b.len(), self.b[0].len());
        let mut cells = vec![vec![false; c]; r];
        let (mut f, mut h) = (0, false);
        for (i, j) in around(r, c, x, y) {
            f += (self.g[i][j] == 11) as i32;
            let hid = self.g[i][j] == 10;
            h |= hid;
            cells[i][j] = hid;
        }
        if (self.g[x][y] > 0) & (self.g[x][y] < 9) & h & (f == self.g[x][y]) { self.ce += 1; self.reveal(&cells); 3 } else { 0 }
    }
    fn forget(&mut self) {
        self.gs = G::Ready;
        self.left = 0; self.right = 0; self.double = 0; self.ce = 0; self.flag = 0;
        for row in self.seen.iter_mut() { for v in row.iter_mut() { *v = false; } }
    }
    /// The event as the player means it; None where an event makes no sense in this state.
    pub fn step(&mut self, e: &str, pos: (usize, usize)) -> Option<u8> {
        let (x, y) = pos;
        let inside = x < self.b.len() && y < self.b[0].len();
        if !matches!(self.gs, G::Ready | G::PreFlaging | G::Playing) { return Some(0); }
        let playing = self.gs == G::Playing;
        let down = |m: M| (matches!(m, M::DownUp | M::Chording | M::ChordingNotFlag | M::DownUpAfterChording), !matches!(m, M::UpUp | M::DownUp | M::DownUpAfterChording));
        let (l, r) = down(self.ms);
        let both = l && r;
        // a toggling event is a press or a release, whichever is possible
        let e = match e {
            "l" if playing => if l { "lr" } else { "lc" },
            "r" if playing => if r { "rr" } else { "rc" },
            "m" if playing => if self.mid { "mr" } else { "mc" },
            "crl" if playing => if both { "lr" } else { return None },
            "crr" if playing => if both { "rr" } else { return None },
            "l" | "r" | "m" | "crl" | "crr" => return None,
            e => e,
        };
        match e {
            "mv" => Some(0),
            "mc" if playing => { self.mid = true; Some(0) }
            "mr" if playing => { self.mid = false; if inside { Some(self.chord(x, y)) } else { Some(0) } }
            "pf" if !playing => { self.gs = G::PreFlaging; Some(self.right_click(x, y)) }
            "cc" => {
                if both || !(l || r) { return None; }
                self.chord_cancels_start(l, inside);
                self.ms = if self.ms == M::UpDownNotFlag { M::ChordingNotFlag } else { M::Chording };
                Some(0)
            }
            "lc" => {
                if l { return if self.gs == G::Ready { None } else { Some(0) }; }
                if self.gs == G::Ready && !r && inside { self.gs = G::PreFlaging; }
                self.ms = match self.ms { M::UpUp => M::DownUp, M::UpDown => M::Chording, _ => M::ChordingNotFlag };
                Some(0)
            }
            "rc" => {
                if r { return if playing { Some(0) } else { None }; }
                if l {
                    if self.gs == G::Ready && self.ms == M::DownUp { return None; }
                    self.chord_cancels_start(self.ms == M::DownUp, inside);
                    self.ms = M::Chording;
                    return Some(0);
                }
                self.ms = if inside && self.g[x][y] < 10 { M::UpDownNotFlag } else { M::UpDown };
                if !inside { return Some(0); }
                if self.gs == G::PreFlaging && flags(&self.g) == 1 && self.g[x][y] == 11 {
                    // the last flag set before the game is taken back: as if nothing happened
                    self.g[x][y] = 10;
                    self.forget();
                    return Some(0);
                }
                if self.gs == G::Ready { self.gs = G::PreFlaging; }
                Some(self.right_click(x, y))
            }
            "lr" => {
                let was = self.ms;
                if !l { return if playing || was == M::UpUp { Some(0) } else { None }; }
                self.ms = if r { M::UpDown } else { M::UpUp };
                if both {
                    if was == M::ChordingNotFlag && self.gs != G::Ready { self.right = self.right.wrapping_sub(1); }
                    return if inside && self.gs != G::Ready { Some(self.chord(x, y)) } else { Some(0) };
                }
                if was == M::DownUpAfterChording || self.gs == G::Ready { return Some(0); }
                if !playing {
                    if !inside { if flags(&self.g) == 0 { self.forget(); } return Some(0); }
                    if self.g[x][y] != 10 { return Some(0); }
                    self.gs = G::Playing;
                }
                if inside { Some(self.left_click(x, y)) } else { Some(0) }
            }
            "rr" => {
                let was = self.ms;
                if !r { return if self.gs == G::Ready { None } else { Some(0) }; }
                if self.gs == G::Ready && matches!(was, M::UpDownNotFlag | M::ChordingNotFlag) { return None; }
                self.ms = if l { M::DownUpAfterChording } else { M::UpUp };
                if both && self.gs != G::Ready {
                    if was == M::ChordingNotFlag { self.right = self.right.wrapping_sub(1); }
                    return if inside { Some(self.chord(x, y)) } else { Some(0) };
                }
                Some(0)
            }
            _ => None,
        }
    }
    /// Turning the first press into a chord over the board means the game has not begun.
    fn chord_cancels_start(&mut self, by_left: bool, inside: bool) {
        if self.gs == G::PreFlaging && by_left && self.ms == M::DownUp && inside && flags(&self.g) == 0 { self.gs = G::Ready; }
    }
}
pub fn read(v: &Game) -> State {
    State { b: v.board.clone(), g: v.game_board.clone(), gs: v.game_board_state, ms: v.mouse_state, left: v.left, right: v.right, double: v.double, ce: v.ce, flag: v.flag, solved: v.bbbv_solved, seen: vec![], mid: false }
}
fn count() -> usize { sym(20) as usize }
/// A position in any phase: 0 playing, 1 flags before the game, 2 nothing happened yet, 3 over.
fn any_state(b: B, phase: usize, memory: bool, middle: bool, mice: bool) -> (Game, State) {
    let (r, c) = (b.len(), b[0].len());
    let mut v = Game::new(b.clone());
    let mut seen = vec![vec![false; c]; r];
    let mut mid = false;
    let mut g = vec![vec![10; c]; r];
    if phase == 0 || phase == 3 {
        if memory {
            for _ in 0..2 {
                let p = pick(0, (r * c - 1) as u64);
                let (i, j) = (p / c, p % c);
                if v.game_board[i][j] != 10 { continue; }
                let _ = v.step("pf", (i, j));
                seen[i][j] = b[i][j] == -1;
            }
        }
        v.game_board_state = G::Playing;
        mid = middle && pick(0, 1) == 1;
        if mid { let _ = v.step("mc", (0, 0)); }
        for i in 0..r { for j in 0..c {
            let k = sym(2) as i32;
            let open = (k >= 2) & (b[i][j] != -1);
            g[i][j] = if open { b[i][j] } else { 10 + (k & 1) };
        } }
        v.game_board = g.clone();
        if phase == 3 { v.game_board_state = [G::Win, G::Loss, G::Display][pick(0, 2)]; }
    }
    if phase == 1 {
        // flags set, some of them taken back, in any order that leaves the game begun
        let mut n = 0;
        for i in 0..r { for j in 0..c { if pick(0, 1) == 1 { let _ = v.step("pf", (i, j)); seen[i][j] = b[i][j] == -1; g[i][j] = 11; n += 1; } } }
        if n > 1 && pick(0, 1) == 1 {
            let p = pick(0, (r * c - 1) as u64);
            if g[p / c][p % c] == 11 { v.mouse_state = M::UpUp; let _ = v.step("rc", (p / c, p % c)); g[p / c][p % c] = 10; }
        }
        v.game_board_state = G::PreFlaging;
    }
    v.mouse_state = if mice { MICE[pick(0, 6)] } else { M::UpUp };
    let busy = phase == 0 || phase == 3 || (phase == 1 && flags(&g) > 0);
    if busy {
        v.left = count(); v.right = 1 + count(); v.double = count(); v.ce = count();
        v.bbbv_solved = if phase == 1 { 0 } else { count() };
    }
    v.flag = flags(&g);
    // these states only exist once a cell is open
    if phase == 1 || phase == 2 { if matches!(v.mouse_state, M::UpDownNotFlag | M::ChordingNotFlag) { assume(false); } }
    // before the game only a press over the board without flags leaves the left button down alone
    if phase == 1 && !busy && v.mouse_state != M::DownUp && v.mouse_state != M::UpUp { assume(false); }
    let mut s = read(&v);
    s.seen = seen; s.mid = mid;
    (v, s)
}
pub fn same(a: &B, b: &B) -> bool {
    let mut t = true;
    for i in 0..a.len() { for j in 0..a[0].len() { t &= a[i][j] == b[i][j]; } }
    t
}
/// what: 0 nothing fails, 1 the board and who won, 2 counters, 3 solved 3BV, 4 mouse and acceptance
fn compare(what: usize, v: &Game, s: &State, before: &State) {
    let n = read(v);
    match what {
        1 => { observe(v.game_board_state as u64); check(same(&n.g, &s.g), "the player's view after the event"); check(n.gs == s.gs, "game state after the event"); check(same(&n.b, &s.b), "the board itself never changes"); }
        2 => {
            observe(v.left as u64); observe(v.ce as u64);
            check(n.left == s.left, "left clicks"); check(n.right == s.right, "right clicks"); check(n.double == s.double, "double clicks");
            check(n.ce == s.ce, "effective clicks"); check((n.flag == s.flag) & (n.flag == if matches!(n.gs, G::Loss) { before.flag } else { flags(&n.g) }), "flags");
        }
        3 => { observe(v.bbbv_solved as u64); check(n.solved.wrapping_sub(before.solved) == solved(&n.b, &n.g).wrapping_sub(solved(&before.b, &before.g)), "solved 3BV"); }
        4 => { observe(v.mouse_state as u64); check(n.ms == s.ms, "mouse state"); }
        _ => {}
    }
}
fn one(what: usize, phase: usize, b: B, e: &str) {
    let (r, c) = (b.len(), b[0].len());
    let (mut v, mut s) = any_state(b, phase, what == 2 && (e == "rc" || e == "r"), e.starts_with('m'), !e.starts_with('m') || what == 4);
    let before = s.clone();
    let p = pick(0, (r * c) as u64);
    let pos = if p == r * c { (r, c) } else { (p / c, p % c) };
    if e == "pf" && (phase == 1 || phase == 2) { if p == r * c || before.g[pos.0][pos.1] != 10 { assume(false); } }
    let got = v.step(e, pos);
    if what == 0 {
        let n = read(&v);
        let kept = same(&n.g, &before.g) & (n.gs == before.gs) & (n.ms == before.ms) & (n.left == before.left) & (n.right == before.right)
            & (n.double == before.double) & (n.ce == before.ce) & (n.flag == before.flag) & (n.solved == before.solved);
        observe(got.is_ok() as u64);
        if got.is_err() || phase == 3 { check(kept, "a refused event changes nothing"); }
        reach(1);
        return;
    }
    let want = s.step(e, pos);
    match want {
        Some(k) => {
            if what == 4 { check(got.is_ok(), "a sensible event is accepted"); if let Ok(g) = got { check(g == k, "what the event did"); } }
            compare(what, &v, &s, &before);
            if what == 2 && phase == 0 && (e == "mc" || e == "mr" || e == "m") && s.gs == G::Playing {
                // the middle button is remembered: the next toggle is a release only if it is down
                let d = v.double;
                let _ = v.step("m", (0, 0));
                check(v.double - d == s.mid as usize, "middle button");
            }
        }
        None => if what == 4 { check(got.is_err(), "a senseless event is refused") },
    }
    reach(1);
}
entries! {
    fn h_step(what, phase, r, c, ev) { one(what, phase, any_board(r, c), EVENTS[ev]); }
    // the same on a larger board with fixed mines: bit k of `mines` is cell k
    fn h_step_at(what, r, c, mines, ev) {
        let m: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| mines >> (i * c + j) & 1 == 1).collect()).collect();
        one(what, 0, number(&m), EVENTS[ev]);
    }
    // opening hidden cells in any order, until the game is decided or `n` are opened
    fn h_order(what, r, c, n) {
        let b = any_board(r, c);
        let mut v = Game::new(b.clone());
        let mut s = read(&v);
        s.seen = vec![vec![false; c]; r];
        let mut last = r * c;
        for _ in 0..n {
            if s.gs == G::Win || s.gs == G::Loss { break; }
            let p = pick(0, (r * c - 1) as u64);
            if p == last || v.game_board[p / c][p % c] != 10 { assume(false); }
            last = p;
            for e in ["lc", "lr"] { let _ = v.step(e, (p / c, p % c)); s.step(e, (p / c, p % c)); }
            check(v.game_board_state == s.gs, "won when every safe cell is open, lost on a mine, running otherwise");
            if what == 1 { check(same(&v.game_board, &s.g), "the view in between"); }
            if what == 3 { check(v.bbbv_solved == solved(&b, &v.game_board), "solved 3BV in between"); }
        }
        observe(v.game_board_state as u64);
        reach(1);
    }
    // whole games: `n` gestures from the first click; the state is a function of the board and the view
    fn h_play(what, r, c, n) {
        let b = any_board(r, c);
        let mut v = Game::new(b.clone());
        let mut s = read(&v);
        s.seen = vec![vec![false; c]; r];
        for _ in 0..n {
            let k = pick(0, (3 * r * c - 1) as u64);
            let pos = (k / 3 / c, k / 3 % c);
            let list: &[&str] = match k % 3 { 0 => &["lc", "lr"], 1 => &["rc", "rr"], _ => &["rc", "lc", "lr", "rr"] };
            for e in list {
                let got = v.step(e, pos);
                let want = s.step(e, pos);
                if want.is_none() { assume(false); }
                check(got.is_ok(), "a sensible event is accepted");
            }
        }
        let n = read(&v);
        observe(n.gs as u64); observe(n.ce as u64);
        if what == 1 {
            check(same(&n.g, &s.g), "the player's view"); check(n.gs == s.gs, "game state");
            let over = all_open(&n.b, &n.g);
            if n.gs == G::Win { check(over, "won only with every safe cell open"); }
            if n.gs == G::Playing { check(!over, "not over only while a safe cell is closed"); }
        }
        if what == 2 { check((n.left == s.left) & (n.right == s.right) & (n.double == s.double), "clicks"); check(n.ce == s.ce, "effective clicks"); check(n.flag == s.flag, "flags"); }
        if what == 3 { check(n.solved == solved(&n.b, &n.g), "solved 3BV"); }
        if what == 4 { check(n.ms == s.ms, "mouse state"); }
        reach(1);
    }
    // any history, then reset: as good as new
    fn h_reset(r, c, hist, after) {
        let mut v = Game::new(any_board(r, c));
        for (k, e) in HISTORY[hist].iter().enumerate() { let p = if k % 2 == 0 || hist > 5 { inner(r, c) } else { (0, 0) }; if *e == "pf" && v.game_board[p.0][p.1] != 10 { assume(false); } let _ = v.step(e, p); }
        v.reset();
        let b = any_board(r, c);
        let mut w = Game::new(b.clone());
        check(same(&v.board, &vec![vec![0; c]; r]), "reset empties the board");
        v.board = b;
        equal(&read(&v), &read(&w));
        let mut p = (0, 0);
        for (k, e) in AFTER[after].iter().enumerate() {
            if k % 2 == 0 { p = inner(r, c); }
            check(v.step(e, p) == w.step(e, p), "the same answer after a reset");
            equal(&read(&v), &read(&w));
        }
        observe(v.left as u64);
        reach(1);
    }
    // a list of events is those events one by one, up to the first refused one
    fn h_flow(r, c, n) {
        let b = any_board(r, c);
        let (mut v, mut w) = (Game::new(b.clone()), Game::new(b));
        let (mut list, mut ok) = (vec![], true);
        for _ in 0..n {
            let (e, p) = (EVENTS[pick(0, 14)], place(r, c));
            // by definition only a hidden cell is flagged before the game
            if e == "pf" && matches!(w.game_board_state, G::Ready | G::PreFlaging) && (p.0 == r || w.game_board[p.0][p.1] != 10) { assume(false); }
            list.push((e, p));
            if ok { ok = w.step(e, p).is_ok(); }
        }
        let got = v.step_flow(list);
        check(got.is_ok() == ok, "a list is accepted exactly when each event is");
        equal(&read(&v), &read(&w));
        observe(v.left as u64);
        reach(1);
    }
}
const HISTORY: [&[&str]; 9] = [&["lc", "lr"], &["lc", "lr", "mc"], &["lc", "lr", "lc", "rc"], &["rc", "rr"], &["rc", "rr", "lc", "lr"], &["rc", "rr", "rc", "rr"], &["pf"], &["pf", "pf"], &["rc", "lc"]];
const AFTER: [&[&str]; 5] = [&["lc", "lr", "m"], &["lc", "lr", "lc", "lr"], &["rc", "rr", "rc", "rr"], &["rc", "rr", "lc", "lr"], &["lc", "rc", "lr", "rr", "lc", "lr"]];
fn inner(r: usize, c: usize) -> (usize, usize) { let p = pick(0, (r * c - 1) as u64); (p / c, p % c) }
fn place(r: usize, c: usize) -> (usize, usize) { let p = pick(0, (r * c) as u64); if p == r * c { (r, c) } else { (p / c, p % c) } }
fn equal(a: &State, b: &State) {
    check(same(&a.b, &b.b) & same(&a.g, &b.g), "the same board and view");
    check((a.gs == b.gs) & (a.ms == b.ms), "the same state");
    check((a.left == b.left) & (a.right == b.right) & (a.double == b.double), "the same clicks");
    check((a.ce == b.ce) & (a.flag == b.flag) & (a.solved == b.solved), "the same counters");
}
