//! The board exchanged during a game, what the end of a game shows, and saving.
use crate::game::{flags, read, same, State};
use crate::rt::*;
use crate::spec::*;
use crate::video::{live, Live};
use ms_toollib::*;
use GameBoardState as G;
const PIX: usize = 16;
fn state(v: &Live) -> G { v.game_board_state }
fn cell(r: usize, c: usize) -> (usize, usize) { let p = pick(0, (r * c - 1) as u64); (p / c, p % c) }
fn level(r: usize, c: usize, n: usize) -> u8 { if (r, c, n) == (8, 8, 10) { 3 } else if (r, c, n) == (16, 16, 40) { 4 } else if (r, c, n) == (16, 30, 99) { 5 } else { 6 } }
fn total(b: &B) -> usize { let mut n = 0; for r in b { for x in r { n += (*x == -1) as usize; } } n }
fn view(v: &Live, s: &State, text: &str) {
    let g = &v.minesweeper_board;
    check(same(&g.game_board, &s.g) & same(&v.get_game_board(), &s.g), text);
    check((state(v) == s.gs) & (g.game_board_state == s.gs), "game state");
    check((g.left == s.left) & (g.right == s.right) & (g.double == s.double) & (g.flag == s.flag), "clicks");
    check(g.ce == s.ce, "effective clicks");
    check(g.mouse_state == s.ms, "mouse state");
}
fn gesture(v: &mut Live, s: &mut State, r: usize, c: usize, ns: &mut u64) {
    let k = pick(0, 2);
    let p = cell(r, c);
    let list: &[&str] = [&["lc", "lr"][..], &["rc", "rr"][..], &["rc", "lc", "lr", "rr"][..]][k];
    for e in list {
        *ns += 3_000_000;
        set_clock(1000, *ns);
        let got = v.step(e, (p.0 * PIX + 3, p.1 * PIX + 2));
        if s.step(e, p).is_none() { assume(false); }
        check(got.is_ok(), "a sensible event is accepted");
    }
}
fn fresh(b: &B) -> State { let (r, c) = (b.len(), b[0].len()); let mut s = read(&MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone())); s.seen = vec![vec![false; c]; r]; s }
entries! {
    // a game whose board is exchanged for another one that agrees with what is open
    fn h_swap(r, c, before, after, again) {
        let b = any_board(r, c);
        let mut v = live(b.clone(), PIX);
        let mut s = fresh(&b);
        let mut ns = 0;
        for _ in 0..before { gesture(&mut v, &mut s, r, c, &mut ns); }
        for _ in 0..1 + again {
            let b = any_board(r, c);
            let mut t = true;
            for i in 0..r { for j in 0..c { t &= (s.g[i][j] >= 10) | (s.g[i][j] == b[i][j]); } }
            // a board that is not won already: the next event decides
            assume(t);
            let over = matches!(s.gs, G::Win | G::Loss);
            let (m0, n, open) = (v.mine_num, total(&b), v.video_action_state_recorder.len());
            check(v.set_board(b.clone()).is_ok() == !over, "a new board is taken until the game is over");
            check(v.mine_num == if over { m0 } else { n }, "mines of the new board");
            check(v.video_action_state_recorder.len() == open, "nothing is recorded");
            if !over {
                s.b = b;
                let mut t = true;
                for i in 0..r { for j in 0..c { t &= (v.board[i][j] == s.b[i][j]) & (v.minesweeper_board.board[i][j] == s.b[i][j]); } }
                check(t, "the new board");
            }
            view(&v, &s, "the view is kept");
            for _ in 0..after { gesture(&mut v, &mut s, r, c, &mut ns); }
            view(&v, &s, "the view by the new board");
        }
        observe(state(&v) as u64);
        if matches!(s.gs, G::Win | G::Loss) {
            check(v.static_params.bbbv == cal_bbbv(&s.b) && v.static_params.op == cal_op(&s.b) && v.is_completed == (s.gs == G::Win), "results of the new board");
            reach(1);
        } else { reach(2); }
    }
    // the level belongs to size and mines of the board in use
    fn h_level(r, c, lo, hi) {
        // the masks of the hidden board are beside the point here
        fixed_draws(true);
        let n = pick(lo as u64, hi as u64);
        let (h, w) = ([8, 16, 16, 9][pick(0, 3)], [8, 16, 30, 9][pick(0, 3)]);
        let m: Vec<Vec<bool>> = (0..r).map(|i| (0..c).map(|j| (i * c + j) * n / (r * c) != (i * c + j + 1) * n / (r * c)).collect()).collect();
        let b = number(&m);
        check(total(&b) == n, "that many mines");
        let mut v = live(vec![vec![0; w]; h], PIX);
        check(v.set_board(b.clone()).is_ok() == ((h, w) == (r, c)), "only a board of the same size");
        v.reset(r, c, PIX as u8);
        check(v.set_board(b).is_ok(), "a board after a reset");
        check(v.level == level(r, c, n) && v.mine_num == n, "level of the board");
        reach(1);
    }
    // what the end shows: the mines of a won game as flags, the unflagged ones of a lost game open
    fn h_show(r, c, n) {
        let b = any_board(r, c);
        let mut v = live(b.clone(), PIX);
        let mut s = fresh(&b);
        let mut ns = 0;
        for _ in 0..n {
            gesture(&mut v, &mut s, r, c, &mut ns);
            let first = pick(0, 1);
            let rec = v.video_action_state_recorder.len();
            let stream: Vec<B> = v.game_board_stream.iter().map(|x| x.game_board.clone()).collect();
            for k in 0..3 {
                if (k + first) % 2 == 0 { v.win_then_flag_all_mine(); } else { v.loss_then_open_all_mine(); }
            }
            for i in 0..r { for j in 0..c {
                let h = s.g[i][j] == 10;
                s.g[i][j] = if h & (s.gs == G::Win) { 11 } else if h & (s.gs == G::Loss) & (b[i][j] == -1) { 16 } else { s.g[i][j] };
            } }
            let (a, f) = (s.flag, flags(&s.g));
            view(&v, &s, "mines shown after the end, nothing before");
            check((s.gs != G::Win) | (f == total(&b)), "every mine of a won game is flagged");
            check(v.get_flag() == a && v.video_action_state_recorder.len() == rec && v.game_board_stream.len() == stream.len(), "showing mines is no event");
            for (x, y) in v.game_board_stream.iter().zip(stream.iter()) { check(same(&x.game_board, y), "recorded positions"); }
            if matches!(s.gs, G::Win) { reach(1); return; }
            if matches!(s.gs, G::Loss) { reach(2); return; }
        }
        observe(state(&v) as u64);
        reach(3);
    }
    // a video is saved under the first free name; no file is overwritten
    fn h_save(n, len) {
        let name = |k: usize| if k == 1 { "x.evf".to_string() } else { format!("x({}).evf", k) };
        let mut there = vec![false; n + 2];
        for k in 1..n + 1 { there[k] = pick(0, 1) == 1; if there[k] { file(&name(k), &[k as u8, 77]); } }
        let d: Vec<u8> = (0..len).map(|_| sym(8) as u8).collect();
        file("in.evf", &d);
        let v = EvfVideo::new("in.evf").data;
        for _ in 0..2 {
            v.save_to_evf_file("x");
            let mut free = 1;
            while free < n + 1 && there[free] { free += 1; }
            if free == n + 2 || there[free] { reach(2); return; }
            there[free] = true;
            let got = std::fs::read(&name(free));
            check(got.is_ok(), "saved under the first free name");
            if let Ok(g) = got { let mut t = g.len() == len; if t { for k in 0..len { t &= g[k] == d[k]; } } check(t, "the bytes of the video"); }
            for k in 1..n + 1 { if k != free && there[k] { let g = std::fs::read(&name(k)); check(g.is_ok(), "a file stays"); let g = g.unwrap(); check(g.len() == 2 && g[0] == k as u8 && g[1] == 77 || g.len() == len, "no other file is touched"); } else if !there[k] { check(!std::path::Path::new(&name(k)).exists(), "no other file appears"); } }
        }
        reach(1);
    }
}
