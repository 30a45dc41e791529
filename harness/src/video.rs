//! Recording a game as it is played, reading it back, moving around in it.
use crate::game::EVENTS;
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;
use GameBoardState as G;
pub type Game = MinesweeperBoard<Vec<Vec<i32>>>;
type Video = BaseVideo<Vec<Vec<i32>>>;
pub type Live = BaseVideo<SafeBoard>;
const STATES: [G; 6] = [G::Ready, G::PreFlaging, G::Playing, G::Win, G::Loss, G::Display];
fn same(a: &B, b: &B) -> bool {
    if a.len() != b.len() { return false; }
    let mut t = true;
    for i in 0..a.len() { if a[i].len() != b[i].len() { return false; } for j in 0..a[0].len() { t &= a[i][j] == b[i][j]; } }
    t
}
fn close(a: f64, b: f64) -> bool { let d = a - b; d < 1e-6 && d > -1e-6 }
fn text(n: usize) -> Vec<u8> { (0..n).map(|_| sym(8) as u8).collect() }

/// Microseconds to the nearest millisecond.
fn near(us: u64) -> u32 { ((2 * us + 1000) / 2000) as u32 }
/// One recorded event, as the rules of recording want it.
pub struct Rec { pub e: &'static str, pub x: usize, pub y: usize, pub ns: u64, pub level: u8, pub prior: usize, pub next: usize, pub path: f64, pub ms: MouseState, pub left: usize, pub right: usize, pub double: usize, pub ce: usize, pub flag: usize, pub solved: usize, pub inside: bool }
/// The recording that should be there.
pub struct Tape { pub game: Game, pub log: Vec<Rec>, pub boards: Vec<B>, pub began: u64, pub started: u64, pub over: u64, pub pix: usize, pub played: bool }
fn millis(a: u64, b: u64) -> u64 { ((b - a) / 1000 + 500) / 1000 }
impl Tape {
    pub fn new(b: B, pix: usize) -> Tape { Tape { game: Game::new(b), log: vec![], boards: vec![], began: 0, started: 0, over: 0, pix, played: false } }
    pub fn step(&mut self, e: &'static str, pos: (usize, usize), ns: u64) -> bool {
        let old = self.game.game_board_state;
        if matches!(old, G::Win | G::Loss) { return true; }
        let level = match self.game.step(e, (pos.0 / self.pix, pos.1 / self.pix)) { Ok(x) => x, Err(_) => return false };
        let g = &self.game;
        if g.game_board_state == G::Ready { self.log.clear(); self.boards.clear(); return true; }
        let (r, c) = (g.board.len(), g.board[0].len());
        if self.log.is_empty() { self.began = ns; self.boards.push(vec![vec![10; c]; r]); }
        if old != G::Playing { self.started = ns; } else { self.played = true; }
        self.over = ns;
        let prior = self.boards.len() - 1;
        if level >= 1 { self.boards.push(g.game_board.clone()); }
        let mut path = 0.0;
        if old == G::Playing {
            for p in self.log.iter().rev() {
                if p.inside {
                    // a place outside is but a mark
                    let out = pos.0 >= r * self.pix || pos.1 >= c * self.pix;
                    let pos = if out { (p.y, p.x) } else { pos };
                    let (dx, dy) = (pos.1 as f64 - p.x as f64, pos.0 as f64 - p.y as f64);
                    path = p.path + (dx * dx + dy * dy).sqrt() * 16.0 / self.pix as f64;
                    break;
                }
            }
        }
        self.log.push(Rec { e, x: pos.1, y: pos.0, ns, level, prior, next: self.boards.len() - 1, path, ms: g.mouse_state, left: g.left, right: g.right, double: g.double, ce: g.ce, flag: g.flag, solved: g.bbbv_solved, inside: pos.0 < r * self.pix && pos.1 < c * self.pix });
        true
    }
    fn rtime(&self) -> u64 { millis(self.began, self.over) - millis(self.began, self.started) }
}
fn recorded(v: &Live, t: &Tape, what: usize) {
    let g = &t.game;
    check(v.game_board_state == g.game_board_state, "state of the video is the state of the game");
    if what == 0 {
        check(same(&v.minesweeper_board.game_board, &g.game_board), "the player's view");
        check(v.get_left() == g.left && v.get_right() == g.right && v.get_double() == g.double && v.get_flag() == g.flag && v.get_cl() == g.left + g.right + g.double, "counters");
        check(same(&v.get_game_board(), &g.game_board), "view by getter");
        let m = match g.mouse_state { MouseState::UpUp => 1, MouseState::UpDown => 2, MouseState::UpDownNotFlag => 3, MouseState::DownUp => 4, MouseState::Chording => 5, MouseState::ChordingNotFlag => 6, MouseState::DownUpAfterChording => 7, _ => 8 };
        check(v.get_mouse_state() == m, "mouse");
    }
    let rec = &v.video_action_state_recorder;
    check(rec.len() == t.log.len(), "one record for every accepted event since the game left Ready");
    if rec.len() != t.log.len() { return; }
    for (a, b) in rec.iter().zip(t.log.iter()) {
        if what == 0 {
            check(a.mouse == b.e && a.x as usize == b.x && a.y as usize == b.y, "event and place");
            check(a.time == millis(t.began, b.ns) as f64 / 1000.0, "time since the first record");
            check(close(a.path, b.path), "path");
        } else {
            check(a.useful_level == b.level, "usefulness");
            check(a.mouse_state == b.ms, "mouse state");
            let k = &a.key_dynamic_params;
            check((k.left == b.left) & (k.right == b.right) & (k.double == b.double) & (k.flag == b.flag), "clicks at the event");
            check((k.ce == b.ce) & (k.bbbv_solved == b.solved), "progress at the event");
            check((a.prior_game_board_id == b.prior) & (a.next_game_board_id == b.next), "positions before and after");
        }
    }
    if what == 1 {
        check(v.game_board_stream.len() == t.boards.len(), "stream of positions");
        for (a, b) in v.game_board_stream.iter().zip(t.boards.iter()) { check(same(&a.game_board, b), "position in the stream"); }
    }
    if what == 0 { check(close(v.get_path(), t.log.last().map_or(0.0, |x| x.path)), "path so far"); }
}
fn same_sum(a: &[u8; 32], b: &[u8; 32]) -> bool { let mut t = true; for k in 0..32 { t &= a[k] == b[k]; } t }
/// What a stored game must be analysed to.
fn replayed(w: &mut Video, v: &Live, t: &Tape, what: usize) {
    let n = t.log.len();
    check(w.video_action_state_recorder.len() == n, "all events");
    if w.video_action_state_recorder.len() != n { return; }
    if what == 0 {
        for (a, b) in w.video_action_state_recorder.iter().zip(v.video_action_state_recorder.iter()) {
            check(a.mouse == b.mouse && a.x == b.x && a.y == b.y && a.time == b.time, "events");
            check(a.useful_level == b.useful_level && a.mouse_state == b.mouse_state, "usefulness and mouse");
            check(close(a.path, b.path), "path");
            check((a.prior_game_board_id == b.prior_game_board_id) & (a.next_game_board_id == b.next_game_board_id), "positions before and after");
            let (j, k) = (&a.key_dynamic_params, &b.key_dynamic_params);
            check((j.left == k.left) & (j.right == k.right) & (j.double == k.double) & (j.flag == k.flag) & (j.ce == k.ce) & (j.bbbv_solved == k.bbbv_solved), "counters");
        }
        check(w.game_board_stream.len() == v.game_board_stream.len(), "stream of positions");
        for (a, b) in w.game_board_stream.iter().zip(v.game_board_stream.iter()) { check(same(&a.game_board, &b.game_board), "positions"); }
        check(w.is_completed == v.is_completed, "completed");
        let (s, z) = (&w.static_params, &v.static_params);
        check((s.op == z.op) & (s.isl == z.isl) & (s.cell0 == z.cell0) & (s.cell1 == z.cell1) & (s.cell2 == z.cell2) & (s.cell3 == z.cell3) & (s.cell8 == z.cell8), "measures of the board");
        return;
    }
    // a game decided by its first opening click has no start of its own
    let delta = if t.played { millis(t.began, t.started) } else { (0.5 - w.get_video_start_time().unwrap() * 1000.0) as u64 };
    let last = millis(t.began, t.over);
    check(close(w.get_video_start_time().unwrap(), -(delta as f64) / 1000.0) && close(w.get_video_end_time().unwrap(), (last - delta) as f64 / 1000.0), "from the first event to the last, the game begins at zero");
    let mut k = n;
    while k > 0 {
        k -= 1;
        let b = &t.log[k];
        let at = (millis(t.began, b.ns) as f64 - delta as f64) / 1000.0;
        if what == 1 { check(w.set_current_event_id(k).is_ok() && w.current_event_id == k, "moving to an event"); }
        else {
            // beside the event, as sums of times are rounded
            w.set_current_time(at + 0.0002);
            let mut j = k;
            while j + 1 < n && millis(t.began, t.log[j + 1].ns) == millis(t.began, b.ns) { j += 1; }
            check(w.current_event_id == j, "moving to a time");
            if j != k { continue; }
        }
        let shown = at + if what == 1 || k + 1 == n { 0.0 } else { 0.0002 };
        check(close(w.get_time(), shown), "the time shown");
        check(same(&w.get_game_board(), &t.boards[b.next]), "the position shown");
        check((w.get_left() == b.left) & (w.get_right() == b.right) & (w.get_double() == b.double) & (w.get_flag() == b.flag) & (w.get_cl() == b.left + b.right + b.double), "clicks so far");
        check(w.get_ce() == Ok(b.ce) && w.get_bbbv_solved() == Ok(b.solved), "progress so far");
        let cl = (b.left + b.right + b.double) as f64;
        let per = |x: usize, y: f64| if x == 0 { 0.0 } else { x as f64 / y };
        check(close(w.get_corr().unwrap(), per(b.ce, cl)) && close(w.get_ioe().unwrap(), per(b.solved, cl)) && close(w.get_thrp().unwrap(), per(b.solved, b.ce as f64)) || (b.ce == 0 || cl == 0.0), "rates");
        if at > 0.002 {
            let x = w.get_time();
            check(close(w.get_left_s(), b.left as f64 / x) && close(w.get_right_s(), b.right as f64 / x) && close(w.get_double_s(), b.double as f64 / x) && close(w.get_flag_s(), b.flag as f64 / x) && close(w.get_cl_s(), cl / x), "clicks per second");
            check(close(w.get_ce_s().unwrap(), b.ce as f64 / x) && close(w.get_bbbv_s().unwrap(), b.solved as f64 / x), "progress per second");
            if b.solved > 0 { check(close(w.get_rqp().unwrap(), x * x / b.solved as f64) && close(w.get_etime().unwrap(), x / b.solved as f64 * w.static_params.bbbv as f64), "estimates"); }
        }
        if b.x < t.pix * w.width {
            check(w.get_x_y() == Ok((b.x as u16, b.y as u16)), "mouse");
            for z in [t.pix, 3 * t.pix, 1, 31] {
                w.set_video_playing_pix_size(z as u8);
                let (x, y) = w.get_x_y().unwrap();
                let scaled = |got: u16, at: usize| { let (a, b) = (got as usize * t.pix, at * z); a == b || (a < b && b <= a + t.pix) };
                check(scaled(x, b.x) && scaled(y, b.y), "mouse on a screen of another size");
                if z == 3 * t.pix { check((x as usize, y as usize) == (3 * b.x, 3 * b.y), "mouse on a screen three times the size"); }
            }
            w.set_video_playing_pix_size(t.pix as u8);
            check(w.get_x_y() == Ok((b.x as u16, b.y as u16)), "mouse on the first screen again");
        }
        check(w.get_pix_size() == Ok(t.pix as u8), "cell size");
        check(close(w.get_path(), v.video_action_state_recorder[k].path), "path so far");
    }
}
/// What is reported once the game is over, and only then.
fn finished(v: &Live, t: &Tape) {
    let over = matches!(t.game.game_board_state, G::Win | G::Loss);
    check(v.get_rtime().is_ok() == over && v.get_rtime_ms().is_ok() == over && v.get_bbbv_solved().is_ok() == over && v.get_ce().is_ok() == over && v.get_raw_data().is_ok() == over, "results only after the end");
    if !over { return; }
    let b = &t.game.board;
    let ms = t.rtime();
    // a game decided by its first opening click has no time of its own
    if t.played { check(v.get_rtime_ms() == Ok(ms as u32), "time in ms"); }
    check(v.is_completed == (t.game.game_board_state == G::Win), "completed means won");
    check(v.get_bbbv_solved() == Ok(t.game.bbbv_solved) && v.get_ce() == Ok(t.game.ce), "progress at the end");
    let s = &v.static_params;
    check((s.bbbv == cal_bbbv(b)) & (s.op == cal_op(b)) & (s.isl == cal_isl(b)), "measures of the board");
    let n = cal_cell_nums(b);
    check((s.cell0 == n[0]) & (s.cell1 == n[1]) & (s.cell2 == n[2]) & (s.cell3 == n[3]) & (s.cell8 == n[8]), "counts of numbers");
}
/// Pixel positions: each cell at a fixed spot inside it, and outside.
fn place(r: usize, c: usize, pix: usize) -> (usize, usize) { spot(pick(0, (r * c) as u64), r, c, pix) }
fn spot(p: usize, r: usize, c: usize, pix: usize) -> (usize, usize) {
    if p == r * c { (r * pix, c * pix) } else { (p / c * pix + (p * 5) % pix, p % c * pix + pix - 1 - p % pix) }
}
const SCRIPTS: [&[&str]; 12] = [&[], &["lc", "lr"], &["mv", "rc", "rr", "lc", "lr"], &["rc", "rr", "rc"], &["pf", "lc", "lr"], &["lc", "lr", "lc", "rc", "lr"], &["lc", "lr", "rc", "rr", "lc", "lr"], &["rc", "lc", "rr", "lr", "lc", "lr"], &["lc", "lr", "mv", "mc", "mr"], &["lc", "mv", "lr", "mv", "lc", "lr"], &["lc", "lr", "rc", "rr", "lc", "lr"], &["lc", "lr", "mv", "mv", "lc", "lr"]];
const TICKS: [u64; 8] = [1_234_567, 400_000, 99_600_499, 1_500_000, 700_000, 0, 250_999_999, 16_777];
pub fn live(b: B, pix: usize) -> Live { set_clock(1000, 0); Live::new_before_game(b, pix as u8) }
pub fn play(v: &mut Live, t: &mut Tape, r: usize, c: usize, pix: usize, script: usize, free: usize, mut f: impl FnMut(&Live, &Tape)) {
    let mut ns = 1_000_000u64;
    let mut p = (0, 0);
    for k in 0..SCRIPTS[script].len() + free {
        let fixed = k < SCRIPTS[script].len();
        let e = if fixed { SCRIPTS[script][k] } else { EVENTS[pick(0, 14)] };
        // the script begins in the first cell and then moves among three places; a free event happens anywhere
        if !fixed { p = place(r, c, pix); }
        else if matches!(e, "mv" | "lc" | "rc" | "mc" | "pf") { let q = if k == 0 { 0 } else { [0, 1, r * c - (e != "mv" && !(script == 10 && e == "rc")) as usize][pick(0, 2)] }; p = spot(q, r, c, pix); }
        // by definition only a hidden cell is flagged before the game
        if e == "pf" && matches!(t.game.game_board_state, G::Ready | G::PreFlaging) && (p.0 / pix >= r || t.game.game_board[p.0 / pix][p.1 / pix] != 10) { assume(false); }
        ns += TICKS[k % 8];
        set_clock(1000, ns);
        let a = v.step(e, p).is_ok();
        check(a == t.step(e, p, ns), "an event is refused exactly when the game refuses it");
        f(v, t);
    }
}
fn mines(b: &B) -> usize { let mut n = 0; for r in b { for x in r { n += (*x == -1) as usize; } } n }
entries! {
    // playing with a recorder: what: 0 the records, 1 usefulness, counters and positions, 2 results
    fn h_record(what, r, c, pix, script, free) {
        let b = any_board(r, c);
        set_clock(1000, 0);
        let mut v = Live::new_before_game(b.clone(), pix as u8);
        check(v.mine_num == mines(&b), "mines"); check(v.height == r && v.width == c, "size");
        let mut t = Tape::new(b, pix);
        play(&mut v, &mut t, r, c, pix, script, free, |_, _| ());
        if what < 2 { recorded(&v, &t, what); } else { finished(&v, &t); }
        observe(v.video_action_state_recorder.len() as u64);
        reach(if matches!(v.game_board_state, G::Win | G::Loss) { 1 } else { 2 });
    }
    // who may change and read what, and when
    fn h_gate(st) {
        let s = STATES[st];
        set_clock(1000, 5_000_000);
        let mut v = Live::new_before_game(vec![vec![0, 1], vec![1, -1]], 16);
        for _ in 0..2 { v.video_action_state_recorder.push(Default::default()); }
        v.game_board_state = s;
        let over = matches!(s, G::Win | G::Loss);
        let (done, show) = (over || s == G::Display, s == G::Display);
        let (o, f, m, p) = (sym_bool(), sym_bool(), sym(16) as u16, sym_in(1, 255) as u8);
        let kept = |new: &Vec<u8>, got: &Vec<u8>, old: &Vec<u8>, ok: bool| { let w = if ok { new } else { old }; let mut t = got.len() == w.len(); if t { for k in 0..w.len() { t &= w[k] == got[k]; } } t };
        let (o0, f0, m0, p0) = (v.is_offical, v.is_fair, v.mode, v.cell_pixel_size);
        check(v.set_is_offical(o).is_ok() == over, "official only after the end"); check(v.is_offical == (if over { o } else { o0 }), "official");
        check(v.set_is_fair(f).is_ok() == over, "fair only after the end"); check(v.is_fair == (if over { f } else { f0 }), "fair");
        check(v.set_mode(m).is_ok() == over, "mode only after the end"); check(v.mode == (if over { m } else { m0 }), "mode");
        let pix = over || s == G::Ready;
        check(v.set_pix_size(p).is_ok() == pix, "cell size not during a game"); check(v.cell_pixel_size == (if pix { p } else { p0 }), "cell size");
        macro_rules! field { ($set:ident, $f:ident, $ok:expr) => { let (n, old) = (text(2), v.$f.clone()); check(v.$set(n.clone()).is_ok() == $ok, stringify!($set)); check(kept(&n, &v.$f, &old, $ok), stringify!($f)); } }
        field!(set_software, software, over || s == G::Ready);
        field!(set_player_designator, player_designator, over); field!(set_race_designator, race_designator, over); field!(set_uniqueness_designator, uniqueness_designator, over);
        field!(set_start_time, start_time, over); field!(set_end_time, end_time, over); field!(set_country, country, over); field!(set_device_uuid, device_uuid, over);
        let sum = crate::evf::any_sum();
        check(v.set_checksum(sum).is_ok() == over, "checksum only after the end");
        let mut t = true;
        for k in 0..32 { t &= v.checksum[k] == if over { sum[k] } else { 0 }; }
        check(t, "checksum");
        check(v.set_rtime(1.0).is_err(), "the time of a played game cannot be set");
        check(v.get_rtime().is_ok() == done && v.get_rtime_ms().is_ok() == done && v.get_raw_data().is_ok() == done && v.get_checksum().is_ok() == done, "results after the end");
        check(v.get_bbbv_solved().is_ok() == done && v.get_ce().is_ok() == done && v.get_etime().is_ok() == done && v.get_bbbv_s().is_ok() == done && v.get_stnb().is_ok() == done && v.get_rqp().is_ok() == done && v.get_qg().is_ok() == done, "measures after the end");
        check(v.get_ce_s().is_ok() == done && v.get_corr().is_ok() == done && v.get_thrp().is_ok() == done && v.get_ioe().is_ok() == done && v.get_op_solved().is_ok() == done && v.get_isl_solved().is_ok() == done, "rates after the end");
        check(v.get_video_start_time().is_ok() == show && v.get_video_end_time().is_ok() == show && v.get_x_y().is_ok() == show && v.get_pix_size().is_ok() == show && v.set_current_event_id(1).is_ok() == show, "playback only of a recording");
        let b = vec![vec![0, 0], vec![0, 0]];
        let live = matches!(s, G::Ready | G::PreFlaging | G::Playing);
        check(v.set_board(b.clone()).is_ok() == live, "board only before the end");
        check(v.set_board(vec![vec![0, 0, 0]]).is_err(), "board of another size");
        check((v.mine_num == 0) == live, "mines of the new board");
        reach(1);
    }
    // the clock: every time is the whole millisecond nearest to what elapsed
    fn h_clock(secs) {
        set_clock(1000, 0);
        let mut v = Live::new_before_game(vec![vec![1, -1, 1, -1, 1]], 16);
        let mut at = [0u64; 6];
        let (mut s, mut us) = (0u64, 0u64);
        // whole seconds from a list, and up to an eighth of a second more, free to the microsecond
        for k in 0..6 {
            s += if secs == 0 { 0 } else { [0, 3, 0, 59, 1, 1000][k] };
            us += sym(17);
            at[k] = s * 1_000_000 + us;
            set_clock(1000 + s, us * 1000 + 999);
            set_wall(1_700_000_000, 0);
            let e = ["lc", "lr", "lc", "lr", "lc", "lr"][k];
            check(v.step(e, (3, [5, 5, 40, 40, 70, 70][k])).is_ok(), "played");
            if k >= 1 { check(v.get_time() == (near(at[k] - at[0]) - near(at[1] - at[0])) as f64 / 1000.0, "the clock of the game"); }
        }
        check(v.game_board_state == G::Win, "won");
        for k in 0..6 { check(v.video_action_state_recorder[k].time == near(at[k] - at[0]) as f64 / 1000.0, "time since the first record"); }
        let ms = near(at[5] - at[0]) - near(at[1] - at[0]);
        check(v.get_rtime_ms() == Ok(ms as u32) && v.get_rtime() == Ok(ms as f64 / 1000.0), "the time of the game");
        check(v.start_time == b"1700000000000000" && v.end_time == b"1700000000000000", "calendar");
        reach(1);
    }
    // a played game, stored and read back, is analysed to what was recorded live
    fn h_replay(what, r, c, pix, script, free) {
        let b = any_board(r, c);
        set_clock(1000, 0);
        let mut v = Live::new_before_game(b.clone(), pix as u8);
        let mut t = Tape::new(b, pix);
        play(&mut v, &mut t, r, c, pix, script, free, |_, _| ());
        if !matches!(v.game_board_state, G::Win | G::Loss) { reach(2); return; }
        v.generate_evf_v0_raw_data();
        file("a.evf", &v.get_raw_data().unwrap());
        let mut w = EvfVideo::new("a.evf");
        check(w.parse_video().is_ok(), "the recording is read back");
        let w = &mut w.data;
        check(same(&w.board, &t.game.board) && w.mine_num == v.mine_num && w.cell_pixel_size as usize == pix, "board");
        check(w.get_rtime_ms() == v.get_rtime_ms() && w.get_rtime() == v.get_rtime() && w.is_completed == v.is_completed, "result");
        check(w.start_time == v.start_time && w.end_time == v.end_time && w.static_params.bbbv == v.static_params.bbbv, "header");
        w.analyse();
        replayed(w, &v, &t, what);
        reach(1);
    }
    // the chances shown with each event of a stored game are those of the position shown
    fn h_chances_shown(r, c, script, free) {
        let b = any_board(r, c);
        set_clock(1000, 0);
        let mut v = Live::new_before_game(b.clone(), 16);
        let mut t = Tape::new(b, 16);
        play(&mut v, &mut t, r, c, 16, script, free, |_, _| ());
        if !matches!(v.game_board_state, G::Win | G::Loss) { reach(2); return; }
        v.generate_evf_v0_raw_data();
        file("a.evf", &v.get_raw_data().unwrap());
        let mut w = EvfVideo::new("a.evf");
        check(w.parse_video().is_ok(), "the recording is read back");
        let w = &mut w.data;
        w.analyse();
        let n = concrete(w.mine_num as u64) as usize;
        let even = n as f64 / (r * c) as f64;
        for k in (0..t.log.len()).rev() {
            w.set_current_event_id(k).unwrap();
            let got = w.get_game_board_poss();
            let open = t.log[..k + 1].iter().any(|x| x.level >= 2);
            let want = if open {
                let mut g = GameBoard::new(n);
                g.set_game_board(&t.boards[t.log[k].next]);
                g.get_poss().clone()
            } else { vec![vec![even; c]; r] };
            check(got.len() == r && got.iter().all(|x| x.len() == c), "a chance for every cell");
            let mut same = true;
            for i in 0..r { for j in 0..c { same &= close(got[i][j], want[i][j]); } }
            check(same, "the chances of the position shown");
            if open { reach(3); }
            // asking again gives the same
            let again = w.get_game_board_poss();
            check(again == got, "the same chances again");
        }
        reach(1);
    }
    // moving to a time shows the last event not later than it
    fn h_seek(n, seeks) {
        let mut v = BaseVideo::<Vec<Vec<i32>>>::default();
        let mut ts = vec![];
        let mut last = 0u64;
        for _ in 0..n {
            let t = sym(20);
            assume(t >= last);
            last = t;
            ts.push(t);
            v.video_action_state_recorder.push(Default::default());
            v.video_action_state_recorder.last_mut().unwrap().time = t as f64 / 1000.0;
        }
        v.game_board_state = G::Display;
        if pick(0, 1) == 1 {
            let id = pick(0, n as u64 - 1);
            check(v.set_current_event_id(id).is_ok(), "moving to an event");
            check(v.current_event_id == id, "the event moved to"); check(v.current_time == ts[id] as f64 / 1000.0, "its time");
        }
        for _ in 0..seeks {
            let t = sym(20);
            v.set_current_time(t as f64 / 1000.0);
            let mut want = 0usize;
            for (k, x) in ts.iter().enumerate() { want = if *x <= t { k } else { want }; }
            check(v.current_event_id == want, "the last event not later than the time");
            let clip = if t > last { last } else { t };
            check(v.current_time == clip as f64 / 1000.0, "the time shown, kept inside the recording");
            check(v.get_time() == v.current_time, "the clock shows it");
        }
        observe(v.current_event_id as u64);
        reach(1);
    }
    // a recorder used again records like a new one
    fn h_reuse(what, r, c, pix, script, free, again) {
        set_clock(1000, 0);
        // first game: another size, other cells, played by the script or given up, then perhaps signed
        let (r0, c0) = if what & 4 == 0 { (r, c) } else { (1, 2) };
        let b0 = any_board(r0, c0);
        let mut v = Live::new_before_game(b0.clone(), 7);
        let mut t = Tape::new(b0, 7);
        play(&mut v, &mut t, r0, c0, 7, script, 0, |_, _| ());
        if matches!(v.game_board_state, G::Win | G::Loss) {
            check(v.set_player_designator(b"me".to_vec()).is_ok() && v.set_software(b"s".to_vec()).is_ok(), "signed");
            if free == 0 { v.set_checksum(crate::evf::any_sum()).unwrap(); }
            if script != 1 { v.generate_evf_v0_raw_data(); v.set_checksum(crate::evf::any_sum()).unwrap(); }
            reach(3);
        }
        v.reset(r, c, pix as u8);
        let b = any_board(r, c);
        check(v.set_board(b.clone()).is_ok(), "a board after a reset");
        check(v.game_board_state == G::Ready && v.height == r && v.width == c && v.mine_num == mines(&b) && v.cell_pixel_size as usize == pix, "as new");
        check(v.video_action_state_recorder.is_empty() && v.game_board_stream.is_empty(), "nothing recorded");
        let zero = [0u8; 32];
        check(same_sum(&v.checksum, &zero), "no checksum");
        let mut u = Live::new_before_game(b.clone(), pix as u8);
        u.player_designator = v.player_designator.clone(); u.software = v.software.clone();
        let mut t = Tape::new(b, pix);
        let mut ns = 0u64;
        let mut p = (0, 0);
        for k in 0..SCRIPTS[again].len() + free {
            let fixed = k < SCRIPTS[again].len();
            let e = if fixed { SCRIPTS[again][k] } else { EVENTS[pick(0, 14)] };
            if !fixed { p = place(r, c, pix); } else if matches!(e, "mv" | "lc" | "rc" | "mc") { p = spot(if k == 0 { 0 } else { [0, 1, r * c - 1][pick(0, 2)] }, r, c, pix); }
            if e == "pf" { assume(false); }
            ns += TICKS[k % 8];
            set_clock(1005, ns);
            let (x, y) = (v.step(e, p), u.step(e, p));
            check(x.is_ok() == y.is_ok() && x.is_ok() == t.step(e, p, ns), "the same events are refused");
        }
        if what & 3 < 2 { recorded(&v, &t, what & 3); } else {
            finished(&v, &t);
            if matches!(v.game_board_state, G::Win | G::Loss) {
                check(v.get_raw_data().map(|x| x.len()) == u.get_raw_data().map(|x| x.len()), "no file before it is written");
                for w in [&mut v, &mut u] { w.generate_evf_v0_raw_data(); }
                let (x, y) = (v.get_raw_data().unwrap(), u.get_raw_data().unwrap());
                let mut same = x.len() == y.len();
                if same { for k in 0..x.len() { same &= x[k] == y[k]; } }
                check(same, "the file of a new recorder");
                reach(4);
            }
        }
        reach(if matches!(v.game_board_state, G::Win | G::Loss) { 1 } else { 2 });
    }
    // the audit: software, then its own signs, then the number of events, then completion
    fn h_valid(soft, n, how) {
        let mut v = BaseVideo::<Vec<Vec<i32>>>::default();
        let names = ["Arbiter", "Viennasweeper", "元3.2", "元3.1.7"];
        v.software = if soft < 4 { names[soft].as_bytes().to_vec() } else { text(soft - 4) };
        if soft >= 4 { for s in names { if s.len() == v.software.len() { let mut t = false; for k in 0..s.len() { t |= v.software[k] != s.as_bytes()[k]; } assume(t); } } }
        v.is_completed = sym_bool();
        v.is_fair = sym_bool();
        if how == 0 { v.checksum = crate::evf::any_sum(); }
        for _ in 0..n { v.video_action_state_recorder.push(Default::default()); }
        v.static_params.bbbv = if n == 0 { sym_in(1, 65535) } else { [0, 1, 2, 7, 65535][pick(0, 4)] } as usize;
        // ten digits and then anything, or something that is no digit among ten
        v.start_time = if how < 10 { text(how) } else { let mut x: Vec<u8> = (0..10).map(|_| 48 + sym_in(0, 9) as u8).collect(); x.extend(text(how % 5)); if how >= 20 { let q = pick(0, 9); x[q] = sym(8) as u8; let z = x[q]; assume((z < 48) | (z > 57)); } x };
        let few = n < 10 * v.static_params.bbbv;
        let early = { let mut s = 0u64; for k in 0..if how < 20 { how.min(10) } else { 0 } { s = s.wrapping_mul(10).wrapping_add((v.start_time[k] as u64).wrapping_sub(48)); } (how >= 10 && how < 20, s) };
        let alike = { let mut t = true; for k in 1..32 { t &= v.checksum[k] == v.checksum[0]; } t };
        let tail = if few { 3 } else if v.is_completed { 0 } else { 1 };
        let want = if soft >= 4 { 1 } else if soft == 1 && !early.0 { 3 } else if soft == 1 && early.1 > 1682265600 { 1 } else if soft >= 2 && (alike | !v.is_fair) { 1 } else { tail };
        let got = v.is_valid();
        check(got == want, "the verdict of the audit");
        if got == 0 { reach(1); } else { reach(2); }
        observe(got as u64);
    }
}
