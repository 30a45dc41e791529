//! The evf format: encoding, parsing, checksums, audit.
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;
use GameBoardState as G;
type Video = BaseVideo<Vec<Vec<i32>>>;
pub const KINDS: [&str; 9] = ["mv", "lc", "lr", "rc", "rr", "mc", "mr", "pf", "cc"];

/// What an evf file says.
pub struct Evf {
    pub flags: [bool; 3], pub mines: Vec<Vec<bool>>, pub mine_num: usize, pub cell: u8, pub mode: u16, pub bbbv: usize, pub ms: u32,
    pub text: Vec<Vec<u8>>, pub events: Vec<(usize, u32, u16, u16)>, pub sum: Option<[u8; 32]>,
}
/// The file, after the published description of the format.
pub fn bytes(e: &Evf) -> Vec<u8> {
    let mut o = vec![0u8, (e.flags[0] as u8) << 7 | (e.flags[1] as u8) << 6 | (e.flags[2] as u8) << 5];
    let (r, c) = (e.mines.len(), e.mines[0].len());
    o.push(r as u8); o.push(c as u8);
    o.extend_from_slice(&[(e.mine_num >> 8) as u8, e.mine_num as u8, e.cell, (e.mode >> 8) as u8, e.mode as u8, (e.bbbv >> 8) as u8, e.bbbv as u8]);
    o.extend_from_slice(&[(e.ms >> 16) as u8, (e.ms >> 8) as u8, e.ms as u8]);
    for t in &e.text { o.extend_from_slice(t); o.push(0); }
    for k in 0..(r * c + 7) / 8 {
        let mut b = 0u8;
        for i in 0..8 { let p = 8 * k + i; if p < r * c { b |= (e.mines[p / c][p % c] as u8) << (7 - i); } }
        o.push(b);
    }
    for (k, t, x, y) in &e.events { o.extend_from_slice(&[*k as u8 + 1, (*t >> 16) as u8, (*t >> 8) as u8, *t as u8, (*x >> 8) as u8, *x as u8, (*y >> 8) as u8, *y as u8]); }
    match &e.sum { Some(s) => { o.push(0); o.extend_from_slice(s); } None => o.push(255) }
    o
}
pub fn any_sum() -> [u8; 32] { let mut s = [0u8; 32]; for x in s.iter_mut() { *x = sym(8) as u8; } s }
fn any_text(n: usize) -> Vec<u8> { (0..n).map(|_| { let b = sym(8) as u8; assume(b != 0); b }).collect() }
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut t = true;
    for k in 0..a.len() { t &= a[k] == b[k]; }
    t
}
/// A file about a game of the given size with free contents; text lengths are the digits of `lens`.
fn any_evf(r: usize, c: usize, lens: usize, n: usize, sum: bool, early: bool) -> Evf {
    let mut l = lens;
    let mut text = vec![];
    for _ in 0..8 { text.push(any_text(l % 10)); l /= 10; }
    Evf {
        flags: [sym_bool(), sym_bool(), sym_bool()], mines: any_mines(r, c), mine_num: sym(16) as usize, cell: sym(8) as u8, mode: sym(16) as u16, bbbv: sym(16) as usize, ms: sym(24) as u32,
        text, events: (0..n).map(|_| (if early { pick(0, 8) } else { sym_in(0, 8) as usize }, sym(24) as u32, sym(16) as u16, sym(16) as u16)).collect(),
        sum: if sum { Some(any_sum()) } else { None },
    }
}
fn texts<T>(v: &BaseVideo<T>) -> [&Vec<u8>; 8] { [&v.software, &v.player_designator, &v.race_designator, &v.uniqueness_designator, &v.start_time, &v.end_time, &v.country, &v.device_uuid] }
fn compare(v: &Video, e: &Evf) {
    check((v.is_completed == e.flags[0]) & (v.is_offical == e.flags[1]) & (v.is_fair == e.flags[2]), "flags of the game");
    check((v.height == e.mines.len()) & (v.width == e.mines[0].len()), "size of the board");
    check((v.mine_num == e.mine_num) & (v.mode == e.mode) & (v.cell_pixel_size == e.cell) & (v.static_params.bbbv == e.bbbv), "numbers about the game");
    let b = number(&e.mines);
    let mut t = v.board.len() == b.len();
    check(t, "rows");
    for i in 0..b.len() { check(v.board[i].len() == b[i].len(), "columns"); for j in 0..b[0].len() { t &= v.board[i][j] == b[i][j]; } }
    check(t, "board");
    check(v.get_rtime_ms() == Ok(e.ms), "time in ms");
    check(v.get_rtime() == Ok(e.ms as f64 / 1000.0), "time");
    for (a, b) in texts(v).iter().zip(e.text.iter()) { check(same_bytes(a, b), "texts"); }
    check(v.video_action_state_recorder.len() == e.events.len(), "number of events");
    for (a, (k, t, x, y)) in v.video_action_state_recorder.iter().zip(e.events.iter()) {
        check(a.mouse == KINDS[concrete(*k as u64) as usize], "kind of event");
        check((a.x == *x) & (a.y == *y), "place of event");
        check(a.time == *t as f64 / 1000.0, "time of event");
    }
    let s = v.get_checksum().unwrap();
    let none = [0u8; 32];
    check(same_bytes(&s, e.sum.as_ref().unwrap_or(&none)), "checksum");
    check(v.game_board_state == G::Display && v.can_analyse, "ready to analyse");
    let beginner = (v.height == 8) & (v.width == 8) & (v.mine_num == 10);
    check((v.level == 3) == beginner, "level");
}
fn open(name: &str, d: &[u8]) -> EvfVideo { file(name, d); EvfVideo::new(name) }
entries! {
    // a file of the format is read as what it says, and encoding what was read gives it back
    fn h_evf(r, c, lens, n, sum) {
        let e = any_evf(r, c, lens, n, sum == 1, false);
        let d = bytes(&e);
        let mut v = open("a.evf", &d);
        check(v.parse_video().is_ok(), "a correct file is read");
        compare(&v.data, &e);
        v.data.generate_evf_v0_raw_data();
        let g = v.data.get_raw_data().unwrap();
        check(same_bytes(&g, &d), "what was read is written back");
        observe(g.len() as u64);
        reach(1);
    }
    // a played game is written as the format says, with its checksum set before or after encoding
    fn h_evf_write(r, c, lens, n, how) {
        let mut e = any_evf(r, c, lens, n, how > 0, true);
        e.ms = 0;
        let mut v = Video::default();
        v.height = r; v.width = c; v.mine_num = e.mine_num; v.cell_pixel_size = e.cell; v.static_params.bbbv = e.bbbv;
        v.board = number(&e.mines);
        v.is_completed = e.flags[0];
        v.game_board_state = if sym_bool() { G::Win } else { G::Loss };
        check(v.set_is_offical(e.flags[1]).is_ok() && v.set_is_fair(e.flags[2]).is_ok() && v.set_mode(e.mode).is_ok(), "set after the game");
        check(v.set_software(e.text[0].clone()).is_ok() && v.set_player_designator(e.text[1].clone()).is_ok() && v.set_race_designator(e.text[2].clone()).is_ok() && v.set_uniqueness_designator(e.text[3].clone()).is_ok(), "set after the game");
        check(v.set_start_time(e.text[4].clone()).is_ok() && v.set_end_time(e.text[5].clone()).is_ok() && v.set_country(e.text[6].clone()).is_ok() && v.set_device_uuid(e.text[7].clone()).is_ok(), "set after the game");
        for (k, t, x, y) in &e.events {
            v.video_action_state_recorder.push(Default::default());
            let a = v.video_action_state_recorder.last_mut().unwrap();
            a.mouse = KINDS[*k].to_string(); a.time = *t as f64 / 1000.0; a.x = *x; a.y = *y;
        }
        // 1: before, 2: after, 3: before and after, 4: twice after
        let wrong = any_sum();
        if how == 1 { check(v.set_checksum(e.sum.unwrap()).is_ok(), "checksum before encoding"); }
        if how == 3 { check(v.set_checksum(wrong).is_ok(), "checksum before encoding"); }
        v.generate_evf_v0_raw_data();
        if how == 4 { check(v.set_checksum(wrong).is_ok(), "checksum after encoding"); }
        if how >= 2 { check(v.set_checksum(e.sum.unwrap()).is_ok(), "checksum after encoding"); }
        if how > 0 { check(same_bytes(&v.get_checksum().unwrap(), &e.sum.unwrap()), "checksum is kept"); }
        let d = v.get_raw_data().unwrap();
        check(same_bytes(&d, &bytes(&e)), "the file follows the format");
        let mut w = open("b.evf", &d);
        check(w.parse_video().is_ok(), "the file is read");
        compare(&w.data, &e);
        // encoding again changes nothing
        v.generate_evf_v0_raw_data();
        check(same_bytes(&v.get_raw_data().unwrap(), &d), "encoding is repeatable");
        observe(d.len() as u64);
        reach(1);
    }
    // any bytes: an error or a consistent video, never a crash
    fn h_evf_any(n, texts) {
        let mut d: Vec<u8> = (0..n).map(|_| sym(8) as u8).collect();
        // sizes worth the trouble; any others only read more bytes than there are
        if n > 3 { let a = pick(0, 5); d[2] = [0, 1, 2, 3, 9, 255][a]; let a = pick(0, 5); d[3] = [0, 1, 2, 4, 9, 255][a]; }
        if texts == 0 { for k in 14..n.min(22) { d[k] = 0; } }
        let mut v = open("a.evf", &d);
        let ok = v.parse_video().is_ok();
        check(v.data.can_analyse == ok, "only a read video can be analysed");
        if ok {
            let v = &v.data;
            check(v.height >= 1 && v.width >= 1 && v.height == d[2] as usize && v.width == d[3] as usize, "size");
            check(v.board.len() == v.height, "rows");
            let mut t = true;
            let m: Vec<Vec<bool>> = v.board.iter().map(|r| r.iter().map(|x| *x == -1).collect()).collect();
            let b = number(&m);
            for i in 0..v.height { check(v.board[i].len() == v.width, "columns"); for j in 0..v.width { t &= v.board[i][j] == b[i][j]; } }
            check(t, "numbers");
            reach(1);
        } else { reach(2); }
        observe(ok as u64);
    }
    // every representable time survives: low bits free, high bits split
    fn h_evf_time(free, lo, hi) {
        let t = ((pick(lo as u64, hi as u64) as u32) << free) | sym(free as u32) as u32;
        let e = Evf { flags: [true; 3], mines: vec![vec![false]], mine_num: 0, cell: 16, mode: 0, bbbv: 1, ms: t, text: vec![vec![]; 8], events: vec![(0, t, 0, 0)], sum: None };
        let d = bytes(&e);
        let mut v = open("a.evf", &d);
        check(v.parse_video().is_ok(), "a correct file is read");
        check(v.data.get_rtime_ms() == Ok(t), "time in ms");
        v.data.generate_evf_v0_raw_data();
        check(same_bytes(&v.data.get_raw_data().unwrap(), &d), "times are written back");
        reach(1);
    }
}
