//! The avf, rmv and mvf formats: what is in the file is what is read; no bytes crash a parser.
use crate::rt::*;
use crate::spec::*;
use ms_toollib::*;
type Video = BaseVideo<Vec<Vec<i32>>>;
fn be(o: &mut Vec<u8>, v: usize, n: usize) { for k in (0..n).rev() { o.push((v >> (8 * k)) as u8); } }
fn gap(o: &mut Vec<u8>, n: usize) { for k in 0..n { o.push(0x80 | k as u8); } }
fn same_bytes(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut t = true; for k in 0..a.len() { t &= a[k] == b[k]; } t }
fn close(a: f64, b: f64) -> bool { let d = a - b; d < 1e-6 && d > -1e-6 }

/// One event of an old format: kind in the file, place, and time.
type Ev = (u8, u16, u16, u32);
struct Game { w: usize, h: usize, mines: Vec<(u8, u8)>, name: Vec<u8>, bbbv: usize, events: Vec<Ev> }
fn board_of(g: &Game) -> B {
    let mut m = vec![vec![false; g.w]; g.h];
    for (x, y) in &g.mines { for i in 0..g.h { for j in 0..g.w { m[i][j] |= (*x as usize == j) & (*y as usize == i); } } }
    number(&m)
}
fn same_board(v: &Video, g: &Game, d: &B) {
    check(v.width == g.w && v.height == g.h && v.mine_num == g.mines.len(), "size and mines");
    check(v.board.len() == g.h, "rows");
    let mut t = true;
    for i in 0..g.h { check(v.board[i].len() == g.w, "columns"); for j in 0..g.w { t &= v.board[i][j] == d[i][j]; } }
    check(t, "board");
}
/// Mines anywhere on the board, one place each at most for a reader of either order.
fn any_mines_list(w: usize, h: usize, n: usize) -> Vec<(u8, u8)> { (0..n).map(|_| (sym_in(0, w as u64 - 1) as u8, sym_in(0, h as u64 - 1) as u8)).collect() }
fn any_name(n: usize) -> Vec<u8> { (0..n).map(|_| { let b = sym(8) as u8; assume(b != 13); b }).collect() }

const BBBV: [(&str, usize); 4] = [("0", 0), ("7", 7), ("042", 42), ("381", 381)];
const SECS: [(&str, u32); 5] = [("1.00", 0), ("2.5", 1500), ("13,07", 12070), ("1000.99", 999990), ("1.01", 10)];
// kinds of an arbiter file and what they mean; "sc" never comes from a game analysed here but is read
const AVF: [(u8, &str); 10] = [(1, "mv"), (3, "lc"), (5, "lr"), (9, "rc"), (17, "rr"), (33, "mc"), (65, "mr"), (145, "rr"), (193, "mr"), (21, "lr")];
/// The time of an event is seconds counted from one and hundredths.
fn avf(g: &Game, times: &[(u16, u8)], level: u8, st: &[u8], en: &[u8], b: usize, s: usize) -> Vec<u8> {
    let mut o = vec![77, 0, 0, 0, 0, level];
    if level == 6 { o.push(g.w as u8 - 1); o.push(g.h as u8 - 1); be(&mut o, g.mines.len(), 2); }
    for (x, y) in &g.mines { o.push(y + 1); o.push(x + 1); }
    o.extend_from_slice(b"\x17\x05[1|"); o.extend_from_slice(st); o.push(b'|'); o.extend_from_slice(en);
    o.extend_from_slice(b"|B"); o.extend_from_slice(BBBV[b].0.as_bytes()); o.push(b'T'); o.extend_from_slice(SECS[s].0.as_bytes()); o.extend_from_slice(b"]\x02\xf0");
    for ((k, x, y, _), (sec, cs)) in g.events.iter().zip(times) {
        o.extend_from_slice(&[*k, (x >> 8) as u8, *sec as u8, *x as u8, *cs, (y >> 8) as u8, (sec >> 8) as u8, *y as u8]);
    }
    o.extend_from_slice(&[0, 7, 0, 7, 7, 7, 0, 7]);
    o.extend_from_slice(b"cs=1 \x01Skin: none\r"); o.extend_from_slice(&g.name); o.extend_from_slice(b"\rend");
    o
}
const RMV: [&str; 8] = ["", "mv", "lc", "lr", "rc", "rr", "mc", "mr"];
struct Rmv { flags: Vec<(u8, u8)>, nf: u8, mode: u8, level: u8, players: usize, country: Vec<u8>, stamp: Vec<u8>, old: bool, digits: &'static str }
fn rmv(g: &Game, p: &Rmv) -> Vec<u8> {
    let mut o = b"*rmv".to_vec();
    be(&mut o, 1, 2); gap(&mut o, 4);
    let (result, version, props) = (if p.old { 20 } else { 40 }, 5, 7);
    be(&mut o, result, 2); be(&mut o, version, 2); gap(&mut o, 4); be(&mut o, p.flags.len() * 2, 2); be(&mut o, props, 2); gap(&mut o, 7);
    if p.old { gap(&mut o, result - 3); } else { gap(&mut o, result - 32); o.extend_from_slice(p.digits.as_bytes()); gap(&mut o, 16); o.extend_from_slice(&p.stamp); }
    gap(&mut o, version + 2);
    be(&mut o, p.players, 2);
    if p.players > 0 { o.push(g.name.len() as u8); o.extend_from_slice(&g.name); }
    if p.players > 1 { o.push(3); gap(&mut o, 3); }
    if p.players > 2 { o.push(p.country.len() as u8); o.extend_from_slice(&p.country); }
    if p.players > 3 { o.push(2); gap(&mut o, 2); }
    gap(&mut o, 4);
    o.push(g.w as u8); o.push(g.h as u8); be(&mut o, g.mines.len(), 2);
    for (x, y) in &g.mines { o.push(*x); o.push(*y); }
    if !p.flags.is_empty() { be(&mut o, p.flags.len(), 2); for (x, y) in &p.flags { o.push(*x); o.push(*y); } }
    gap(&mut o, 1); o.push(p.nf); o.push(p.mode); o.push(p.level); gap(&mut o, props - 4);
    for (i, (k, x, y, t)) in g.events.iter().enumerate() {
        if i == 1 { o.push(0); gap(&mut o, 4); o.push(9); gap(&mut o, 2); o.push(20); gap(&mut o, 2); }
        o.push(*k); be(&mut o, *t as usize, 3); o.push(0x5a); be(&mut o, x.wrapping_add(12) as usize, 2); be(&mut o, y.wrapping_add(56) as usize, 2);
    }
    o.push(16);
    o
}
/// The order of the bits of an event, drawn from the number at the head of the events.
fn order(lead: u16) -> Vec<(usize, usize)> {
    let a = lead as f64;
    let (r, s) = (a.sqrt(), (a + 1000.0).sqrt());
    let t = (r + 1000.0).sqrt();
    let mut code = String::new();
    for x in [(t + 1000.0).cos(), s.sqrt().sin(), t.cos(), (r.sqrt() + 1000.0).sin(), (s + 1000.0).sqrt().cos()] { code.push_str(&format!("{:08}", (x * 1e8).abs().round() as usize)[..8]); }
    let mut o = vec![];
    for d in b'0'..=b'9' { for (j, c) in code.bytes().enumerate() { if c == d { o.push((j / 8, j % 8)); } } }
    o
}
/// The state of buttons and mouse in one entry of an mvf file: right, middle, left, x, y, hundredths, seconds.
type State = (bool, bool, bool, u16, u16, u16, u16);
fn mvf(g: &Game, lead: u16, level: u8, mode: u8, score: (u16, u8), st: &[State]) -> Vec<u8> {
    let mut o = vec![0x11, 0x4d];
    gap(&mut o, 25); o.push(b'5'); gap(&mut o, 46);
    o.extend_from_slice(&[7, 9, 0x07, 0xd9, 10, 11, 12, level, mode]);
    be(&mut o, score.0 as usize, 2); o.push(score.1); be(&mut o, g.bbbv, 2); gap(&mut o, 9);
    o.push(g.w as u8); o.push(g.h as u8); be(&mut o, g.mines.len(), 2);
    for (x, y) in &g.mines { o.push(x + 1); o.push(y + 1); }
    o.push(g.name.len() as u8); o.extend_from_slice(&g.name);
    be(&mut o, lead as usize, 2); be(&mut o, st.len(), 3);
    let p = order(lead);
    for s in st {
        let mut e = [0u8; 5];
        let mut put = |n: usize, b: bool| e[p[n].0] |= (b as u8) << p[n].1;
        put(0, s.0); put(1, s.1); put(2, s.2);
        for j in 0..9 { put(3 + j, s.4 >> j & 1 == 1); put(12 + j, s.3 >> j & 1 == 1); }
        for j in 0..7 { put(21 + j, s.5 >> j & 1 == 1); }
        for j in 0..10 { put(28 + j, s.6 >> j & 1 == 1); }
        o.extend_from_slice(&e);
    }
    o
}
/// A correct file of each format, to be damaged.
fn sample(fmt: usize) -> Vec<u8> {
    let mut g = Game { w: 3, h: 2, mines: vec![(0, 0), (2, 1)], name: b"ab".to_vec(), bbbv: 5, events: vec![] };
    match fmt {
        0 => { g.events = vec![(3, 20, 5, 0), (5, 20, 5, 0), (1, 30, 5, 0)]; avf(&g, &[(1, 0), (1, 7), (2, 20)], 6, b"s", b"e", 1, 1) }
        1 => { g.events = vec![(2, 20, 5, 0), (3, 20, 5, 70), (4, 40, 20, 1200)]; rmv(&g, &Rmv { flags: vec![(1, 1)], nf: 0, mode: 0, level: 1, players: 4, country: b"XY".to_vec(), stamp: b"1234567890".to_vec(), old: false, digits: "005" }) }
        2 => mvf(&g, 777, 1, 1, (12, 34), &[(false, false, true, 20, 5, 3, 0), (false, false, false, 20, 5, 9, 0), (true, false, false, 40, 5, 9, 1)]),
        _ => crate::evf::bytes(&crate::evf::Evf { flags: [true; 3], mines: vec![vec![true, false, false], vec![false, false, true]], mine_num: 2, cell: 16, mode: 0, bbbv: 2, ms: 1234, text: (0..8).map(|k| vec![b'a' + k; (k % 3) as usize]).collect(), events: vec![(1, 0, 20, 5), (2, 70, 20, 5)], sum: Some([9; 32]) }),
    }
}
fn parse(fmt: usize, d: &[u8]) -> (bool, Video) {
    file("a.vid", d);
    match fmt {
        0 => { let mut v = AvfVideo::new("a.vid"); (v.parse_video().is_ok(), v.data) }
        1 => { let mut v = RmvVideo::new("a.vid"); (v.parse_video().is_ok(), v.data) }
        2 => { let mut v = MvfVideo::new("a.vid"); (v.parse_video().is_ok(), v.data) }
        _ => { let mut v = EvfVideo::new("a.vid"); (v.parse_video().is_ok(), v.data) }
    }
}
/// Whatever was in the file: an error, or a board that is one.
fn sane(ok: bool, v: &Video) {
    check(v.can_analyse == ok, "only a read video can be analysed");
    if !ok { reach(2); return; }
    check(v.height >= 1 && v.width >= 1 && v.board.len() == v.height, "size");
    let m: Vec<Vec<bool>> = v.board.iter().map(|r| r.iter().map(|x| *x == -1).collect()).collect();
    for r in &m { check(r.len() == v.width, "columns"); }
    let b = number(&m);
    let mut t = true;
    for i in 0..v.height { for j in 0..v.width { t &= v.board[i][j] == b[i][j]; } }
    check(t, "numbers");
    reach(1);
}
entries! {
    // free bytes at one place of a correct file
    fn h_damaged(fmt, at, n) {
        let mut d = sample(fmt);
        for k in at..(at + n).min(d.len()) { d[k] = sym(8) as u8; }
        let (r, v) = parse(fmt, &d);
        sane(r, &v);
        observe(r as u64);
    }
    // cut off anywhere
    fn h_cut(fmt) {
        let d = sample(fmt);
        let n = pick(0, d.len() as u64);
        let (r, v) = parse(fmt, &d[..n]);
        if n == d.len() { check(r, "a correct file is read"); }
        sane(r, &v);
    }
    // nothing but free bytes
    fn h_noise(fmt, n, head) {
        let mut d: Vec<u8> = (0..n).map(|_| sym(8) as u8).collect();
        let s = sample(fmt);
        for k in 0..head.min(n) { d[k] = s[k]; }
        let (r, v) = parse(fmt, &d);
        sane(r, &v);
    }
    fn h_avf(level, w, h, mines, n, form) {
        let mut g = Game { w, h, mines: vec![], name: any_name(form % 4), bbbv: 0, events: vec![] };
        if level != 6 { let (w, h, m) = [(8, 8, 10), (16, 16, 40), (30, 16, 99)][level - 3]; g.w = w; g.h = h; g.mines = (0..m).map(|k| ((k * 7 % w) as u8, (k * 7 / w % h) as u8)).collect(); }
        else { g.mines = any_mines_list(w, h, mines); }
        let (mut want, mut times) = (vec![], vec![]);
        for k in 0..n {
            let q = pick(0, if k == 0 { 1 } else { 9 });
            let q = if k == 0 { [1, 3][q] } else { q };
            let (x, y) = (sym(9) as u16, sym(16) as u16);
            times.push((if k == 0 { 1 } else { sym(16) as u16 }, sym_in(0, 99) as u8));
            assume(times[k].0 >= 1);
            g.events.push((AVF[q].0, x, y, 0));
            want.push(AVF[q].1);
        }
        let text = |n: u64| -> Vec<u8> { (0..n).map(|_| { let b = sym(8) as u8; assume(b != b'|'); b }).collect() };
        let (st, en, b, s) = (text(form as u64 % 3), text(form as u64 % 2), form % 4, form % 5);
        let d = avf(&g, &times, level as u8, &st, &en, b, s);
        let (r, v) = parse(0, &d);
        check(r && v.can_analyse, "a correct file is read");
        same_board(&v, &g, &board_of(&g));
        check(v.level as usize == level && v.is_offical && v.is_fair, "kind of game");
        check(v.static_params.bbbv == BBBV[b].1, "3BV"); check(v.get_rtime_ms() == Ok(SECS[s].1) && close(v.get_rtime().unwrap(), SECS[s].1 as f64 / 1000.0), "time");
        check(same_bytes(&v.player_designator, &g.name) && same_bytes(&v.start_time, &st) && same_bytes(&v.end_time, &en), "texts");
        check(v.video_action_state_recorder.len() == n, "number of events");
        for k in 0..n {
            let (a, e) = (&v.video_action_state_recorder[k], &g.events[k]);
            check(a.mouse == want[k] && (a.x == e.1) & (a.y == e.2), "event");
            let t = times[k].0 as f64 - 1.0 + times[k].1 as f64 / 100.0;
            check(a.time == t || close(a.time, t), "time of event");
        }
        reach(1);
    }
    fn h_rmv(w, h, mines, flags, n, form) {
        let mut g = Game { w, h, mines: any_mines_list(w, h, mines), name: any_name(2), bbbv: 0, events: vec![] };
        for k in 0..n { g.events.push((pick(1, 7) as u8, sym(16) as u16, sym(16) as u16, sym(24) as u32)); let _ = k; }
        let digits = [("381", 381), ("007", 7), (" 42", 42), ("0  ", 0)][(form + n + flags) % 4];
        let p = Rmv { flags: any_mines_list(w, h, flags), nf: sym_in(0, 2) as u8, mode: sym(8) as u8, level: sym_in(0, 252) as u8, players: form % 5, country: any_name(3), stamp: any_name(10), old: form >= 5, digits: digits.0 };
        let d = rmv(&g, &p);
        let (r, v) = parse(1, &d);
        check(r == (n + flags > 0), "a correct file is read");
        if n + flags == 0 { reach(2); return; }
        same_board(&v, &g, &board_of(&g));
        check((v.level == p.level + 3) & (v.mode == p.mode as u16) & (v.nf == (p.nf == 1)), "kind of game");
        check(v.static_params.bbbv == if p.old { 0 } else { digits.1 } && (p.old || same_bytes(&v.start_time, &p.stamp)), "result");
        let none: &[u8] = &[];
        check(same_bytes(&v.player_designator, if p.players > 0 { &g.name } else { none }) && same_bytes(&v.country, if p.players > 2 { &p.country } else { none }), "player");
        let ev = &v.video_action_state_recorder;
        check(ev.len() == flags + n + (n > 0) as usize, "number of events");
        for k in 0..flags { check(ev[k].mouse == "pf" && (ev[k].x == p.flags[k].0 as u16 * 16) & (ev[k].y == p.flags[k].1 as u16 * 16) && ev[k].time == 0.0, "flag set before the game"); }
        for k in 0..n + (n > 0) as usize {
            let (a, e) = (&ev[flags + k], &g.events[k.saturating_sub(1)]);
            let out = (e.1 >= w as u16 * 16) | (e.2 >= h as u16 * 16);
            // the file leaves out the first press
            check(a.mouse == if k == 0 { "lc" } else { RMV[e.0 as usize] }, "kind of event");
            check((a.x == if out { w as u16 * 16 } else { e.1 }) & (a.y == if out { h as u16 * 16 } else { e.2 }), "place of event");
            check(a.time == e.3 as f64 / 1000.0, "time of event");
        }
        if n > 0 { check(v.get_rtime_ms() == Ok(g.events[n - 1].3), "time"); }
        reach(1);
    }
    // one: 0 every button at every record, else only this one, at places that change or not
    fn h_mvf(w, h, mines, n, lead, one) {
        let g = Game { w, h, mines: any_mines_list(w, h, mines), name: any_name(2), bbbv: sym(16) as usize, events: vec![] };
        let mut st: Vec<State> = vec![];
        for k in 0..n {
            // buttons decided, places and times free
            let b = if one == 0 { pick(0, 7) } else { pick(0, 1) * one };
            let s = if one > 0 { (b & 1 == 1, b & 2 == 2, b & 4 == 4, 16 * (k as u16 + 1) / 2, sym(9) as u16 % 2 + 3, k as u16 * 7, k as u16) } else { (b & 1 == 1, b & 2 == 2, b & 4 == 4, sym(9) as u16, sym(9) as u16, sym_in(0, 99) as u16, sym(10) as u16) };
            // the second entry moves, so that what came before the first does not matter
            if k == 1 { assume((s.3 != st[0].3) & (s.3 != 0)); }
            st.push(s);
        }
        let (level, mode, score) = (sym_in(0, 253) as u8, pick(0, 4), (sym_in(0, 999) as u16, sym_in(0, 99) as u8));
        let d = mvf(&g, lead as u16, level, mode as u8, score, &st);
        let (r, v) = parse(2, &d);
        check(r && v.can_analyse, "a correct file is read");
        same_board(&v, &g, &board_of(&g));
        check((v.level == level + 2) & (v.mode == [2, 0, 3, 1, 2][mode]), "kind of game");
        check(v.static_params.bbbv == g.bbbv && same_bytes(&v.player_designator, &g.name), "result");
        check(v.get_rtime_ms() == Ok(score.0 as u32 * 1000 + score.1 as u32 * 10), "time");
        let mut k = 0;
        let ev = &v.video_action_state_recorder;
        let mut one = |what: &str, s: &State| {
            check(k < ev.len(), "every change of state is an event");
            let a = &ev[k];
            check(a.mouse == what, "kind of event"); check((a.x == s.3) & (a.y == s.4), "place of event");
            check(a.time == (s.5 * 10) as f64 / 1000.0 + s.6 as f64, "time of event");
            k += 1;
        };
        for i in 0..n {
            let s = &st[i];
            if i == 0 { one(if s.1 { "mc" } else if s.0 { "rc" } else if s.2 { "lc" } else { "mv" }, s); continue; }
            let p = &st[i - 1];
            if (s.3 != p.3) | (s.4 != p.4) { one("mv", s); }
            if s.2 & !p.2 { one("lc", s); }
            if s.0 & !p.0 { one("rc", s); }
            if s.1 & !p.1 { one("mc", s); }
            if !s.2 & p.2 { one("lr", s); }
            if !s.0 & p.0 { one("rr", s); }
            if !s.1 & p.1 { one("mr", s); }
        }
        check(k == ev.len(), "no other events");
        reach(1);
    }
}
