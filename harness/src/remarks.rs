//! The remarks the analysis writes beside the events of a recording.
use crate::rt::*;
use crate::solver::*;
use crate::spec::*;
use crate::video::*;
use ms_toollib::*;
type Video = BaseVideo<Vec<Vec<i32>>>;
const RISK: &str = "error: 危险的猜雷(猜对概率";
const GUESS: &str = "warning: 可以判雷时选择猜雷;";
const FAR: &str = "warning: 可以判雷时视野的转移;";

fn video(r: usize, c: usize, pix: usize) -> Video {
    let mut v = Video::default();
    v.height = r; v.width = c; v.cell_pixel_size = pix as u8;
    v.game_board_state = GameBoardState::Display;
    v
}
fn show(v: &mut Video, g: &B, mines: usize) {
    let mut b = GameBoard::new(mines);
    b.set_game_board(g);
    v.game_board_stream.push(b);
}
fn event(v: &mut Video, e: &str, x: usize, y: usize, level: u8, prior: usize) {
    v.video_action_state_recorder.push(Default::default());
    let a = v.video_action_state_recorder.last_mut().unwrap();
    a.mouse = e.to_string(); a.x = x as u16; a.y = y as u16;
    a.useful_level = level; a.prior_game_board_id = prior; a.next_game_board_id = prior + (level > 0) as usize;
}
/// Of all arrangements with this many mines that the numbers allow, the share in which a cell is a mine.
fn shares(p: &Pos, k: &Vec<Vec<u64>>, total: usize) -> Vec<Vec<(usize, usize)>> {
    let (r, c) = (k.len(), k[0].len());
    let mut hid = vec![];
    for i in 0..r { for j in 0..c { if k[i][j] == 1 { hid.push((i, j)); } } }
    let rules: Vec<(usize, u32)> = borders(k).0.iter().map(|&(i, j)| {
        let mut m = 0;
        for q in around(r, c, i, j) { if let Some(t) = hid.iter().position(|h| *h == q) { m |= 1usize << t; } }
        (m, p.b[i][j] as u32)
    }).collect();
    let mut s = vec![vec![(0, 0); c]; r];
    let mut all = 0;
    for a in 0..1usize << hid.len() {
        if a.count_ones() as usize != total || !rules.iter().all(|(m, v)| (a & m).count_ones() == *v) { continue; }
        all += 1;
        for (t, h) in hid.iter().enumerate() { s[h.0][h.1].0 += a >> t & 1; }
    }
    for row in &mut s { for x in row { x.1 = all; } }
    s
}
fn total(p: &Pos) -> usize {
    let mut n = 0u32;
    for row in &p.m { for v in row { n += *v as u32; } }
    concrete(n as u64) as usize
}
/// Takes the remark off the list if it is there.
fn take(s: &mut String, what: &str) -> bool {
    match s.find(what) { Some(i) => { s.replace_range(i..i + what.len(), ""); true } None => false }
}
fn take_risk(s: &mut String) -> Option<f64> {
    let i = s.find(RISK)?;
    let e = i + s[i..].find(");")?;
    let x = s[i + RISK.len()..e].parse().ok();
    s.replace_range(i..e + 2, "");
    x
}
/// One useful event on any position. what: 0 dangerous guesses, 1 hard judgements, 2 needless guesses, 3 all, 4 all in another order
fn remark(p: Pos, k: &Vec<Vec<u64>>, what: usize) {
    let (r, c) = (k.len(), k[0].len());
    let n = total(&p);
    let p = by_numbers(&p, k);
    merge(false);
    let mut v = video(r, c, 16);
    let mut g = p.g.clone();
    let e = pick(0, 3);
    let at = pick(0, (r * c - 1) as u64);
    let at = (at / c, at % c);
    // a click or a flag happens on a hidden cell, a chord on an opened one
    if (e <= 1) != (k[at.0][at.1] == 1) { assume(false); }
    // what the player marked does not matter
    if pick(0, 1) == 1 { for i in 0..r { for j in 0..c { if k[i][j] == 1 && (i, j) != at { g[i][j] = 11; } } } }
    show(&mut v, &vec![vec![10; c]; r], n); show(&mut v, &g, n);
    let (y, x) = (at.0 * 16 + 15, at.1 * 16);
    event(&mut v, "mv", 0, 0, 0, 0); event(&mut v, "lr", 0, 0, 2, 0);
    let (name, level) = [("lr", 2), ("rc", 1), ("lr", 3), ("mv", 0)][e];
    event(&mut v, name, x, y, level, 1);
    event(&mut v, "mv", 5, 5, 0, 1);
    v.analyse_for_features([vec!["high_risk_guess"], vec!["jump_judge"], vec!["needless_guess"], vec!["high_risk_guess", "jump_judge", "needless_guess", "nothing"], vec!["needless_guess", "jump_judge", "high_risk_guess"]][what].clone());
    let all = shares(&p, k, n);
    let (num, hid) = borders(k);
    let (mine, safe) = possible(&p, k, &hid, &num);
    let sure = |v: &Vec<bool>| hid.iter().position(|h| *h == at).map_or(false, |t| !v[t]);
    let mut fresh = GameBoard::new(n);
    fresh.set_game_board(&p.g);
    let (m, t) = all[at.0][at.1];
    let mut s = v.video_action_state_recorder[2].comments.clone();
    if what == 0 || what >= 3 {
        let got = take_risk(&mut s);
        check(got.is_some() == (e == 0 && m * 100 >= t * 51), "a guess is dangerous when the cell is a mine in 51% of the arrangements or more");
        if let Some(x) = got { let d = x - (t - m) as f64 / t as f64; check(d < 0.00051 && d > -0.00051, "the chance it names"); reach(1); }
    }
    if what == 1 || what >= 3 {
        let left = take(&mut s, "feature: 高难度的判雷(左键);");
        let hard = sure(&mine) && !fresh.get_basic_not_mine().contains(&at);
        check(left == (e == 0 && hard), "a hard safe cell was opened");
        let right = take(&mut s, "feature: 高难度的判雷(标雷);");
        let hard_mine = sure(&safe) && !fresh.get_basic_is_mine().contains(&at);
        check(right == (e == 1 && hard_mine), "a hard mine was flagged");
        if left || right { reach(2); }
    }
    if what >= 2 {
        let mut any = false;
        for i in 0..r { for j in 0..c { any |= k[i][j] == 1 && all[i][j].0 == 0; } }
        let got = take(&mut s, GUESS);
        check(got == (e == 0 && m > 0 && any), "a guess was needless when some cell was safe");
        if got { reach(3); }
    }
    check(s.is_empty(), "no other remarks");
    for k in [0, 1, 3] { check(v.video_action_state_recorder[k].comments.is_empty(), "no remarks on other events"); }
    observe(v.video_action_state_recorder[2].comments.len() as u64);
    reach(4);
}
entries! {
    fn h_remark(what, r, c) { let k = any_kinds(r, c, false); let p = position(any_mines(r, c), &k); remark(p, &k, what); }
    fn h_remark_at(what, r, c, code) { let k = coded_kinds(r, c, code); let p = position(any_mines(r, c), &k); remark(p, &k, what); }
    // the luck a game took: the guesses after the first click
    fn h_luck(r, c, guesses) {
        let m = any_mines(r, c);
        let mut v = video(r, c, 16);
        let mut n = 0;
        let mut want = "luck: ".to_string();
        let mut luck = 1.0;
        event(&mut v, "mv", 0, 0, 0, 0);
        let begun = pick(0, 1);
        if begun == 1 { event(&mut v, "lr", 0, 0, 2, 0); }
        for q in 0..guesses {
            let k = any_kinds(r, c, false);
            let p = position(m.clone(), &k);
            if q == 0 { n = total(&p); }
            let p = by_numbers(&p, &k);
            if q == 0 { merge(false); show(&mut v, &vec![vec![10; c]; r], n); }
            show(&mut v, &p.g, n);
            let at = pick(0, (r * c - 1) as u64);
            let at = (at / c, at % c);
            let (e, level) = [("lr", 2), ("lr", 0), ("rc", 1), ("lc", 0)][pick(0, 3)];
            if level > 0 && k[at.0][at.1] != 1 { assume(false); }
            event(&mut v, e, at.1 * 16 + 7, at.0 * 16 + 7, level, q + 1);
            let (x, t) = shares(&p, &k, n)[at.0][at.1];
            if level == 2 && (begun == 1 || want.len() > 6 || v.video_action_state_recorder.iter().filter(|a| a.mouse == "lr" && a.useful_level > 0).count() > 1) && x > 0 && x < t {
                let s = (t - x) as f64 / t as f64;
                luck *= s;
                want += &format!("{:.3} * ", s);
            }
        }
        if want.len() > 6 { want.truncate(want.len() - 2); want += &format!("= {:.6};", luck); reach(2); } else { want += "1;"; }
        // another remark on the same event stays
        let other = pick(0, 1) == 1;
        if other { v.video_action_state_recorder.last_mut().unwrap().comments = "a;".to_string(); want = "a;".to_string() + &want; }
        v.analyse_for_features(vec!["survive_poss"]);
        let e = &v.video_action_state_recorder;
        check(e.last().unwrap().comments == want, "the share of luck of every guess, and their product");
        for k in 0..e.len() - 1 { check(e[k].comments.is_empty(), "nothing beside other events"); }
        observe(want.len() as u64);
        reach(1);
    }
    // how far the mouse went from one click to the next, against the straight way
    fn h_trace(n) {
        let mut v = video(4, 9, 16);
        let places = [(0usize, 0usize), (30, 40), (60, 80), (0, 140)];
        let mut last = (0usize, 0usize);
        let mut want = vec![String::new(); n];
        let (mut path, mut from, mut from_id) = (0.0, (0.0, 0.0), 0);
        for q in 0..n {
            let p = if q == 0 { places[0] } else { places[pick(0, 3)] };
            let e = ["mv", "lr", "rc", "rr", "lc"][if q == 0 { 0 } else { pick(0, if q + 1 == n { 3 } else { 2 }) }];
            event(&mut v, e, p.0, p.1, 0, 0);
            let gap = |a: (f64, f64), b: (f64, f64)| ((a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)).sqrt();
            let (a, b) = ((last.0 as f64, last.1 as f64), (p.0 as f64, p.1 as f64));
            path += gap(a, b);
            last = p;
            if e == "lr" || e == "rc" || e == "rr" {
                let k: f64 = path / gap(from, b);
                if k > 7.0 { want[from_id] += &format!("error: 过于弯曲的鼠标轨迹({:.0}%);", k * 100.0); reach(2); }
                else if k > 3.5 { want[from_id] += &format!("warning: 弯曲的鼠标轨迹({:.0}%);", k * 100.0); reach(3); }
                from = b; from_id = q; path = 0.0;
            }
        }
        v.analyse_for_features(vec!["mouse_trace"]);
        for q in 0..n {
            let mut s = v.video_action_state_recorder[q].comments.clone();
            // whether a straight way is suspect is left open
            take(&mut s, "suspect: 笔直的鼠标轨迹;");
            check(s == want[q], "a way of more than 3.5 or 7 times the distance is remarked where it began");
        }
        observe(want.iter().map(|s| s.len() as u64).sum());
        reach(1);
    }
    // leaving a place where something could still be judged for one at least seven cells away
    fn h_far(c, code) {
        let r = 2;
        let mut v = video(r, c, 16);
        let mut k = vec![vec![0; c]; r];
        // four cells of the first row and the end of the second may be hidden
        for j in 0..4 { k[0][j] = (code >> j & 1) as u64; k[1][c - 1 - j] = (code >> (4 + j) & 1) as u64; }
        let mut m = vec![vec![false; c]; r];
        for i in 0..r { for j in 0..c { if k[i][j] == 1 { m[i][j] = sym_bool(); } } }
        let p = position(m, &k);
        let n = total(&p);
        let p = by_numbers(&p, &k);
        merge(false);
        show(&mut v, &vec![vec![10; c]; r], n); show(&mut v, &p.g, n);
        let (num, hid) = borders(&k);
        let (mine, _) = possible(&p, &k, &hid, &num);
        let cols = [0, 3, 4, 7, 8, c - 1];
        let mut last = (0usize, 0usize, 0usize);
        let mut want = vec![0; 5];
        for q in 0..4 {
            let (i, j) = if q == 0 { (0, 0) } else { (q % 2, cols[pick(0, 5)]) };
            let level = if q == 0 { 0 } else if q == 3 { 2 } else { pick(0, 1) as u8 * 2 };
            event(&mut v, "lr", j * 16 + 2, i * 16 + 3, level, 1);
            if level == 2 {
                let d = (i as i64 - last.1 as i64).pow(2) * 256 + (j as i64 - last.2 as i64).pow(2) * 256;
                let near = |x: usize, y: usize| x.abs_diff(y) <= 3;
                let d = if q == 0 { 0 } else { d };
                if d >= 112 * 112 && hid.iter().enumerate().any(|(t, h)| !mine[t] && near(h.0, last.1) && near(h.1, last.2)) { want[last.0] += 1; reach(2); }
                last = (q, i, j);
            }
        }
        v.analyse_for_features(vec!["vision_transfer"]);
        for q in 0..4 {
            let mut s = v.video_action_state_recorder[q].comments.clone();
            for _ in 0..want[q] { check(take(&mut s, FAR), "leaving something undone is remarked"); }
            check(s.is_empty(), "nothing else is");
        }
        reach(1);
    }
    // a played game can be analysed for everything
    fn h_remarks_all(r, c, pix, script, free) {
        let b = any_board(r, c);
        let mut v = live(b.clone(), pix);
        let mut t = Tape::new(b, pix);
        play(&mut v, &mut t, r, c, pix, script, free, |_, _| ());
        if !matches!(v.game_board_state, GameBoardState::Win | GameBoardState::Loss) { reach(2); return; }
        v.generate_evf_v0_raw_data();
        file("a.evf", &v.get_raw_data().unwrap());
        let mut w = EvfVideo::new("a.evf");
        check(w.parse_video().is_ok(), "the recording is read back");
        let w = &mut w.data;
        w.analyse();
        for i in 0..r { for j in 0..c { concrete((t.game.board[i][j] + 1) as u64); } }
        merge(false);
        w.analyse_for_features(vec!["super_fl_local", "high_risk_guess", "jump_judge", "needless_guess", "mouse_trace", "vision_transfer", "survive_poss"]);
        let e = &w.video_action_state_recorder;
        check(e.last().unwrap().comments.contains("luck: "), "the luck of the game");
        for k in 0..e.len() - 1 { check(!e[k].comments.contains("luck: "), "is told at the end"); }
        check(e.len() == t.log.len(), "all events stay");
        observe(e.iter().map(|a| a.comments.len() as u64).sum());
        reach(1);
    }
    // flagging and chording in one place: one of the events is anything, anywhere
    fn h_local(more, first, last) {
        let m = vec![vec![true, true, false, true, true, false, false], vec![false; 7]];
        let b = number(&m);
        let mut todo: Vec<(&str, usize, usize)> = vec![];
        for (e, i, j) in [("o", 1, 2), ("f", 0, 0), ("f", 0, 1), ("f", 0, 3), ("f", 0, 4), ("c", 1, 2)] { gesture(&mut todo, e, i, j); }
        // one more step, or one that does not count
        match more { 1 => gesture(&mut todo, "c", 1, 3), 2 => gesture(&mut todo, "f", 0, 5), 3 => { gesture(&mut todo, "c", 1, 3); gesture(&mut todo, "f", 0, 6); } _ => {} }
        gesture(&mut todo, "o", 1, 0);
        let q = first + pick(0, (last - first) as u64);
        if q >= todo.len() { assume(false); }
        let e = crate::game::EVENTS[pick(0, 14)];
        if e == "pf" { assume(false); }
        let at = [(0, 0), (0, 2), (1, 2), (1, 6), (2, 7), (todo[q].1, todo[q].2)][pick(0, 5)];
        todo[q] = (e, at.0, at.1);
        let mut t = Tape::new(b, 16);
        for (k, (e, i, j)) in todo.iter().enumerate() { t.step(*e, (i * 16 + 3, j * 16 + 3), 1_000_000 * k as u64); }
        if t.log.is_empty() { reach(2); return; }
        let mut v = video(2, 7, 16);
        for g in &t.boards { show(&mut v, g, 4); }
        for a in &t.log { event(&mut v, a.e, a.x, a.y, a.level, a.prior); let z = v.video_action_state_recorder.last_mut().unwrap(); z.next_game_board_id = a.next; z.mouse_state = a.ms; }
        v.analyse_for_features(vec!["super_fl_local"]);
        let (mut found, mut total) = (0, 0);
        for (k, a) in v.video_action_state_recorder.iter().enumerate() {
            if a.comments.is_empty() { continue; }
            let n: usize = a.comments.strip_prefix("feature: 教科书式的FL局部(步数").and_then(|s| s.strip_suffix(");")).map_or(0, |s| s.parse().unwrap());
            check(n >= 5, "five steps or more");
            check(a.mouse == "rc" && a.useful_level == 1, "from a flag on");
            let (mut steps, mut x) = (0, k);
            while steps < n && x < t.log.len() {
                let l = &t.log[x];
                check(l.level != 2, "no cell was opened singly in between");
                let set = l.e == "rc" && l.level == 1 && t.boards[l.prior][l.y / 16][l.x / 16] == 10;
                steps += (set || l.level == 3) as usize;
                x += 1;
            }
            check(steps == n, "so many flags and chords follow");
            found += 1; total = n;
        }
        observe(found as u64 * 100 + total as u64);
        if found == 1 { reach(1); } else { reach(3); }
    }
    // the same without anything else: the remark is there
    fn h_local_plain(more) {
        let m = vec![vec![true, true, false, true, true, false, false], vec![false; 7]];
        let mut todo: Vec<(&str, usize, usize)> = vec![];
        for (e, i, j) in [("o", 1, 2), ("f", 0, 0), ("f", 0, 1), ("f", 0, 3), ("f", 0, 4), ("c", 1, 2)] { gesture(&mut todo, e, i, j); }
        match more { 1 => gesture(&mut todo, "c", 1, 3), 2 => gesture(&mut todo, "f", 0, 5), 3 => { gesture(&mut todo, "c", 1, 3); gesture(&mut todo, "f", 0, 6); } _ => {} }
        gesture(&mut todo, "o", 1, 0);
        let q = pick(0, todo.len() as u64);
        let at = [(0, 0), (0, 6), (1, 3), (2, 7)][pick(0, 3)];
        todo.insert(q, ("mv", at.0, at.1));
        let mut t = Tape::new(number(&m), 16);
        for (k, (e, i, j)) in todo.iter().enumerate() { t.step(*e, (i * 16 + 3, j * 16 + 3), 1_000_000 * k as u64); }
        let mut v = video(2, 7, 16);
        for g in &t.boards { show(&mut v, g, 4); }
        for a in &t.log { event(&mut v, a.e, a.x, a.y, a.level, a.prior); let z = v.video_action_state_recorder.last_mut().unwrap(); z.next_game_board_id = a.next; z.mouse_state = a.ms; }
        v.analyse_for_features(vec!["super_fl_local"]);
        let want = if more % 2 == 1 { "feature: 教科书式的FL局部(步数6);" } else { "feature: 教科书式的FL局部(步数5);" };
        let mut flags = 0;
        for a in &v.video_action_state_recorder {
            let is = a.mouse == "rc" && a.useful_level == 1;
            flags += is as usize;
            check(a.comments == if is && flags == 1 { want } else { "" }, "four flags and a chord of their number are remarked beside the first flag, and nothing else");
        }
        reach(1);
    }
}
fn gesture(todo: &mut Vec<(&'static str, usize, usize)>, e: &str, i: usize, j: usize) {
    for x in match e { "o" => &["lc", "lr"][..], "f" => &["rc", "rr"], _ => &["lc", "rc", "lr", "rr"] } { todo.push((x, i, j)); }
}
