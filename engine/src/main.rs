mod exec;
mod expr;
mod ir;
mod solver;
use std::fmt::Write;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}
fn list<T: std::fmt::Display>(v: &[T]) -> String { let mut o = String::from("["); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } let _ = write!(o, "{}", x); } o.push(']'); o }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 { eprintln!("usage: msx FILE.ll ENTRY [ARG..] [--time S] [--split I/N@DEPTH] [--query-ms MS] [--max-instrs N] [--samples N]"); std::process::exit(2); }
    let mut args = vec![];
    let mut time = 0f64; let mut split = (0, 1, 0); let mut qms = 20000; let mut mi = 0u64; let mut samples = 8; let mut trace = false; let mut logic = String::new();
    let mut i = 3;
    while i < a.len() {
        match a[i].as_str() {
            "--time" => { time = a[i + 1].parse().unwrap(); i += 1; }
            "--split" => { let s: Vec<u64> = a[i + 1].split(|c| c == '/' || c == '@').map(|x| x.parse().unwrap()).collect(); split = (s[0], s[1], s[2] as u32); i += 1; }
            "--query-ms" => { qms = a[i + 1].parse().unwrap(); i += 1; }
            "--max-instrs" => { mi = a[i + 1].parse().unwrap(); i += 1; }
            "--samples" => { samples = a[i + 1].parse().unwrap(); i += 1; }
            "--trace" => trace = true,
            "--logic" => { logic = a[i + 1].clone(); i += 1; }
            s => args.push(s.parse::<u64>().expect("numeric argument")),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&a[1]);
    let s = solver::Solver::new(qms, &logic);
    let mut e = exec::Exec::new(m, s);
    if time > 0.0 { e.deadline = Some(Instant::now() + Duration::from_secs_f64(time)); }
    e.split = split;
    if mi > 0 { e.max_instrs = mi; }
    e.max_samples = samples;
    e.trace = trace;
    e.explore(&a[2], &args);
    let mut o = String::new();
    let status = if e.timed_out { "timeout" } else if !e.errors.is_empty() || e.unknown > 0 { "error" } else if !e.violations.is_empty() { "violation" } else { "ok" };
    let _ = write!(o, "{{\"entry\":{},\"args\":{},\"status\":{},\"paths\":{},\"assumed\":{},\"panics_ok\":{},\"forks\":{},\"merges\":{},\"merge_fail\":{},\"instrs\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"exprs\":{}",
        js(&a[2]), list(&args), js(status), e.paths, e.assumed, e.panics_ok, e.forks, e.merges, e.merge_fail, e.instrs, e.sol.queries, e.sol.n_sat, e.sol.n_unsat, e.sol.n_unknown, e.sol.time, e.sol.max_time, t0.elapsed().as_secs_f64(), e.pool.nodes.len());
    let _ = write!(o, ",\"errors\":[{}]", e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"checks\":{{{}}}", e.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"reached\":{{{}}}", e.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"violations\":[{}]", e.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"widths\":{}}}", js(&v.kind), js(&v.msg), list(&v.inputs), list(&v.widths))).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"vio_seen\":{{{}}}", e.vio_seen.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut fu: Vec<(String, u64)> = e.fn_used.iter().map(|(k, v)| (e.m.fnames[*k as usize].clone(), *v)).collect();
    fu.sort();
    let _ = write!(o, ",\"functions\":{{{}}}", { let mut m = std::collections::BTreeMap::new(); for (k, v) in fu { *m.entry(k).or_insert(0) += v; } m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",") });
    let _ = write!(o, ",\"samples\":[{}]}}", e.samples.iter().map(|(i, w, ob, h)| format!("{{\"inputs\":{},\"widths\":{},\"obs\":{},\"end\":{}}}", list(i), list(w), list(ob), js(h))).collect::<Vec<_>>().join(","));
    println!("{}", o);
}
