#![allow(non_snake_case)]
mod exec; mod affine;
mod icp; mod ir; mod solver; mod term;
use exec::*;
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } } o.push('"'); o }
fn main() {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    std::process::exit(match h.join() { Ok(c) => c, Err(_) => 3 });
}
fn real_main() -> i32 {
    let mut a: std::collections::HashMap<String, String> = Default::default();
    let args: Vec<String> = std::env::args().collect(); let mut i = 1;
    while i + 1 < args.len() { a.insert(args[i].trim_start_matches("--").to_string(), args[i + 1].clone()); i += 2; }
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let n = |k: &str, d: f64| g(k, "").parse::<f64>().unwrap_or(d);
    let t0 = std::time::Instant::now();
    let mut tm = term::Tm::new();
    let m = ir::Module::load(&g("ll", ""), &mut tm);
    let mut sv = solver::Solver::new();
    sv.real_ms = n("real-ms", sv.real_ms as f64) as u64; sv.quick_ms = n("quick-ms", sv.quick_ms as f64) as u64; sv.hard_ms = n("hard-ms", sv.hard_ms as f64) as u64; sv.use_real = g("real", "1") == "1"; sv.use_icp = g("icp", "1") == "1"; sv.recheck = n("recheck", if n("tier", 0.0) > 0.0 { 24.0 } else { 4.0 }) as u64; sv.icp_boxes = n("icp-boxes", sv.icp_boxes as f64) as usize;
    if a.contains_key("dump") { sv.dump = Some(g("dump", "")); let _ = std::fs::create_dir_all(g("dump", "")); }
    let conc = a.get("inputs").map(|f| std::fs::read_to_string(f).expect("inputs").lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#') ).map(|l| { let (x, y) = l.trim().rsplit_once(' ').unwrap(); (x.to_string(), u128::from_str_radix(y, 16).unwrap()) }).collect::<Vec<_>>());
    let sh = g("shard", "0/1"); let (s1, s2) = sh.split_once('/').unwrap();
    let cfg = Config { max_steps: n("max-steps", 60e6) as u64, max_paths: n("max-paths", 200000.0) as u64, max_s: n("max-s", 600.0), enum_limit: n("enum", 4096.0) as u32, conc, seed: n("seed", 1.0) as u64, tier: n("tier", 0.0) as u64, shard: (s1.parse().unwrap(), s2.parse().unwrap()), merge: g("merge", "1") == "1", max_viol: n("max-viol", 6.0) as usize, progress: a.contains_key("progress") };
    let load_s = t0.elapsed().as_secs_f64();
    let mut x = Exec::new(m, tm, sv, cfg);
    x.explore(&g("entry", ""));
    let st = x.sv.st.clone();
    let mut o = String::from("{\n");
    o += &format!("\"entry\": {}, \"load_s\": {:.2}, \"wall_s\": {:.2},\n", js(&g("entry", "")), load_s, t0.elapsed().as_secs_f64());
    o += &format!("\"paths\": {}, \"completed\": {}, \"dropped\": {}, \"forks\": {}, \"instructions\": {}, \"terms\": {}, \"max_enumeration\": {},\n", x.paths, x.done, x.dropped, x.forks, x.steps, x.tm.n.len(), x.enum_max);
    o += &format!("\"solver\": {{\"queries\": {}, \"cache_hits\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"decided_real_relaxation\": {}, \"decided_interval\": {}, \"interval_s\": {:.3}, \"interval_asked_again\": {}, \"interval_confirmed_by_smt\": {}, \"decided_bit_precise\": {}, \"decided_portfolio\": {}, \"range_tests\": {}, \"libm_refinements\": {}, \"sat_confirmed_by_evaluation\": {}, \"time_s\": {:.3}, \"max_query_s\": {:.3}}},\n", st.queries, st.cache_hits, st.sat, st.unsat, st.unknown, st.by_real, st.by_icp, st.icp_s, st.icp_asked, st.icp_agreed, st.by_bits, st.by_portfolio, st.range_tests, st.cegar, st.confirmed_sat, st.solver_s, st.max_query_s);
    o += "\"checks\": {"; o += &x.checks.iter().map(|(k, v)| format!("{}: {{\"folded\": {}, \"solver\": {}, \"failed\": {}}}", js(k), v[0], v[1], v[2])).collect::<Vec<_>>().join(", "); o += "},\n";
    o += "\"reached\": {"; o += &x.reached.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "); o += "},\n";
    o += "\"observed\": ["; o += &x.observed.iter().map(|v| format!("\"{:x}\"", v)).collect::<Vec<_>>().join(", "); o += "],\n";
    o += "\"errors\": ["; o += &x.errors.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "); o += "],\n";
    let mut fs: Vec<(u64, String)> = vec![]; for (i, f) in x.m.funcs.iter().enumerate() { if x.funcs_seen[i] && f.name.contains("6rawdio") { fs.push((x.instr_of[i], pretty(&f.name))); } } fs.sort_by(|a, b| b.cmp(a));
    o += "\"functions\": ["; o += &fs.iter().map(|(n, f)| format!("[{}, {}]", js(f), n)).collect::<Vec<_>>().join(", "); o += "],\n";
    o += "\"violations\": ["; o += &x.viol.iter().map(|v| format!("{{\"kind\": {}, \"msg\": {}, \"at\": {}, \"inputs\": [{}], \"trace\": [{}]}}", js(&v.kind), js(&v.msg), js(&v.at), v.inputs.iter().map(|(n, x)| format!("[{}, \"{:x}\"]", js(n), x)).collect::<Vec<_>>().join(", "), v.trace.iter().map(|t| js(t)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", "); o += "]\n}\n";
    match a.get("out") { Some(f) => std::fs::write(f, o).unwrap(), None => print!("{o}") }
    if !x.viol.is_empty() { 1 } else if !x.errors.is_empty() { 2 } else { 0 }
}
