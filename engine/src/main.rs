mod exec;
mod expr;
mod ll;
mod mem;
mod solver;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(t.join().unwrap_or(4));
}
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = None; let mut entries: Vec<(String, Vec<u64>)> = vec![]; let mut out = None;
    let (mut timeout, mut qto, mut maxpaths, mut maxviol, mut traces, mut dump, mut dump_every) = (600.0, 20000u32, u64::MAX, 4usize, 200usize, String::new(), 0u64);
    let mut hot = false; let mut list = false; let mut show = None;
    let mut i = 1;
    while i < a.len() {
        let nx = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => { ll = Some(nx()); i += 1; }
            "--entry" => { // name or name:p0:p1
                let v = nx(); let mut it = v.split(':'); let n = it.next().unwrap().to_string(); entries.push((n, it.map(|x| x.parse().unwrap()).collect())); i += 1; }
            "--out" => { out = Some(nx()); i += 1; }
            "--timeout" => { timeout = nx().parse().unwrap(); i += 1; }
            "--query-timeout" => { qto = nx().parse().unwrap(); i += 1; }
            "--max-paths" => { maxpaths = nx().parse().unwrap(); i += 1; }
            "--max-violations" => { maxviol = nx().parse().unwrap(); i += 1; }
            "--traces" => { traces = nx().parse().unwrap(); i += 1; }
            "--dump" => { dump = nx(); i += 1; }
            "--dump-every" => { dump_every = nx().parse().unwrap(); i += 1; }
            "--hot" => hot = true,
            "--list" => list = true,
            "--show" => { show = Some(nx()); i += 1; }
            x => { eprintln!("unknown option {}", x); return 2; }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ll::Module::load(&ll.expect("--ll"));
    let load_s = t0.elapsed().as_secs_f64();
    if list { for f in &m.fns { println!("{} {}", f.name, exec::short(&f.name)); } return 0; }
    if let Some(s) = show { let f = &m.fns[m.fn_by_name[&s] as usize]; println!("{}", String::from_utf8_lossy(&m.src[f.text.0..f.text.1])); return 0; }
    let mut js = vec![];
    let mut rc = 0;
    for (entry, params) in entries {
        let t1 = Instant::now();
        let mut sv = solver::Solver::new(qto);
        sv.dump_every = dump_every; sv.dump_max = if dump_every > 0 { 400 } else { 0 };
        let o = exec::Opts { params: params.clone(), deadline: Some(exec::now_deadline(timeout)), max_paths: maxpaths, max_violations: maxviol, traces, trace_steps: false, max_conc: 0, mem_limit_mb: 0 };
        let mut x = exec::Exec::new(&m, sv, o);
        if let Err(e) = x.start(&entry) { x.rep.error = Some(e); } else { x.run(); }
        let r = &x.rep; let s = &x.sv.stats;
        if r.error.is_some() || r.timeout { rc = 2; } else if r.n_violations > 0 && rc == 0 { rc = 1; }
        let mut names: Vec<String> = r.fns_symbolic.iter().map(|&f| exec::short(&m.fns[f as usize].name)).collect(); names.sort(); names.dedup();
        let mut all: Vec<String> = r.fns_executed.iter().map(|&f| exec::short(&m.fns[f as usize].name)).filter(|n| n.contains("parse_display")).collect(); all.sort(); all.dedup();
        let j = format!("{{\"entry\":{},\"params\":{:?},\"complete\":{},\"error\":{},\"timeout\":{},\"paths\":{},\"infeasible\":{},\"steps\":{},\"forks\":{},\"branches_sym\":{},\"checks\":{},\"checks_sym\":{},\"concretizations\":{},\"table_loads\":{},\"max_depth\":{},\"max_bytes\":{},\"pending\":{},\"reached\":{{{}}},\"n_violations\":{},\"violations\":[{}],\"traces\":[{}],\"queries\":{},\"cache_hits\":{},\"z3_calls\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"load_s\":{:.3},\"exprs\":{},\"fns_executed\":{},\"fns_symbolic\":{},\"fn_names_symbolic\":[{}],\"fn_names_pd\":[{}],\"z3\":{}}}",
            esc(&entry), params, !r.timeout && r.error.is_none() && x.work.is_empty(), r.error.as_ref().map_or("null".into(), |e| esc(e)), r.timeout, r.paths, r.infeasible, r.steps, r.forks, r.branches_sym, r.checks, r.checks_sym, r.concretizations, r.table_loads, r.max_depth, r.max_bytes, x.work.len(),
            r.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), r.n_violations,
            r.violations.iter().map(|v| format!("{{\"kind\":{},\"input\":\"{}\",\"stack\":[{}]}}", esc(&v.kind), hex(&v.input), v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","),
            r.traces.iter().map(|t| format!("{{\"input\":\"{}\",\"obs\":{:?},\"forks\":{}}}", hex(&t.input), t.obs, t.forks)).collect::<Vec<_>>().join(","),
            s.queries, s.cache_hits, s.z3_calls, s.sat, s.unsat, s.unknown, s.z3_time.as_secs_f64(), s.max_query.as_secs_f64(), t1.elapsed().as_secs_f64(), load_s, x.cx.nodes.len(), r.fns_executed.len(), r.fns_symbolic.len(), names.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), all.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","), esc(&solver::Solver::version()));
        eprintln!("{} {:?}: paths={} infeasible={} steps={}M forks={} queries={} z3={} ({:.2}s) wall={:.2}s complete={} viol={} reached={:?} err={:?}", entry, params, r.paths, r.infeasible, r.steps / 1_000_000, r.forks, s.queries, s.z3_calls, s.z3_time.as_secs_f64(), t1.elapsed().as_secs_f64(), x.work.is_empty() && !r.timeout && r.error.is_none(), r.n_violations, r.reached, r.error);
        for v in &r.violations { eprintln!("  VIOL {} input={} {:?} at {}", v.kind, hex(&v.input), String::from_utf8_lossy(&v.input), v.stack.join(" < ")); }
        if hot { let mut v: Vec<_> = r.fork_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(25) { eprintln!("  fork {:7} {}:{}:{}", n, exec::short(&m.fns[k.0 as usize].name), k.1, k.2); } }
        if !dump.is_empty() { for (k, (q, sat)) in x.sv.dump.iter().enumerate() { let _ = std::fs::write(format!("{}/{}-{}-{}.smt2", dump, entry, params.iter().map(|p| p.to_string()).collect::<Vec<_>>().join("_"), k), format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", if *sat { "sat" } else { "unsat" }, q)); } }
        js.push(j);
        if let Some(o) = &out { std::fs::write(o, format!("[{}]\n", js.join(",\n"))).unwrap(); }
    }
    rc
}
