mod exec; mod expr; mod ir; mod mem; mod z3;
use std::collections::BTreeMap;
use std::fmt::Write;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o + "\"" }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new(); let mut entry = String::new(); let mut args: Vec<i64> = vec![]; let mut out = String::new(); let mut timeout = 600.0; let mut steps = 200_000_000u64; let mut qt = 60_000u32; let mut verbose = false; let mut prints = false; let mut prof = false; let mut z3lib = String::from("/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"); let mut stop = false; let mut ntr = 16; let mut seed = 1;
    let mut i = 1;
    if a.get(1).map(|s| s.as_str()) == Some("selftest") { expr::selftest(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(200_000)); return; }
    while i < a.len() {
        let nx = || a[i + 1].clone();
        match a[i].as_str() {
            "--ll" => { ll = nx(); i += 1 } "--entry" => { entry = nx(); i += 1 } "--arg" => { args.push(nx().parse().unwrap()); i += 1 } "--out" => { out = nx(); i += 1 }
            "--timeout" => { timeout = nx().parse().unwrap(); i += 1 } "--max-steps" => { steps = nx().parse().unwrap(); i += 1 } "--query-timeout" => { qt = nx().parse().unwrap(); i += 1 } "--z3" => { z3lib = nx(); i += 1 }
            "-v" => verbose = true, "--prints" => prints = true, "--traces" => { ntr = nx().parse().unwrap(); i += 1 } "--seed" => { seed = nx().parse().unwrap(); i += 1 } "--profile" => prof = true, "--stop" => stop = true,
            x => panic!("argument {x}"),
        }
        i += 1;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    let z = z3::Z3::new(&z3lib, qt);
    let mut x = exec::Exec::new(m, z);
    x.verbose = verbose; x.prints = prints; x.max_steps = steps; x.args = args.clone(); x.do_profile = prof; x.stop_at_violation = stop; x.max_traces = ntr; x.seed = seed;
    x.deadline = t0 + std::time::Duration::from_secs_f64(timeout);
    if let Err(e) = x.start(&entry, &args) { eprintln!("symx: {e}"); std::process::exit(3); }
    x.run();
    // covered functions of the code under test
    let mut funs: BTreeMap<(String, String), u64> = BTreeMap::new();
    for (k, c) in x.cov.iter().enumerate() { if *c { if let Some((f, _, n)) = x.m.loc(k as u32) { if f.contains("crates/") && !f.contains(".cargo/registry") { *funs.entry((f, n)).or_insert(0) += 1; } } } }
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"entry\": {}, \"args\": {:?}, \"seconds\": {:.2}, \"paths\": {}, \"steps\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cache_hits\": {}, \"solver_s\": {:.2}, \"case_splits\": {}, \"assumption_pruned\": {}, \"placeholders\": {}, \"solver\": {},", js(&entry), args, t0.elapsed().as_secs_f64(), x.paths, x.total_steps, x.z3.queries, x.z3.sat, x.z3.unsat, x.z3.unknown, x.cache_hits, x.z3.secs, x.concretized, x.infeasible, x.placeholders, js(&format!("Z3 {}", x.z3.version)));
    let inc: Vec<String> = x.inconclusive.iter().filter(|(k, _)| !k.starts_with("__infeasible")).map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, " \"inconclusive\": {{{}}},", inc.join(", "));
    let l: Vec<String> = x.checks.iter().map(|(k, v)| format!("{}: [{}, {}]", js(k), v.0, v.1)).collect();
    let _ = writeln!(o, " \"checks\": {{{}}},", l.join(", "));
    let l: Vec<String> = x.covers.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, " \"covers\": {{{}}},", l.join(", "));
    let l: Vec<String> = x.accepted.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, " \"rejections\": {{{}}},", l.join(", "));
    let l: Vec<String> = x.violations.iter().map(|v| format!("{{\"label\": {}, \"detail\": {}, \"known\": {}, \"inputs\": [{}]}}", js(&v.label), js(&v.detail), v.known.as_ref().map_or("null".into(), |k| js(k)), v.inputs.iter().map(|(n, k)| format!("[{}, {}]", js(n), *k as i64)).collect::<Vec<_>>().join(", "))).collect();
    let _ = writeln!(o, " \"violations\": [{}],", l.join(", "));
    let l: Vec<String> = x.traces.iter().map(|t| format!("{{\"inputs\": [{}], \"events\": [{}], \"panicked\": {}}}", t.inputs.iter().map(|(n, k)| format!("[{}, {}]", js(n), *k as i64)).collect::<Vec<_>>().join(", "), t.events.iter().map(|e| js(e)).collect::<Vec<_>>().join(", "), t.panicked)).collect();
    let _ = writeln!(o, " \"traces\": [{}],", l.join(", "));
    let l: Vec<String> = x.ext_used.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
    let _ = writeln!(o, " \"externals\": {{{}}},", l.join(", "));
    if prof { let mut p: Vec<_> = x.profile.iter().collect(); p.sort_by_key(|k| std::cmp::Reverse(*k.1)); for (k, v) in p.iter().take(40) { eprintln!("{v:8} {k}"); } }
    let l: Vec<String> = funs.iter().map(|((f, n), c)| format!("[{}, {}, {}]", js(f), js(n), c)).collect();
    let _ = writeln!(o, " \"functions\": [{}]\n}}", l.join(", "));
    if out.is_empty() { let cut: String = if verbose { o } else { o.lines().filter(|l| !l.starts_with(" \"functions\"")).collect::<Vec<_>>().join("\n") }; println!("{cut}"); } else { std::fs::write(&out, o).unwrap(); }
}
