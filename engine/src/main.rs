mod exec;
mod expr;
mod ll;
mod mem;
mod z3;
use exec::*;
use std::collections::HashMap;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut params: Vec<u64> = vec![];
    let mut i = 1;
    while i < a.len() {
        if a[i] == "-p" { params.push(a[i + 1].parse().expect("param")); i += 2; }
        else if let Some(k) = a[i].strip_prefix("--") { opt.insert(k.to_string(), a.get(i + 1).cloned().unwrap_or_default()); i += 2; }
        else { eprintln!("bad argument {}", a[i]); std::process::exit(70); }
    }
    let g = |k: &str, d: &str| opt.get(k).cloned().unwrap_or(d.to_string());
    let ll = g("ll", "");
    let entry = g("entry", "");
    let mut redirects = HashMap::new();
    if let Some(r) = opt.get("redirects") {
        for l in std::fs::read_to_string(r).expect("redirects").lines() {
            let mut it = l.split_whitespace();
            if let (Some(x), Some(y)) = (it.next(), it.next()) { redirects.insert(x.to_string(), y.to_string()); }
        }
    }
    let verbose = g("verbose", "0") != "0";
    let cfg = Cfg {
        max_steps: g("max-steps", "5000000").parse().unwrap(),
        max_paths: g("max-paths", "100000000").parse().unwrap(),
        max_secs: g("max-secs", "600").parse().unwrap(),
        params: params.clone(),
        max_viol: g("max-viol", "8").parse().unwrap(),
        case_limit: g("cases", "20").parse().unwrap(),
        viol_paths: g("viol-paths", "300").parse().unwrap(),
        seed: g("seed", "1").parse().unwrap(),
        verbose,
        trace: opt.contains_key("trace"),
        trace_from: g("trace", "0").parse().unwrap(),
        max_split: g("max-split", "300").parse().unwrap(),
    };
    let t0 = std::time::Instant::now();
    let m = ll::Module::load(&ll, redirects);
    let load = t0.elapsed().as_secs_f64();
    let mut en = Engine::new(m, cfg, g("z3-timeout", "20000").parse().unwrap(), g("z3-simple", "1") == "1");
    let st = en.initial(&entry);
    en.work.push(st);
    en.run();
    let s = &en.stats;
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":{},\"params\":{:?},\"paths\":{},\"ok_paths\":{},\"assumed_out\":{},\"instrs\":{},\"forks\":{},\"branches\":{},\"asserts\":{},\"asserts_sym\":{},",
        js(&entry), params, s.paths, s.ok_paths, s.assumed_out, s.instrs, s.forks, s.branches, s.asserts, s.asserts_sym);
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"dom_checks\":{},\"cache_hits\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"max_steps\":{},\"max_inputs\":{},\"z3\":{},",
        en.z3.queries, en.z3.sat, en.z3.unsat, en.z3.unknown, en.z3.secs, en.z3.max_secs, s.dom_checks, s.cache_hits, t0.elapsed().as_secs_f64(), load, s.max_steps, s.max_inputs, js(&z3::version()));
    let _ = write!(o, "\"incomplete\":{},", match &en.incomplete { None => "null".to_string(), Some(x) => js(x) });
    let _ = write!(o, "\"reached\":[{}],", en.reached.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
    let fl: Vec<String> = en.funcs.iter().enumerate().filter(|(_, n)| **n > 0).map(|(i, _)| js(&en.m.fns[i].name)).collect();
    let _ = write!(o, "\"functions\":[{}],", fl.join(","));
    let inp = |v: &Vec<(u8, u128)>| v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect::<Vec<_>>().join(",");
    let vs: Vec<String> = en.viols.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"stack\":[{}]}}", js(&v.kind), js(&v.msg), inp(&v.inputs), v.stack.iter().take(20).map(|x| js(x)).collect::<Vec<_>>().join(","))).collect();
    let _ = write!(o, "\"violations\":[{}],", vs.join(","));
    let cs: Vec<String> = en.cases.iter().map(|(i, ob, r)| format!("{{\"inputs\":[{}],\"obs\":[{}],\"reach\":[{}]}}", inp(i), ob.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), r.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))).collect();
    let _ = write!(o, "\"cases\":[{}]}}\n", cs.join(","));
    match opt.get("out") { Some(f) => std::fs::write(f, o).expect("write out"), None => print!("{}", o) }
    if verbose {
        let mut p: Vec<_> = en.prof.iter().collect();
        p.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in p.iter().take(25) {
            eprintln!("{:8} {} @{}", n, en.m.fns[*f as usize].name, pc);
        }
        eprintln!("arena {} nodes", en.ar.nodes.len());
    }
}
