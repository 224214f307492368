//! Symbolic executor for LLVM IR produced by rustc.
//!
//! `sx MODULE.ll HARNESS [-p N]... [--timeout S] [--max-steps N]
//!    [--max-violations N] [--tables] [--samples N] [--shard I/N] [--values FILE] [-o OUT]`

mod exec;
mod expr;
mod ir;
mod mem;
mod sweep;
mod z3;

use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn run() {
    let args: Vec<String> = std::env::args().collect();
    let (mut pos, mut params) = (vec![], vec![]);
    let (mut timeout, mut max_steps, mut maxv) = (0.0f64, 5_000_000u64, 1usize);
    let mut samples = 0usize;
    let (mut solver_only, mut shard, mut values, mut out) = (true, None, None, None);
    let mut split = false;
    let mut query_ms = 120_000u32;
    let mut i = 1;
    while i < args.len() {
        let opt = args[i].clone();
        let mut next = || {
            i += 1;
            args[i].clone()
        };
        match opt.as_str() {
            "-p" => params.push(next().parse::<u64>().unwrap()),
            "--timeout" => timeout = next().parse().unwrap(),
            "--query-timeout" => query_ms = (next().parse::<f64>().unwrap() * 1000.0) as u32,
            "--max-steps" => max_steps = next().parse().unwrap(),
            "--max-violations" => maxv = next().parse().unwrap(),
            // decide single-byte branch conditions by truth table
            "--tables" => solver_only = false,
            // split over symbolic addresses instead of merging what they hold
            "--split" => split = true,
            "--samples" => samples = next().parse().unwrap(),
            "--shard" => {
                let t = next();
                let (a, b) = t.split_once('/').unwrap();
                shard = Some((a.parse::<usize>().unwrap(), b.parse::<usize>().unwrap()));
            }
            "--values" => values = Some(next()),
            "-o" => out = Some(next()),
            x => pos.push(x.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&pos[0]);
    let z = z3::Z3::new(query_ms);
    let mut e = exec::Exec::new(m, z);
    e.params = params.clone();
    e.max_steps = max_steps;
    e.max_violations = maxv;
    e.solver_only = solver_only;
    e.split = split;
    e.shard = shard;
    e.max_samples = samples;
    if timeout > 0.0 {
        e.deadline = Some(t0 + Duration::from_secs_f64(timeout));
    }
    if let Some(f) = values {
        let t = std::fs::read_to_string(f).expect("values");
        e.concrete = Some(
            t.lines()
                .filter(|l| !l.is_empty() && !l.starts_with('#'))
                .map(|l| u64::from_str_radix(l.trim(), 16).expect("hex"))
                .collect(),
        );
    }
    e.run(&pos[1]);
    let st = &e.stats;
    let mut o = String::new();
    o.push_str("{\n");
    o.push_str(&format!("\"harness\": \"{}\",\n\"params\": {:?},\n", esc(&pos[1]), params));
    let status = if !e.violations.is_empty() {
        "violation"
    } else if !e.cuts.is_empty() {
        "incomplete"
    } else {
        "held"
    };
    o.push_str(&format!("\"status\": \"{}\",\n", status));
    o.push_str(&format!(
        "\"paths\": {}, \"killed\": {}, \"forks\": {}, \"instructions\": {}, \"max_path_instructions\": {},\n",
        st.paths, st.killed, st.forks, st.steps, st.max_path_steps
    ));
    o.push_str(&format!(
        "\"assertions_solver\": {}, \"assertions_folded\": {}, \"expected_panics\": {},\n",
        st.checks_solver, st.checks_folded, st.expected_panics
    ));
    o.push_str(&format!(
        "\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"cached\": {}, \"table_decisions\": {}, \"sweeps\": {},\n",
        e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, e.z.time, e.z.max_time, st.cache_hits, st.branch_dom, st.sweeps
    ));
    o.push_str(&format!("\"nodes\": {}, \"wall_s\": {:.3}, \"solver\": \"{}\",\n", expr::ar().nodes.len(), t0.elapsed().as_secs_f64(), esc(&z3::version())));
    let cov: Vec<String> = e.covers.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
    o.push_str(&format!("\"covers\": {{{}}},\n", cov.join(", ")));
    let cuts: Vec<String> = e.cuts.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    o.push_str(&format!("\"cuts\": {{{}}},\n", cuts.join(", ")));
    let fns: Vec<String> = e.executed.iter().map(|(k, v)| format!("\"{}\": {}", esc(k), v)).collect();
    o.push_str(&format!("\"functions\": {{{}}},\n", fns.join(", ")));
    // source functions and lines executed symbolically, grouped by file
    let mut loc: std::collections::BTreeMap<String, std::collections::BTreeMap<String, std::collections::BTreeSet<u32>>> = Default::default();
    for (file, name, line) in e.m.locations(&e.seen_locations()) {
        if file.contains("/repo/") {
            loc.entry(file).or_default().entry(name).or_default().insert(line);
        }
    }
    let locs: Vec<String> = loc
        .iter()
        .map(|(f, ns)| {
            let n: Vec<String> = ns.iter().map(|(n, l)| format!("\"{}\": {:?}", esc(n), l.iter().collect::<Vec<_>>())).collect();
            format!("\"{}\": {{{}}}", esc(f), n.join(", "))
        })
        .collect();
    o.push_str(&format!("\"source\": {{{}}},\n", locs.join(", ")));
    let smp: Vec<String> = e
        .samples
        .iter()
        .map(|v| {
            let vals: Vec<String> = v.values.iter().map(|x| format!("\"{:x}\"", x)).collect();
            let tr: Vec<String> = v.trace.iter().map(|x| format!("\"{}\"", esc(x))).collect();
            format!("{{\"values\": [{}], \"trace\": [{}]}}", vals.join(", "), tr.join(", "))
        })
        .collect();
    o.push_str(&format!("\"samples\": [{}],\n", smp.join(", ")));
    let vio: Vec<String> = e
        .violations
        .iter()
        .map(|v| {
            let vals: Vec<String> = v.values.iter().map(|x| format!("\"{:x}\"", x)).collect();
            let st: Vec<String> = v.stack.iter().map(|x| format!("\"{}\"", esc(x))).collect();
            format!(
                "{{\"kind\": \"{}\", \"id\": {}, \"msg\": \"{}\", \"stack\": [{}], \"values\": [{}], \"widths\": {:?}}}",
                v.kind,
                v.id,
                esc(&v.msg),
                st.join(", "),
                vals.join(", "),
                v.widths
            )
        })
        .collect();
    o.push_str(&format!("\"violations\": [{}]\n}}\n", vio.join(", ")));
    match out {
        Some(f) => std::fs::write(f, o).expect("write result"),
        None => print!("{}", o),
    }
}

fn main() {
    // terms can nest deeply; recursion in the simplifier needs room
    let t = std::thread::Builder::new().stack_size(2 << 30).spawn(run).unwrap();
    if t.join().is_err() {
        std::process::exit(73);
    }
}
