mod exec;
mod expr;
mod ir;
mod selftest;
mod smt;
use std::collections::VecDeque;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    // deep expression recursion: run on a big stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.iter().any(|x| x == "--selftest") {
        return selftest::run();
    }
    if a.iter().any(|x| x == "--version") {
        println!("{}", smt::Smt::version());
        return 0;
    }
    let ll = opt("--ll").expect("--ll FILE");
    let entry = opt("--entry").expect("--entry FN");
    let args: Vec<u64> = opt("--args").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let limit: f64 = opt("--time").map(|x| x.parse().unwrap()).unwrap_or(600.0);
    let qt: u32 = opt("--query-ms").map(|x| x.parse().unwrap()).unwrap_or(60000);
    let (si, sn) = opt("--shard").map(|s| {
        let (x, y) = s.split_once('/').unwrap();
        (x.parse::<usize>().unwrap(), y.parse::<usize>().unwrap())
    }).unwrap_or((0, 1));
    let maxv: usize = opt("--max-violations").map(|x| x.parse().unwrap()).unwrap_or(8);
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(std::fs::read(&ll).expect("read ll"));
    let mut en = exec::Engine::new(m, qt);
    en.pool.plain = a.iter().any(|x| x == "--plain");
    en.verbose = a.iter().any(|x| x == "-v");
    en.deadline = t0 + std::time::Duration::from_secs_f64(limit);
    if let Some(x) = opt("--max-traces") {
        en.max_traces = x.parse().unwrap();
    }
    if let Some(x) = opt("--max-steps") {
        en.max_steps_path = x.parse().unwrap();
    }
    if let Some(x) = opt("--slow") {
        en.smt.slow = x.parse().unwrap();
    }
    let st = en.initial(&entry, &args);
    let load = t0.elapsed().as_secs_f64();
    let mut q: VecDeque<exec::State> = VecDeque::new();
    q.push_back(st);
    if sn > 1 {
        // breadth first until there is enough to share out; the prefix is identical in every shard
        while !q.is_empty() && q.len() < 4 * sn {
            let s = q.pop_front().unwrap();
            for n in en.run_state(s) {
                q.push_back(n);
            }
        }
        if si != 0 {
            en.stats = Default::default();
            en.traces.clear();
            en.checks.clear();
            en.covers.clear();
            en.violations.clear();
        }
        let all: Vec<exec::State> = q.drain(..).collect();
        for (i, s) in all.into_iter().enumerate() {
            if i % sn == si {
                q.push_back(s);
            }
        }
    }
    while let Some(s) = q.pop_back() {
        if std::time::Instant::now() > en.deadline {
            en.note_incomplete(&s, "time limit".into());
            break;
        }
        if en.violations.len() >= maxv || en.incomplete.get("step limit per path").is_some_and(|n| *n >= 2) {
            break;
        }
        for n in en.run_state(s) {
            q.push_back(n);
        }
    }
    let stopped_early = !q.is_empty();
    // output
    let mut o = String::new();
    let s = &en.stats;
    let _ = write!(o, "{{\"entry\":{},\"args\":{:?},\"load_s\":{:.3},\"wall_s\":{:.3},", js(&entry), args, load, t0.elapsed().as_secs_f64());
    let _ = write!(
        o,
        "\"paths_ok\":{},\"paths_panic\":{},\"paths_assume\":{},\"paths_violation\":{},\"forks\":{},\"steps\":{},\"branch_queries\":{},\"mem_queries\":{},\"check_queries\":{},\"checks_trivial\":{},\"mem_accesses\":{},\"max_depth\":{},",
        s.paths_ok, s.paths_panic, s.paths_assume, s.paths_viol, s.forks, s.steps, s.branch_queries, s.mem_queries, s.check_queries, s.checks_trivial, s.mem_checks, s.max_depth
    );
    let _ = write!(
        o,
        "\"smt_queries\":{},\"smt_sat\":{},\"smt_unsat\":{},\"smt_unknown\":{},\"smt_cache_hits\":{},\"smt_model_reuse\":{},\"smt_time_s\":{:.3},\"smt_max_s\":{:.3},\"solver\":{},",
        en.smt.queries, en.smt.sat, en.smt.unsat, en.smt.unknown, en.smt.cache_hits, en.recent_hits, en.smt.time, en.smt.max_time, js(&smt::Smt::version())
    );
    let cov: Vec<String> = en.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let chk: Vec<String> = en.checks.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect();
    let inc: Vec<String> = en.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let inct: Vec<String> = en.incomplete_trace.iter().map(|t| jl(t)).collect();
    let sus: Vec<String> = en.suspects.iter().map(|t| js(&t.iter().map(|(w, x)| format!("{}:{:x}", w, x)).collect::<Vec<_>>().join(" "))).collect();
    let mut fu: Vec<(u32, u64)> = en.funcs_used.iter().map(|(k, v)| (*k, *v)).collect();
    fu.sort();
    let funcs: Vec<String> = fu.iter().map(|(f, n)| format!("{}:{}", js(&en.m.funcs[*f as usize].name), n)).collect();
    let vs: Vec<String> = en
        .violations
        .iter()
        .map(|v| {
            let tp: Vec<String> = v.tape.iter().map(|(w, x)| format!("{}:{:x}", w, x)).collect();
            format!(
                "{{\"kind\":{},\"msg\":{},\"trace\":{},\"tape\":{},\"events\":{}}}",
                js(&v.kind),
                js(&v.msg),
                jl(&v.trace),
                js(&tp.join(" ")),
                jl(&v.events)
            )
        })
        .collect();
    let _ = write!(
        o,
        "\"stopped_early\":{},\"covers\":{{{}}},\"checks\":{{{}}},\"incomplete\":{{{}}},\"incomplete_trace\":[{}],\"suspects\":[{}],\"functions\":{{{}}},\"violations\":[{}],\"expr_nodes\":{}}}",
        stopped_early,
        cov.join(","),
        chk.join(","),
        inc.join(","),
        inct.join(","),
        sus.join(","),
        funcs.join(","),
        vs.join(","),
        en.pool.nodes.len()
    );
    if a.iter().any(|x| x == "--profile") {
        let mut pr: Vec<_> = en.profile.iter().collect();
        pr.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in pr.iter().take(20) {
            eprintln!("{:8} {}", n, exec::short(&en.m.funcs[**f as usize].name));
        }
    }
    match opt("--out") {
        Some(f) => std::fs::write(f, o).unwrap(),
        None => println!("{}", o),
    }
    if let Some(f) = opt("--traces") {
        std::fs::write(f, en.traces.join("\n") + "\n").unwrap();
    }
    0
}
