mod exec;
mod expr;
mod ir;
mod solver;

use std::fmt::Write as _;
use std::time::{Duration, Instant};

/// Readable path of a v0-mangled name (identifiers only).
pub fn demangle(s: &str) -> String {
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let n: usize = s[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && n < 80 && j + n <= b.len() && s.is_char_boundary(j + n) {
                let w = &s[j..j + n];
                if w.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_') && !w.as_bytes()[0].is_ascii_digit() {
                    out.push(w);
                    i = j + n;
                    continue;
                }
            }
        } else {
            // skip disambiguators: s<base62>_ and C s<base62>_
            if b[i] == b's' || b[i] == b'B' {
                if let Some(k) = s[i + 1..].find('_') {
                    if k <= 12 && s[i + 1..i + 1 + k].bytes().all(|c| c.is_ascii_alphanumeric()) {
                        i += k + 2;
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    out.join("::")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn ints(v: &[(u32, u128)]) -> String {
    let p: Vec<String> = v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect();
    format!("[{}]", p.join(","))
}

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let weak: Vec<String> = text
        .lines()
        .filter(|l| l.starts_with("declare extern_weak"))
        .filter_map(|l| {
            let a = l.find('@')?;
            let e = l[a..].find('(')?;
            Some(l[a + 1..a + e].to_string())
        })
        .collect();
    let m = match ir::Module::parse(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("hopsym: cannot parse {}: {}", ll, e);
            return 3;
        }
    };
    let nfun = m.fdefs.len();
    let lim = exec::Limits {
        time: Duration::from_secs(num("--timeout", 300)),
        paths: num("--max-paths", 2_000_000),
        steps_per_path: num("--max-steps", 20_000_000),
        preempt: num("--preempt", 3) as u32,
        atomic_yield: num("--atomic-yield", 1) == 1,
        samples: num("--samples", 24) as usize,
        deep: args.iter().any(|a| a == "--deep"),
        max_violations: num("--max-violations", 12) as usize,
    };
    let mut s = solver::Solver::new(num("--solver-timeout", 60_000));
    if let Some(d) = get("--dump") {
        s.dump = std::fs::File::create(d).ok();
    }
    let mut x = match exec::Exec::new(m, s, lim) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("hopsym: {}", e);
            return 3;
        }
    };
    for w in &weak {
        x.set_weak(w);
    }
    let parse = t0.elapsed();
    let mut audit = "null".to_string();
    if let Err(e) = x.run(&entry) {
        eprintln!("hopsym: {}", e);
        return 3;
    }
    let wall = t0.elapsed();
    let budget = num("--audit", 0);
    if budget > 0 {
        let a = x.solver.audit(&mut x.pool, Duration::from_secs(budget));
        for (l, r) in a.wrong.iter().take(5) {
            *x.errors.entry(format!("wrong rewrite: {} became {}", x.pool.show(*l, 6), x.pool.show(*r, 6))).or_insert(0) += 1;
        }
        audit = format!(
            "{{\"rewrites\":{},\"valid\":{},\"open\":{},\"queries\":{},\"s\":{:.3}}}",
            a.rewrites, a.valid, a.open, a.queries, a.time.as_secs_f64()
        );
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"switches\":{},\"instructions\":{},\"asserts\":{},\"assert_queries\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"parse_s\":{:.3},\"max_path_condition\":{},\"module_functions\":{},\"exprs\":{},\"z3\":{}",
        js(&entry), x.paths, x.infeasible, x.forks, x.switches, x.steps, x.asserts, x.assert_queries,
        x.solver.queries, x.solver.cache_hits, x.solver.sat, x.solver.unsat, x.solver.unknown,
        x.solver.time.as_secs_f64(), x.solver.max_query.as_secs_f64(), wall.as_secs_f64(),
        parse.as_secs_f64(), x.max_pc, nfun, x.pool.nodes.len(), js(&solver::Solver::version())
    );
    let _ = write!(o, ",\"covers\":{{{}}}", x.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"bounds\":{{{}}}", x.bounds.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"errors\":{{{}}}", x.errors.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, ",\"audit\":{}", audit);
    let notes = |v: &Vec<u128>| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let sched = |v: &Vec<u8>| format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    let _ = write!(
        o,
        ",\"violations\":[{}]",
        x.violations
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"msg\":{},\"at\":{},\"inputs\":{},\"sched\":{},\"notes\":{}}}",
                js(&v.kind), js(&v.msg), js(&v.at), ints(&v.inputs), sched(&v.sched), notes(&v.notes)
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        o,
        ",\"samples\":[{}]",
        x.samples
            .iter()
            .map(|v| format!("{{\"inputs\":{},\"sched\":{},\"notes\":{}}}", ints(&v.inputs), sched(&v.sched), notes(&v.notes)))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        o,
        ",\"functions\":[{}]}}",
        x.functions().iter().map(|(n, b, t)| format!("[{},{},{}]", js(n), b, t)).collect::<Vec<_>>().join(",")
    );
    match get("--out") {
        Some(f) => std::fs::write(f, o + "\n").expect("write"),
        None => println!("{}", o),
    }
    if !x.violations.is_empty() {
        1
    } else if !x.errors.is_empty() {
        2
    } else {
        0
    }
}
