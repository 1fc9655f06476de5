mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let h = std::thread::Builder::new()
        .stack_size(4 << 30)
        .spawn(real_main)
        .unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let mut ll = None;
    let mut harness = None;
    let mut out = None;
    let mut o = Opts {
        max_paths: 2_000_000,
        max_time: 800.0,
        max_instrs: 200_000_000,
        max_viol: 3,
        trace: false,
        enum_limit: 300,
    };
    let mut qt = 1500u32;
    let mut fb = 60u64;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--ll" => ll = Some(v()),
            "--harness" => harness = Some(v()),
            "--out" => out = Some(v()),
            "--max-paths" => o.max_paths = v().parse().unwrap(),
            "--max-time" => o.max_time = v().parse().unwrap(),
            "--max-instrs" => o.max_instrs = v().parse().unwrap(),
            "--max-viol" => o.max_viol = v().parse().unwrap(),
            "--enum-limit" => o.enum_limit = v().parse().unwrap(),
            "--query-ms" => qt = v().parse().unwrap(),
            "--fallback-s" => fb = v().parse().unwrap(),
            "--trace" => o.trace = true,
            _ => {
                eprintln!("unknown option {a}");
                return 3;
            }
        }
    }
    let m = Rc::new(ir::Module::load(&ll.expect("--ll")));
    let harness = harness.expect("--harness");
    let mut z = z3::Z3::new(qt, fb);
    z.deadline = Some(std::time::Instant::now() + std::time::Duration::from_secs_f64(o.max_time));
    let mut ex = Exec::new(m.clone(), z, o);
    if let Err(e) = ex.run(&harness) {
        eprintln!("{e}");
        return 3;
    }
    // coverage: source functions reached
    let mut funcs: BTreeSet<(String, String)> = BTreeSet::new();
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    for d in &ex.dbg_seen {
        for (file, line, func) in m.dbg_chain(*d) {
            lines.entry(file.clone()).or_default().insert(line);
            funcs.insert((file, func));
        }
    }
    let mut j = String::from("{");
    let _ = write!(j, "\"harness\":{},", js(&harness));
    let status = if !ex.viol.is_empty() {
        "violation"
    } else if !ex.inconclusive.is_empty() {
        "inconclusive"
    } else {
        "ok"
    };
    let _ = write!(j, "\"status\":{},", js(status));
    let _ = write!(j, "\"paths\":{},\"instrs\":{},\"forks\":{},\"merges\":{},", ex.paths, ex.instrs, ex.forks, ex.merges);
    let st = &ex.z.stats;
    let _ = write!(
        j,
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"query_cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"fallback\":{},\"fallback_solved\":{{{}}},",
        st.queries, st.sat, st.unsat, st.unknown, ex.qcache_hits, st.time, st.max_time, st.fallback,
        st.fallback_solved.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(j, "\"wall_s\":{:.3},", ex.elapsed());
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    let _ = write!(j, "\"ended\":{{{}}},", map(&ex.ended));
    let _ = write!(j, "\"covers\":{{{}}},", map(&ex.covers));
    let _ = write!(j, "\"inconclusive\":{{{}}},", map(&ex.inconclusive));
    let mut fs: Vec<(&String, &u64)> = ex.fork_sites.iter().collect();
    fs.sort_by(|a, b| b.1.cmp(a.1));
    let _ = write!(
        j,
        "\"fork_sites\":{{{}}},",
        fs.iter().take(12).map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"checks\":{{{}}},",
        ex.checks
            .iter()
            .map(|(k, (a, b))| format!("{}:[{a},{b}]", js(k)))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        j,
        "\"violations\":[{}],",
        ex.viol
            .iter()
            .map(|v| format!(
                "{{\"kind\":{},\"msg\":{},\"loc\":{},\"inputs\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.loc),
                v.inputs
                    .iter()
                    .map(|(n, w, x)| format!("[{},{w},{}]", js(n), js(&format!("{:x}", x.big()))))
                    .collect::<Vec<_>>()
                    .join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        j,
        "\"samples\":[{}],",
        ex.samples
            .iter()
            .map(|v| format!(
                "{{\"end\":{},\"checks\":{},\"covers\":{},\"inputs\":[{}]}}",
                js(&v.end),
                v.checks,
                v.covers,
                v.inputs
                    .iter()
                    .map(|(n, w, x)| format!("[{},{w},{}]", js(n), js(&format!("{:x}", x.big()))))
                    .collect::<Vec<_>>()
                    .join(",")
            ))
            .collect::<Vec<_>>()
            .join(",")
    );
    let _ = write!(
        j,
        "\"functions\":[{}],",
        funcs.iter().map(|(f, n)| format!("[{},{}]", js(f), js(n))).collect::<Vec<_>>().join(",")
    );
    let _ = write!(
        j,
        "\"lines\":{{{}}},",
        lines.iter().map(|(f, n)| format!("{}:{}", js(f), n.len())).collect::<Vec<_>>().join(",")
    );
    let _ = write!(j, "\"ir_functions\":{}", ex.fns_seen.len());
    j.push('}');
    match out {
        Some(p) => std::fs::write(p, &j).unwrap(),
        None => println!("{j}"),
    }
    match status {
        "ok" => 0,
        "violation" => 1,
        _ => 2,
    }
}
