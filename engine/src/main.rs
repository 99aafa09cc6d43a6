mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list<T: std::fmt::Display>(v: impl IntoIterator<Item = T>) -> String {
    let v: Vec<String> = v.into_iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

fn main() {
    // deep recursion in the expression code
    std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap().join().unwrap_or_else(|_| std::process::exit(3));
}
fn real() {
    let a: Vec<String> = std::env::args().collect();
    let mut entry = String::new();
    let mut out = String::new();
    let mut dump = None;
    let mut o = Opts {
        params: vec![],
        max_steps: 30_000_000,
        max_paths: 2_000_000,
        time_s: 600.0,
        max_viol: 6,
        cap: 4 << 20,
        max_conc: 700,
        samples: 4,
        seed: 1,
        trace: false,
        dbg_q: false,
    };
    let mut i = 2;
    while i < a.len() {
        let nx = || a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--param" => o.params = nx().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--time" => o.time_s = nx().parse().unwrap(),
            "--samples" => o.samples = nx().parse().unwrap(),
            "--seed" => o.seed = nx().parse().unwrap(),
            "--max-steps" => o.max_steps = nx().parse().unwrap(),
            "--max-paths" => o.max_paths = nx().parse().unwrap(),
            "--max-viol" => o.max_viol = nx().parse().unwrap(),
            "--dump" => dump = Some((nx(), 0)),
            "--queries" => {
                o.dbg_q = true;
                i += 1;
                continue;
            }
            "--trace" => {
                o.trace = true;
                i += 1;
                continue;
            }
            x => {
                eprintln!("fcsym: unknown option {}", x);
                std::process::exit(3);
            }
        }
        i += 2;
    }
    let m = ir::Module::load(&a[1]);
    let mut x = Exec::new(m, o);
    x.s.dump = dump;
    if let Err(e) = x.run(&entry) {
        eprintln!("fcsym: {}", e);
        std::process::exit(3);
    }
    // coverage of the crate's own source
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut funs: BTreeSet<String> = BTreeSet::new();
    for d in 1..x.cov.len() as u32 {
        if x.cov[d as usize] {
            for (_, nm, file, line) in x.m.loc_chain(d) {
                if let Some(p) = file.find("/repo/src/") {
                    let f = file[p + 6..].to_string();
                    lines.entry(f.clone()).or_default().insert(line);
                    funs.insert(short(&nm));
                }
            }
        }
    }
    let mut s = String::from("{");
    let _ = write!(
        s,
        "\"entry\":{},\"params\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"checks_solver\":{},\"exhausted\":{},\"wall_s\":{:.3}",
        js(&entry),
        list(&x.o.params),
        x.paths,
        x.infeasible,
        x.forks,
        x.steps,
        x.checks,
        x.checks_solver,
        x.exhausted,
        x.t0.elapsed().as_secs_f64()
    );
    let _ = write!(
        s,
        ",\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"time_s\":{:.3}}}",
        x.s.queries, x.s.sat, x.s.unsat, x.s.unknown, x.s.time
    );
    let _ = write!(s, ",\"path_condition_max\":{},\"symbolic_inputs_max\":{},\"branches_implied\":{},\"implied_confirmed\":{}", x.pc_max, x.vars_max, x.n_implied, x.n_confirmed);
    let mp = |m: &BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
        format!("{{{}}}", v.join(","))
    };
    let _ = write!(s, ",\"truncated\":{},\"errors\":{},\"covers\":{}", mp(&x.trunc), mp(&x.errors), mp(&x.covers));
    let v: Vec<String> = x
        .viols
        .iter()
        .map(|v| {
            format!(
                "{{\"kind\":{},\"msg\":{},\"loc\":{},\"inputs\":{},\"stack\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.loc),
                list(&v.inputs),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let _ = write!(s, ",\"violating_paths\":{},\"violations\":[{}]", x.viol_paths, v.join(","));
    let v: Vec<String> =
        x.samples.iter().map(|p| format!("{{\"inputs\":{},\"obs\":{}}}", list(&p.inputs), list(&p.obs))).collect();
    let _ = write!(s, ",\"samples\":[{}]", v.join(","));
    let _ = write!(s, ",\"functions\":[{}]", funs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
    let v: Vec<String> = lines.iter().map(|(f, l)| format!("{}:{}", js(f), list(l))).collect();
    let _ = write!(s, ",\"lines\":{{{}}},\"ir_functions\":{}}}", v.join(","), x.fn_hit.len());
    if out.is_empty() {
        println!("{}", s);
    } else {
        std::fs::write(&out, s).unwrap();
    }
    std::process::exit(0);
}
