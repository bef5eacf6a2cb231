//! irv: deductive verifier for contracts over compiled (LLVM IR) code.
mod aesni;
mod exec;
mod ll;
mod poly;
mod solve;
mod term;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // irv MODULE.ll ENTRY [param ...] [--seed n] [--trace] [--z3 path] [--time s] [--check-ms n] [--final-ms n]
    let a: Vec<String> = std::env::args().collect();
    let mut pos = vec![];
    let (mut seed, mut trace, mut z3, mut time, mut check_ms, mut final_ms) = (1u64, false, "z3".to_string(), 800u64, 20000u64, 120000u64);
    let mut list = false;
    let mut i = 1;
    while i < a.len() {
        match &a[i][..] {
            "--seed" => {
                i += 1;
                seed = a[i].parse().unwrap_or(1);
            }
            "--trace" => trace = true,
            "--list" => list = true,
            "--z3" => {
                i += 1;
                z3 = a[i].clone();
            }
            "--time" => {
                i += 1;
                time = a[i].parse().unwrap();
            }
            "--check-ms" => {
                i += 1;
                check_ms = a[i].parse().unwrap();
            }
            "--final-ms" => {
                i += 1;
                final_ms = a[i].parse().unwrap();
            }
            _ => pos.push(a[i].clone()),
        }
        i += 1;
    }
    let run = move || -> i32 {
        let t0 = std::time::Instant::now();
        let m = match ll::Module::load(&pos[0]) {
            Ok(m) => m,
            Err(e) => {
                eprintln!("load: {}", e);
                return 2;
            }
        };
        if list {
            let mut v: Vec<&String> = m.fsrc.keys().collect();
            v.sort();
            for f in v {
                match m.func(f) {
                    Ok(_) => {}
                    Err(e) => println!("{}: {}", f, e),
                }
            }
            return 0;
        }
        let mut sv = solve::Solver::new(vec![z3.clone(), "-in".into(), "-smt2".into()], seed);
        sv.verbose = trace;
        sv.check_ms = check_ms;
        sv.final_ms = final_ms;
        sv.deadline = t0 + std::time::Duration::from_secs(time);
        let mut ex = match exec::Exec::new(m, sv) {
            Ok(e) => e,
            Err(e) => {
                eprintln!("init: {}", e);
                return 2;
            }
        };
        ex.trace = trace;
        ex.params = pos[2..].iter().map(|s| s.parse().unwrap()).collect();
        ex.deadline = t0 + std::time::Duration::from_secs(time);
        let r = ex.run_entry(&pos[1]);
        let mut o = String::from("{");
        let err = match &r {
            Ok(_) => ex.fatal.clone().filter(|_| ex.fails.is_empty()),
            Err(e) => Some(e.clone()),
        };
        let _ = write!(o, "\"entry\":{},\"params\":{:?},", js(&pos[1]), ex.params);
        let _ = write!(o, "\"error\":{},", err.as_ref().map(|e| js(e)).unwrap_or("null".into()));
        let _ = write!(o, "\"fails\":[");
        for (k, f) in ex.fails.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            let _ = write!(o, "{{\"kind\":{},\"msg\":{},\"confirmed\":{},\"detail\":{},\"model\":", js(&f.kind), js(&f.msg), f.confirmed, js(&f.detail));
            match &f.model {
                None => o.push_str("null"),
                Some(m) => {
                    // bytes grouped by input name
                    let mut g: std::collections::BTreeMap<String, Vec<(usize, u8)>> = Default::default();
                    for (n, v) in m {
                        if let Some(p) = n.rfind('[') {
                            if let Some(k) = n[p + 1..n.len() - 1].strip_prefix('*') {
                                for j in 0..k.parse::<usize>().unwrap_or(0) {
                                    g.entry(n[..p].to_string()).or_default().push((j, (*v >> (8 * j)) as u8));
                                }
                                continue;
                            }
                            let idx: usize = n[p + 1..n.len() - 1].parse().unwrap_or(0);
                            g.entry(n[..p].to_string()).or_default().push((idx, *v as u8));
                        }
                    }
                    o.push('{');
                    for (j, (n, mut v)) in g.into_iter().enumerate() {
                        if j > 0 {
                            o.push(',');
                        }
                        v.sort();
                        let hex: String = v.iter().map(|x| format!("{:02x}", x.1)).collect();
                        let _ = write!(o, "{}:\"{}\"", js(&n), hex);
                    }
                    for (n, v) in &f.ufs {
                        let _ = write!(o, ",{}:\"{}\"", js(n), v);
                    }
                    o.push('}');
                }
            }
            o.push('}');
        }
        let s = &ex.sv.st;
        let e = &ex.stats;
        let _ = write!(
            o,
            "],\"stats\":{{\"instrs\":{},\"paths\":{},\"forks\":{},\"merges\":{},\"asserts\":{},\"panic_checks\":{},\"mem_checks\":{},\"terms\":{},\"obligations\":{},\"by_syntax\":{},\"by_sweep\":{},\"by_smt\":{},\"smt_calls\":{},\"smt_unsat\":{},\"smt_time\":{:.3},\"smt_unknown\":{},\"sweep_time\":{:.3},\"sweep_merges\":{},\"merges_affine\":{},\"merges_norm\":{},\"merges_exhaustive\":{},\"merges_smt\":{},\"by_poly\":{},\"lia_calls\":{},\"max_cone\":{},\"wall\":{:.3}}},",
            e.instrs, e.paths, e.forks, e.merges, e.asserts, e.panics_checked, e.mem_checked, ex.tm.nodes.len(), s.obligations, s.by_syntax, s.by_sweep, s.by_smt, s.smt_calls, s.smt_unsat, s.smt_time, s.smt_unknown, s.sweep_time, s.sweep_merges, s.merges_affine, s.merges_norm, s.merges_exh, s.merges_smt, s.by_poly, ex.px.lia, s.max_cone, t0.elapsed().as_secs_f64()
        );
        let _ = write!(o, "\"reached\":{{");
        for (j, (k, v)) in e.reached.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            let _ = write!(o, "\"{}\":{}", k, v);
        }
        o.push_str("},\"functions\":[");
        for (j, f) in e.funcs.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            o.push_str(&js(f));
        }
        o.push_str("],\"behind_contract\":{");
        for (j, (f, n)) in e.replaced.iter().enumerate() {
            if j > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}:{}", js(f), n);
        }
        o.push_str("}}");
        println!("{}", o);
        if err.is_some() {
            3
        } else if !ex.fails.is_empty() {
            1
        } else {
            0
        }
    };
    // deep recursion over branches needs a large stack
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(run).unwrap();
    let code = h.join().unwrap_or(4);
    std::process::exit(code);
}
