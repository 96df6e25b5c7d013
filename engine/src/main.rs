mod exec;
mod ints;
mod ir;
mod mem;
mod solver;
mod term;

use std::fmt::Write as _;
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    format!("[{}]", i.into_iter().collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: vpe FILE.ll ENTRY [--param N]* [--steps N] [--paths N] [--time S] [--samples K] [--seed N] [--qms N] [--xms N] [-v] [--out FILE]");
        std::process::exit(2);
    }
    let mut conf = exec::Conf {
        params: vec![],
        max_steps: 6_000_000,
        max_paths: 200_000,
        time_s: 600.0,
        samples: 8,
        verbose: false,
        only: vec![],
        seed: 1,
    };
    let (mut qms, mut xms) = (400u64, 20_000u64);
    let mut out = None;
    let mut i = 3;
    while i < a.len() {
        let nx = || a[i + 1].clone();
        match a[i].as_str() {
            "--param" => conf.params.push(nx().parse().unwrap()),
            "--steps" => conf.max_steps = nx().parse().unwrap(),
            "--paths" => conf.max_paths = nx().parse().unwrap(),
            "--time" => conf.time_s = nx().parse().unwrap(),
            "--samples" => conf.samples = nx().parse().unwrap(),
            "--seed" => conf.seed = nx().parse().unwrap(),
            "--qms" => qms = nx().parse().unwrap(),
            "--xms" => xms = nx().parse().unwrap(),
            "--only" => conf.only = nx().split(',').map(|x| x.to_string()).collect(),
            "--out" => out = Some(nx()),
            "-v" => {
                conf.verbose = true;
                i += 1;
                continue;
            }
            x => panic!("bad argument {}", x),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let m = ir::Module::load(&a[1]);
            let load_s = t0.elapsed().as_secs_f64();
            let mut sv = solver::Solver::new(qms, xms);
            let mut lv = solver::Solver::new(qms, xms);
            let end = Some(t0 + std::time::Duration::from_secs_f64(conf.time_s + 10.0));
            sv.deadline = end;
            lv.deadline = end;
            let mut x = exec::Exec::new(m, conf, sv, lv);
            x.start(&a[2]);
            let mut o = String::from("{");
            let _ = write!(o, "\"entry\":{},\"params\":{},", js(&a[2]), arr(x.conf.params.iter().map(|p| p.to_string())));
            let _ = write!(o, "\"paths\":{},\"steps\":{},\"forks\":{},", x.paths, x.steps, x.forks);
            let _ = write!(o, "\"ends\":{{{}}},", x.ends.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
            let _ = write!(o, "\"reach\":{{{}}},", x.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
            let _ = write!(o, "\"asserts\":{{{}}},", x.asserts.iter().map(|(k, v)| format!("{}:[{},{}]", js(k), v.0, v.1)).collect::<Vec<_>>().join(","));
            let _ = write!(
                o,
                "\"cexs\":{},",
                arr(x.cexs.iter().map(|c| format!(
                    "{{\"label\":{},\"inputs\":{},\"names\":{},\"validated\":{}}}",
                    js(&c.label),
                    arr(c.inputs.iter().map(|v| js(&v.to_string()))),
                    arr(c.names.iter().map(|v| js(v))),
                    c.validated
                )))
            );
            let _ = write!(o, "\"errors\":{},\"inconclusive\":{},", arr(x.errors.iter().map(|e| js(e))), arr(x.inconclusive.iter().map(|e| js(e))));
            let _ = write!(
                o,
                "\"samples\":{},",
                arr(x.samples.iter().map(|c| format!(
                    "{{\"end\":{},\"inputs\":{},\"trace\":{}}}",
                    js(&c.end),
                    arr(c.inputs.iter().map(|v| js(&v.to_string()))),
                    arr(c.trace.iter().map(|v| js(v)))
                )))
            );
            let fns: std::collections::BTreeSet<String> = x.funcs_used.iter().map(|f| exec::short(&x.m.fnames[*f])).collect();
            let _ = write!(o, "\"functions\":{},", arr(fns.iter().map(|f| js(f))));
            let l = &x.lv.st;
            let mut s = x.sv.st.clone();
            s.queries += l.queries;
            s.sat += l.sat;
            s.unsat += l.unsat;
            s.unknown += l.unknown;
            s.time += l.time;
            s.max = s.max.max(l.max);
            let _ = write!(
                o,
                "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"exact_queries\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"spurious\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"terms\":{}}}",
                s.queries, s.sat, s.unsat, s.unknown, s.exact, s.time, s.max, x.spurious, load_s, t0.elapsed().as_secs_f64(), x.ts.n.len()
            );
            match out {
                Some(f) => std::fs::write(f, o).unwrap(),
                None => println!("{}", o),
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(3);
    }
}
