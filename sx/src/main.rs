mod dom;
mod engine;
mod fast;
mod rat;
mod run;
mod scen;
mod sym;
mod trig;
mod z3;

use serde_json::json;
use std::io::Write;
use std::time::Instant;

pub fn root() -> std::path::PathBuf {
    std::env::var("SX_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into())
}
fn quiet_panics() {
    if std::env::var("SX_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => std::process::exit(run_prop(&a[2..])),
        Some("replay") => std::process::exit(replay(&a[2])),
        Some("list") => {
            for p in scen::ids() {
                for s in scen::scenarios(p) {
                    println!("{p} {}{} :: {}", s.name, if s.thorough { " (thorough)" } else { "" }, s.bounds);
                }
            }
        }
        _ => {
            eprintln!("usage: sx run <ID> [--thorough] [--only NAME] | sx replay FILE | sx list");
            std::process::exit(2)
        }
    }
}
fn run_prop(a: &[String]) -> i32 {
    let t0 = Instant::now();
    let id = a[0].clone();
    let _ = run::PROP.set(id.clone());
    let thorough = a.iter().any(|s| s == "--thorough");
    let only = a.iter().position(|s| s == "--only").map(|i| a[i + 1].clone());
    let verbose = std::env::var("SX_V").is_ok();
    let mut scens = scen::scenarios(&id);
    if scens.is_empty() {
        eprintln!("no scenarios for {id}");
        return 2;
    }
    scens.retain(|s| thorough || !s.thorough);
    if let Some(o) = &only {
        scens.retain(|s| s.name.contains(o.as_str()));
    }
    if thorough {
        for s in scens.iter_mut() {
            if !s.thorough {
                s.secs *= 4.0;
            }
        }
    }
    quiet_panics();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 8);
    let budget = std::env::var("SX_BUDGET").ok().and_then(|v| v.parse().ok()).unwrap_or(if thorough { 3300.0 } else { 420.0 });
    let (scens, res) = run::explore(scens, workers, budget);
    // ------------------------------------------------------------ report
    let mut tot = engine::Stats::default();
    let (mut viol, mut undecided, mut truncated) = (vec![], vec![], vec![]);
    let mut per = vec![];
    let mut samples = vec![];
    let (mut refuted, mut mismatches, mut dead) = (0, 0, 0);
    for (s, r) in scens.iter().zip(&res) {
        let st = &r.stats;
        for (x, y) in [
            (&mut tot.paths, st.paths),
            (&mut tot.pruned, st.pruned),
            (&mut tot.forks, st.forks),
            (&mut tot.decisions, st.decisions),
            (&mut tot.queries, st.queries),
            (&mut tot.unknown, st.unknown),
            (&mut tot.checks, st.checks),
            (&mut tot.exact_queries, st.exact_queries),
            (&mut tot.exact_unsat, st.exact_unsat),
            (&mut tot.validated, st.validated),
            (&mut tot.val_runs, st.val_runs),
        ] {
            *x += y;
        }
        tot.solver_s += st.solver_s;
        refuted += r.refuted;
        mismatches += r.mismatches;
        for v in &r.violations {
            viol.push(v.clone());
        }
        for u in r.unresolved.iter().chain(&r.errors) {
            undecided.push(format!("{}: {}", s.name, u));
        }
        if r.truncated {
            truncated.push(s.name.clone());
        }
        if st.checks == 0 && r.violations.is_empty() {
            dead += 1;
            if r.errors.is_empty() && r.unresolved.is_empty() {
                undecided.push(format!("{}: no complete path with an assertion", s.name));
            }
        }
        samples.extend(r.sample.iter().take(2).cloned());
        if verbose {
            eprintln!(
                "{:40} paths {:6} pruned {:5} forks {:6} dec {:8} q {:7} xq {:5}/{:5} unk {:3} checks {:7} val {}/{} refuted {} unres {} err {} viol {} {} {:.1}s (solver {:.1}s)",
                s.name, st.paths, st.pruned, st.forks, st.decisions, st.queries, st.exact_unsat, st.exact_queries, st.unknown, st.checks, st.validated, st.val_runs, r.refuted, r.unresolved.len(), r.errors.len(), r.violations.len(), if r.truncated { "TRUNCATED" } else { "" }, r.wall, st.solver_s
            );
        }
        per.push(json!({
            "scenario": s.name, "arithmetic": format!("{:?}", s.mode), "bounds": s.bounds,
            "paths": st.paths, "pruned_paths": st.pruned, "forks": st.forks, "branch_decisions": st.decisions,
            "solver_queries": st.queries + st.exact_queries, "solver_seconds": (st.solver_s * 1000.0).round() / 1000.0,
            "assertions": st.checks, "candidates_refuted": r.refuted, "unresolved": r.unresolved, "errors": r.errors,
            "exploration_complete": !r.truncated && r.errors.is_empty(), "wall_seconds": (r.wall * 10.0).round() / 10.0,
        }));
    }
    let mut out = std::io::stdout();
    let mut code = 0;
    let mut replays = vec![];
    if !viol.is_empty() {
        code = 1;
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        for (i, v) in viol.iter().enumerate().take(5) {
            let p = dir.join(format!("{id}-{}.json", i + 1));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&run::violation_json(&id, v)).unwrap());
            let _ = writeln!(out, "violated: {} in scenario {} ({}) with {:?} choices {:?}", v.what, v.scenario, v.num, v.values, v.choices);
            let _ = writeln!(out, "VIOLATION property={id} replay={}", p.display());
            replays.push(p.display().to_string());
        }
    }
    for u in undecided.iter().take(10) {
        let _ = writeln!(out, "UNDECIDED property={id} {u}");
    }
    if code == 0 && (dead * 2 > scens.len() || tot.checks == 0) {
        let _ = writeln!(out, "no answer: {dead} of {} scenarios decided nothing", scens.len());
        code = 2;
    }
    let ev = scen::evidence(&id, &json!({
        "tot_paths": tot.paths, "tot_decisions": tot.decisions, "forks": tot.forks, "queries": tot.queries, "exact_queries": tot.exact_queries,
        "exact_unsat": tot.exact_unsat, "unknown": tot.unknown, "checks": tot.checks, "solver_s": tot.solver_s,
        "validated": tot.validated, "val_runs": tot.val_runs, "pruned": tot.pruned,
        "scenarios": per, "samples": samples, "refuted": refuted, "mismatches": mismatches, "undecided": undecided, "truncated": truncated,
        "violations": viol.len(), "replays": replays, "wall": t0.elapsed().as_secs_f64(), "thorough": thorough, "workers": workers,
    }));
    if only.is_none() {
        let dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
            eprintln!("cannot write evidence");
        }
    }
    let _ = writeln!(
        out,
        "{id}: {} scenarios, {} paths, {} branch decisions, {} solver queries ({:.1}s), {} assertions, {} replayed natively, {} violations, {} undecided, {} truncated, {:.1}s",
        scens.len(), tot.paths, tot.decisions, tot.queries + tot.exact_queries, tot.solver_s, tot.checks, tot.validated, viol.len(), undecided.len(), truncated.len(), t0.elapsed().as_secs_f64()
    );
    let _ = out.flush();
    // workers may still be stuck in a path: leave without joining them
    std::process::exit(code)
}
fn replay(path: &str) -> i32 {
    let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = v["property"].as_str().unwrap();
    let name = v["scenario"].as_str().unwrap();
    let num = v["number_type"].as_str().unwrap();
    let vals: Vec<(String, f64)> = v["values"].as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_f64().unwrap_or(f64::NAN))).collect();
    let ch: Vec<u16> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u16).collect();
    quiet_panics();
    for s in scen::scenarios(id) {
        if s.name != name {
            continue;
        }
        for (n, f) in &s.nat {
            if *n == num {
                let (o, used) = run::replay(f, &vals, &ch);
                println!("inputs {used:?} choices {ch:?}");
                match o {
                    run::NatOut::Fail(w) => {
                        println!("reproduced: {w}");
                        return 1;
                    }
                    run::NatOut::Ok(..) => println!("not reproduced: every assertion holds"),
                    run::NatOut::Prune => println!("not reproduced: inputs do not satisfy the assumptions"),
                }
                return 0;
            }
        }
    }
    println!("no such scenario");
    2
}
