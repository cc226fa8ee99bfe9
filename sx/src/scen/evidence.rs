//! The evidence record of a run.
use serde_json::{json, Value};

fn property(id: &str) -> Value {
    let p = crate::root().join("properties.jsonl");
    let text = std::fs::read_to_string(p).unwrap_or_default();
    text.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).find(|v| v["id"] == id).unwrap_or(Value::Null)
}
pub fn evidence(id: &str, t: &Value, assumptions: &[&str]) -> Value {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let p = property(id);
    let funs: Vec<Value> = p["anchors"]["mechanism"].as_array().map(|a| a.iter().map(|m| m["where"].clone()).collect()).unwrap_or_default();
    let scen = &t["scenarios"];
    let complete = scen.as_array().map(|a| a.iter().filter(|s| s["exploration_complete"] == true).count()).unwrap_or(0);
    json!({
        "property": id,
        "tier": if t["thorough"] == true { "thorough" } else { "quick" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": t["tot_paths"],
            "states_are": "complete symbolic paths of the compiled code, each standing for all inputs that satisfy its path condition",
            "transitions": t["tot_decisions"],
            "transitions_are": "comparisons in the code decided by the solver or by facts already on the path",
            "traces_validated_against_impl": t["validated"],
            "native_replays_attempted": t["val_runs"],
            "native_replays_that_took_another_path": t["mismatches"],
            "forks": t["forks"],
            "pruned_paths": t["pruned"],
            "assertions_checked": t["checks"],
            "solver_queries_linear": t["queries"],
            "solver_queries_exact": t["exact_queries"],
            "exact_queries_unsat": t["exact_unsat"],
            "solver_answers_unknown": t["unknown"],
            "solver_seconds": t["solver_s"],
            "solver": crate::z3::version(),
            "candidates_refuted_in_exact_theory": t["refuted"],
            "functions_encoded": funs,
            "encoding": "the functions above and everything they call, compiled from the current tree of /repo with a symbolic coordinate type and executed symbolically",
            "scenarios_complete": complete,
            "scenarios_truncated": t["truncated"],
            "scenarios": scen,
            "undecided": t["undecided"],
            "samples": t["samples"],
            "workers": t["workers"],
        },
        "assumptions": assumptions,
        "wall_s": t["wall"],
        "violations": t["violations"],
    })
}
