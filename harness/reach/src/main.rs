//! Transition systems given as formulas: bounded search in its three forms,
//! induction, interchangeable signals and dead triggers.
use logicaffeine_verify::equivalence::{SignalValue, Trace};
use logicaffeine_verify::interpolation::{itp_model_check, InterpolationResult};
use logicaffeine_verify::kinduction::{k_induction, KInductionResult};
use logicaffeine_verify::ic3::{ic3, Ic3Result};
use logicaffeine_verify::strategy::{verify_auto, VerificationResult};
use logicaffeine_verify::VerifyExpr;
use std::io::BufRead;
use logicaffeine_proof::bmc::*;
use logicaffeine_proof::ProofExpr;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn atom(i: u64, t: u32) -> ProofExpr {
    ProofExpr::Atom(format!("s{i}@{t}"))
}
fn expr(v: &Value, t: u32) -> ProofExpr {
    let op = v[0].as_str().unwrap();
    let sub = |i: usize| Box::new(expr(&v[i], t));
    match op {
        "a" => atom(v[1].as_u64().unwrap(), t),
        "b" => atom(v[1].as_u64().unwrap(), t + 1),
        "not" => ProofExpr::Not(sub(1)),
        "and" => ProofExpr::And(sub(1), sub(2)),
        "or" => ProofExpr::Or(sub(1), sub(2)),
        "iff" => ProofExpr::Iff(sub(1), sub(2)),
        _ => ProofExpr::Implies(sub(1), sub(2)),
    }
}
/// The states of a trace; a signal it does not mention is off.
fn states(n: u64, k: u32, tr: &[(String, bool)]) -> Vec<Vec<bool>> {
    (0..=k).map(|t| (1..=n).map(|i| tr.iter().any(|(s, b)| *b && *s == format!("s{i}@{t}"))).collect()).collect()
}

fn case(v: &mut Value) {
    let m = v["m"].clone();
    let n = m["n"].as_u64().unwrap();
    let most = v["most"].as_u64().unwrap() as u32;
    let k = v["k"].as_u64().unwrap() as u32;
    let init = expr(&m["init"], 0);
    let trans = |t: u32| expr(&m["trans"], t);
    let prop = |t: u32| expr(&m["prop"], t);
    let bounded = |by: &str, g: &dyn Fn() -> BmcOutcome| match catch_unwind(AssertUnwindSafe(g)) {
        Ok(BmcOutcome::CounterexampleAt { k, trace }) => json!({"by": by, "ans": "found", "k": k, "tr": states(n, k, &trace)}),
        Ok(BmcOutcome::NoneWithin(_)) => json!({"by": by, "ans": "none", "k": 0, "tr": []}),
        Ok(BmcOutcome::Unsupported) => json!({"by": by, "ans": "unsupported", "k": 0, "tr": []}),
        Err(_) => json!({"by": by, "ans": "panic", "k": 0, "tr": []}),
    };
    v["search"] = json!([
        bounded("plain", &|| find_counterexample(&init, &trans, &prop, most)),
        bounded("incremental", &|| find_counterexample_incremental(&init, &trans, &prop, most)),
        bounded("symmetric", &|| find_counterexample_symmetric(&init, &trans, &prop, most)),
    ]);
    v["prove"] = match catch_unwind(AssertUnwindSafe(|| prove_invariant(&init, &trans, &prop, k))) {
        Ok(InductionOutcome::Proven) => json!({"ans": "proven", "k": 0, "tr": []}),
        Ok(InductionOutcome::CounterexampleAt { k, trace }) => json!({"ans": "found", "k": k, "tr": states(n, k, &trace)}),
        Ok(InductionOutcome::NotInductive) => json!({"ans": "not inductive", "k": 0, "tr": []}),
        Ok(InductionOutcome::Unsupported) => json!({"ans": "unsupported", "k": 0, "tr": []}),
        Err(_) => json!({"ans": "panic", "k": 0, "tr": []}),
    };
    v["fires"] = match catch_unwind(AssertUnwindSafe(|| check_vacuity(&init))) {
        Ok(VacuityOutcome::Vacuous) => json!({"ans": "dead", "tr": []}),
        Ok(VacuityOutcome::Reachable(w)) => json!({"ans": "live", "tr": states(n, 0, &w)}),
        Ok(VacuityOutcome::Unsupported) => json!({"ans": "unsupported", "tr": []}),
        Err(_) => json!({"ans": "panic", "tr": []}),
    };
    let pairs = catch_unwind(AssertUnwindSafe(|| temporal_symmetry_pairs(&init, &trans(0), &prop(0)))).unwrap_or_default();
    let num = |s: &str| s[1..].parse::<u64>().unwrap();
    v["pairs"] = pairs.iter().map(|(a, b)| json!([num(a), num(b)])).collect();
}

fn formula(v: &Value, now: &str) -> VerifyExpr {
    let sub = |i: usize| formula(&v[i], now);
    match v[0].as_str().unwrap() {
        "a" => VerifyExpr::var(&format!("s{}@{now}", v[1])),
        "b" => VerifyExpr::var(&format!("s{}@t1", v[1])),
        "not" => VerifyExpr::not(sub(1)),
        "and" => VerifyExpr::and(sub(1), sub(2)),
        "or" => VerifyExpr::or(sub(1), sub(2)),
        "iff" => VerifyExpr::iff(sub(1), sub(2)),
        _ => VerifyExpr::implies(sub(1), sub(2)),
    }
}
fn cycles(n: u64, t: &Trace) -> Vec<Vec<bool>> {
    t.cycles.iter().map(|c| (1..=n).map(|i| matches!(c.signals.get(&format!("s{i}")), Some(SignalValue::Bool(true)))).collect()).collect()
}

/// The engines that rest on an external solver.
fn engines(v: &mut Value) {
    let m = v["m"].clone();
    let n = m["n"].as_u64().unwrap();
    let most = v["most"].as_u64().unwrap() as u32;
    let init = formula(&m["init"], if most % 2 == 0 { "0" } else { "t" });
    let trans = formula(&m["trans"], "t");
    let prop = formula(&m["prop"], "t");
    let said = |by: &str, g: &dyn Fn() -> (&'static str, Vec<Vec<bool>>)| match catch_unwind(AssertUnwindSafe(g)) {
        Ok((a, t)) => json!({"by": by, "ans": a, "tr": t}),
        Err(_) => json!({"by": by, "ans": "panic", "tr": []}),
    };
    v["engines"] = json!([
        said("k-induction", &|| match k_induction(&init, &trans, &prop, &[], most) {
            KInductionResult::Proven { .. } => ("safe", vec![]),
            KInductionResult::Counterexample { trace, .. } => ("unsafe", cycles(n, &trace)),
            _ => ("unknown", vec![]),
        }),
        said("frames", &|| match ic3(&init, &trans, &prop, most) {
            Ic3Result::Safe { .. } => ("safe", vec![]),
            Ic3Result::Unsafe { trace } => ("unsafe", cycles(n, &trace)),
            _ => ("unknown", vec![]),
        }),
        said("interpolation", &|| match itp_model_check(&init, &trans, &prop, most) {
            InterpolationResult::Safe | InterpolationResult::Fixpoint { .. } => ("safe", vec![]),
            InterpolationResult::Unsafe { trace } => ("unsafe", cycles(n, &trace)),
            _ => ("unknown", vec![]),
        }),
        said("chosen", &|| match verify_auto(&init, &trans, &prop, &[]) {
            VerificationResult::Safe { .. } => ("safe", vec![]),
            VerificationResult::Unsafe { trace, .. } => ("unsafe", cycles(n, &trace)),
            _ => ("unknown", vec![]),
        }),
    ]);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for line in std::io::stdin().lock().lines() {
        let mut v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        case(&mut v);
        if v["deep"] == true {
            engines(&mut v);
        } else {
            v["engines"] = json!([]);
        }
        println!("{v}");
    }
}
