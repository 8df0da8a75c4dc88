//! Run one program on every execution engine and record what each did.
use logicaffeine_compile::compile::{tw_outcome, vm_outcome_bg, vm_outcome_tiered, vm_outcome_with_args, RunOutcome};
use logicaffeine_compile::optimization::Tier;
use logicaffeine_compile::ui_bridge::interpret_for_ui_sync;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn guard(f: impl FnOnce() -> RunOutcome) -> RunOutcome {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| RunOutcome {
        output: String::new(),
        error: Some(format!(
            "PANIC {}",
            p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    })
}

pub fn outcomes(src: &str, bg: bool) -> Vec<(&'static str, RunOutcome)> {
    let tier = logicaffeine_jit::install();
    let mut r = vec![
        ("tree", guard(|| tw_outcome(src))),
        ("vm", guard(|| vm_outcome_with_args(src, &[], None))),
        ("native", guard(|| vm_outcome_with_args(src, &[], Some(tier)))),
        ("t0", guard(|| vm_outcome_tiered(src, &[], Tier::T0, None))),
        ("t1", guard(|| vm_outcome_tiered(src, &[], Tier::T1, None))),
        ("t2", guard(|| vm_outcome_tiered(src, &[], Tier::T2, None))),
        ("t3", guard(|| vm_outcome_tiered(src, &[], Tier::T3, None))),
        ("t3n", guard(|| vm_outcome_tiered(src, &[], Tier::T3, Some(tier)))),
        ("ui", guard(|| {
            let x = interpret_for_ui_sync(src);
            RunOutcome { output: x.lines.join("\n"), error: x.error }
        })),
    ];
    if bg {
        r.push(("bg", guard(|| vm_outcome_bg(src, &[]))));
    }
    r
}

/// Read a program from the case and record the distinct outcomes with the engines that gave them.
pub fn run(t: &Value) -> Value {
    let src = t["src"].as_str().unwrap();
    let mut groups: Vec<(RunOutcome, Vec<&str>)> = vec![];
    for (e, mut o) in outcomes(src, t["bg"].as_bool().unwrap_or(false)) {
        o.output = o.output.trim_end_matches('\n').to_string();
        match groups.iter_mut().find(|g| g.0 == o) {
            Some(g) => g.1.push(e),
            None => groups.push((o, vec![e])),
        }
    }
    json!({"id": t["id"], "prog": t["prog"], "runs": groups.iter().map(|(o, es)| json!({
        "by": es,
        "out": if o.output.is_empty() { vec![] } else { o.output.lines().map(|x| x.to_string()).collect::<Vec<_>>() },
        "err": o.error.clone().unwrap_or_default(),
        "failed": o.error.is_some()})).collect::<Vec<_>>()})
}
