//! Hybrid clocks: replays a history of events and records the clock each leaves behind.
use logicaffeine_base::temporal::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn case(v: &Value) -> Value {
    catch_unwind(AssertUnwindSafe(|| replay(v))).unwrap_or_else(|_| json!({"panic": "panic", "stamp": [], "est": [], "laws": false}))
}

fn replay(v: &Value) -> Value {
    let base: i64 = match v["base"].as_str().unwrap() { "today" => 1_780_000_000_000_000_000, "edge" => i64::MAX - 2000, _ => 0 };
    let mut at: HashMap<i64, SyncClock> = HashMap::new();
    let mut after: Vec<SyncClock> = Vec::new();
    for e in v["h"].as_array().unwrap() {
        let n = |k: &str| e[k].as_i64().unwrap();
        let cur = at.get(&n("node")).cloned().unwrap_or_default();
        let next = match e["kind"].as_str().unwrap() {
            "tick" => cur.tick(base + n("now")),
            "recv" => SyncClock { hlc: cur.hlc.recv(after[n("from") as usize - 1].hlc, base + n("now")), knowledge: cur.knowledge },
            "merge" => cur.merge(&after[n("from") as usize - 1]),
            _ => cur.observe(n("about") as u64, EstimateInterval::new(base + n("lo"), base + n("hi"))),
        };
        at.insert(n("node"), next.clone());
        after.push(next);
    }
    // the same clocks merged in different orders and groupings
    let all = |order: &[usize]| order.iter().fold(SyncClock::new(), |acc, &i| acc.merge(&after[i]));
    let fwd: Vec<usize> = (0..after.len()).collect();
    let rev: Vec<usize> = fwd.iter().rev().copied().collect();
    let twice: Vec<usize> = fwd.iter().chain(rev.iter()).copied().collect();
    let halves = all(&fwd[..fwd.len() / 2]).merge(&all(&fwd[fwd.len() / 2..]));
    let one = all(&fwd);
    let laws = one == all(&rev) && one == all(&twice) && one == halves && one.merge(&one) == one;
    let back = |p: i64| if p == 0 { 0 } else { p - base };
    json!({
        "panic": "",
        "stamp": after.iter().map(|c| json!([back(c.hlc.physical_nanos), c.hlc.logical])).collect::<Vec<_>>(),
        "est": after.iter().map(|c| c.knowledge.iter().map(|(k, iv)| json!([k, iv.lower_nanos - base, iv.upper_nanos - base])).collect::<Vec<_>>()).collect::<Vec<_>>(),
        "laws": laws,
    })
}
