//! Asks the real number tower the questions generated from the specification
//! and records the answers. The judging is done by the specification.
use serde_json::{json, Value};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};
mod cal;
mod clock;
mod exact;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap_or_default();
    let f: fn(&Value) -> Value = match mode.as_str() {
        "exact" => exact::case,
        "cal" => cal::case,
        "clock" => clock::case,
        _ => panic!("mode"),
    };
    for line in std::io::stdin().lock().lines() {
        let mut v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let got = catch_unwind(AssertUnwindSafe(|| f(&v))).unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!(format!("PANIC {m}"))
        });
        match got {
            Value::Object(m) => m.into_iter().for_each(|(k, x)| v[k] = x),
            x => v["got"] = x,
        }
        println!("{v}");
    }
}
