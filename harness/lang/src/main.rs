mod frame;
mod pad;
mod prog;

use serde_json::Value;
use std::io::BufRead;

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let arg = std::env::args().nth(2).unwrap_or_default();
    if mode == "pad" || mode == "prog" {
        // a dying sender is part of the scenario
        std::panic::set_hook(Box::new(|_| {}));
    }
    for (i, l) in std::io::stdin().lock().lines().enumerate() {
        let mut t: Value = serde_json::from_str(&l.unwrap()).unwrap();
        if t.get("id").is_none() {
            t["id"] = Value::from(i + 1);
        }
        let out = match mode.as_str() {
            "pad" => pad::run(&t, i as u64, &arg),
            "frame" => frame::run(&t),
            "prog" => prog::run(&t),
            m => panic!("mode {m}"),
        };
        println!("{out}");
    }
}
