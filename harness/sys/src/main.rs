mod files;
mod journal;
mod relay;
mod sip;

use serde_json::Value;
use std::io::BufRead;

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    let arg = std::env::args().nth(2).unwrap_or_default();
    let mut inputs: Vec<Value> = std::io::stdin().lock().lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    for (i, t) in inputs.iter_mut().enumerate() {
        if t.get("id").is_none() {
            t["id"] = Value::from(i + 1);
        }
    }
    if mode == "relay" {
        return relay::run_all(inputs);
    }
    let scratch = if mode.starts_with("files") { files::enter(&arg) } else { Default::default() };
    for (i, t) in inputs.into_iter().enumerate() {
        let out = match mode.as_str() {
            "journal" => journal::run(&t, i as u64),
            "files" => files::run(&t, &scratch, i as u64),
            "files-par" => files::parallel(&t, &scratch, i as u64),
            "sip" => sip::run(&t, &arg),
            m => panic!("mode {m}"),
        };
        println!("{out}");
    }
}
