//! Puts the questions generated from the specification to the real solvers and
//! records what they answer. The judging is done by the specification.
use serde_json::Value;
use std::io::BufRead;
mod sat;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mode = std::env::args().nth(1).unwrap_or_default();
    let f: fn(&mut Value) = match mode.as_str() {
        "sat" => sat::case,
        _ => panic!("mode"),
    };
    let work = move || {
        for line in std::io::stdin().lock().lines() {
            let mut v: Value = serde_json::from_str(&line.unwrap()).unwrap();
            f(&mut v);
            println!("{v}");
        }
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(work).unwrap().join().unwrap();
}
