//! Executes sessions (one JSON object per line) against the real code and writes them back with
//! the results the code produced. It judges nothing: the specification does.
mod analysis;
mod grids;
mod helpers;
mod num;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs code under test; a panic is an outcome.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let msg = match e.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default(),
        };
        if msg.starts_with("harness:") {
            eprintln!("{msg}");
            std::process::exit(3);
        }
        msg
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("sessions"));
    let mut output = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("log"));
    std::panic::set_hook(Box::new(|_| {}));
    for line in input.lines() {
        let line = line.unwrap();
        let mut s: Value = serde_json::from_str(&line).unwrap();
        let out = match s["kind"].as_str().unwrap() {
            "geom" => grids::geom(&s),
            "ops" => grids::ops(&s),
            "selector" => helpers::selector(&s),
            "time" => helpers::time(&s),
            "helper" => helpers::helper(&s),
            #[cfg(feature = "rotate")]
            "rotate" => helpers::rotate(&s),
            #[cfg(feature = "compare")]
            "threshold" => helpers::threshold(&s),
            "analysis" => analysis::run(&s),
            #[cfg(feature = "compare")]
            "compare" => analysis::compare(&s),
            x => {
                eprintln!("harness: unknown session kind {x}");
                std::process::exit(3);
            }
        };
        s["out"] = out;
        writeln!(output, "{}", serde_json::to_string(&s).unwrap()).unwrap();
    }
    let _ = json!(null);
}
