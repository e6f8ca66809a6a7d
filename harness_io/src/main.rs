//! Executes sessions about files (one JSON object per line) against the real data managers and
//! converters and writes them back with the results. It judges nothing: the specification does.
//! HDF5 files live in this process (stubs/hdf5); CSV and VTK inputs in a scratch directory.
#[cfg(feature = "convert")]
mod convert;
#[path = "../../harness/src/num.rs"]
mod num;
mod reader;

use serde_json::Value;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Runs code under test; a panic is an outcome.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let msg = match e.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default(),
        };
        if msg.starts_with("harness:") {
            eprintln!("{msg}");
            std::process::exit(3);
        }
        msg
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&args[1]).expect("sessions"));
    let mut output = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("log"));
    std::panic::set_hook(Box::new(|_| {}));
    let scratch = std::path::PathBuf::from(format!("{}.scratch", args[2]));
    for line in input.lines() {
        let mut s: Value = serde_json::from_str(&line.unwrap()).unwrap();
        hdf5::forget_all();
        let out = match s["kind"].as_str().unwrap() {
            "reader" => reader::run(&s),
            #[cfg(feature = "convert")]
            "convert" => {
                std::fs::create_dir_all(&scratch).unwrap();
                let r = convert::run(&s, &scratch);
                std::fs::remove_dir_all(&scratch).unwrap();
                r
            }
            x => {
                eprintln!("harness: unknown session kind {x}");
                std::process::exit(3);
            }
        };
        s["out"] = out;
        writeln!(output, "{}", serde_json::to_string(&s).unwrap()).unwrap();
        output.flush().unwrap();
    }
}
