//! Runs recorded or generated cases through the real code and prints one result
//! line ("@" + JSON) per case. Panics of the code under test are results.
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

mod codecs;
mod dates;
mod digests;
mod formats;
#[path = "../../../lib/rust/stream.rs"]
mod stream;
mod scans;
mod streams;
mod types;
mod util;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"panic": LAST_PANIC.lock().unwrap().clone()}),
    }
}

fn run(case: &Value) -> Value {
    match case["t"].as_str().unwrap_or("") {
        "stream" => streams::stream(case),
        "scan" => scans::scan(case),
        "types" => types::types(case),
        "format" => formats::format(case),
        "checksum" => digests::checksum(case),
        "hash" => digests::hash(case),
        "vectors" => digests::vectors(case),
        "codec" => codecs::codec(case),
        "base64" => codecs::base64(case),
        "datetime" => dates::datetime(case),
        "days" => dates::days(case),
        other => json!({"unknown": other}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let place = match info.location() {
            Some(l) => format!("{}:{}", l.file(), l.line()),
            None => String::new(),
        };
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if let Ok(mut last) = LAST_PANIC.lock() {
            *last = format!("{} at {}", text, place);
        }
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).unwrap();
        let result = guarded(|| run(&case));
        let mut out = stdout.lock();
        out.write_all(b"@").unwrap();
        out.write_all(serde_json::to_string(&result).unwrap().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
