//! Runs recorded or generated cases through the real code and prints one result
//! line ("@" + JSON) per case. Panics of the code under test are results.
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

mod detect;
mod ext;
mod ntfs;
mod fat;
mod flate;
mod images;
mod maps;
mod paths;
mod plist;
#[path = "../../../lib/rust/stream.rs"]
mod stream;
mod vfs;

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"panic": LAST_PANIC.lock().unwrap().clone()}),
    }
}

fn run(case: &Value) -> Value {
    match case["t"].as_str().unwrap_or("") {
        "tree" => maps::tree(case),
        "cache" => maps::cache(case),
        "image" => images::image(case),
        "detect" => detect::detect(case),
        "ext" => ext::history(case),
        "ntfs" => ntfs::history(case),
        "vfs" => vfs::history(case),
        "fat" => fat::history(case),
        "path" => paths::history(case),
        "plist" => plist::history(case),
        "inflate" => flate::inflate(case),
        other => json!({"unknown": other}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let place = match info.location() {
            Some(l) => format!("{}:{}", l.file(), l.line()),
            None => String::new(),
        };
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if let Ok(mut last) = LAST_PANIC.lock() {
            *last = format!("{} at {}", text, place);
        }
    }));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let case: Value = serde_json::from_str(&line).unwrap();
        let result = guarded(|| run(&case));
        let mut out = stdout.lock();
        out.write_all(b"@").unwrap();
        out.write_all(serde_json::to_string(&result).unwrap().as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
}
