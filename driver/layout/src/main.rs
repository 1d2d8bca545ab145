//! Runs generated structure layouts (build/gen/layouts.rs) on data. One result line
//! ("@" + JSON) per case; panics of the code under test are results.
use keramics_core::{DataStreamReference, mediator::Mediator, open_fake_data_stream};
use serde_json::{Value, json};
use std::io::{BufRead, SeekFrom, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;

include!("../../../build/gen/layouts.rs");

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn guarded<F: FnOnce() -> Value>(f: F) -> Value {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(_) => json!({"panic": LAST_PANIC.lock().unwrap().clone()}),
    }
}

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

/// The text of a value of a type that is not an integer.
fn render(kind: &str, order: &str, d: &[u8]) -> String {
    use keramics_datetime::*;
    use keramics_types::*;
    let be = order == "be";
    match kind {
        "FatDate" => FatDate::from_bytes(d).to_string(),
        "FatTimeDate" => FatTimeDate::from_bytes(d).to_string(),
        "FatTimeDate10Ms" => FatTimeDate10Ms::from_bytes(d).to_string(),
        "Filetime" => Filetime::from_bytes(d).to_string(),
        "PosixTime32" if be => PosixTime32::from_be_bytes(d).to_string(),
        "PosixTime32" => PosixTime32::from_le_bytes(d).to_string(),
        "Uuid" if be => Uuid::from_be_bytes(d).to_string(),
        "Uuid" => Uuid::from_le_bytes(d).to_string(),
        "bytes" => ByteString::from(d).to_string(),
        "ucs2" if be => Ucs2String::from_be_bytes(d).to_string(),
        "ucs2" => Ucs2String::from_le_bytes(d).to_string(),
        "utf16" if be => Utf16String::from_be_bytes(d).to_string(),
        "utf16" => Utf16String::from_le_bytes(d).to_string(),
        _ => render_struct(kind, d),
    }
}

/// Integers assembled from bytes, as eight bytes, least significant first.
fn integer(op: &Value) -> Value {
    use keramics_types::*;
    let d = bytes(&op["data"]);
    let o = op["off"].as_u64().unwrap() as usize;
    let v: u64 = match (op["w"].as_u64().unwrap(), op["order"].as_str().unwrap(), op["signed"].as_bool().unwrap()) {
        (2, "be", false) => bytes_to_u16_be!(d, o) as u64,
        (2, "le", false) => bytes_to_u16_le!(d, o) as u64,
        (4, "be", false) => bytes_to_u32_be!(d, o) as u64,
        (4, "le", false) => bytes_to_u32_le!(d, o) as u64,
        (8, "be", false) => bytes_to_u64_be!(d, o),
        (8, "le", false) => bytes_to_u64_le!(d, o),
        (2, "be", true) => bytes_to_i16_be!(d, o) as i64 as u64,
        (2, "le", true) => bytes_to_i16_le!(d, o) as i64 as u64,
        (4, "be", true) => bytes_to_i32_be!(d, o) as i64 as u64,
        (4, "le", true) => bytes_to_i32_le!(d, o) as i64 as u64,
        (8, "be", true) => bytes_to_i64_be!(d, o) as u64,
        _ => bytes_to_i64_le!(d, o) as u64,
    };
    json!({"value": format!("{:016x}", v)})
}

fn run(case: &Value) -> Value {
    let k = case["id"].as_u64().unwrap() as usize;
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        out.push(guarded(|| match op["op"].as_str().unwrap() {
            "int" => integer(op),
            "debug" => {
                let d = bytes(&op["data"]);
                let text = debug_layout(k, &d);
                let mut at = vec![];
                for t in case["types"].as_array().unwrap() {
                    let (kind, size) = (t[0].as_str().unwrap(), t[1].as_u64().unwrap() as usize);
                    for order in ["be", "le"] {
                        for o in 0..=d.len().saturating_sub(size) {
                            if let Ok(s) = catch_unwind(AssertUnwindSafe(|| render(kind, order, &d[o..o + size]))) {
                                at.push(json!([kind, size, order, o, s]));
                            }
                        }
                    }
                }
                json!({"text": text, "at": at})
            }
            _ => {
                let d = bytes(&op["data"]);
                let stream: DataStreamReference = open_fake_data_stream(&d);
                let off = op["seek"].as_i64().unwrap();
                let p = match op["from"].as_str().unwrap() {
                    "start" => SeekFrom::Start(off as u64),
                    "end" => SeekFrom::End(off),
                    _ => {
                        stream.write().unwrap().seek(SeekFrom::Start(op["cur"].as_u64().unwrap())).unwrap();
                        SeekFrom::Current(off)
                    }
                };
                Mediator { debug_output: op["verbose"].as_bool().unwrap() }.make_current();
                let r = read_layout(k, &stream, p);
                Mediator { debug_output: false }.make_current();
                match r {
                    (true, Some(data)) => json!({"k": "ok", "data": data}),
                    (false, None) => json!({"k": "err", "data": []}),
                    (ok, data) => json!({"k": format!("ok {} with the read hook called: {}", ok, data.is_some()), "data": []}),
                }
            }
        }));
    }
    json!({"out": out})
}

fn main() {
    std::panic::set_hook(Box::new(|info| {
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if let Ok(mut last) = LAST_PANIC.lock() {
            *last = text;
        }
    }));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let case: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let result = guarded(|| run(&case));
        let mut out = std::io::stdout().lock();
        writeln!(out, "@{}", serde_json::to_string(&result).unwrap()).unwrap();
        out.flush().unwrap();
    }
}
