use crate::guarded;
use crate::util::*;
use keramics_datetime::{FatDate, FatTimeDate, FatTimeDate10Ms, Filetime, PosixTime32, PosixTime64Ns};
use serde_json::{Value, json};

/// Every event carries the raw bytes of a timestamp; the observation is
/// [ISO 8601 text, display text].
fn one(kind: &str, b: &[u8], fraction: u32) -> Value {
    match kind {
        "filetime" => {
            let x = Filetime::from_bytes(b);
            json!([x.to_iso8601_string(), x.to_string()])
        }
        "posix32le" => {
            let x = PosixTime32::from_le_bytes(b);
            json!([x.to_iso8601_string(), x.to_string()])
        }
        "posix32be" => {
            let x = PosixTime32::from_be_bytes(b);
            json!([x.to_iso8601_string(), x.to_string()])
        }
        "posix64" => {
            let x = PosixTime64Ns::new(i64::from_le_bytes(b.try_into().unwrap()), fraction);
            json!([x.to_iso8601_string(), x.to_string()])
        }
        "fatdate" => {
            let x = FatDate::from_bytes(b);
            json!([x.to_iso8601_string(), x.to_string()])
        }
        "fattimedate" => {
            let x = FatTimeDate::from_bytes(b);
            json!([x.to_iso8601_string(), x.to_string()])
        }
        _ => {
            let x = FatTimeDate10Ms::from_bytes(b);
            json!([x.to_iso8601_string(), x.to_string()])
        }
    }
}

pub fn datetime(case: &Value) -> Value {
    let kind = case["kind"].as_str().unwrap();
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        let b = bytes(&op["bytes"]);
        let f = op["fraction"].as_u64().unwrap_or(0) as u32;
        out.push(guarded(|| one(kind, &b, f)));
    }
    json!({"out": out})
}

/// The dates of `count` consecutive days from day `first` (relative to 1970-01-01).
pub fn days(case: &Value) -> Value {
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        let first = op["first"].as_i64().unwrap();
        let count = op["count"].as_i64().unwrap();
        out.push(guarded(|| {
            json!(
                (first..first + count)
                    .map(|d| if case["kind"] == "filetime" {
                        Filetime::new(((d + 134774) * 864000000000) as u64).to_iso8601_string().split('T').next().unwrap().to_string()
                    } else {
                        PosixTime64Ns::new(d * 86400, 0).to_iso8601_string().split('T').next().unwrap().to_string()
                    })
                    .collect::<Vec<String>>()
            )
        }));
    }
    json!({"out": out})
}
