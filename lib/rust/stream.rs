//! Runs a history of stream operations and records what each showed.
use keramics_core::DataStream;
use serde_json::{Value, json};
use std::io::SeekFrom;

pub fn big(n: u64) -> Value {
    json!([n >> 48, (n >> 24) & 0xffffff, n & 0xffffff])
}

pub fn unbig(v: &Value) -> i128 {
    let a = v[0].as_i64().unwrap() as i128;
    let b = v[1].as_i64().unwrap() as i128;
    let c = v[2].as_i64().unwrap() as i128;
    (a << 48) + (b << 24) + c
}

fn position(op: &Value) -> SeekFrom {
    let off = unbig(&op["off"]);
    match op["from"].as_str().unwrap() {
        "start" => SeekFrom::Start(off as u64),
        "current" => SeekFrom::Current(off as i64),
        _ => SeekFrom::End(off as i64),
    }
}

fn err(e: keramics_core::ErrorTrace) -> Value {
    let text = e.to_string();
    json!({"k": "err", "text": text.chars().take(400).collect::<String>()})
}

pub fn stream_op(s: &mut dyn DataStream, op: &Value) -> Value {
    let n = op["n"].as_u64().unwrap_or(0) as usize;
    let mut buf = vec![0xEEu8; n];
    let shown = |r: usize, buf: &[u8], pos: Option<u64>| {
        let read = &buf[..r.min(buf.len())];
        let mut v = json!({"k": "ok", "data": read});
        if op["runs"] == true {
            let mut runs: Vec<(u8, u64)> = vec![];
            for &b in read {
                match runs.last_mut() {
                    Some(last) if last.0 == b => last.1 += 1,
                    _ => runs.push((b, 1)),
                }
            }
            runs.truncate(1000);
            v["data"] = json!(runs);
        }
        if r > buf.len() {
            v["k"] = json!("overrun");
        }
        if let Some(p) = pos {
            v["pos"] = big(p);
        }
        v
    };
    match op["op"].as_str().unwrap() {
        "size" => match s.get_size() {
            Ok(p) => shown(0, &buf, Some(p)),
            Err(e) => err(e),
        },
        "tell" => match s.seek(SeekFrom::Current(0)) {
            Ok(p) => shown(0, &buf, Some(p)),
            Err(e) => err(e),
        },
        "seek" => match s.seek(position(op)) {
            Ok(p) => shown(0, &buf, Some(p)),
            Err(e) => err(e),
        },
        "read" => match s.read(&mut buf) {
            Ok(r) => shown(r, &buf, None),
            Err(e) => err(e),
        },
        "exact" => match s.read_exact(&mut buf) {
            Ok(()) => shown(n, &buf, None),
            Err(e) => err(e),
        },
        "read_at" => match s.read_at_position(&mut buf, position(op)) {
            Ok(r) => shown(r, &buf, None),
            Err(e) => err(e),
        },
        "exact_at" => match s.read_exact_at_position(&mut buf, position(op)) {
            Ok(p) => shown(n, &buf, Some(p)),
            Err(e) => err(e),
        },
        other => json!({"unknown": other}),
    }
}

/// Runs the operations; a panic ends the history.
pub fn stream_ops(s: &mut dyn DataStream, ops: &Value) -> Vec<Value> {
    let mut out = vec![];
    for op in ops.as_array().unwrap() {
        let v = crate::guarded(|| stream_op(s, op));
        let stop = v.get("panic").is_some();
        out.push(v);
        if stop {
            break;
        }
    }
    out
}
