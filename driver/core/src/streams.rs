use crate::stream::{stream_ops, unbig};
use crate::util::bytes;
use keramics_core::{DataStreamReference, FakeDataStream, open_fake_data_stream, open_os_data_stream};
use serde_json::{Value, json};
use std::path::PathBuf;

pub fn stream(case: &Value) -> Value {
    let data = match case["runs"].as_array() {
        Some(runs) => {
            let mut data = vec![];
            let end = unbig(&case["stored"]) as usize;
            for (i, r) in runs.iter().enumerate() {
                let to = runs.get(i + 1).map_or(end, |n| (unbig(&n["at"]) as usize).min(end));
                data.resize(to.max(data.len()), r["v"].as_u64().unwrap() as u8);
            }
            data
        }
        None => bytes(&case["data"]),
    };
    let size = unbig(&case["size"]) as u64;
    match case["kind"].as_str().unwrap() {
        "fake" => {
            let mut s = FakeDataStream::new(&data, size);
            json!({"out": stream_ops(&mut s, &case["ops"])})
        }
        "open_fake" => {
            let s: DataStreamReference = open_fake_data_stream(&data);
            let mut g = s.write().unwrap();
            json!({"out": stream_ops(&mut *g, &case["ops"])})
        }
        _ => {
            let path = PathBuf::from("stream.bin");
            std::fs::write(&path, &data).unwrap();
            let f = std::fs::OpenOptions::new().write(true).open(&path).unwrap();
            f.set_len(size).unwrap();
            let s = match open_os_data_stream(&path) {
                Ok(s) => s,
                Err(e) => return json!({"open": e.to_string()}),
            };
            let mut g = s.write().unwrap();
            let v = json!({"out": stream_ops(&mut *g, &case["ops"])});
            let _ = std::fs::remove_file(&path);
            v
        }
    }
}
