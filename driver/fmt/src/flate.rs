use crate::guarded;
use keramics_compression::*;
use serde_json::{Value, json};

fn crc(data: &[u8]) -> u32 {
    let mut c: u32 = 0xffffffff;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}

fn input(op: &Value) -> Vec<u8> {
    match &op["data"] {
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        Value::String(path) => std::fs::read(path).unwrap(),
        _ => vec![],
    }
}

macro_rules! run {
    ($context:ty, $data:expr, $out:expr) => {{
        let mut context = <$context>::new();
        context
            .decompress($data, $out)
            .map(|_| context.uncompressed_data_size)
    }};
}

fn one(op: &Value) -> Value {
    let data = input(op);
    let cap = op["cap"].as_u64().unwrap() as usize;
    let mut out: Vec<u8> = vec![0xa5; cap];
    let result = match op["method"].as_str().unwrap() {
        "deflate" => run!(DeflateContext, &data, &mut out),
        "zlib" => run!(ZlibContext, &data, &mut out),
        "bzip2" => run!(Bzip2Context, &data, &mut out),
        "adc" => run!(AdcContext, &data, &mut out),
        "lznt1" => run!(Lznt1Context, &data, &mut out),
        "lzvn" => run!(LzvnContext, &data, &mut out),
        "lzfse" => run!(LzfseContext, &data, &mut out),
        "lzx" => run!(LzxContext, &data, &mut out),
        other => panic!("unknown method {}", other),
    };
    match result {
        Ok(n) => {
            let m = if n < cap { n } else { cap };
            if op["op"] == "whole" {
                let c = crc(&out[..m]);
                json!({"k": "ok", "n": n, "crc": [c >> 16, c & 0xffff]})
            } else {
                json!({"k": "ok", "n": n, "data": out[..m]})
            }
        }
        Err(_) => json!({"k": "err"}),
    }
}

pub fn inflate(case: &Value) -> Value {
    // every operation runs on a stack of the usual size for the main thread
    let ops = case["ops"].clone();
    let out = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            ops.as_array()
                .unwrap()
                .iter()
                .map(|op| guarded(|| one(op)))
                .collect::<Vec<Value>>()
        })
        .unwrap()
        .join()
        .unwrap();
    json!({ "out": out })
}
