use serde_json::{Value, json};

pub fn bytes(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => vec![],
    }
}

pub fn u(v: &Value) -> u64 {
    v.as_u64().unwrap()
}

pub fn word32(v: &Value) -> u32 {
    (u(&v[0]) as u32) << 16 | u(&v[1]) as u32
}

pub fn word32_json(w: u32) -> Value {
    json!([w >> 16, w & 0xffff])
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
