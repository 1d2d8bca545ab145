use crate::util::bytes;
use keramics_core::formatters::{debug_format_array, format_as_hexdump, format_as_string};
use serde_json::{Value, json};

fn text(s: String) -> Value {
    json!(s.chars().map(|c| c as u32).collect::<Vec<u32>>())
}

pub fn format(case: &Value) -> Value {
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        out.push(crate::guarded(|| match op["op"].as_str().unwrap() {
            "dump" => text(format_as_hexdump(&bytes(&op["data"]), op["group"].as_bool().unwrap())),
            "string" => text(format_as_string(&bytes(&op["data"]))),
            _ => {
                let a: Vec<String> = op["data"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|v| bytes(v).iter().map(|b| *b as char).collect())
                    .collect();
                text(debug_format_array(&a))
            }
        }));
    }
    json!({"out": out})
}
