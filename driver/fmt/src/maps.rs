//! Block tree and cache.
use crate::stream::unbig;
use keramics_formats::verif::{VerifBlockTree, VerifLruCache};
use serde_json::{Value, json};

pub fn tree(case: &Value) -> Value {
    let mut tree = VerifBlockTree::new(
        unbig(&case["size"]) as u64,
        case["epn"].as_u64().unwrap(),
        case["leaf"].as_u64().unwrap(),
    );
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        let v = crate::guarded(|| match op["op"].as_str().unwrap() {
            "insert" => match tree.insert(
                unbig(&op["off"]) as u64,
                unbig(&op["len"]) as u64,
                op["val"].as_u64().unwrap(),
            ) {
                Ok(()) => json!([1]),
                Err(_) => json!([0]),
            },
            _ => match tree.get(unbig(&op["off"]) as u64) {
                Some(v) => json!([v]),
                None => json!([]),
            },
        });
        let stop = v.get("panic").is_some();
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}

pub fn cache(case: &Value) -> Value {
    let mut cache = VerifLruCache::new(case["cap"].as_u64().unwrap() as usize);
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        let key = op["key"].as_u64().unwrap_or(0);
        let v = crate::guarded(|| match op["op"].as_str().unwrap() {
            "insert" => {
                cache.insert(key, op["val"].as_u64().unwrap());
                json!([0])
            }
            "set" => json!([cache.set(key, op["val"].as_u64().unwrap()) as i64]),
            "get" => match cache.get(key) {
                Some(v) => json!([v]),
                None => json!([]),
            },
            _ => json!((0..case["keys"].as_u64().unwrap()).filter(|k| cache.contains(*k)).collect::<Vec<u64>>()),
        });
        let stop = v.get("panic").is_some();
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}


