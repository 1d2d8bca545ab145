//! XML property lists: a sequence of documents parsed by one reader.
use crate::guarded;
use keramics_formats::verif::{PlistObject, XmlPlist};
use serde_json::{Value, json};

fn points(text: &str) -> Value {
    json!(text.chars().map(|c| c as u32).collect::<Vec<u32>>())
}

/// A value as it can be seen through what the type offers.
fn seen(object: &PlistObject) -> Value {
    match object {
        PlistObject::Array(items) => {
            assert_eq!(object.as_vector().unwrap().len(), items.len());
            json!({"k": "array", "items": items.iter().map(seen).collect::<Vec<Value>>()})
        }
        PlistObject::Boolean(value) => {
            assert_eq!(object.as_boolean(), Some(value));
            json!({"k": "boolean", "b": value})
        }
        PlistObject::Data(data) => {
            assert_eq!(object.as_bytes(), Some(data.as_slice()));
            json!({"k": "data", "s": data})
        }
        PlistObject::DateTime(value) => {
            // Seconds since 2001-01-01, 11323 days after 1970-01-01.
            let days: f64 = (value / 86400.0).floor();
            json!({"k": "date", "s": [days as i64 + 11323, (value - days * 86400.0) as i64]})
        }
        PlistObject::Dictionary(map) => {
            let (mut keys, mut items) = (Vec::new(), Vec::new());
            for (key, item) in map.iter() {
                let by_key = match item {
                    PlistObject::String(_) => object.get_string_by_key(key) == item.as_string(),
                    PlistObject::Integer(_) => object.get_integer_by_key(key) == item.as_integer(),
                    PlistObject::Data(_) => object.get_bytes_by_key(key) == item.as_bytes(),
                    PlistObject::Array(_) => object.get_vector_by_key(key) == item.as_vector(),
                    _ => object.get_string_by_key(key).is_none() && object.get_integer_by_key(key).is_none(),
                };
                if !by_key || object.get_object_by_key(key) != Some(item) {
                    return json!({"k": "differs by key"});
                }
                keys.push(points(key));
                items.push(seen(item));
            }
            json!({"k": "dict", "keys": keys, "items": items})
        }
        PlistObject::FloatingPoint(value) => {
            assert_eq!(object.as_floating_point(), Some(value));
            let scaled: f64 = value * 1024.0;
            if scaled.fract() == 0.0 && scaled.abs() < 2147483647.0 {
                json!({"k": "real", "n": scaled as i64})
            } else {
                json!({"k": "real", "n": value.to_string()})
            }
        }
        PlistObject::Integer(value) => {
            assert_eq!(object.as_integer(), Some(value));
            json!({"k": "integer", "s": points(&value.to_string())})
        }
        PlistObject::String(value) => {
            assert_eq!(object.as_string(), Some(value));
            json!({"k": "string", "s": points(value)})
        }
        PlistObject::None => json!({"k": "none"}),
    }
}

pub fn history(case: &Value) -> Value {
    let mut plist = XmlPlist::new();
    let mut out: Vec<Value> = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        if op["fresh"].as_bool().unwrap() {
            plist = XmlPlist::new();
        }
        let text = op["xml"].as_str().unwrap();
        out.push(guarded(|| match plist.parse(text) {
            Err(_) => json!({"k": "err"}),
            Ok(()) => match &plist.root_object {
                PlistObject::None => json!({"k": "none"}),
                object => json!({"k": "ok", "v": seen(object)}),
            },
        }));
    }
    json!({"out": out})
}
