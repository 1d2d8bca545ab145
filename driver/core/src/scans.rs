use crate::util::{bytes, u};
use keramics_sigscan::{PatternType, ScanContext, Scanner, Signature};
use serde_json::{Value, json};

/// Scans the parts one after the other; a part with a "seek" starts at another offset.
/// What is at or after "cut" is further on by "shift".
pub fn scan(case: &Value) -> Value {
    let cut: u64 = case["cut"].as_u64().unwrap_or(0);
    let shift: u64 = case["shift"].as_str().map(|s| s.parse().unwrap()).unwrap_or(0);
    let moved = |offset: u64| if offset >= cut { offset + shift } else { offset };
    let mut scanner = Scanner::new();
    for s in case["sigs"].as_array().unwrap() {
        let t = match s["type"].as_str().unwrap() {
            "start" => PatternType::BoundToStart,
            "end" => PatternType::BoundToEnd,
            _ => PatternType::Unbound,
        };
        let offset = match t {
            PatternType::BoundToStart => moved(u(&s["off"])),
            _ => u(&s["off"]),
        };
        scanner.add_signature(Signature::new(
            s["id"].as_str().unwrap(),
            t,
            offset as usize,
            &bytes(&s["pat"]),
        ));
    }
    let n = case["ops"].as_array().unwrap().len();
    let built = crate::guarded(|| match scanner.build() {
        Ok(_) => json!("ok"),
        Err(_) => json!({"panic": "the scan tree cannot be built"}),
    });
    if built != json!("ok") {
        return json!({"out": vec![built; n]});
    }
    let mut context = ScanContext::new(&scanner, u(&case["size"]) + shift);
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        out.push(crate::guarded(|| match op["op"].as_str().unwrap() {
            "buf" => {
                if op["seek"].as_bool().unwrap_or(false) {
                    context.data_offset = moved(u(&op["off"]));
                }
                context.scan_buffer(&bytes(&op["data"]));
                json!([])
            }
            _ => {
                let mut r: Vec<(u64, String)> =
                    context.results.iter().map(|(o, s)| (if *o >= cut + shift { *o - shift } else { *o }, s.identifier.clone())).collect();
                r.sort();
                json!(r)
            }
        }));
    }
    json!({"out": out})
}
