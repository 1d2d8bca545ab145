use crate::codecs::encoding;
use crate::guarded;
use crate::util::{bytes, u};
use keramics_types::constants::UCS2_CASE_MAPPINGS;
use keramics_types::{ByteString, Ucs2String, Utf16String, Uuid};
use serde_json::{Value, json};
use std::cmp::Ordering;
use std::collections::HashMap;

fn units(v: &Value) -> Vec<u16> {
    v.as_array().unwrap().iter().map(|x| u(x) as u16).collect()
}

fn string(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|x| char::from_u32(u(x) as u32).unwrap()).collect()
}

fn text(s: String) -> Value {
    json!({"k": "text", "el": s.chars().map(|c| c as u32).collect::<Vec<u32>>()})
}

fn num(n: i64) -> Value {
    json!({"k": "num", "el": [n]})
}

fn ord(o: Ordering) -> i64 {
    o as i64
}

/// The order, or another number when the ways to compare do not agree.
fn order<T: PartialEq + Ord>(a: &T, b: &T) -> i64 {
    let o = ord(a.cmp(b));
    if (o == 0) != (a == b) || ord(b.cmp(a)) != -o { 100 + o } else { o }
}

fn byte_op(regs: &mut [ByteString; 2], op: &Value) -> Value {
    let (r, o) = (u(&op["r"]) as usize - 1, u(&op["o"]) as usize - 1);
    let mut ok = true;
    match op["op"].as_str().unwrap() {
        "new" => {
            regs[r] = if op["enc"] == "utf8" {
                ByteString::new()
            } else {
                ByteString::new_with_encoding(&encoding(op["enc"].as_str().unwrap()))
            }
        }
        "from" => {
            let b = bytes(&op["data"]);
            regs[r] = match u(&op["how"]) {
                0 => ByteString::from(b.as_slice()),
                1 => ByteString::from(&b),
                2 => ByteString::from(std::str::from_utf8(&b).unwrap()),
                _ => ByteString::from(&String::from_utf8(b).unwrap()),
            };
        }
        "read" => regs[r].read_data(&bytes(&op["data"])),
        "extend" => {
            let other = regs[o].clone();
            ok = regs[r].extend(&other).is_ok();
        }
        "codepoints" => {
            let cps: Vec<u32> = op["data"].as_array().unwrap().iter().map(|x| u(x) as u32).collect();
            ok = regs[r].extend_from_codepoints(&cps).is_ok();
        }
        "text" => return text(regs[r].to_string()),
        "eqslice" => {
            let b = bytes(&op["data"]);
            let mut e = regs[r] == b.as_slice();
            if let Ok(s) = std::str::from_utf8(&b) {
                if (regs[r] == s) != e {
                    return num(100);
                }
                e = regs[r] == s;
            }
            return num(e as i64);
        }
        "cmp" => return num(order(&regs[r], &regs[o])),
        "len" => {
            let n = regs[r].len();
            return num(if regs[r].is_empty() != (n == 0) { -1 } else { n as i64 });
        }
        _ => panic!("unknown"),
    }
    json!({"k": if ok {"el"} else {"err"}, "el": regs[r].elements})
}

fn ucs2_op(regs: &mut [Ucs2String; 2], op: &Value, map: &HashMap<u16, u16>) -> Value {
    let (r, o) = (u(&op["r"]) as usize - 1, u(&op["o"]) as usize - 1);
    match op["op"].as_str().unwrap() {
        "new" => regs[r] = Ucs2String::new(),
        "from_be" => regs[r] = Ucs2String::from_be_bytes(&bytes(&op["data"])),
        "from_le" => regs[r] = Ucs2String::from_le_bytes(&bytes(&op["data"])),
        "read_le" => regs[r].read_data_le(&bytes(&op["data"])),
        "from_units" => {
            let v = units(&op["data"]);
            regs[r] = if u(&op["how"]) == 0 { Ucs2String::from(v.as_slice()) } else { Ucs2String::from(&v) };
        }
        "from_str" => {
            let s = string(&op["data"]);
            regs[r] = if u(&op["how"]) == 0 { Ucs2String::from(s.as_str()) } else { Ucs2String::from(&s) };
        }
        "fold" => regs[r] = Ucs2String::new_with_case_folding(&regs[o], map),
        "text" => return text(regs[r].to_string()),
        "cmp" => {
            let c = ord(regs[r].compare(&regs[o]));
            return num(if c != order(&regs[r], &regs[o]) { 200 + c } else { c });
        }
        "len" => {
            let n = regs[r].len();
            return num(if regs[r].is_empty() != (n == 0) { -1 } else { n as i64 });
        }
        _ => panic!("unknown"),
    }
    json!({"k": "el", "el": regs[r].elements})
}

fn utf16_op(regs: &mut [Utf16String; 2], op: &Value) -> Value {
    let (r, o) = (u(&op["r"]) as usize - 1, u(&op["o"]) as usize - 1);
    match op["op"].as_str().unwrap() {
        "new" => regs[r] = Utf16String::new(),
        "from_be" => regs[r] = Utf16String::from_be_bytes(&bytes(&op["data"])),
        "from_le" => regs[r] = Utf16String::from_le_bytes(&bytes(&op["data"])),
        "text" => return text(regs[r].to_string()),
        "cmp" => return num(order(&regs[r], &regs[o])),
        _ => panic!("unknown"),
    }
    json!({"k": "el", "el": regs[r].elements})
}

fn uuid_bytes(x: &Uuid) -> Vec<u8> {
    let mut b = x.part1.to_be_bytes().to_vec();
    b.extend(x.part2.to_be_bytes());
    b.extend(x.part3.to_be_bytes());
    b.extend(x.part4.to_be_bytes());
    let p = x.part5.to_be_bytes();
    b.extend(&p[2..]);
    if p[0] != 0 || p[1] != 0 {
        b.extend(&p[..2]);
    }
    b
}

fn uuid_op(regs: &mut [Uuid; 2], op: &Value) -> Value {
    let (r, o) = (u(&op["r"]) as usize - 1, u(&op["o"]) as usize - 1);
    let mut ok = true;
    match op["op"].as_str().unwrap() {
        "from_be" => regs[r] = Uuid::from_be_bytes(&bytes(&op["data"])),
        "from_le" => regs[r] = Uuid::from_le_bytes(&bytes(&op["data"])),
        "from_string" => ok = regs[r].from_string(&string(&op["data"])).is_ok(),
        "text" => {
            let t = regs[r].to_string();
            return text(if format!("{}", regs[r]) != t { format!("{} {}", t, regs[r]) } else { t });
        }
        "nil" => return num(regs[r].is_nil() as i64),
        "max" => return num(regs[r].is_max() as i64),
        "cmp" => return num((regs[r] != regs[o]) as i64),
        _ => panic!("unknown"),
    }
    json!({"k": if ok {"el"} else {"err"}, "el": uuid_bytes(&regs[r])})
}

pub fn types(case: &Value) -> Value {
    let ops = case["ops"].as_array().unwrap();
    let mut out = vec![];
    let mut b = [ByteString::new(), ByteString::new()];
    let mut w = [Ucs2String::new(), Ucs2String::new()];
    let mut x = [Utf16String::new(), Utf16String::new()];
    let mut i = [Uuid::new(), Uuid::new()];
    let map: HashMap<u16, u16> = UCS2_CASE_MAPPINGS.iter().copied().collect();
    for op in ops {
        out.push(match case["kind"].as_str().unwrap() {
            "bytes" => guarded(|| byte_op(&mut b, op)),
            "ucs2" => guarded(|| ucs2_op(&mut w, op, &map)),
            "utf16" => guarded(|| utf16_op(&mut x, op)),
            _ => guarded(|| uuid_op(&mut i, op)),
        });
    }
    json!({"out": out})
}
