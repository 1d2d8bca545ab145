use crate::guarded;
use crate::util::*;
use keramics_encodings::{
    Base64Context, Base64Stream, CharacterEncoding, new_character_decoder, new_character_encoder,
};
use serde_json::{Value, json};

pub fn encoding(name: &str) -> CharacterEncoding {
    use CharacterEncoding::*;
    match name {
        "ascii" => Ascii,
        "iso8859_1" => Iso8859_1,
        "iso8859_2" => Iso8859_2,
        "iso8859_3" => Iso8859_3,
        "iso8859_4" => Iso8859_4,
        "iso8859_5" => Iso8859_5,
        "iso8859_6" => Iso8859_6,
        "iso8859_7" => Iso8859_7,
        "iso8859_8" => Iso8859_8,
        "iso8859_9" => Iso8859_9,
        "iso8859_10" => Iso8859_10,
        "iso8859_11" => Iso8859_11,
        "iso8859_13" => Iso8859_13,
        "iso8859_14" => Iso8859_14,
        "iso8859_15" => Iso8859_15,
        "iso8859_16" => Iso8859_16,
        "koi8_r" => Koi8R,
        "koi8_u" => Koi8U,
        "mac_arabic" => MacArabic,
        "mac_celtic" => MacCeltic,
        "mac_central_eur_roman" => MacCentralEurRoman,
        "mac_croatian" => MacCroatian,
        "mac_cyrillic" => MacCyrillic,
        "mac_dingbats" => MacDingbats,
        "mac_farsi" => MacFarsi,
        "mac_gaelic" => MacGaelic,
        "utf8" => Utf8,
        "windows874" => Windows874,
        "windows932" => Windows932,
        "windows1250" => Windows1250,
        "windows1251" => Windows1251,
        "windows1252" => Windows1252,
        "windows1253" => Windows1253,
        "windows1254" => Windows1254,
        "windows1255" => Windows1255,
        "windows1256" => Windows1256,
        "windows1257" => Windows1257,
        "windows1258" => Windows1258,
        _ => panic!("unknown encoding {}", name),
    }
}

/// What one long input yields, cut into the pieces of its operations.
fn pieces<T: Clone>(case: &Value, run: impl Fn(Vec<u64>) -> Vec<T>) -> Vec<Vec<T>> {
    let ops = case["ops"].as_array().unwrap();
    let input: Vec<u64> = ops.iter().flat_map(|o| o["data"].as_array().unwrap().iter().map(u)).collect();
    let out = run(input);
    let mut at = 0;
    let mut cut = vec![];
    for (i, op) in ops.iter().enumerate() {
        let n = op["n"].as_u64().unwrap() as usize;
        let to = if i + 1 == ops.len() { out.len() } else { (at + n).min(out.len()) };
        cut.push(out[at..to].iter().take(n + 1000).cloned().collect());
        at = to;
    }
    cut
}

/// The elements a codec yields, at most two more than the input has; -1 for an error.
pub fn codec(case: &Value) -> Value {
    let enc = encoding(case["enc"].as_str().unwrap());
    if case["pieces"] == true {
        return guarded(|| {
            let encode = case["ops"][0]["op"] == "encode";
            if encode {
                json!({"out": pieces(case, |d| {
                    let cps: Vec<u32> = d.iter().map(|x| *x as u32).collect();
                    new_character_encoder(&enc, &cps)
                        .take(cps.len() + 2)
                        .map(|r| match r {
                            Ok(b) => b.iter().map(|x| *x as i64).collect(),
                            Err(_) => vec![-1],
                        })
                        .collect::<Vec<Vec<i64>>>()
                })})
            } else {
                json!({"out": pieces(case, |d| {
                    let b: Vec<u8> = d.iter().map(|x| *x as u8).collect();
                    new_character_decoder(&enc, &b)
                        .take(b.len() + 2)
                        .map(|r| match r {
                            Ok(c) => c as i64,
                            Err(_) => -1,
                        })
                        .collect::<Vec<i64>>()
                })})
            }
        });
    }
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        out.push(guarded(|| {
            if op["op"] == "decode" {
                let b = bytes(&op["data"]);
                json!(
                    new_character_decoder(&enc, &b)
                        .take(b.len() + 2)
                        .map(|r| match r {
                            Ok(c) => c as i64,
                            Err(_) => -1,
                        })
                        .collect::<Vec<i64>>()
                )
            } else {
                let cps: Vec<u32> = op["data"].as_array().unwrap().iter().map(|x| u(x) as u32).collect();
                json!(
                    new_character_encoder(&enc, &cps)
                        .take(cps.len() + 2)
                        .map(|r| match r {
                            Ok(b) => b.iter().map(|x| *x as i64).collect(),
                            Err(_) => vec![-1],
                        })
                        .collect::<Vec<Vec<i64>>>()
                )
            }
        }));
    }
    json!({"out": out})
}

/// All values of a Base64 stream and how it ended; "lead" goes before the data.
fn pull(op: &Value, text: &[u8]) -> (Vec<u8>, &'static str) {
    let mut all = op["lead"].as_array().map_or(vec![], |_| bytes(&op["lead"]));
    let lead = all.len();
    all.extend(text);
    let mut s = Base64Stream::new(&all, lead, op["white"].as_bool().unwrap());
    let mut vals = vec![];
    loop {
        match s.get_value() {
            Ok(Some(v)) => vals.push(v),
            Ok(None) => {
                let again = (0..3).all(|_| matches!(s.get_value(), Ok(None)));
                return (vals, if again { "ok" } else { "more" });
            }
            Err(_) => return (vals, "error"),
        }
        if vals.len() > text.len() {
            return (vals, "endless");
        }
    }
}

fn into(ctx: &mut Base64Context, text: &[u8], size: u64) -> (Vec<u8>, &'static str) {
    let mut buf = vec![0u8; size as usize];
    match ctx.decode(text, &mut buf) {
        Ok(()) => (buf[..ctx.data_size].to_vec(), "ok"),
        Err(_) => (vec![], "error"),
    }
}

/// Base64: "stream" pulls values one by one from the stream, "context" decodes into a buffer
/// (one context for all of the history).
pub fn base64(case: &Value) -> Value {
    let mut ctx = Base64Context::new();
    let ops = case["ops"].as_array().unwrap();
    if case["pieces"] == true {
        let end = std::cell::Cell::new("");
        return guarded(|| {
            let out = pieces(case, |d| {
                let text: Vec<u8> = d.iter().map(|x| *x as u8).collect();
                let (data, how) = if ops[0]["op"] == "stream" {
                    pull(&ops[0], &text)
                } else {
                    into(&mut Base64Context::new(), &text, text.len() as u64)
                };
                end.set(how);
                data
            });
            json!({"out": out.into_iter().map(|d| json!({"data": d, "end": end.get()})).collect::<Vec<_>>()})
        });
    }
    let mut out = vec![];
    for op in ops {
        let text = bytes(&op["data"]);
        out.push(guarded(|| {
            let (data, end) = if op["op"] == "stream" {
                pull(op, &text)
            } else {
                into(&mut ctx, &text, op["size"].as_u64().unwrap())
            };
            json!({"data": data, "end": end})
        }));
    }
    json!({"out": out})
}
