use crate::util::*;
use crate::guarded;
use keramics_checksums::{Adler32Context, Crc32Context, ReversedCrc32Context};
use keramics_hashes::{DigestHashContext, Md5Context, Sha1Context, Sha224Context, Sha256Context, Sha512Context};
use serde_json::{Value, json};

enum Sum {
    A(Adler32Context),
    C(Crc32Context),
    R(ReversedCrc32Context),
}

/// Observations: "ok" for an update, the value for a finalize.
pub fn checksum(case: &Value) -> Value {
    let cfg = &case["cfg"];
    let poly = word32(&cfg["poly"]);
    let init = word32(&cfg["init"]);
    let mut ctx = match cfg["kind"].as_str().unwrap() {
        "adler" => Sum::A(Adler32Context::new(init)),
        "crc" => Sum::C(Crc32Context::new(poly, init)),
        _ => Sum::R(ReversedCrc32Context::new(poly, init)),
    };
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        let v = guarded(|| {
            if op["op"] == "update" {
                let data = bytes(&op["data"]);
                match &mut ctx {
                    Sum::A(c) => c.update(&data),
                    Sum::C(c) => c.update(&data),
                    Sum::R(c) => c.update(&data),
                }
                json!("ok")
            } else {
                word32_json(match &mut ctx {
                    Sum::A(c) => c.finalize(),
                    Sum::C(c) => c.finalize(),
                    Sum::R(c) => c.finalize(),
                })
            }
        });
        let stop = v.is_object();
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}

pub fn hash(case: &Value) -> Value {
    let mut ctx: Box<dyn DigestHashContext> = match case["kind"].as_str().unwrap() {
        "md5" => Box::new(Md5Context::new()),
        "sha1" => Box::new(Sha1Context::new()),
        "sha224" => Box::new(Sha224Context::new()),
        "sha256" => Box::new(Sha256Context::new()),
        _ => Box::new(Sha512Context::new()),
    };
    let mut out = vec![];
    for op in case["ops"].as_array().unwrap() {
        let v = guarded(|| {
            if op["op"] == "update" {
                ctx.update(&bytes(&op["data"]));
                json!("ok")
            } else {
                json!(ctx.finalize())
            }
        });
        let stop = v.is_object();
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}

/// A message of n bytes, byte (7 * (i % 251) + 3) % 256 at i, in chunks of some sizes.
fn long_message(n: u64, chunks: &[u64], mut update: impl FnMut(&[u8])) {
    let largest: u64 = *chunks.iter().max().unwrap();
    let block: Vec<u8> = (0..largest + 251).map(|i| ((7 * (i % 251) + 3) % 256) as u8).collect();
    let (mut at, mut k) = (0u64, 0usize);
    while at < n {
        let size = chunks[k % chunks.len()].min(n - at);
        let from = (at % 251) as usize;
        update(&block[from..from + size as usize]);
        at += size;
        k += 1;
    }
}

fn long_digest(op: &Value) -> Value {
    let n: u64 = op["n"].as_str().unwrap().parse().unwrap();
    let chunks: Vec<u64> = op["chunks"].as_array().unwrap().iter().map(u).collect();
    match op["kind"].as_str().unwrap() {
        "adler" | "crc" | "rcrc" => {
            let init = word32(&op["cfg"]["init"]);
            let poly = word32(&op["cfg"]["poly"]);
            match op["kind"].as_str().unwrap() {
                "adler" => {
                    let mut c = Adler32Context::new(init);
                    long_message(n, &chunks, |data| c.update(data));
                    word32_json(c.finalize())
                }
                "crc" => {
                    let mut c = Crc32Context::new(poly, init);
                    long_message(n, &chunks, |data| c.update(data));
                    word32_json(c.finalize())
                }
                _ => {
                    let mut c = ReversedCrc32Context::new(poly, init);
                    long_message(n, &chunks, |data| c.update(data));
                    word32_json(c.finalize())
                }
            }
        }
        kind => {
            let mut c: Box<dyn DigestHashContext> = match kind {
                "md5" => Box::new(Md5Context::new()),
                "sha1" => Box::new(Sha1Context::new()),
                "sha224" => Box::new(Sha224Context::new()),
                "sha256" => Box::new(Sha256Context::new()),
                _ => Box::new(Sha512Context::new()),
            };
            long_message(n, &chunks, |data| c.update(data));
            json!(c.finalize())
        }
    }
}

/// Long messages, one after the other in each of some threads.
pub fn vectors(case: &Value) -> Value {
    let ops: Vec<Value> = case["ops"].as_array().unwrap().clone();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out: std::sync::Mutex<Vec<Value>> = std::sync::Mutex::new(vec![Value::Null; ops.len()]);
    std::thread::scope(|scope| {
        for _ in 0..8 {
            scope.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if k >= ops.len() {
                    break;
                }
                let v = guarded(|| long_digest(&ops[k]));
                out.lock().unwrap()[k] = v;
            });
        }
    });
    json!({"out": out.into_inner().unwrap()})
}
