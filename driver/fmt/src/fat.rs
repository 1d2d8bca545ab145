//! FAT volumes: listings, look-ups and file contents.
use crate::images::source;
use crate::stream::{big, stream_op, unbig};
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_datetime::DateTime;
use keramics_formats::fat::*;
use keramics_types::{ByteString, Ucs2String};
use serde_json::{Value, json};

pub fn failed(e: ErrorTrace) -> Value {
    json!({"k": "err", "text": e.to_string().chars().take(400).collect::<String>()})
}

pub fn date(d: Option<&DateTime>) -> String {
    match d {
        None => String::new(),
        Some(DateTime::NotSet) => "not set".to_string(),
        Some(DateTime::FatDate(x)) => x.to_iso8601_string(),
        Some(DateTime::FatTimeDate(x)) => x.to_iso8601_string(),
        Some(DateTime::FatTimeDate10Ms(x)) => x.to_iso8601_string(),
        Some(DateTime::Filetime(x)) => x.to_iso8601_string(),
        Some(DateTime::PosixTime32(x)) => x.to_iso8601_string(),
        Some(DateTime::PosixTime64Ns(x)) => x.to_iso8601_string(),
        Some(_) => "other".to_string(),
    }
}

fn entry(e: &FatFileEntry) -> Value {
    let (kind, name) = match e.get_name() {
        None => ("-", vec![]),
        Some(FatString::ByteString(s)) => ("b", s.elements.iter().map(|x| *x as u16).collect()),
        Some(FatString::Ucs2String(s)) => ("u", s.elements.clone()),
    };
    json!({"kind": kind, "name": name, "dir": e.is_directory(), "attr": e.get_file_attribute_flags(), "id": big(e.identifier as u64),
        "size": big(e.get_size()), "ctime": date(e.get_creation_time()), "atime": date(e.get_access_time()), "mtime": date(e.get_modification_time())})
}

fn path(op: &Value) -> FatPath {
    let bytes = op["bytes"].as_bool().unwrap_or(false);
    let mut components = vec![FatString::new()];
    for name in op["path"].as_array().unwrap() {
        let units: Vec<u16> = name.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
        components.push(if bytes && units.iter().all(|x| *x < 128) {
            let mut s = ByteString::new_with_encoding(&keramics_encodings::CharacterEncoding::Ascii);
            s.elements = units.iter().map(|x| *x as u8).collect();
            FatString::ByteString(s)
        } else {
            FatString::Ucs2String(Ucs2String { elements: units })
        });
    }
    FatPath { components }
}

fn list(fs: &FatFileSystem, op: &Value) -> Result<Value, ErrorTrace> {
    let mut dir = match fs.get_file_entry_by_path(&path(op))? {
        Some(d) => d,
        None => return Ok(json!({"k": "none"})),
    };
    let n = dir.get_number_of_sub_file_entries()?;
    let mut found = vec![];
    for i in 0..n {
        found.push(entry(&dir.get_sub_file_entry_by_index(i)?));
    }
    if dir.get_sub_file_entry_by_index(n).is_ok() {
        return Ok(json!({"k": "one more than listed"}));
    }
    Ok(json!({"k": "ok", "found": found}))
}

fn find(fs: &FatFileSystem, op: &Value) -> Result<Option<FatFileEntry>, ErrorTrace> {
    if op["op"] == "byid" {
        return Ok(Some(fs.get_file_entry_by_identifier(unbig(&op["id"]) as u64)?));
    }
    fs.get_file_entry_by_path(&path(op))
}

pub fn history(case: &Value) -> Value {
    let mut fs = FatFileSystem::new();
    let mut files: Vec<Option<DataStreamReference>> = vec![None; 8];
    let mut out: Vec<Value> = vec![];
    for op in case["ops"].as_array().unwrap() {
        let v = crate::guarded(|| match op["op"].as_str().unwrap() {
            "open" => match fs.read_data_stream(&source(case)) {
                Ok(()) => json!({"k": "ok", "meta": {
                    "format": match fs.format { FatFormat::Fat12 => 12, FatFormat::Fat16 => 16, FatFormat::Fat32 => 32 },
                    "label": fs.get_volume_label().map(|x| x.elements.clone()).unwrap_or(vec![]),
                    "serial": big(fs.volume_serial_number as u64), "bps": fs.bytes_per_sector}}),
                Err(e) => failed(e),
            },
            "list" => list(&fs, op).unwrap_or_else(failed),
            "find" | "byid" => match find(&fs, op) {
                Ok(Some(e)) => json!({"k": "ok", "entry": entry(&e)}),
                Ok(None) => json!({"k": "none"}),
                Err(e) => failed(e),
            },
            "file" => {
                let i = op["layer"].as_u64().unwrap() as usize;
                files[i] = None;
                match find(&fs, op) {
                    Ok(Some(e)) => match e.get_data_stream() {
                        Ok(Some(s)) => {
                            files[i] = Some(s);
                            json!({"k": "ok"})
                        }
                        Ok(None) => json!({"k": "none"}),
                        Err(e) => failed(e),
                    },
                    Ok(None) => json!({"k": "none"}),
                    Err(e) => failed(e),
                }
            }
            _ => match &files[op["layer"].as_u64().unwrap() as usize] {
                Some(s) => stream_op(&mut *s.write().unwrap(), op),
                None => json!({"k": "err", "text": "not open"}),
            },
        });
        let stop = v.get("panic").is_some() || v["k"] == "err" && op["op"] == "open";
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}
