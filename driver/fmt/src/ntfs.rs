//! NTFS volumes: listings, look-ups and contents of streams.
use crate::fat::{date, failed};
use crate::images::source;
use crate::stream::{big, stream_op};
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::ntfs::*;
use keramics_types::Ucs2String;
use serde_json::{Value, json};

fn reference(x: u64) -> Value {
    json!([(x & 0xffff_ffff_ffff) as i64, (x >> 48) as i64])
}

fn units(n: Option<&Ucs2String>) -> Value {
    match n {
        None => json!([-1]),
        Some(n) => json!(n.elements),
    }
}

fn ucs2(v: &Value) -> Ucs2String {
    let mut s = Ucs2String::new();
    s.elements = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
    s
}

fn entry(e: &mut NtfsFileEntry) -> Result<Value, ErrorTrace> {
    let mut forks = vec![];
    for i in 0..e.get_number_of_data_forks()? {
        let f = e.get_data_fork_by_index(i)?;
        let size = f.get_data_stream()?.write().unwrap().get_size()?;
        forks.push(json!({"name": units(f.get_name()), "size": big(size)}));
    }
    let mut types = vec![];
    for i in 0..e.get_number_of_attributes() {
        types.push(e.get_attribute_by_index(i)?.get_attribute_type());
    }
    types.sort();
    let target = units(e.get_symbolic_link_target()?);
    Ok(json!({"n": e.mft_entry_number, "name": units(e.get_name()), "ref": reference(e.get_file_reference()),
        "parent": e.get_parent_file_reference().map(reference).unwrap_or(json!([-1, -1])),
        "seq": e.sequence_number, "base": reference(e.get_base_record_file_reference()), "jsn": big(e.get_journal_sequence_number()),
        "empty": e.is_empty(), "bad": e.is_bad(), "inuse": e.is_allocated(), "root": e.is_root_directory(), "dir": e.is_directory(),
        "flags": big(e.get_file_attribute_flags() as u64), "crtime": date(e.get_creation_time()), "mtime": date(e.get_modification_time()),
        "ctime": date(e.get_change_time()), "atime": date(e.get_access_time()), "size": big(e.get_size()), "forks": forks, "types": types,
        "link": e.is_symbolic_link(), "junction": e.is_junction(), "target": target}))
}

fn path(op: &Value) -> NtfsPath {
    let mut components = vec![Ucs2String::new()];
    for name in op["path"].as_array().unwrap() {
        components.push(ucs2(name));
    }
    NtfsPath { components }
}

fn list(fs: &NtfsFileSystem, op: &Value) -> Result<Value, ErrorTrace> {
    let mut dir = match fs.get_file_entry_by_path(&path(op))? {
        Some(d) => d,
        None => return Ok(json!({"k": "none"})),
    };
    let n = dir.get_number_of_sub_file_entries()?;
    let mut found = vec![];
    for i in 0..n {
        found.push(entry(&mut dir.get_sub_file_entry_by_index(i)?)?);
    }
    if dir.get_sub_file_entry_by_index(n).is_ok() {
        return Ok(json!({"k": "one more than listed"}));
    }
    Ok(json!({"k": "ok", "found": found}))
}

fn find(fs: &NtfsFileSystem, op: &Value) -> Result<Option<NtfsFileEntry>, ErrorTrace> {
    if op["op"] == "byid" {
        return Ok(Some(fs.get_file_entry_by_identifier(op["n"].as_u64().unwrap())?));
    }
    fs.get_file_entry_by_path(&path(op))
}

fn open(e: &NtfsFileEntry, op: &Value) -> Result<Option<DataStreamReference>, ErrorTrace> {
    let name = if op["name"] == json!([-1]) { None } else { Some(ucs2(&op["name"])) };
    if op["fork"].as_bool().unwrap() {
        for i in 0..e.get_number_of_data_forks()? {
            let f = e.get_data_fork_by_index(i)?;
            if f.get_name() == name.as_ref() {
                return Ok(Some(f.get_data_stream()?));
            }
        }
        return Ok(None);
    }
    match name {
        None => e.get_data_stream(),
        Some(_) => e.get_data_stream_by_name(&name),
    }
}

pub fn history(case: &Value) -> Value {
    let mut fs = NtfsFileSystem::new();
    let mut files: Vec<Option<DataStreamReference>> = vec![None; 8];
    let mut out: Vec<Value> = vec![];
    for op in case["ops"].as_array().unwrap() {
        let v = crate::guarded(|| match op["op"].as_str().unwrap() {
            "open" => match fs.read_data_stream(&source(case)) {
                Ok(()) => json!({"k": "ok", "meta": {
                    "version": fs.get_format_version().map(|(a, b)| json!([a, b])).unwrap_or(json!([-1])), "label": units(fs.get_volume_label()),
                    "vflags": fs.get_volume_flags().map(|x| json!([x])).unwrap_or(json!([-1])), "serial": fs.volume_serial_number.to_le_bytes()}}),
                Err(e) => failed(e),
            },
            "list" => list(&fs, op).unwrap_or_else(failed),
            "find" | "byid" => match find(&fs, op) {
                Ok(Some(mut e)) => match entry(&mut e) {
                    Ok(v) => json!({"k": "ok", "entry": v}),
                    Err(e) => failed(e),
                },
                Ok(None) => json!({"k": "none"}),
                Err(e) => failed(e),
            },
            "file" => {
                let i = op["layer"].as_u64().unwrap() as usize;
                files[i] = None;
                match find(&fs, op) {
                    Ok(Some(e)) => match open(&e, op) {
                        Ok(Some(s)) => {
                            files[i] = Some(s);
                            json!({"k": "ok"})
                        }
                        Ok(None) => json!({"k": "none"}),
                        Err(e) => failed(e),
                    },
                    Ok(None) => json!({"k": "none"}),
                    Err(e) => failed(e),
                }
            }
            _ => match &files[op["layer"].as_u64().unwrap() as usize] {
                Some(s) => stream_op(&mut *s.write().unwrap(), op),
                None => json!({"k": "err", "text": "not open"}),
            },
        });
        let stop = v.get("panic").is_some() || v["k"] == "err" && op["op"] == "open";
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}
