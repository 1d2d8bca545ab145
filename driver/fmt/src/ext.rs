//! ext volumes: listings, look-ups and file contents.
use crate::fat::{date, failed};
use crate::images::source;
use crate::stream::{big, stream_op};
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::ext::*;
use keramics_types::ByteString;
use serde_json::{Value, json};

fn entry(e: &mut ExtFileEntry) -> Result<Value, ErrorTrace> {
    let name = match e.get_name() {
        None => json!([-1]),
        Some(n) => json!(n.elements),
    };
    let target = match e.get_symbolic_link_target()? {
        None => json!([-1]),
        Some(n) => json!(n.elements),
    };
    let dev = e.get_device_identifier()?.map(|d| d as i32).unwrap_or(-1);
    let attrs = e.get_number_of_attributes()?;
    Ok(json!({"name": name, "ino": e.inode_number, "mode": e.get_file_mode(), "uid": big(e.get_owner_identifier() as u64), "gid": big(e.get_group_identifier() as u64),
        "links": e.get_number_of_links(), "size": big(e.get_size()), "atime": date(e.get_access_time()), "ctime": date(e.get_change_time()),
        "mtime": date(e.get_modification_time()), "dtime": date(Some(e.get_deletion_time())), "crtime": date(e.get_creation_time()),
        "target": target, "dev": dev, "attrs": attrs}))
}

fn path(op: &Value) -> ExtPath {
    let ascii = op["ascii"].as_bool().unwrap_or(false);
    let mut components = vec![ByteString::new()];
    for name in op["path"].as_array().unwrap() {
        let bytes: Vec<u8> = name.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let mut s = if ascii && bytes.iter().all(|x| *x < 128) { ByteString::new_with_encoding(&keramics_encodings::CharacterEncoding::Ascii) } else { ByteString::new() };
        s.elements = bytes;
        components.push(s);
    }
    ExtPath { components }
}

fn list(fs: &ExtFileSystem, op: &Value) -> Result<Value, ErrorTrace> {
    let mut dir = match fs.get_file_entry_by_path(&path(op))? {
        Some(d) => d,
        None => return Ok(json!({"k": "none"})),
    };
    let n = dir.get_number_of_sub_file_entries()?;
    let mut found = vec![];
    for i in 0..n {
        found.push(entry(&mut dir.get_sub_file_entry_by_index(i)?)?);
    }
    if dir.get_sub_file_entry_by_index(n).is_ok() {
        return Ok(json!({"k": "one more than listed"}));
    }
    Ok(json!({"k": "ok", "found": found}))
}

fn find(fs: &ExtFileSystem, op: &Value) -> Result<Option<ExtFileEntry>, ErrorTrace> {
    if op["op"] == "byid" {
        return Ok(Some(fs.get_file_entry_by_identifier(op["ino"].as_u64().unwrap() as u32)?));
    }
    fs.get_file_entry_by_path(&path(op))
}

pub fn history(case: &Value) -> Value {
    let mut fs = ExtFileSystem::new();
    let mut files: Vec<Option<DataStreamReference>> = vec![None; 8];
    let mut out: Vec<Value> = vec![];
    for op in case["ops"].as_array().unwrap() {
        let v = crate::guarded(|| match op["op"].as_str().unwrap() {
            "open" => match fs.read_data_stream(&source(case)) {
                Ok(()) => json!({"k": "ok", "meta": {
                    "version": fs.get_format_version(), "label": fs.get_volume_label().map(|x| x.elements.clone()).unwrap_or(vec![]),
                    "inodes": fs.number_of_inodes, "mounted": fs.last_mount_path.elements.clone(),
                    "mtime": date(Some(&fs.last_mount_time)), "wtime": date(Some(&fs.last_written_time))}}),
                Err(e) => failed(e),
            },
            "list" => list(&fs, op).unwrap_or_else(failed),
            "find" | "byid" => match find(&fs, op) {
                Ok(Some(mut e)) => match entry(&mut e) {
                    Ok(v) => json!({"k": "ok", "entry": v}),
                    Err(e) => failed(e),
                },
                Ok(None) => json!({"k": "none"}),
                Err(e) => failed(e),
            },
            "file" => {
                let i = op["layer"].as_u64().unwrap() as usize;
                files[i] = None;
                match find(&fs, op) {
                    Ok(Some(e)) => match e.get_data_stream() {
                        Ok(Some(s)) => {
                            files[i] = Some(s);
                            json!({"k": "ok"})
                        }
                        Ok(None) => json!({"k": "none"}),
                        Err(e) => failed(e),
                    },
                    Ok(None) => json!({"k": "none"}),
                    Err(e) => failed(e),
                }
            }
            _ => match &files[op["layer"].as_u64().unwrap() as usize] {
                Some(s) => stream_op(&mut *s.write().unwrap(), op),
                None => json!({"k": "err", "text": "not open"}),
            },
        });
        let stop = v.get("panic").is_some() || v["k"] == "err" && op["op"] == "open";
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}
