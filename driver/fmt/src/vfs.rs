//! The virtual file system: locations, histories of a resolver, walks and scans.
use crate::fat::{date, failed};
use crate::stream::big;
use keramics_core::{DataStreamReference, ErrorTrace};
use keramics_formats::PathComponent;
use keramics_vfs::*;
use serde_json::{Value, json};
use std::path::PathBuf;

fn vfs_type(v: &Value) -> VfsType {
    match v.as_str().unwrap() {
        "Apm" => VfsType::Apm,
        "Ext" => VfsType::Ext,
        "Ewf" => VfsType::Ewf,
        "Fat" => VfsType::Fat,
        "Gpt" => VfsType::Gpt,
        "Mbr" => VfsType::Mbr,
        "Ntfs" => VfsType::Ntfs,
        "Os" => VfsType::Os,
        "Qcow" => VfsType::Qcow,
        "SparseImage" => VfsType::SparseImage,
        "Udif" => VfsType::Udif,
        "Vhd" => VfsType::Vhd,
        "Vhdx" => VfsType::Vhdx,
        x => panic!("type {}", x),
    }
}

fn names(v: &Value) -> Vec<&str> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect()
}

/// A path of names, the first one that of the root.  Those of the operating system are below a directory.
fn path(dir: &str, t: &VfsType, v: &Value, text: bool) -> VfsPath {
    let names = names(v);
    if *t == VfsType::Os {
        let mut p = PathBuf::from(dir);
        for n in &names[1..] {
            p.push(n);
        }
        return VfsPath::from_path(t, p.to_str().unwrap());
    }
    if text {
        let s = if *t == VfsType::Ntfs { "\\" } else { "/" };
        let joined = names.join(s);
        return VfsPath::from_path(t, if joined.is_empty() { s } else { &joined });
    }
    VfsPath::from_path_components(t, &names)
}

fn location(dir: &str, op: &Value) -> VfsLocation {
    let text = op["form"] == "text";
    let mut got: Option<VfsLocation> = None;
    for layer in op["loc"].as_array().unwrap() {
        let t = vfs_type(&layer[0]);
        let p = path(dir, &t, &layer[1], text);
        got = Some(match got {
            None if t == VfsType::Os && text => new_os_vfs_location(&p.to_string()),
            None => VfsLocation::new_base(&t, p),
            Some(l) => l.new_with_layer(&t, p),
        });
    }
    got.unwrap()
}

fn crc(mut c: u32, data: &[u8]) -> u32 {
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 != 0 { c >> 1 ^ 0xEDB88320 } else { c >> 1 };
        }
    }
    c
}

/// The size and the checksum of all of a stream.
fn contents(s: &DataStreamReference) -> Result<(u64, u32), ErrorTrace> {
    let mut s = s.write().unwrap();
    let size = s.get_size()?;
    s.seek(std::io::SeekFrom::Start(0))?;
    let mut data = vec![0u8; 1 << 16];
    let (mut c, mut n) = (!0u32, 0u64);
    loop {
        let k = s.read(&mut data)?;
        if k == 0 {
            break;
        }
        c = crc(c, &data[..k]);
        n += k as u64;
    }
    if n != size {
        return Err(ErrorTrace::new(format!("{} bytes read, {} the size", n, size)));
    }
    Ok((size, !c))
}

fn kind(t: VfsFileType) -> &'static str {
    match t {
        VfsFileType::Directory => "dir",
        VfsFileType::File => "file",
        VfsFileType::SymbolicLink => "link",
        _ => "other",
    }
}

fn shown(e: &mut VfsFileEntry, os: bool) -> Result<Value, ErrorTrace> {
    let name = e.get_name().map(|n| n.to_string()).unwrap_or_default();
    let times: Vec<String> = [e.get_modification_time(), e.get_access_time(), e.get_change_time(), e.get_creation_time()].into_iter().map(date).collect();
    let target = if os { "-".to_string() } else { e.get_symbolic_link_target()?.map(|p| p.to_string()).unwrap_or("-".to_string()) };
    Ok(json!({"k": "ok", "name": name, "kind": kind(e.get_file_type()), "times": times, "target": target}))
}

fn streams(e: &VfsFileEntry) -> Result<Vec<Value>, ErrorTrace> {
    let mut all = vec![];
    let forks = matches!(e, VfsFileEntry::Ext(_) | VfsFileEntry::Fat(_) | VfsFileEntry::Ntfs(_));
    if forks {
        for i in 0..e.get_number_of_data_forks()? {
            let f = e.get_data_fork_by_index(i)?;
            let (n, c) = contents(&f.get_data_stream()?)?;
            all.push(json!([f.get_name().map(|n| n.to_string()).unwrap_or_default(), big(n), big(c as u64)]));
        }
    } else {
        let n = e.get_number_of_data_forks()?;
        if let Some(s) = e.get_data_stream()? {
            let (n, c) = contents(&s)?;
            all.push(json!(["", big(n), big(c as u64)]));
        }
        if n != all.len() {
            all.push(json!([format!("{} forks", n), big(0), big(0)]));
        }
    }
    Ok(all)
}

fn walk(fs: &VfsFileSystem) -> Result<Value, ErrorTrace> {
    let mut found = vec![];
    let finder = VfsFinder::new(fs);
    for r in finder {
        let (e, p) = r?;
        let p: Vec<String> = p.iter().map(|n| n.to_string()).collect();
        found.push(json!({"path": p, "kind": kind(e.get_file_type()), "streams": streams(&e)?}));
        if found.len() > 5000 {
            break;
        }
    }
    Ok(json!({"k": "ok", "found": found}))
}

fn sub_names(fs: &VfsFileSystem, p: &VfsPath, root: bool) -> Result<Value, ErrorTrace> {
    let e = if root { fs.get_root_file_entry()? } else { fs.get_file_entry_by_path(p)? };
    let mut e = match e {
        Some(e) => e,
        None => return Ok(json!({"k": "none"})),
    };
    let n = e.get_number_of_sub_file_entries()?;
    let mut names = vec![];
    for s in e.sub_file_entries()? {
        names.push(s?.get_name().map(|n| n.to_string()).unwrap_or_default());
    }
    if n != names.len() {
        return Ok(json!({"k": "not the number of them"}));
    }
    Ok(json!({"k": "ok", "names": names}))
}

fn layers(l: &VfsLocation, dir: &str) -> Vec<Value> {
    let mut v = match l.get_parent() {
        Some(p) => layers(p, dir),
        None => vec![],
    };
    let text = l.get_path().to_string();
    let text = if *l.get_type() == VfsType::Os { text.strip_prefix(dir).unwrap_or("?").to_string() } else { text };
    v.push(json!([format!("{:?}", l.get_type()), text]));
    v
}

fn nodes(n: &VfsScanNode, dir: &str) -> Value {
    let sub: Vec<Value> = n.sub_nodes.iter().map(|s| nodes(s, dir)).collect();
    json!({"loc": layers(&n.location, dir), "sub": sub, "fs": n.is_file_system()})
}

fn scan(l: &VfsLocation, dir: &str) -> Result<Value, ErrorTrace> {
    let mut s = VfsScanner::new();
    if s.build().is_err() {
        return Ok(json!({"k": "not built"}));
    }
    let mut c = VfsScanContext::new();
    s.scan(&mut c, l)?;
    let root = c.root_node.as_ref().unwrap();
    let all = nodes(root, dir);
    if all["loc"] != json!(layers(l, dir)) {
        return Ok(json!({"k": "another root", "loc": all["loc"]}));
    }
    Ok(json!({"k": "ok", "nodes": all["sub"]}))
}

fn name(p: &VfsPath) -> String {
    match p.get_file_name() {
        None => "-".to_string(),
        Some(PathComponent::ByteString(s)) => s.to_string(),
        Some(PathComponent::Ucs2String(s)) => s.to_string(),
        Some(PathComponent::String(s)) => s,
    }
}

fn paths(op: &Value) -> Result<Value, ErrorTrace> {
    let t = vfs_type(&op["type"]);
    let p = VfsPath::from_path_components(&t, &names(&op["path"]));
    let text = p.to_string();
    let same = VfsPath::from_path(&t, &text) == p;
    let more: Vec<PathComponent> = names(&op["join"]).iter().map(|n| PathComponent::String(n.to_string())).collect();
    let q = p.new_with_join(&more)?;
    Ok(json!({"k": "ok", "text": text, "same": same, "joined": q.to_string(), "name": name(&q), "parent": q.new_with_parent_directory().to_string()}))
}

pub fn history(case: &Value) -> Value {
    let dir = case["dir"].as_str().unwrap_or("/nowhere");
    let resolver = VfsResolver::current();
    let mut slots: Vec<Option<VfsFileSystemReference>> = vec![None; 4];
    let mut kept: Vec<Option<DataStreamReference>> = vec![None; 4];
    let mut out: Vec<Value> = vec![];
    for op in case["ops"].as_array().unwrap() {
        let slot = op["slot"].as_u64().unwrap_or(0) as usize;
        let done = || -> Result<Value, ErrorTrace> {
            Ok(match op["op"].as_str().unwrap() {
                "open" => {
                    slots[slot] = Some(resolver.open_file_system(&location(dir, op))?);
                    json!({"k": "ok"})
                }
                "drop" => {
                    slots[slot] = None;
                    json!({"k": "ok"})
                }
                "entry" => {
                    let l = location(dir, op);
                    match resolver.get_file_entry_by_location(&l)? {
                        Some(mut e) => shown(&mut e, *l.get_type() == VfsType::Os)?,
                        None => json!({"k": "none"}),
                    }
                }
                "in" | "exists" | "names" => {
                    let fs = match &slots[slot] {
                        Some(fs) => fs,
                        None => return Ok(json!({"k": "none"})),
                    };
                    let t = vfs_type(&op["type"]);
                    let p = path(dir, &t, &op["path"], op["form"] == "text");
                    match op["op"].as_str().unwrap() {
                        "exists" => json!({"k": "ok", "yes": fs.file_entry_exists(&p)?}),
                        "names" => sub_names(fs, &p, op["form"] == "root")?,
                        _ => match fs.get_file_entry_by_path(&p)? {
                            Some(mut e) => shown(&mut e, t == VfsType::Os)?,
                            None => json!({"k": "none"}),
                        },
                    }
                }
                "stream" => {
                    let name = op["name"].as_str().unwrap();
                    let l = location(dir, op);
                    match resolver.get_data_stream_by_path_and_name(&l, if name.is_empty() { None } else { Some(name) })? {
                        Some(s) => {
                            let (n, c) = contents(&s)?;
                            kept[slot] = Some(s);
                            json!({"k": "ok", "size": big(n), "crc": big(c as u64)})
                        }
                        None => json!({"k": "none"}),
                    }
                }
                "again" => match &kept[slot] {
                    Some(s) => {
                        let (n, c) = contents(s)?;
                        json!({"k": "ok", "size": big(n), "crc": big(c as u64)})
                    }
                    None => json!({"k": "none"}),
                },
                "walk" => match &slots[slot] {
                    Some(fs) => walk(fs)?,
                    None => json!({"k": "none"}),
                },
                "scan" => scan(&location(dir, op), dir)?,
                "path" => paths(op)?,
                "text" => {
                    // an Os path is below the directory of the world
                    let text = location(dir, op).to_string();
                    let lines: Vec<String> = text.split('\n').filter(|l| !l.is_empty()).map(|l| l.replacen(dir, "", 1)).collect();
                    json!({"k": "ok", "lines": lines})
                }
                other => json!({"unknown": other}),
            })
        };
        let v = crate::guarded(|| done_or(done));
        let stop = v.get("panic").is_some();
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}

fn done_or(f: impl FnOnce() -> Result<Value, ErrorTrace>) -> Value {
    f().unwrap_or_else(failed)
}
