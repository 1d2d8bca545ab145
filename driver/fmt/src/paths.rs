//! Walks over paths of one kind, directly or through the virtual file system.
use crate::guarded;
use keramics_formats::PathComponent;
use keramics_formats::ext::ExtPath;
use keramics_formats::fat::{FatPath, FatString};
use keramics_formats::ntfs::NtfsPath;
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::{VfsPath, VfsType};
use serde_json::{Value, json};

enum Path {
    Ext(ExtPath),
    Fat(FatPath),
    Ntfs(NtfsPath),
    Vfs(VfsPath),
}

fn text_of(value: &Value) -> String {
    value
        .as_array()
        .unwrap()
        .iter()
        .map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap())
        .collect()
}

fn texts_of(value: &Value) -> Vec<String> {
    value.as_array().unwrap().iter().map(text_of).collect()
}

fn points(text: &str) -> Value {
    json!(text.chars().map(|c| c as u32).collect::<Vec<u32>>())
}

fn optional(text: Option<String>) -> Value {
    match text {
        Some(text) => json!([points(&text)]),
        None => json!([]),
    }
}

fn vfs_type(name: &str) -> VfsType {
    match name {
        "ext" => VfsType::Ext,
        "fat" => VfsType::Fat,
        "ntfs" => VfsType::Ntfs,
        "os" => VfsType::Os,
        "apm" => VfsType::Apm,
        "ewf" => VfsType::Ewf,
        "gpt" => VfsType::Gpt,
        "mbr" => VfsType::Mbr,
        "qcow" => VfsType::Qcow,
        "sparseimage" => VfsType::SparseImage,
        "udif" => VfsType::Udif,
        "vhd" => VfsType::Vhd,
        _ => VfsType::Vhdx,
    }
}

fn component(form: &str, text: &str) -> PathComponent {
    match form {
        "bytes" => PathComponent::ByteString(ByteString::from(text)),
        "units" => PathComponent::Ucs2String(Ucs2String::from(text)),
        _ => PathComponent::from(text),
    }
}

fn parse(case: &Value, text: &str, how: u64) -> Path {
    if case["vfs"].as_bool().unwrap() {
        return Path::Vfs(VfsPath::from_path(&vfs_type(case["type"].as_str().unwrap()), text));
    }
    let string: String = text.to_string();
    match (case["kind"].as_str().unwrap(), how % 2) {
        ("ext", 0) => Path::Ext(ExtPath::from(text)),
        ("ext", _) => Path::Ext(ExtPath::from(&string)),
        ("fat", 0) => Path::Fat(FatPath::from(text)),
        ("fat", _) => Path::Fat(FatPath::from(&string)),
        (_, 0) => Path::Ntfs(NtfsPath::from(text)),
        (_, _) => Path::Ntfs(NtfsPath::from(&string)),
    }
}

fn from_components(case: &Value, names: &[String], how: u64) -> Path {
    let strs: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
    if case["vfs"].as_bool().unwrap() {
        let kind: VfsType = vfs_type(case["type"].as_str().unwrap());
        return Path::Vfs(VfsPath::from_path_components(&kind, &strs));
    }
    let strings: Vec<String> = names.to_vec();
    match case["kind"].as_str().unwrap() {
        "ext" => {
            let own: Vec<ByteString> = names.iter().map(|n| ByteString::from(n)).collect();
            Path::Ext(match how % 6 {
                0 => ExtPath::from(strs.as_slice()),
                1 => ExtPath::from(&strs),
                2 => ExtPath::from(strings.as_slice()),
                3 => ExtPath::from(&strings),
                4 => ExtPath::from(own.as_slice()),
                _ => ExtPath::from(&own),
            })
        }
        "fat" => Path::Fat(match how % 4 {
            0 => FatPath::from(strs.as_slice()),
            1 => FatPath::from(&strs),
            2 => FatPath::from(strings.as_slice()),
            _ => FatPath::from(&strings),
        }),
        _ => {
            let own: Vec<Ucs2String> = names.iter().map(|n| Ucs2String::from(n)).collect();
            Path::Ntfs(match how % 6 {
                0 => NtfsPath::from(strs.as_slice()),
                1 => NtfsPath::from(&strs),
                2 => NtfsPath::from(strings.as_slice()),
                3 => NtfsPath::from(&strings),
                4 => NtfsPath::from(own.as_slice()),
                _ => NtfsPath::from(&own),
            })
        }
    }
}

fn fat_string(form: &str, text: &str) -> FatString {
    match form {
        "bytes" => FatString::ByteString(ByteString::from(text)),
        "units" => FatString::Ucs2String(Ucs2String::from(text)),
        _ => FatString::from(text),
    }
}

/// Joins names; None when they are refused.
fn join(path: &Path, names: &[String], form: &str) -> Option<Path> {
    match path {
        Path::Ext(path) => {
            let own: Vec<ByteString> = names.iter().map(|n| ByteString::from(n)).collect();
            Some(Path::Ext(path.new_with_join(&own)))
        }
        Path::Fat(path) => {
            let own: Vec<FatString> = names.iter().map(|n| fat_string(form, n)).collect();
            Some(Path::Fat(path.new_with_join(&own)))
        }
        Path::Ntfs(path) => {
            let own: Vec<Ucs2String> = names.iter().map(|n| Ucs2String::from(n)).collect();
            Some(Path::Ntfs(path.new_with_join(&own)))
        }
        Path::Vfs(path) => {
            let own: Vec<PathComponent> = names.iter().map(|n| component(form, n)).collect();
            match path.new_with_join(&own) {
                Ok(path) => Some(Path::Vfs(path)),
                Err(_) => None,
            }
        }
    }
}

fn push(path: &mut Path, name: &str, form: &str) {
    match path {
        Path::Ext(path) => path.push(ByteString::from(name)),
        Path::Fat(path) => path.push(fat_string(form, name)),
        Path::Ntfs(path) => path.push(Ucs2String::from(name)),
        Path::Vfs(_) => {}
    }
}

fn parent(path: &Path) -> Path {
    match path {
        Path::Ext(path) => Path::Ext(path.new_with_parent_directory()),
        Path::Fat(path) => Path::Fat(path.new_with_parent_directory()),
        Path::Ntfs(path) => Path::Ntfs(path.new_with_parent_directory()),
        Path::Vfs(path) => Path::Vfs(path.new_with_parent_directory()),
    }
}

/// Whether a text has names in which backslashes are doubled.
fn escaped(text: &str) -> bool {
    text.contains("\\\\")
}

/// What there is to see of a path.
fn view(case: &Value, path: &Path) -> Value {
    match path {
        Path::Ext(path) => {
            let text: String = path.to_string();
            json!({
                "comps": path.components.iter().map(|c| points(&c.to_string())).collect::<Vec<Value>>(),
                "name": optional(path.file_name().map(|n| n.to_string())),
                "stem": optional(path.file_stem().map(|n| n.to_string())),
                "ext": optional(path.extension().map(|n| n.to_string())),
                "empty": path.is_empty(),
                "same": escaped(&text) || path == &ExtPath::from(&text),
                "text": points(&text),
            })
        }
        Path::Fat(path) => {
            let text: String = path.to_string();
            let units: bool = path.components.iter().all(|c| matches!(c, FatString::Ucs2String(_)));
            json!({
                "comps": path.components.iter().map(|c| points(&c.to_string())).collect::<Vec<Value>>(),
                "name": optional(path.file_name().map(|n| n.to_string())),
                "stem": optional(path.file_stem().map(|n| n.to_string())),
                "ext": optional(path.extension().map(|n| n.to_string())),
                "empty": path.is_empty(),
                "same": !units || escaped(&text) || path == &FatPath::from(&text),
                "text": points(&text),
            })
        }
        Path::Ntfs(path) => {
            let text: String = path.to_string();
            json!({
                "comps": path.components.iter().map(|c| points(&c.to_string())).collect::<Vec<Value>>(),
                "name": optional(path.file_name().map(|n| n.to_string())),
                "stem": optional(path.file_stem().map(|n| n.to_string())),
                "ext": optional(path.extension().map(|n| n.to_string())),
                "empty": path.is_empty(),
                "same": path == &NtfsPath::from(&text),
                "text": points(&text),
            })
        }
        Path::Vfs(path) => {
            let text: String = path.to_string();
            let name: Option<PathComponent> = path.get_file_name();
            let mut units: bool = true;
            let mut result: Value = json!({
                "name": optional(name.as_ref().map(|n| n.to_string())),
                "stem": optional(name.as_ref().and_then(|n| n.file_stem()).map(|n| n.to_string())),
                "ext": optional(name.as_ref().and_then(|n| n.extension()).map(|n| n.to_string())),
                "text": points(&text),
            });
            let components: Option<Vec<Value>> = match path {
                VfsPath::Ext(path) => Some(path.components.iter().map(|c| points(&c.to_string())).collect()),
                VfsPath::Fat(path) => {
                    units = path.components.iter().all(|c| matches!(c, FatString::Ucs2String(_)));
                    Some(path.components.iter().map(|c| points(&c.to_string())).collect())
                }
                VfsPath::Ntfs(path) => Some(path.components.iter().map(|c| points(&c.to_string())).collect()),
                VfsPath::String(path) => Some(path.components.iter().map(|c| points(c)).collect()),
                VfsPath::Os(_) => None,
            };
            if let Some(components) = components {
                result["comps"] = json!(components);
            }
            let again: VfsPath = VfsPath::from_path(&vfs_type(case["type"].as_str().unwrap()), &text);
            result["same"] = json!(!units || escaped(&text) || path == &again);
            result
        }
    }
}

pub fn history(case: &Value) -> Value {
    let mut path: Path = parse(case, if case["kind"] == "ntfs" { "\\" } else { "/" }, 0);
    let mut out: Vec<Value> = Vec::new();
    for op in case["ops"].as_array().unwrap() {
        let how: u64 = op["how"].as_u64().unwrap_or(0);
        let form: &str = op["form"].as_str().unwrap_or("text");
        let result: Value = guarded(|| {
            let mut refused: bool = false;
            match op["op"].as_str().unwrap() {
                "parse" => path = parse(case, &text_of(&op["text"]), how),
                "comps" => path = from_components(case, &texts_of(&op["names"]), how),
                "join" => match join(&path, &texts_of(&op["names"]), form) {
                    Some(joined) => path = joined,
                    None => refused = true,
                },
                "push" => push(&mut path, &text_of(&op["name"]), form),
                "parent" => path = parent(&path),
                _ => {}
            }
            let mut result: Value = view(case, &path);
            result["refused"] = json!(refused);
            result
        });
        let stop: bool = result.get("panic").is_some();
        out.push(result);
        if stop {
            break;
        }
    }
    json!({"out": out})
}
