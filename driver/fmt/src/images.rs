//! Storage media images, volume systems.
use crate::stream::{big, stream_op};
use keramics_core::{DataStream, DataStreamReference, open_os_data_stream};
use keramics_formats::{FileResolverReference, PathComponent, open_os_file_resolver};
use serde_json::{Value, json};
use std::path::PathBuf;
use std::sync::{Arc, RwLock};

pub struct Opened {
    pub meta: Value,
    pub streams: Vec<DataStreamReference>,
}

type Res = Result<Opened, keramics_core::ErrorTrace>;

pub fn resolver(case: &Value) -> FileResolverReference {
    open_os_file_resolver(&PathBuf::from(case["dir"].as_str().unwrap())).unwrap()
}

pub fn source(case: &Value) -> DataStreamReference {
    let path = PathBuf::from(case["dir"].as_str().unwrap()).join(case["file"].as_str().unwrap());
    open_os_data_stream(&path).unwrap()
}

fn vhd(case: &Value) -> Res {
    use keramics_formats::vhd::*;
    let mut image = VhdImage::new();
    image.open(&resolver(case), &PathComponent::from(case["file"].as_str().unwrap()))?;
    let mut layers = vec![];
    let mut streams: Vec<DataStreamReference> = vec![];
    for i in 0..image.get_number_of_layers() {
        let layer = image.get_layer_by_index(i)?;
        {
            let f = layer.read().unwrap();
            layers.push(json!({
                "type": match f.disk_type {
                    VhdDiskType::Fixed => "fixed",
                    VhdDiskType::Dynamic => "dynamic",
                    VhdDiskType::Differential => "diff",
                    _ => "unknown",
                },
                "size": big(f.media_size),
                "id": f.identifier.to_string(),
                "parent": match &f.parent_identifier { Some(p) => p.to_string(), None => "".to_string() },
                "bps": f.bytes_per_sector,
                "block": f.block_size,
                "pname": match &f.parent_name { Some(p) => p.to_string(), None => "".to_string() },
            }));
        }
        streams.push(layer);
    }
    Ok(Opened { meta: json!(layers), streams })
}

fn vhdx(case: &Value) -> Res {
    use keramics_formats::vhdx::*;
    let mut image = VhdxImage::new();
    image.open(&resolver(case), &PathComponent::from(case["file"].as_str().unwrap()))?;
    let mut layers = vec![];
    let mut streams: Vec<DataStreamReference> = vec![];
    for i in 0..image.get_number_of_layers() {
        let layer = image.get_layer_by_index(i)?;
        {
            let f = layer.read().unwrap();
            layers.push(json!({
                "type": match f.disk_type {
                    VhdxDiskType::Fixed => "fixed",
                    VhdxDiskType::Dynamic => "dynamic",
                    VhdxDiskType::Differential => "diff",
                    _ => "unknown",
                },
                "size": big(f.media_size),
                "id": f.identifier.to_string(),
                "parent": match &f.parent_identifier { Some(p) => p.to_string(), None => "".to_string() },
                "bps": f.bytes_per_sector,
                "block": f.block_size,
                "version": f.format_version,
                "pname": match &f.parent_name { Some(p) => p.to_string(), None => "".to_string() },
            }));
        }
        streams.push(layer);
    }
    Ok(Opened { meta: json!(layers), streams })
}

fn qcow(case: &Value) -> Res {
    use keramics_formats::qcow::*;
    let mut image = QcowImage::new();
    image.open(&resolver(case), &PathComponent::from(case["file"].as_str().unwrap()))?;
    let mut layers = vec![];
    let mut streams: Vec<DataStreamReference> = vec![];
    for i in 0..image.get_number_of_layers() {
        let layer = image.get_layer_by_index(i)?;
        {
            let f = layer.read().unwrap();
            layers.push(json!({
                "version": f.format_version,
                "size": big(f.media_size),
                "backing": match f.get_backing_file_name() { Some(p) => p.to_string(), None => "".to_string() },
                "comp": match f.compression_method { QcowCompressionMethod::Zlib => "zlib", _ => "unknown" },
                "enc": match f.encryption_method { QcowEncryptionMethod::None => "none", _ => "other" },
            }));
        }
        streams.push(layer);
    }
    Ok(Opened { meta: json!(layers), streams })
}

fn sparseimage(case: &Value) -> Res {
    let mut f = keramics_formats::sparseimage::SparseImageFile::new();
    f.read_data_stream(&source(case))?;
    let meta = json!({"size": big(f.media_size), "block": f.block_size});
    Ok(Opened { meta, streams: vec![shared(f)] })
}

fn sparsebundle(case: &Value) -> Res {
    let path = PathBuf::from(case["dir"].as_str().unwrap()).join(case["file"].as_str().unwrap());
    let mut f = keramics_formats::sparsebundle::SparseBundleImage::new();
    f.open(&open_os_file_resolver(&path)?)?;
    let meta = json!({"size": big(f.media_size), "block": f.block_size});
    Ok(Opened { meta, streams: vec![shared(f)] })
}

fn udif(case: &Value) -> Res {
    use keramics_formats::udif::*;
    let mut f = UdifFile::new();
    f.read_data_stream(&source(case))?;
    let meta = json!({"size": big(f.media_size), "bps": f.bytes_per_sector, "comp": match f.compression_method {
        UdifCompressionMethod::None => "none",
        UdifCompressionMethod::Adc => "adc",
        UdifCompressionMethod::Bzip2 => "bzip2",
        UdifCompressionMethod::Lzfse => "lzfse",
        UdifCompressionMethod::Lzma => "lzma",
        UdifCompressionMethod::Zlib => "zlib",
    }});
    Ok(Opened { meta, streams: vec![shared(f)] })
}

fn ewf(case: &Value) -> Res {
    use keramics_formats::ewf::*;
    let mut f = EwfImage::new();
    f.open(&resolver(case), &PathComponent::from(case["file"].as_str().unwrap()))?;
    let mut values = vec![];
    for (key, kind) in [
        ("a", EwfHeaderValueType::Description),
        ("av", EwfHeaderValueType::Version),
        ("c", EwfHeaderValueType::CaseNumber),
        ("e", EwfHeaderValueType::ExaminerName),
        ("l", EwfHeaderValueType::DeviceLabel),
        ("m", EwfHeaderValueType::AcquisitionDate),
        ("md", EwfHeaderValueType::Model),
        ("n", EwfHeaderValueType::EvidenceNumber),
        ("ov", EwfHeaderValueType::Platform),
        ("p", EwfHeaderValueType::PasswordHash),
        ("pid", EwfHeaderValueType::ProcessIdentifier),
        ("r", EwfHeaderValueType::CompressionLevel),
        ("sn", EwfHeaderValueType::SerialNumber),
        ("t", EwfHeaderValueType::Notes),
        ("u", EwfHeaderValueType::SystemDate),
    ] {
        match f.get_header_value(&kind) {
            Some(EwfHeaderValue::PosixTime(t)) => values.push(json!({"key": key, "n": t.timestamp, "text": []})),
            Some(EwfHeaderValue::Byte(v)) => values.push(json!({"key": key, "n": -1, "text": v.elements})),
            Some(EwfHeaderValue::Utf16(v)) => values.push(json!({"key": key, "n": -1, "text": v.elements})),
            None => {}
        }
    }
    let hex = |d: &[u8]| d.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    let meta = json!({
        "size": big(f.media_size),
        "spc": f.sectors_per_chunk,
        "bps": f.bytes_per_sector,
        "gran": f.error_granularity,
        "media": match f.media_type {
            EwfMediaType::RemoveableDisk => 0,
            EwfMediaType::FixedDisk => 1,
            EwfMediaType::OpticalDisk => 3,
            EwfMediaType::LogicalEvidence => 14,
            EwfMediaType::Memory => 16,
            EwfMediaType::Unknown => 255,
        },
        "id": f.set_identifier.to_string(),
        "md5": hex(&f.md5_hash),
        "sha1": hex(&f.sha1_hash),
        "values": values,
    });
    Ok(Opened { meta, streams: vec![shared(f)] })
}

fn mbr(case: &Value) -> Res {
    let mut v = keramics_formats::mbr::MbrVolumeSystem::new();
    let given = case["disk"]["given"].as_u64().unwrap();
    if given != 0 {
        v.set_bytes_per_sector(given as u16)?;
    }
    v.read_data_stream(&source(case))?;
    let mut parts = vec![];
    let mut streams: Vec<DataStreamReference> = vec![];
    for i in 0..v.get_number_of_partitions() {
        let p = v.get_partition_by_index(i)?;
        parts.push(json!({"index": p.entry_index, "type": p.partition_type, "flags": p.flags, "off": big(p.offset), "size": big(p.size)}));
        streams.push(shared(p));
    }
    Ok(Opened { meta: json!({"bps": v.bytes_per_sector, "id": v.disk_identity, "parts": parts}), streams })
}

fn gpt(case: &Value) -> Res {
    let mut v = keramics_formats::gpt::GptVolumeSystem::new();
    let given = case["disk"]["given"].as_u64().unwrap();
    if given != 0 {
        v.set_bytes_per_sector(given as u16)?;
    }
    v.read_data_stream(&source(case))?;
    let mut parts = vec![];
    let mut streams: Vec<DataStreamReference> = vec![];
    for i in 0..v.get_number_of_partitions() {
        let p = v.get_partition_by_index(i)?;
        parts.push(json!({"index": p.entry_index, "type": p.type_identifier.to_string(), "id": p.identifier.to_string(), "off": big(p.offset), "size": big(p.size)}));
        streams.push(shared(p));
    }
    Ok(Opened { meta: json!({"bps": v.bytes_per_sector, "id": v.disk_identifier.to_string(), "parts": parts}), streams })
}

fn apm(case: &Value) -> Res {
    let mut v = keramics_formats::apm::ApmVolumeSystem::new();
    v.read_data_stream(&source(case))?;
    let mut parts = vec![];
    let mut streams: Vec<DataStreamReference> = vec![];
    for i in 0..v.get_number_of_partitions() {
        let p = v.get_partition_by_index(i)?;
        parts.push(json!({"name": p.name.to_string(), "type": p.type_identifier.to_string(), "flags": p.status_flags, "off": big(p.offset), "size": big(p.size)}));
        streams.push(shared(p));
    }
    Ok(Opened { meta: json!({"bps": v.bytes_per_sector, "parts": parts}), streams })
}

fn open(case: &Value) -> Res {
    match case["fmt"].as_str().unwrap() {
        "ewf" => ewf(case),
        "mbr" => mbr(case),
        "gpt" => gpt(case),
        "apm" => apm(case),
        "sparseimage" => sparseimage(case),
        "sparsebundle" => sparsebundle(case),
        "qcow" => qcow(case),
        "udif" => udif(case),
        "vhd" => vhd(case),
        "vhdx" => vhdx(case),
        other => panic!("unknown format {}", other),
    }
}

pub fn image(case: &Value) -> Value {
    let mut opened: Option<Opened> = None;
    let mut out: Vec<Value> = vec![];
    for op in case["ops"].as_array().unwrap() {
        let v = crate::guarded(|| match op["op"].as_str().unwrap() {
            "open" => match open(case) {
                Ok(o) => {
                    let m = o.meta.clone();
                    opened = Some(o);
                    json!({"k": "ok", "meta": m})
                }
                Err(e) => json!({"k": "err", "text": e.to_string().chars().take(400).collect::<String>()}),
            },
            _ => match &opened {
                Some(o) => {
                    let n = o.streams.len();
                    let i = op["layer"].as_u64().map(|x| x as usize).unwrap_or(n - 1);
                    match o.streams.get(i) {
                        Some(s) => stream_op(&mut *s.write().unwrap(), op),
                        None => json!({"k": "nolayer"}),
                    }
                }
                None => json!({"k": "closed"}),
            },
        });
        let stop = v.get("panic").is_some() || v["k"] == "err" && op["op"] == "open";
        out.push(v);
        if stop {
            break;
        }
    }
    json!({"out": out})
}

#[allow(dead_code)]
pub fn shared<T: DataStream + 'static>(s: T) -> DataStreamReference {
    Arc::new(RwLock::new(s))
}
