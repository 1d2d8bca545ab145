//! Format detection.
use crate::images::source;
use crate::stream::unbig;
use keramics_core::{DataStreamReference, open_fake_data_stream};
use keramics_formats::{FormatIdentifier, FormatScanner};
use serde_json::{Value, json};

const NAMES: [(&str, fn(&mut FormatScanner), FormatIdentifier); 12] = [
    ("Apm", FormatScanner::add_apm_signatures, FormatIdentifier::Apm),
    ("Ext", FormatScanner::add_ext_signatures, FormatIdentifier::Ext),
    ("Ewf", FormatScanner::add_ewf_signatures, FormatIdentifier::Ewf),
    ("Fat", FormatScanner::add_fat_signatures, FormatIdentifier::Fat),
    ("Gpt", FormatScanner::add_gpt_signatures, FormatIdentifier::Gpt),
    ("Mbr", FormatScanner::add_mbr_signatures, FormatIdentifier::Mbr),
    ("Ntfs", FormatScanner::add_ntfs_signatures, FormatIdentifier::Ntfs),
    ("Qcow", FormatScanner::add_qcow_signatures, FormatIdentifier::Qcow),
    ("SparseImage", FormatScanner::add_sparseimage_signatures, FormatIdentifier::SparseImage),
    ("Udif", FormatScanner::add_udif_signatures, FormatIdentifier::Udif),
    ("Vhd", FormatScanner::add_vhd_signatures, FormatIdentifier::Vhd),
    ("Vhdx", FormatScanner::add_vhdx_signatures, FormatIdentifier::Vhdx),
];

fn memory(case: &Value) -> DataStreamReference {
    let mut data = vec![0u8; unbig(&case["size"]) as usize];
    for p in case["pieces"].as_array().unwrap() {
        let at = unbig(&p["off"]) as usize;
        for (k, x) in p["data"].as_array().unwrap().iter().enumerate() {
            if at + k < data.len() {
                data[at + k] = x.as_u64().unwrap() as u8;
            }
        }
    }
    open_fake_data_stream(&data)
}

fn scan(case: &Value, op: &Value) -> Value {
    let stream = if case["memory"].as_bool().unwrap() { memory(case) } else { source(case) };
    let mut scanner = FormatScanner::new();
    for f in op["formats"].as_array().unwrap() {
        NAMES.iter().find(|n| n.0 == f.as_str().unwrap()).unwrap().1(&mut scanner);
    }
    if scanner.build().is_err() {
        return json!({"k": "err", "text": "build"});
    }
    // the same scanner on the same data again
    let mut last = Value::Null;
    for i in 0..2 {
        let mut found: Vec<&str> = match scanner.scan_data_stream(&stream) {
            Ok(x) => x.iter().map(|f| NAMES.iter().find(|n| n.2 == *f).map(|n| n.0).unwrap_or("unknown")).collect(),
            Err(e) => return crate::fat::failed(e),
        };
        found.sort();
        let v = json!({"k": "ok", "found": found});
        if i > 0 && v != last {
            return json!({"k": "another result"});
        }
        last = v;
    }
    last
}

pub fn detect(case: &Value) -> Value {
    let out: Vec<Value> = case["ops"].as_array().unwrap().iter().map(|op| crate::guarded(|| scan(case, op))).collect();
    json!({"out": out})
}
