//! The bundled table of media types, read independently.
use std::collections::BTreeMap;

pub const TABLE: &str = "/repo/build/apache/mime.types";

/// Extension to media type.
pub fn table() -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(TABLE).expect("the table of media types");
    let mut m = BTreeMap::new();
    for line in text.lines() {
        if line.starts_with('#') {
            continue;
        }
        let mut words = line.split_whitespace();
        if let Some(ty) = words.next() {
            for ext in words {
                m.insert(ext.to_string(), ty.to_string());
            }
        }
    }
    m
}
