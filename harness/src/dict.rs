//! Literals that occur in the library's source. They only bias the
//! generators towards values the code might treat specially (lengths, names,
//! separators); no verdict depends on them.

use std::fs;
use std::path::Path;
use std::sync::OnceLock;

use crate::json::{self, J};
use crate::src::Src;

#[derive(Default)]
struct Dict {
    ints: Vec<u64>,
    strs: Vec<String>,
    blobs: Vec<Vec<u8>>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

fn scan(dir: &Path, d: &mut Dict) {
    let mut entries: Vec<_> = match fs::read_dir(dir) {
        Ok(e) => e.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    entries.sort();
    for path in entries {
        if path.is_dir() {
            scan(&path, d);
        } else if path.extension().map(|e| e == "rs").unwrap_or(false) {
            if let Ok(text) = fs::read(&path) {
                lex(&text, d);
            }
        }
    }
}

fn lex(t: &[u8], d: &mut Dict) {
    let mut i = 0;
    // The last number, where it ended, and the numbers of a list.
    let (mut last, mut end, mut list) = (None::<u64>, 0, vec![]);
    while i < t.len() {
        let c = t[i];
        if c == b'/' && t.get(i + 1) == Some(&b'/') {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if c == b'/' && t.get(i + 1) == Some(&b'*') {
            i += 2;
            while i + 1 < t.len() && !(t[i] == b'*' && t[i + 1] == b'/') {
                i += 1;
            }
            i += 2;
        } else if c == b'"' {
            let mut s = vec![];
            i += 1;
            while i < t.len() && t[i] != b'"' {
                if t[i] == b'\\' && i + 1 < t.len() {
                    i += 1;
                    match t[i] {
                        b'n' => s.push(b'\n'),
                        b'r' => s.push(b'\r'),
                        b't' => s.push(b'\t'),
                        b'0' => s.push(0),
                        b'x' if i + 2 < t.len() => {
                            if let Ok(v) = u8::from_str_radix(&String::from_utf8_lossy(&t[i + 1..i + 3]), 16) {
                                s.push(v);
                                i += 2;
                            }
                        }
                        b'u' if t.get(i + 1) == Some(&b'{') => {
                            let hex: Vec<u8> = t[i + 2..].iter().cloned().take_while(|b| b.is_ascii_hexdigit()).collect();
                            if let Some(c) = u32::from_str_radix(&String::from_utf8_lossy(&hex), 16).ok().and_then(char::from_u32) {
                                s.extend(c.to_string().bytes());
                                i += 2 + hex.len();
                            }
                        }
                        e => s.push(e),
                    }
                } else {
                    s.push(t[i]);
                }
                i += 1;
            }
            i += 1;
            if !s.is_empty() && s.len() <= 24 {
                match String::from_utf8(s) {
                    Ok(s) => {
                        if !s.contains('{') {
                            d.strs.push(s);
                        }
                    }
                    Err(e) => d.blobs.push(e.into_bytes()),
                }
            }
        } else if c == b'\'' && i + 2 < t.len() && t[i + 1] != b'\\' && t[i + 2] == b'\'' {
            d.strs.push((t[i + 1] as char).to_string());
            i += 3;
        } else if c.is_ascii_digit() && (i == 0 || !(t[i - 1].is_ascii_alphanumeric() || t[i - 1] == b'_')) {
            let start = i;
            while i < t.len() && (t[i].is_ascii_alphanumeric() || t[i] == b'_') {
                i += 1;
            }
            let mut s: String = String::from_utf8_lossy(&t[start..i]).replace('_', "");
            for suffix in ["usize", "u64", "u32", "u16", "u8", "isize", "i64", "i32"] {
                if s.ends_with(suffix) {
                    s.truncate(s.len() - suffix.len());
                }
            }
            let v = if let Some(h) = s.strip_prefix("0x") { u64::from_str_radix(h, 16).ok() } else { s.parse().ok() };
            if let Some(v) = v {
                if v <= 70_000 {
                    d.ints.push(v);
                }
                // Products, shifts and lists.
                let gap: String = String::from_utf8_lossy(&t[end..start]).trim().to_string();
                let whole = match (&gap[..], last) {
                    ("<<", Some(a)) if v < 40 => a.checked_shl(v as u32),
                    ("*", Some(a)) => a.checked_mul(v),
                    _ => None,
                };
                if let Some(w) = whole {
                    if w <= 1 << 21 {
                        d.ints.push(w);
                    }
                }
                if gap != "," {
                    list.clear();
                }
                if v < 256 {
                    list.push(v as u8);
                    if list.len() > 1 && list.len() <= 8 {
                        d.blobs.push(list.clone());
                    }
                } else {
                    list.clear();
                }
                last = Some(whole.unwrap_or(v));
                end = i;
            }
        } else {
            i += 1;
        }
    }
}

pub fn load() {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        scan(Path::new("/repo/src"), &mut d);
        d.ints.extend([3, 5, 10, 20, 50, 64, 100, 128, 200, 255, 256, 1000].iter());
        d.ints.sort();
        d.ints.dedup();
        d.strs.sort();
        d.strs.dedup();
        // Marks of byte orders, in case.
        d.blobs.push(b"\xef\xbb\xbf".to_vec());
        d.blobs.push(b"\xff\xfe".to_vec());
        d.blobs.sort();
        d.blobs.dedup();
        if d.strs.is_empty() {
            d.strs.push("a".into());
        }
        d
    });
}

pub fn to_json() -> J {
    load();
    let d = DICT.get().unwrap();
    json::obj(vec![
        ("ints", J::Arr(d.ints.iter().map(|&v| J::Int(v)).collect())),
        ("strs", J::Arr(d.strs.iter().map(|v| json::s(v.clone())).collect())),
        ("blobs", J::Arr(d.blobs.iter().map(|v| J::Arr(v.iter().map(|&b| J::Int(b as u64)).collect())).collect())),
    ])
}

pub fn from_json(j: &J) {
    let d = Dict {
        ints: j.get("ints").map(|v| v.arr().iter().filter_map(|v| v.int()).collect()).unwrap_or_default(),
        strs: j.get("strs").map(|v| v.arr().iter().filter_map(|v| v.str().map(|s| s.to_string())).collect()).unwrap_or_default(),
        blobs: j.get("blobs").map(|v| v.arr().iter().map(|v| v.arr().iter().filter_map(|v| v.int().map(|b| b as u8)).collect()).collect()).unwrap_or_else(|| vec![vec![0xff]]),
    };
    let _ = DICT.set(d);
}

/// An integer literal of the source, or a neighbour of one.
pub fn int(src: &mut Src) -> u64 {
    load();
    let d = DICT.get().unwrap();
    let v = *src.pick(&d.ints);
    match src.below(4) {
        0 | 1 => v,
        2 => v + 1,
        _ => v.saturating_sub(1),
    }
}

/// A short string literal of the source.
pub fn string(src: &mut Src) -> String {
    load();
    let d = DICT.get().unwrap();
    src.pick(&d.strs).clone()
}

/// A short byte sequence of the source that is not text, or is in a list.
pub fn blob(src: &mut Src) -> Vec<u8> {
    load();
    let d = DICT.get().unwrap();
    src.pick(&d.blobs).clone()
}
