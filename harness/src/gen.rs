//! Generators shared by the checks.
use crate::dict;
use crate::src::{mix, Src};

/// Sizes with a strong bias to zero, small numbers, powers of two and the
/// integer literals of the library, each ±1.
pub fn size(src: &mut Src, max: usize) -> usize {
    let v = match src.weighted(&[6, 5, 3, 2, 1]) {
        0 => src.idx(4),
        1 => src.idx(17),
        2 => {
            let p = src.idx(17.max((max as u64 + 1).ilog2() as usize + 1));
            let v = 1usize << p;
            match src.below(3) {
                0 => v,
                1 => v + 1,
                _ => v - 1,
            }
        }
        3 => dict::int(src) as usize,
        _ => src.idx(max + 1),
    };
    if v > max {
        // Keep the small end likely when the bound is low.
        v % (max + 1)
    } else {
        v
    }
}

/// Bytes of a given length, with content expanded from a few draws.
pub fn blob(src: &mut Src, len: usize) -> Vec<u8> {
    let style = src.below(7);
    let seed = src.below(1 << 32);
    let mut v = Vec::with_capacity(len);
    let text = b"the quick\r\nbrown <fox>&jumps=over%20the+lazy-dog/\n0\r\n\r\n";
    let mut z = mix(seed);
    for i in 0..len {
        z = if i % 8 == 0 { mix(z) } else { z >> 8 | z << 56 };
        v.push(match style {
            0 => b'a' + (i % 26) as u8,
            1 => text[(i + seed as usize) % text.len()],
            2 => z as u8,
            3 => seed as u8,
            4 => (i % 251) as u8,
            5 => if i % 2 == 0 { b'\r' } else { b'\n' },
            _ => 0x20 + (z as u8 % 0x5f),
        });
    }
    v
}

pub fn bytes(src: &mut Src, max: usize) -> Vec<u8> {
    match src.weighted(&[4, 3, 2, 1]) {
        0 => {
            let n = src.idx(6.min(max) + 1);
            (0..n).map(|_| byte(src)).collect()
        }
        1 => {
            let n = size(src, max);
            blob(src, n)
        }
        2 => {
            let mut s = string(src, max).into_bytes();
            if !s.is_empty() && src.flip() {
                let i = src.idx(s.len());
                s[i] = byte(src);
            }
            s
        }
        _ => {
            let mut s = if src.chance(1, 4) { dict::blob(src) } else { dict::string(src).into_bytes() };
            if src.chance(1, 4) {
                let n = src.range(1, 4);
                s.extend((0..n).map(|_| byte(src)).collect::<Vec<_>>());
            }
            s.truncate(max);
            s
        }
    }
}

pub fn byte(src: &mut Src) -> u8 {
    match src.weighted(&[6, 3, 2, 1]) {
        0 => b'a' + src.below(4) as u8,
        1 => 0x20 + src.below(0x5f) as u8,
        2 => *src.pick(&[0xffu8, 0x80, 0xc3, 0xa9, 0, 0x7f, b'\n', b'\r', 0xe2, 0xf0, 0x9f, b'%', b'+', b'&', b'=', b'/', b'#', b'?']),
        _ => src.below(256) as u8,
    }
}

const CHARS: &[char] = &[
    'a', 'b', 'c', 'd', 'A', 'Z', '0', '1', '9', '-', '_', '.', '~', ' ', '+', '%', '&', '=', '#', '?', '/', ':', '*', ';', ',', '@', '!', '$', '\'', '(', ')',
    '[', ']', '"', '<', '>', '\\', '^', '`', '{', '|', '}', 'é', 'ß', 'ñ', '漢', '字', '\u{1F600}', '\u{10FFFF}', '\u{0}', '\n', '\t', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{fffd}',
    'İ', 'K', '\u{feff}', '\u{301}', '\u{202e}', '\u{a0}',
];

pub fn ch(src: &mut Src) -> char {
    match src.weighted(&[5, 5, 1]) {
        0 => (b'a' + src.below(4) as u8) as char,
        1 => *src.pick(CHARS),
        _ => char::from_u32(src.below(0x11_0000) as u32).unwrap_or('x'),
    }
}

/// Unicode strings of at most `max` bytes.
pub fn string(src: &mut Src, max: usize) -> String {
    let mut s = String::new();
    match src.weighted(&[6, 2, 1]) {
        0 => {
            let n = src.idx(8);
            for _ in 0..n {
                s.push(ch(src));
            }
        }
        1 => s = dict::string(src),
        _ => {
            let n = size(src, max);
            let c = ch(src);
            while s.len() + c.len_utf8() <= n {
                s.push(c);
            }
        }
    }
    while s.len() > max {
        s.pop();
    }
    s
}

/// Short identifiers over a tiny alphabet, so that they often collide.
pub fn ident(src: &mut Src) -> String {
    match src.weighted(&[8, 3, 1]) {
        0 => (*src.pick(&["a", "b", "c", "x", "y", "ab", "id", "name", "A", "aa"])).to_string(),
        1 => {
            let n = src.range(1, 6);
            (0..n).map(|_| (b'a' + src.below(6) as u8) as char).collect()
        }
        _ => {
            let s: String = dict::string(src).chars().filter(|c| c.is_ascii_alphanumeric()).collect();
            if s.is_empty() { "q".into() } else { s }
        }
    }
}

/// Percent-encodes; bytes for which `must` holds are always encoded, bytes
/// for which `may_plain` does not hold are too, the rest sometimes.
pub fn percent_encode<F: Fn(u8) -> bool>(src: &mut Src, data: &[u8], plain: F) -> String {
    let mode = src.below(4);
    let mut out = String::new();
    for &b in data {
        let raw = plain(b) && match mode {
            0 | 1 => true,
            2 => !src.chance(1, 3),
            _ => false,
        };
        if raw {
            out.push(b as char);
        } else if mode % 2 == 0 {
            out.push_str(&format!("%{:02X}", b));
        } else {
            out.push_str(&format!("%{:02x}", b));
        }
    }
    out
}

/// An independent percent-decoder (for oracles).
pub fn percent_decode(data: &[u8]) -> Vec<u8> {
    fn hex(c: u8) -> Option<u8> {
        match c {
            b'0'..=b'9' => Some(c - b'0'),
            b'a'..=b'f' => Some(c - b'a' + 10),
            b'A'..=b'F' => Some(c - b'A' + 10),
            _ => None,
        }
    }
    let mut out = vec![];
    let mut i = 0;
    while i < data.len() {
        if data[i] == b'%' && i + 2 < data.len() {
            if let (Some(h), Some(l)) = (hex(data[i + 1]), hex(data[i + 2])) {
                out.push(h * 16 + l);
                i += 3;
                continue;
            }
        }
        out.push(data[i]);
        i += 1;
    }
    out
}

pub fn unreserved(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'-' || b == b'_' || b == b'.' || b == b'~'
}

pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b.iter().take(400) {
        match c {
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            0x20..=0x7e => s.push(c as char),
            c => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s.push('"');
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
