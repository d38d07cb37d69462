//! URL-encoded forms: an oracle for reading them, and a generator.

use std::collections::BTreeMap;

use crate::gen;
use crate::src::Src;

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;

/// Reads a form the way the URL standard says: empty pieces are skipped, a
/// piece is cut at its first equals sign, and the last occurrence wins.
/// (Further plain equals signs in a piece are not what a serialiser writes;
/// the parser's own tests want them to end the value.)
pub fn read(data: &[u8]) -> Map {
    let mut m = Map::new();
    for piece in data.split(|&c| c == b'&') {
        if piece.is_empty() {
            continue;
        }
        let cut = piece.iter().position(|&c| c == b'=');
        let (k, v) = match cut {
            Some(i) => (&piece[..i], &piece[i + 1..]),
            None => (piece, &piece[..0]),
        };
        m.insert(decode(k), decode(v));
    }
    m
}

pub fn decode(data: &[u8]) -> Vec<u8> {
    let spaced: Vec<u8> = data.iter().map(|&c| if c == b'+' { b' ' } else { c }).collect();
    gen::percent_decode(&spaced)
}

/// What may be written as itself.
pub fn plain(b: u8) -> bool {
    gen::unreserved(b) || b"!$'()*,;:@/?".contains(&b)
}

pub fn text(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 3, 3, 2, 2]) {
        0 => gen::ident(src).into_bytes(),
        1 => gen::bytes(src, 60),
        2 => gen::string(src, 60).into_bytes(),
        3 => vec![],
        _ => {
            let n = src.range(1, 5);
            (0..n).map(|_| *src.pick(b"&=+%#?/ ;a%2\x00\xff\\.")).collect()
        }
    }
}

/// Encodes a name or a value.
pub fn encode(src: &mut Src, data: &[u8]) -> String {
    let mode = src.below(4);
    let mut out = String::new();
    for &b in data {
        if b == b' ' && mode != 3 && src.flip() {
            out.push('+');
        } else if plain(b) && (mode < 2 || (mode == 2 && src.flip())) {
            out.push(b as char);
        } else if src.chance(1, 4) {
            out.push_str(&format!("%{:02x}", b));
        } else {
            out.push_str(&format!("%{:02X}", b));
        }
    }
    out
}

pub struct Form {
    pub text: String,
    pub map: Map,
    /// More than plain names and values.
    pub tricky: bool,
}

/// A map and one of its serialisations.
pub fn form(src: &mut Src, avg: u64, max: usize) -> Form {
    let mut pieces: Vec<String> = vec![];
    let mut map = Map::new();
    let mut names: Vec<Vec<u8>> = vec![];
    let mut n = 0;
    let mut tricky = false;
    while src.more(n, avg, max) {
        let name = if !names.is_empty() && src.chance(1, 4) { src.pick(&names).clone() } else { text(src) };
        let value = if src.chance(1, 6) { vec![] } else { text(src) };
        let key = encode(src, &name);
        let omit = value.is_empty() && !key.is_empty() && src.flip();
        let mut piece = key;
        if !omit {
            piece.push('=');
            piece.push_str(&encode(src, &value));
        }
        tricky |= omit || map.contains_key(&name) || piece.contains('%') || piece.contains('+');
        names.push(name.clone());
        map.insert(name, value);
        pieces.push(piece);
        if src.chance(1, 10) {
            pieces.push(String::new());
            tricky = true;
        }
        n += 1;
    }
    if src.chance(1, 12) {
        pieces.insert(0, String::new());
        tricky = true;
    }
    Form { text: pieces.join("&"), map, tricky }
}
