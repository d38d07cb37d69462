//! P17: possibly-text byte strings behave as their bytes.
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

use pbt::*;
use rustful::context::{MaybeUtf8, MaybeUtf8Owned, MaybeUtf8Slice};

#[derive(Clone, Debug)]
enum Edit {
    Char(char),
    Byte(u8),
    Str(String),
    Bytes(Vec<u8>),
    /// The last part tells if a panic ends it.
    Buffer(Vec<BufOp>, bool),
}

#[derive(Clone, Debug)]
enum BufOp {
    Bytes(Vec<u8>),
    Char(char),
    Truncate(usize),
    Clear,
    Push(u8),
    Insert(usize, u8),
    Remove(usize),
    Set(usize, u8),
    Extend(Vec<u8>),
    Reverse,
}

/// Pieces that make and complete invalid text.
fn piece(src: &mut Src) -> Vec<u8> {
    if src.chance(1, 1000) {
        // Long text, perhaps with something else at the end.
        let n = (1usize << src.range(6, 15)) + src.idx(5) - 2;
        let mut long = (*src.pick(&["x", "\u{e5}", "\u{20ac}"])).repeat(n / 2).into_bytes();
        long.extend(piece(src));
        return long;
    }
    match src.weighted(&[4, 3, 3, 2]) {
        0 => gen::string(src, 12).into_bytes(),
        1 => gen::bytes(src, 8),
        2 => {
            let c = gen::ch(src).to_string().into_bytes();
            let i = src.idx(c.len() + 1);
            if src.flip() { c[..i].to_vec() } else { c[i..].to_vec() }
        }
        _ => src.pick(&[&b"\xc3"[..], b"\xa5", b"\xe2\x88", b"\x9a", b"\xf0\x9f\x92", b"\xa5", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xff", b"\0", b"\xf8", b"\xef\xbb\xbf"]).to_vec(),
    }
}

fn edit(src: &mut Src) -> Edit {
    match src.below(5) {
        0 => Edit::Char(gen::ch(src)),
        1 => Edit::Byte(if src.flip() { gen::byte(src) } else { *src.pick(&[0xc3, 0xa5, 0xe2, 0x88, 0x9a, 0x80, 0xff, b'a']) }),
        2 => Edit::Str(gen::string(src, 12)),
        3 => Edit::Bytes(piece(src)),
        _ => {
            let mut ops = vec![];
            while src.more(ops.len(), 2, 6) {
                ops.push(match src.below(10) {
                    0 => BufOp::Bytes(piece(src)),
                    1 => BufOp::Char(gen::ch(src)),
                    2 => BufOp::Truncate(gen::size(src, 12)),
                    3 => BufOp::Clear,
                    4 => BufOp::Push(gen::byte(src)),
                    5 => BufOp::Insert(src.below(16) as usize, gen::byte(src)),
                    6 => BufOp::Remove(src.below(16) as usize),
                    7 => BufOp::Set(src.below(16) as usize, gen::byte(src)),
                    8 => BufOp::Extend(piece(src)),
                    _ => BufOp::Reverse,
                });
            }
            Edit::Buffer(ops, src.chance(1, 60))
        }
    }
}

fn char_bytes(c: char) -> Vec<u8> {
    let mut b = [0; 4];
    c.encode_utf8(&mut b).as_bytes().to_vec()
}

/// Whether bytes are text, decided without the standard library.
fn is_text(mut b: &[u8]) -> bool {
    fn tail(b: u8) -> bool {
        b & 0xc0 == 0x80
    }
    while let Some(&f) = b.first() {
        let (n, min) = match f {
            0..=0x7f => (1, 0),
            0xc2..=0xdf => (2, 0x80),
            0xe0..=0xef => (3, 0x800),
            0xf0..=0xf4 => (4, 0x10000),
            _ => return false,
        };
        if b.len() < n || !b[1..n].iter().all(|&t| tail(t)) {
            return false;
        }
        if n > 1 {
            let mut v = f as u32 & (0xff >> (n + 1));
            for &t in &b[1..n] {
                v = v << 6 | (t as u32 & 0x3f);
            }
            if v < min || (0xd800..0xe000).contains(&v) || v > 0x10ffff {
                return false;
            }
        }
        b = &b[n..];
    }
    true
}

fn check(v: &MaybeUtf8Owned, bytes: &[u8], sure: bool, at: &str) -> Res {
    ensure!(v.as_bytes() == bytes, "bytes", "{}: the bytes are {}, expected {}", at, gen::show(v.as_bytes()), gen::show(bytes));
    let text = is_text(bytes);
    if sure {
        ensure_eq!(v.is_utf8(), text, "text", "{}: whether {} is text", at, gen::show(bytes));
    }
    if v.is_utf8() {
        ensure!(text, "text", "{}: {} is called text", at, gen::show(bytes));
        ensure_eq!(v.as_utf8().map(|s| s.as_bytes().to_vec()), Some(bytes.to_vec()), "text", "{}: as_utf8", at);
    } else {
        ensure!(v.as_utf8().is_none(), "text", "{}: as_utf8 of something that is not text", at);
    }
    ensure_eq!(v.as_utf8_lossy(), String::from_utf8_lossy(bytes), "lossy", "{}: as_utf8_lossy", at);
    ensure_eq!(v.is_utf8(), matches!(*v, MaybeUtf8::Utf8(_)), "text", "{}: the variant", at);
    let r: &[u8] = v.as_ref();
    ensure!(r == bytes, "bytes", "{}: as_ref", at);
    let b: &[u8] = v.borrow();
    ensure!(b == bytes, "bytes", "{}: borrow", at);
    ensure!(&v[..] == bytes && v.len() == bytes.len(), "bytes", "{}: deref", at);
    let s: MaybeUtf8Slice = v.as_slice();
    ensure!(s.as_bytes() == bytes && s.is_utf8() == v.is_utf8(), "slice", "{}: as_slice", at);
    let back: String = v.clone().into();
    ensure_eq!(back, String::from_utf8_lossy(bytes).into_owned(), "conversion", "{}: into String", at);
    let back: Vec<u8> = v.clone().into();
    ensure!(back == bytes, "conversion", "{}: into Vec", at);
    let back: String = s.clone().into();
    ensure_eq!(back, String::from_utf8_lossy(bytes).into_owned(), "conversion", "{}: a slice into String", at);
    let back: Vec<u8> = s.into();
    ensure!(back == bytes, "conversion", "{}: a slice into Vec", at);
    Ok(())
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Some value with the bytes, made in some way. `false` if it may be called
/// not text although it is.
fn make(src: &mut Src, bytes: &[u8]) -> (MaybeUtf8Owned, bool) {
    let text = std::str::from_utf8(bytes).ok().map(|s| s.to_string());
    match (src.below(5), text) {
        (0, Some(s)) => (s.into(), true),
        (1, Some(s)) => ((&*s).into(), true),
        (2, Some(s)) => (MaybeUtf8::Utf8(s), true),
        (3, _) => (MaybeUtf8::NotUtf8(bytes.to_vec()), false),
        _ => (bytes.to_vec().into(), true),
    }
}

fn history(src: &mut Src, case: &mut Case) -> Res {
    let start = if src.chance(1, 4) { vec![] } else { piece(src) };
    let (mut v, mut sure) = if start.is_empty() && src.flip() { (MaybeUtf8Owned::new(), true) } else { make(src, &start) };
    let mut model = start.clone();
    case.note(|| format!("start {:?}", v));
    check(&v, &model, sure, "at the start")?;
    case.label_if(start.len() > 4096, "long");
    let mut n = 0;
    let mut was = v.is_utf8();
    let mut changes = 0;
    while src.more(n, 5, 20) {
        n += 1;
        let e = edit(src);
        case.note(|| format!("{:?}", e));
        match e {
            Edit::Char(c) => {
                v.push_char(c);
                model.extend(char_bytes(c));
            }
            Edit::Byte(b) => {
                v.push_byte(b);
                model.push(b);
            }
            Edit::Str(ref s) => {
                v.push_str(s);
                model.extend(s.as_bytes());
            }
            Edit::Bytes(ref b) => {
                v.push_bytes(b);
                model.extend(b);
            }
            Edit::Buffer(ref ops, panics) => {
                case.label_if(panics, "panic while there is a buffer");
                let mut change = || -> Res {
                    let mut buf = v.as_buffer();
                    for op in ops {
                        match *op {
                            BufOp::Bytes(ref b) => {
                                buf.push_bytes(b);
                                model.extend(b);
                            }
                            BufOp::Char(c) => {
                                buf.push_char(c);
                                model.extend(char_bytes(c));
                            }
                            BufOp::Truncate(n) => {
                                buf.truncate(n);
                                model.truncate(n);
                            }
                            BufOp::Clear => {
                                buf.clear();
                                model.clear();
                            }
                            BufOp::Push(b) => {
                                buf.push(b);
                                model.push(b);
                            }
                            BufOp::Insert(i, b) => {
                                let i = i.min(model.len());
                                buf.insert(i, b);
                                model.insert(i, b);
                            }
                            BufOp::Remove(i) => if i < model.len() {
                                buf.remove(i);
                                model.remove(i);
                            },
                            BufOp::Set(i, b) => if i < model.len() {
                                buf[i] = b;
                                model[i] = b;
                            },
                            BufOp::Extend(ref b) => {
                                buf.extend(b);
                                model.extend(b);
                            }
                            BufOp::Reverse => {
                                buf.reverse();
                                model.reverse();
                            }
                        }
                        ensure!(**buf == model, "buffer", "the buffer holds {}, expected {}", gen::show(&buf), gen::show(&model));
                    }
                    if panics {
                        panic!("injected panic");
                    }
                    Ok(())
                };
                if panics {
                    let r = catch_unwind(AssertUnwindSafe(&mut change));
                    if let Ok(r) = r {
                        r?;
                    }
                } else {
                    change()?;
                }
                sure = true;
            }
        }
        check(&v, &model, sure, &format!("after edit {}", n))?;
        if v.is_utf8() != was {
            was = !was;
            changes += 1;
        }
    }
    case.label_if(changes > 0, "became or stopped being text");
    case.nontrivial_if(changes > 0);
    Ok(())
}

fn related(src: &mut Src, a: &[u8]) -> Vec<u8> {
    let mut b = a.to_vec();
    match src.below(6) {
        0 => {}
        1 => b.extend(piece(src)),
        2 => {
            let n = src.idx(b.len() + 1);
            b.truncate(n);
        }
        3 => if !b.is_empty() {
            let i = src.idx(b.len());
            b[i] = gen::byte(src);
        },
        4 => if !b.is_empty() {
            let i = src.idx(b.len());
            b[i] ^= 1 << src.below(8);
        },
        _ => b = piece(src),
    }
    b
}

fn relations(src: &mut Src, case: &mut Case) -> Res {
    let x = [piece(src), piece(src)].concat();
    let y = related(src, &x);
    let (a, _) = make(src, &x);
    let (b, _) = make(src, &y);
    case.note(|| format!("{:?} and {:?}", a, b));
    case.nontrivial_if(x != y && (a.is_utf8() != b.is_utf8() || x.starts_with(&y) || y.starts_with(&x)));
    case.label_if(x == y && a.is_utf8() != b.is_utf8(), "equal, but only one is text");
    let (eq, ord) = (x == y, x.cmp(&y));
    ensure_eq!(a == b, eq, "equality", "equality of two values");
    ensure_eq!(a != b, !eq, "equality", "inequality of two values");
    ensure_eq!(a.cmp(&b), ord, "order", "order of two values");
    ensure_eq!(a.partial_cmp(&b), Some(ord), "order", "partial order of two values");
    ensure_eq!(a < b, ord == Ordering::Less, "order", "less than, for two values");
    ensure_eq!(a.as_slice::<str, [u8]>().as_bytes() == b.as_slice::<str, [u8]>().as_bytes(), eq, "equality", "equality of slices");
    let (sa, sb): (MaybeUtf8Slice, MaybeUtf8Slice) = (a.as_slice(), b.as_slice());
    ensure_eq!(sa == sb, eq, "equality", "equality of slices");
    ensure_eq!(sa.cmp(&sb), ord, "order", "order of slices");
    ensure_eq!(a == sb, eq, "equality", "equality of a value and a slice");
    ensure_eq!(hash(&a), hash(&x[..]), "hash", "hash of a value");
    ensure_eq!(hash(&sa), hash(&x[..]), "hash", "hash of a slice");
    // Plain bytes on either side.
    ensure_eq!(a == y, eq, "equality", "equality with a Vec");
    ensure_eq!(a == y[..], eq, "equality", "equality with bytes");
    ensure_eq!(a == &y[..], eq, "equality", "equality with a byte slice");
    ensure_eq!(y == a, eq, "equality", "equality of a Vec");
    ensure_eq!(y[..] == a, eq, "equality", "equality of bytes");
    ensure_eq!(&y[..] == a, eq, "equality", "equality of a byte slice");
    ensure_eq!(a.partial_cmp(&y), Some(ord), "order", "order with a Vec");
    ensure_eq!(a.partial_cmp(&y[..]), Some(ord), "order", "order with bytes");
    ensure_eq!(a.partial_cmp(&&y[..]), Some(ord), "order", "order with a byte slice");
    let rev = ord.reverse();
    ensure_eq!(y.partial_cmp(&a), Some(rev), "order from the other side", "order of a Vec and a value");
    ensure_eq!(y[..].partial_cmp(&a), Some(rev), "order from the other side", "order of bytes and a value");
    ensure_eq!((&y[..]).partial_cmp(&a), Some(rev), "order from the other side", "order of a byte slice and a value");
    if let Ok(t) = std::str::from_utf8(&y) {
        let s = t.to_string();
        let c: Cow<str> = t.into();
        ensure_eq!(a == *t, eq, "equality", "equality with text");
        ensure_eq!(a == t, eq, "equality", "equality with a text slice");
        ensure_eq!(a == s, eq, "equality", "equality with a String");
        ensure_eq!(*t == a, eq, "equality", "equality of text");
        ensure_eq!(t == a, eq, "equality", "equality of a text slice");
        ensure_eq!(s == a, eq, "equality", "equality of a String");
        ensure_eq!(c == a, eq, "equality", "equality of a Cow");
        ensure_eq!(a.partial_cmp(t), Some(ord), "order", "order with text");
        ensure_eq!(a.partial_cmp(&t), Some(ord), "order", "order with a text slice");
        ensure_eq!(a.partial_cmp(&s), Some(ord), "order", "order with a String");
        ensure_eq!((*t).partial_cmp(&a), Some(rev), "order from the other side", "order of text and a value");
        ensure_eq!(t.partial_cmp(&a), Some(rev), "order from the other side", "order of a text slice and a value");
        ensure_eq!(s.partial_cmp(&a), Some(rev), "order from the other side", "order of a String and a value");
        ensure_eq!(c.partial_cmp(&a), Some(rev), "order from the other side", "order of a Cow and a value");
        ensure_eq!(hash(&b), hash(t.as_bytes()), "hash", "hash of text");
    }
    // As keys.
    let mut m = HashMap::new();
    m.insert(a.clone(), 1);
    m.insert(b.clone(), 2);
    ensure_eq!(m.get(&x[..]).cloned(), Some(if eq { 2 } else { 1 }), "key", "lookup by bytes in a HashMap");
    ensure_eq!(m.get(&b).cloned(), Some(2), "key", "lookup in a HashMap");
    let mut m = BTreeMap::new();
    m.insert(a.clone(), 1);
    m.insert(b.clone(), 2);
    ensure_eq!(m.get(&x[..]).cloned(), Some(if eq { 2 } else { 1 }), "key", "lookup by bytes in a BTreeMap");
    ensure_eq!(m.len(), if eq { 1 } else { 2 }, "key", "number of keys");
    Ok(())
}

fn main() {
    runner::main("P17", "an edit history on the way of which a value became or stopped being text, or the comparison of different values of which one is text or a prefix", &[
        Prop { name: "history", quick: 6_000_000, thorough: 45_000_000, run: history },
        Prop { name: "relations", quick: 15_000_000, thorough: 112_500_000, run: relations },
    ]);
}
