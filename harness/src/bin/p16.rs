//! P16: file extensions map to media types exactly as the bundled table says.
use std::collections::BTreeMap;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use pbt::*;
use rustful::file::ext_to_mime;
use rustful::mime::Mime;

thread_local! {
    static TABLE: BTreeMap<String, String> = mimes::table();
    static KEYS: Vec<String> = mimes::table().keys().cloned().collect();
}

fn want(ext: &str) -> Option<String> {
    TABLE.with(|t| t.get(ext).cloned())
}

fn look(ext: &str) -> Res {
    let got = ext_to_mime(ext);
    let want = want(ext);
    let text = got.as_ref().map(|m| m.to_string());
    ensure_eq!(text, want, "type", "the media type of {:?}", ext);
    if let (Some(m), Some(w)) = (got, want) {
        ensure!(m.2.is_empty(), "parameters", "the media type of {:?} has parameters: {:?}", ext, m);
        let parsed: Mime = match w.parse() {
            Ok(p) => p,
            Err(_) => return fail("table", format!("the table has {:?}", w)),
        };
        ensure!(m == parsed, "type", "the media type of {:?} is {:?}, not {:?}", ext, m, parsed);
        let mut parts = w.splitn(2, '/');
        ensure_eq!(Some(m.0.as_str()), parts.next(), "type", "the top level type of {:?}", ext);
        ensure_eq!(Some(m.1.as_str()), parts.next(), "type", "the subtype of {:?}", ext);
    }
    Ok(())
}

/// All of the table, in an order that depends on the seed.
fn listed(src: &mut Src, case: &mut Case) -> Res {
    let n = KEYS.with(|k| k.len());
    let salt = src.u64();
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| {
        let mut h = DefaultHasher::new();
        (salt, i).hash(&mut h);
        h.finish()
    });
    case.note(|| format!("all of the {} listed extensions, in order {}", n, salt));
    case.nontrivial();
    ensure!(n > 900, "table", "only {} extensions in the table", n);
    for i in order {
        let k = KEYS.with(|k| k[i].clone());
        look(&k)?;
    }
    Ok(())
}

fn mutate(src: &mut Src, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match src.below(10) {
        0 => return s.to_uppercase(),
        1 => {
            let i = src.idx(v.len());
            v[i] = v[i].to_ascii_uppercase();
        }
        2 => v.insert(0, *src.pick(&['.', ' ', '\t', '*', '\0'])),
        3 => v.push(*src.pick(&['.', ' ', '\t', '\n', ';', '\0', 's', 'x'])),
        4 => {
            let i = src.idx(v.len());
            v.remove(i);
        }
        5 => {
            let i = src.idx(v.len());
            v[i] = gen::ch(src);
        }
        6 => {
            let i = src.idx(v.len() + 1);
            let c = gen::ch(src);
            v.insert(i, c);
        }
        7 if v.len() > 1 => {
            let i = src.idx(v.len() - 1);
            v.swap(i, i + 1);
        }
        8 => {
            let k = KEYS.with(|k| src.pick(k).clone());
            v.extend(k.chars());
        }
        _ => {
            let c = v.clone();
            v.extend(c);
        }
    }
    v.into_iter().collect()
}

fn lookups(src: &mut Src, case: &mut Case) -> Res {
    let mut list = vec![];
    loop {
        let ext = match src.weighted(&[3, 6, 2, 1]) {
            0 => KEYS.with(|k| src.pick(k).clone()),
            1 => {
                let k = KEYS.with(|k| src.pick(k).clone());
                mutate(src, &k)
            }
            2 => gen::string(src, 12),
            // The types themselves are no extensions.
            _ => {
                let k = KEYS.with(|k| src.pick(k).clone());
                let t = want(&k).unwrap();
                let part = src.below(3);
                match part {
                    0 => t,
                    1 => t.split('/').next().unwrap().into(),
                    _ => t.split('/').nth(1).unwrap().into(),
                }
            }
        };
        list.push(ext);
        if !src.more(list.len(), 6, 20) {
            break;
        }
    }
    case.note(|| format!("{:?}", list));
    for e in &list {
        look(e)?;
        case.label_if(want(e).is_none(), "not listed");
        case.nontrivial_if(want(e).is_none() && e.len() > 1);
    }
    Ok(())
}

/// Every string over the characters of the table up to three characters.
fn short(src: &mut Src, case: &mut Case) -> Res {
    let letters: Vec<char> = "abcdefghijklmnopqrstuvwxyz0123456789-_.".chars().collect();
    let a = *src.pick(&letters);
    let b = *src.pick(&letters);
    case.note(|| format!("every extension of up to three characters that starts with {}{}", a, b));
    case.nontrivial();
    look("")?;
    look(&a.to_string())?;
    look(&format!("{}{}", a, b))?;
    for c in &letters {
        look(&format!("{}{}{}", a, b, c))?;
    }
    Ok(())
}

fn main() {
    runner::main("P16", "lookups of the whole table, of strings close to an extension that are not in it, or of every short string with a prefix", &[
        Prop { name: "listed", quick: 24_000, thorough: 180_000, run: listed },
        Prop { name: "lookups", quick: 7_200_000, thorough: 54_000_000, run: lookups },
        Prop { name: "short", quick: 720_000, thorough: 5_400_000, run: short },
    ]);
}
