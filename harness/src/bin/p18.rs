//! P18: parameter maps behave as maps from byte strings to byte strings.
use std::collections::hash_map::Entry;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

use pbt::*;
use rustful::context::{MaybeUtf8Owned, Parameters};

type Model = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug)]
enum Op {
    Insert(Vec<u8>, Vec<u8>, u64),
    Remove(Vec<u8>, u64),
    Edit(Vec<u8>, Vec<u8>),
    EntryOr(Vec<u8>, Vec<u8>),
    EntryEdit(Vec<u8>, Vec<u8>),
    EntryRemove(Vec<u8>),
    Extend(Vec<(Vec<u8>, Vec<u8>)>, u64),
    Clear,
    Retain(u8),
    EditAll(u8),
    ThroughMap,
    Rebuild,
    Clone,
    DerefInsert(Vec<u8>, Vec<u8>),
}

fn name(src: &mut Src, used: &[Vec<u8>]) -> Vec<u8> {
    if !used.is_empty() && src.chance(3, 5) {
        return src.pick(used).clone();
    }
    match src.weighted(&[5, 2, 2, 1]) {
        0 => gen::ident(src).into_bytes(),
        1 => gen::string(src, 10).into_bytes(),
        2 => gen::bytes(src, 6),
        _ => vec![],
    }
}

fn value(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[3, 4, 2, 2]) {
        0 => gen::string(src, 10).into_bytes(),
        1 => number(src).into_bytes(),
        2 => gen::bytes(src, 8),
        _ => [number(src).into_bytes(), gen::bytes(src, 3)].concat(),
    }
}

fn number(src: &mut Src) -> String {
    match src.below(10) {
        0 => "".into(),
        1 => (src.u64() as i64).to_string(),
        2 => (*src.pick(&["0", "-0", "+1", "255", "256", "-1", "-128", "-129", "007", " 1", "1 ", "1.5", "1e3", "NaN", "inf", "true", "false", "True", "0x10", "9223372036854775808", "٣"])).into(),
        3 => gen::ch(src).to_string(),
        _ => (src.below(300) as i64 - 20).to_string(),
    }
}

fn op(src: &mut Src, used: &[Vec<u8>]) -> Op {
    match src.weighted(&[8, 4, 3, 3, 2, 1, 3, 1, 1, 1, 1, 1, 1, 1]) {
        0 => Op::Insert(name(src, used), value(src), src.below(5)),
        1 => Op::Remove(name(src, used), src.below(6)),
        2 => Op::Edit(name(src, used), value(src)),
        3 => Op::EntryOr(name(src, used), value(src)),
        4 => Op::EntryEdit(name(src, used), value(src)),
        5 => Op::EntryRemove(name(src, used)),
        6 => {
            let mut v = vec![];
            while src.more(v.len(), 3, 8) {
                v.push((name(src, used), value(src)));
            }
            Op::Extend(v, src.below(2))
        }
        7 => Op::Clear,
        8 => Op::Retain(gen::byte(src)),
        9 => Op::EditAll(gen::byte(src)),
        10 => Op::ThroughMap,
        11 => Op::Rebuild,
        12 => Op::Clone,
        _ => Op::DerefInsert(name(src, used), value(src)),
    }
}

fn raw(v: Option<MaybeUtf8Owned>) -> Option<Vec<u8>> {
    v.map(|v| v.into())
}

fn parse_as<T: FromStr + PartialEq + std::fmt::Debug + Clone>(p: &Parameters, key: &[u8], want: Option<&Vec<u8>>, other: T, ty: &str) -> Res
where
    T::Err: PartialEq + std::fmt::Debug,
{
    let expected: Result<T, Option<T::Err>> = match want {
        None => Err(None),
        Some(v) => String::from_utf8_lossy(v).parse().map_err(Some),
    };
    let at = || format!("{} as {} (stored: {:?})", gen::show(key), ty, want.map(|w| gen::show(w)));
    let same = |a: &Result<T, Option<T::Err>>, b: &Result<T, Option<T::Err>>| format!("{:?}", a) == format!("{:?}", b);
    let got: Result<T, Option<T::Err>> = p.parse(key);
    ensure!(same(&got, &expected), "parse", "parsing {} gave {:?}, expected {:?}", at(), got, expected);
    let got = p.parse_or(key, other.clone());
    let or = expected.as_ref().ok().cloned().unwrap_or_else(|| other.clone());
    ensure!(format!("{:?}", got) == format!("{:?}", or), "parse_or", "parsing {} or {:?} gave {:?}, expected {:?}", at(), other, got, or);
    let mut asked = vec![];
    let got = p.parse_or_else(key, |e: Option<T::Err>| {
        asked.push(e);
        other.clone()
    });
    ensure!(format!("{:?}", got) == format!("{:?}", or), "parse_or_else", "parsing {} or else {:?} gave {:?}, expected {:?}", at(), other, got, or);
    match expected {
        Ok(_) => ensure!(asked.is_empty(), "parse_or_else", "parsing {} asked for a fallback", at()),
        Err(e) => ensure!(asked.len() == 1 && format!("{:?}", asked[0]) == format!("{:?}", e), "parse_or_else", "parsing {} gave the error {:?}, expected {:?}", at(), asked, e),
    }
    Ok(())
}

fn check(p: &Parameters, m: &Model, probe: &[Vec<u8>], pick: u64) -> Res {
    let all: Model = p.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
    ensure!(all == *m, "content", "the map is {:?}, expected {:?}", all, m);
    ensure_eq!(p.into_iter().count(), m.len(), "content", "number of parameters in the iteration");
    ensure_eq!((p.len(), p.is_empty()), (m.len(), m.is_empty()), "content", "length");
    for (k, v) in p {
        ensure_eq!(k.is_utf8(), std::str::from_utf8(k.as_bytes()).is_ok(), "content", "whether a name is text");
        ensure!(p.get_raw(k).map_or(false, |r| std::ptr::eq(r, v)), "lookup", "the name {} from the iteration is not found", gen::show(k.as_bytes()));
    }
    for k in probe {
        let want = m.get(k);
        let at = gen::show(k);
        ensure_eq!(p.get_raw(&k[..]).map(|v| v.as_bytes().to_vec()), want.cloned(), "lookup", "get_raw of {}", at);
        ensure_eq!(p.get_raw(k).map(|v| v.as_bytes().to_vec()), want.cloned(), "lookup", "get_raw of the Vec {}", at);
        ensure_eq!(p.contains_key(&k[..]), want.is_some(), "lookup", "contains_key of {}", at);
        let lossy = want.map(|v| String::from_utf8_lossy(v).into_owned());
        ensure_eq!(p.get(&k[..]).map(|v| v.into_owned()), lossy, "lookup", "get of {}", at);
        if let Ok(s) = std::str::from_utf8(k) {
            ensure_eq!(p.get(s).map(|v| v.into_owned()), lossy, "lookup", "get of the text {}", at);
            ensure_eq!(p.get(&s.to_string()).map(|v| v.into_owned()), lossy, "lookup", "get of the String {}", at);
            ensure_eq!(p.get_raw(s).map(|v| v.as_bytes().to_vec()), want.cloned(), "lookup", "get_raw of the text {}", at);
            ensure_eq!(p.contains_key(s), want.is_some(), "lookup", "contains_key of the text {}", at);
        }
        if let Some(v) = p.get_raw(&k[..]) {
            ensure_eq!(v.is_utf8(), std::str::from_utf8(v.as_bytes()).is_ok(), "content", "whether the value of {} is text", at);
        }
    }
    if !probe.is_empty() {
        let k = &probe[pick as usize % probe.len()];
        let want = m.get(k);
        match pick / 7 % 8 {
            0 => parse_as::<u8>(p, k, want, 77, "u8")?,
            1 => parse_as::<i64>(p, k, want, -77, "i64")?,
            2 => parse_as::<i8>(p, k, want, 7, "i8")?,
            3 => parse_as::<f64>(p, k, want, 7.5, "f64")?,
            4 => parse_as::<bool>(p, k, want, true, "bool")?,
            5 => parse_as::<char>(p, k, want, 'x', "char")?,
            6 => parse_as::<String>(p, k, want, "other".into(), "String")?,
            _ => parse_as::<u64>(p, k, want, 7, "u64")?,
        }
    }
    Ok(())
}

fn history(src: &mut Src, case: &mut Case) -> Res {
    let mut used: Vec<Vec<u8>> = vec![];
    let mut p = if src.flip() { Parameters::new() } else { Parameters::default() };
    let mut m = Model::new();
    let mut hit = 0;
    let mut n = 0;
    let most = if src.chance(1, 200) { (200, 600) } else { (8, 40) };
    loop {
        let op = op(src, &used);
        case.note(|| format!("{:?}", op));
        let mut old: Option<(Option<Vec<u8>>, Option<Vec<u8>>)> = None;
        match op {
            Op::Insert(ref k, ref v, how) => {
                used.push(k.clone());
                let was = m.insert(k.clone(), v.clone());
                hit += was.is_some() as usize;
                let got = match (how, std::str::from_utf8(k), std::str::from_utf8(v)) {
                    (1, Ok(k), Ok(v)) => p.insert(k, v),
                    (2, Ok(k), _) => p.insert(k.to_string(), v.clone()),
                    (3, _, Ok(v)) => p.insert(k.clone(), v),
                    (4, _, _) => p.insert(MaybeUtf8Owned::from(k.clone()), MaybeUtf8Owned::from(v.clone())),
                    _ => p.insert(k.clone(), v.clone()),
                };
                old = Some((raw(got), was));
            }
            Op::Remove(ref k, how) => {
                let was = m.remove(k);
                hit += was.is_some() as usize;
                let got = match (how, std::str::from_utf8(k)) {
                    (1, Ok(k)) => p.remove(k),
                    (2, Ok(k)) => p.remove(&k.to_string()),
                    (3, _) => p.remove(k),
                    (4, _) => p.remove(&MaybeUtf8Owned::from(k.clone())),
                    _ => p.remove(&k[..]),
                };
                old = Some((raw(got), was));
            }
            Op::Edit(ref k, ref v) => {
                let got = p.get_mut(&k[..]);
                ensure_eq!(got.is_some(), m.contains_key(k), "lookup", "get_mut of {}", gen::show(k));
                if let Some(x) = got {
                    x.push_bytes(v);
                    m.get_mut(k).unwrap().extend(v);
                    hit += 1;
                }
            }
            Op::EntryOr(ref k, ref v) => {
                used.push(k.clone());
                let got = p.entry(k.clone()).or_insert_with(|| v.clone().into()).as_bytes().to_vec();
                let want = m.entry(k.clone()).or_insert_with(|| v.clone()).clone();
                ensure!(got == want, "entry", "the entry of {} is {}, expected {}", gen::show(k), gen::show(&got), gen::show(&want));
            }
            Op::EntryEdit(ref k, ref v) => {
                used.push(k.clone());
                p.entry(k.clone()).or_insert_with(MaybeUtf8Owned::new).push_bytes(v);
                m.entry(k.clone()).or_default().extend(v);
            }
            Op::EntryRemove(ref k) => {
                let was = m.remove(k);
                let got = match p.entry(k.clone()) {
                    Entry::Occupied(e) => Some(e.remove()),
                    Entry::Vacant(_) => None,
                };
                old = Some((raw(got), was));
            }
            Op::Extend(ref list, how) => {
                used.extend(list.iter().map(|e| e.0.clone()));
                m.extend(list.iter().cloned());
                if how == 0 {
                    p.extend(list.iter().cloned());
                } else {
                    let other: Parameters = list.iter().cloned().collect();
                    p.extend(other);
                }
            }
            Op::Clear => {
                p.clear();
                m.clear();
            }
            Op::Retain(b) => {
                p.retain(|k, v| k.as_bytes().first() != Some(&b) && v.as_bytes().len() % 3 != (b % 4) as usize);
                m = m.into_iter().filter(|e| e.0.first() != Some(&b) && e.1.len() % 3 != (b % 4) as usize).collect();
            }
            Op::EditAll(b) => {
                if b % 2 == 0 {
                    for (_, v) in &mut p {
                        v.push_byte(b);
                    }
                } else {
                    for v in p.as_mut().values_mut() {
                        v.push_byte(b);
                    }
                }
                for v in m.values_mut() {
                    v.push(b);
                }
            }
            Op::ThroughMap => {
                let map: HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = p.into();
                ensure_eq!(map.len(), m.len(), "conversion", "length of the HashMap");
                p = map.into();
            }
            Op::Rebuild => {
                let list: Vec<(MaybeUtf8Owned, MaybeUtf8Owned)> = p.into_iter().collect();
                p = list.into_iter().collect();
            }
            Op::Clone => {
                let mut q = p.clone();
                ensure!(q == p, "equality", "a clone is not equal");
                // A change of the clone is a change of only the clone.
                if let Some(k) = m.keys().next() {
                    q.get_mut(&k[..]).unwrap().push_byte(b'x');
                    ensure!(q != p && p != q, "equality", "different maps are equal");
                    q.remove(&k[..]);
                    ensure!(q != p && p != q, "equality", "different maps are equal");
                } else {
                    q.insert("x", "");
                    ensure!(q != p && p != q, "equality", "different maps are equal");
                }
            }
            Op::DerefInsert(ref k, ref v) => {
                used.push(k.clone());
                let map: &mut HashMap<MaybeUtf8Owned, MaybeUtf8Owned> = &mut p;
                map.insert(k.clone().into(), v.clone().into());
                m.insert(k.clone(), v.clone());
            }
        }
        if let Some((got, want)) = old {
            ensure_eq!(got.map(|v| gen::show(&v)), want.map(|v| gen::show(&v)), "previous value", "the value that was returned");
        }
        // Some of the names that were used, and one that probably wasn't.
        let mut probe = vec![name(src, &[])];
        for _ in 0..3 {
            if !used.is_empty() {
                probe.push(src.pick(&used).clone());
            }
        }
        check(&p, &m, &probe, src.u64())?;
        let again: Parameters = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(again == p, "equality", "two maps with the same parameters are not equal");
        n += 1;
        if !src.more(n, most.0, most.1) {
            break;
        }
    }
    case.nontrivial_if(hit > 1 && m.len() > 1);
    Ok(())
}

fn main() {
    runner::main("P18", "a history in which stored parameters were replaced, removed or edited at least twice", &[
        Prop { name: "history", quick: 2_000_000, thorough: 15_000_000, run: history },
    ]);
}
