//! P25: route cursors and segment iteration follow their model.
use std::collections::BTreeMap;

use pbt::*;
use rustful::context::MaybeUtf8Owned;
use rustful::handler::routing::{Route, RouteState};

/// The parts of one piece of a path: what is between the slashes, without one
/// slash at each end.
fn parts(piece: &[u8]) -> Vec<Vec<u8>> {
    let mut p = piece;
    if let Some((b'/', rest)) = p.split_first() {
        p = rest;
    }
    if let Some((b'/', rest)) = p.split_last() {
        p = rest;
    }
    if p.is_empty() {
        return vec![];
    }
    let mut out = vec![vec![]];
    for &b in p {
        if b == b'/' {
            out.push(vec![]);
        } else {
            out.last_mut().unwrap().push(b);
        }
    }
    out
}

fn piece(src: &mut Src, text: bool) -> Vec<u8> {
    let mut v = vec![];
    let most = if src.chance(1, 400) { (300, 2000) } else { (5, 40) };
    let mut n = 0;
    loop {
        if src.chance(2, 5) {
            v.push(b'/');
        } else if src.chance(1, 3) {
            let s = if text { gen::string(src, 4).into_bytes() } else { gen::bytes(src, 4) };
            v.extend(s);
        } else {
            v.extend_from_slice(*src.pick(&[&b"a"[..], b"bc", b"", b"*", b":x", b"%2f", b".."]));
        }
        n += 1;
        if !src.more(n, most.0, most.1) {
            return v;
        }
    }
}

fn own<'a, I: Iterator<Item = &'a [u8]>>(i: I) -> Vec<Vec<u8>> {
    i.map(|s| s.to_vec()).collect()
}

/// The segments, and all the ways to look at what is left of them.
fn iterate<'a, I: Iterator<Item = &'a [u8]> + Clone>(mut i: I, want: &[Vec<u8>], form: &str) -> Res {
    ensure_eq!(own(i.clone()), want.to_vec(), "segments", "the segments of {}", form);
    ensure_eq!(i.clone().count(), want.len(), "segments", "the number of segments of {}", form);
    for n in 0..want.len() + 2 {
        let (lo, hi) = i.size_hint();
        let left = want.len().saturating_sub(n);
        ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size hint", "{}: the size hint is {:?} with {} segments left", form, (lo, hi), left);
        let got = i.next().map(|s| s.to_vec());
        ensure_eq!(got, want.get(n).cloned(), "segments", "segment {} of {}", n, form);
    }
    Ok(())
}

fn segments(src: &mut Src, case: &mut Case) -> Res {
    let text = src.flip();
    let mut pieces = vec![piece(src, text)];
    while src.more(pieces.len(), 2, 8) {
        pieces.push(piece(src, text));
    }
    case.note(|| format!("pieces {:?}", pieces.iter().map(|p| gen::show(p)).collect::<Vec<_>>()));
    let all: Vec<Vec<u8>> = pieces.iter().flat_map(|p| parts(p)).collect();
    case.nontrivial_if(all.len() > 1);
    case.label_if(all.is_empty(), "root");
    case.label_if(all.iter().any(|p| p.is_empty()), "empty segments");
    let one = parts(&pieces[0]);
    iterate(pieces[0].segments(), &one, "bytes")?;
    if text {
        let texts: Vec<String> = pieces.iter().map(|p| String::from_utf8(p.clone()).unwrap()).collect();
        iterate(texts[0].segments(), &one, "text")?;
        let strs: Vec<&str> = texts.iter().map(|t| &t[..]).collect();
        ensure_eq!(own(texts.segments()), all, "segments", "the segments of a list of strings");
        ensure_eq!(own(strs.segments()), all, "segments", "the segments of a list of borrowed strings");
        if strs.len() == 2 {
            ensure_eq!(own([strs[0], strs[1]].segments()), all, "segments", "the segments of an array");
        }
        let nested = vec![Box::new(texts.clone()), Box::new(texts.clone())];
        let twice: Vec<_> = all.iter().chain(&all).cloned().collect();
        ensure_eq!(own(nested.segments()), twice, "segments", "the segments of lists in a list");
        let state: RouteState = (&strs).into();
        check_all(state, &all)?;
        let state: RouteState = (&texts[0][..]).into();
        check_all(state, &one)?;
    }
    ensure_eq!(own(pieces.segments()), all, "segments", "the segments of a list of byte strings");
    let maybe: Vec<MaybeUtf8Owned> = pieces.iter().map(|p| p.clone().into()).collect();
    ensure_eq!(own(maybe.segments()), all, "segments", "the segments of a list of possibly-text strings");
    let slices: Vec<&[u8]> = pieces.iter().map(|p| &p[..]).collect();
    ensure_eq!(own(slices.segments()), all, "segments", "the segments of a list of byte slices");
    check_all((&pieces).into(), &all)?;
    check_all((&pieces[0][..]).into(), &one)
}

fn check_all(mut state: RouteState, want: &[Vec<u8>]) -> Res {
    for w in want {
        ensure_eq!(state.get().map(|s| s.to_vec()), Some(w.clone()), "cursor", "the current segment");
        ensure!(!state.is_empty(), "cursor", "the cursor is empty at {}", gen::show(w));
        state.skip();
    }
    ensure!(state.is_empty() && state.get().is_none(), "cursor", "the cursor is not empty at the end");
    ensure!(state.variables(&[]).is_empty(), "variables", "variables that were not kept");
    Ok(())
}

/// One position of the course: nothing, or the number of a variable.
#[derive(Clone, Debug)]
struct Model {
    course: Vec<Option<usize>>,
    var: usize,
    /// Positions of the course that can be gone back to.
    marks: Vec<((usize, usize), usize, usize)>,
}

fn expected(path: &[Vec<u8>], m: &Model, names: &[MaybeUtf8Owned]) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut values: BTreeMap<usize, Vec<Vec<u8>>> = BTreeMap::new();
    for (p, v) in path.iter().zip(&m.course) {
        if let Some(v) = *v {
            values.entry(v).or_default().push(p.clone());
        }
    }
    let mut out = BTreeMap::new();
    for (v, parts) in values {
        if !names[v].is_empty() {
            out.insert(names[v].as_bytes().to_vec(), parts.join(&b'/'));
        }
    }
    out
}

fn cursor(src: &mut Src, case: &mut Case) -> Res {
    let big = src.chance(1, 400);
    let n = if big { src.range(50, 700) } else { gen::size(src, 20).max(1) };
    let path: Vec<Vec<u8>> = (0..n).map(|_| match src.weighted(&[4, 1, 1]) {
        0 => src.pick(&[&b"a"[..], b"b", b"c", b"dd"]).to_vec(),
        1 => vec![],
        _ => gen::bytes(src, 5).into_iter().filter(|&b| b != b'/').collect(),
    }).collect();
    // (A path starts and ends with a slash here, so that empty segments at its
    // ends count.)
    let text = [&b"/"[..], &path.join(&b'/'), b"/"].concat();
    let path = parts(&text);
    let names: Vec<MaybeUtf8Owned> = (0..path.len() + 1).map(|i| match src.weighted(&[4, 1, 1]) {
        0 => format!("v{}", i).into(),
        1 => "".into(),
        _ => (*src.pick(&["same", "v0", "x"])).into(),
    }).collect();
    case.note(|| format!("path {}, names {:?}", gen::show(&text), names.iter().map(|n| n.as_utf8_lossy().into_owned()).collect::<Vec<_>>()));
    let mut state: RouteState = (&text[..]).into();
    let mut m = Model { course: vec![], var: 0, marks: vec![] };
    let mut others: Vec<(RouteState, Model)> = vec![];
    let (mut steps, mut backs) = (0, 0);
    loop {
        ensure_eq!(state.get().map(|s| s.to_vec()), path.get(m.course.len()).cloned(), "cursor", "the current segment after {:?}", m.course);
        let end = m.course.len() == path.len();
        ensure_eq!(state.is_empty(), end, "cursor", "whether the cursor is at the end after {:?}", m.course);
        if end {
            let got: BTreeMap<Vec<u8>, Vec<u8>> = state.variables(&names).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
            ensure_eq!(got, expected(&path, &m, &names), "variables", "the variables of the course {:?}", m.course);
        }
        let go = if big { src.more(steps, 1200, 3000) } else { src.more(steps, 20, 80) };
        if !go && end {
            break;
        }
        steps += 1;
        match src.weighted(if !go { &[1, 1, 1] } else if end { &[0, 0, 0, 1, 4, 1] } else { &[4, 4, 4, 3, 2, 1] }) {
            0 => {
                state.skip();
                m.course.push(None);
                case.note(|| "skip".into());
            }
            1 => {
                state.keep();
                m.course.push(Some(m.var));
                m.var += 1;
                case.note(|| "keep".into());
            }
            2 => {
                state.fuse();
                m.course.push(Some(m.var));
                case.note(|| "extend".into());
            }
            3 => {
                let s = state.snapshot();
                m.marks.push((s, m.course.len(), m.var));
                case.note(|| format!("snapshot {}", m.marks.len() - 1));
            }
            4 => {
                if m.marks.is_empty() {
                    continue;
                }
                backs += 1;
                let i = src.idx(m.marks.len());
                case.note(|| format!("back to snapshot {}", i));
                let (s, len, var) = m.marks[i];
                state.go_to(s);
                ensure!(state.snapshot() == s, "snapshot", "the snapshot differs from the one that was gone back to");
                m.course.truncate(len);
                m.var = var;
                m.marks.retain(|k| k.1 <= len);
            }
            _ => {
                if others.len() < 4 && src.flip() {
                    others.push((state.clone(), m.clone()));
                    case.note(|| "clone".into());
                } else if !others.is_empty() {
                    let i = src.idx(others.len());
                    let o = std::mem::replace(&mut others[i], (state.clone(), m.clone()));
                    state = o.0;
                    m = o.1;
                    case.note(|| "on with a clone".into());
                }
            }
        }
    }
    case.label_if(backs > 0, "went back");
    case.nontrivial_if(backs > 0 && m.course.iter().any(|c| c.is_some()) && m.course.len() > 1);
    // Going on at the end does nothing bad.
    for i in 0..3 {
        match src.below(3) {
            0 => state.skip(),
            1 => state.keep(),
            _ => state.fuse(),
        }
        ensure!(state.get().is_none(), "cursor", "a segment {} steps after the end", i);
    }
    Ok(())
}

fn main() {
    runner::main("P25", "a path of several segments; for cursors one that went back and kept a segment", &[
        Prop { name: "segments", quick: 2_400_000, thorough: 18_000_000, run: segments },
        Prop { name: "cursor", quick: 2_400_000, thorough: 18_000_000, run: cursor },
    ]);
}
