//! P15: the path check accepts exactly the paths that cannot escape.
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Component, Path, PathBuf};

use pbt::*;
use rustful::file::check_path;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Verdict {
    Accepted,
    Root,
    Parent,
    Other,
}

fn verdict(r: Result<(), Component>) -> Verdict {
    match r {
        Ok(()) => Verdict::Accepted,
        Err(Component::RootDir) => Verdict::Root,
        Err(Component::ParentDir) => Verdict::Parent,
        Err(_) => Verdict::Other,
    }
}

fn oracle(path: &[u8]) -> Verdict {
    if path.first() == Some(&b'/') {
        Verdict::Root
    } else if path.split(|&b| b == b'/').any(|c| c == b"..") {
        Verdict::Parent
    } else {
        Verdict::Accepted
    }
}

/// Walks from a directory; the lowest level that was reached.
fn lowest(path: &[u8]) -> i64 {
    if path.first() == Some(&b'/') {
        return i64::min_value();
    }
    let (mut at, mut low) = (0i64, 0i64);
    for c in path.split(|&b| b == b'/') {
        match c {
            b"" | b"." => {}
            b".." => at -= 1,
            _ => at += 1,
        }
        low = low.min(at);
    }
    low
}

fn compare(p: &[u8]) -> Res {
    let want = oracle(p);
    let os = OsStr::from_bytes(p);
    let path = Path::new(os);
    let got = verdict(check_path(path));
    ensure_eq!(got, want, "verdict", "the verdict on {}", gen::show(p));
    ensure_eq!(verdict(check_path(os)), want, "verdict", "the verdict on {} as an OsStr", gen::show(p));
    ensure_eq!(verdict(check_path(&OsString::from_vec(p.to_vec()))), want, "verdict", "the verdict on {} as an OsString", gen::show(p));
    ensure_eq!(verdict(check_path(&PathBuf::from(os))), want, "verdict", "the verdict on {} as a PathBuf", gen::show(p));
    if let Ok(s) = std::str::from_utf8(p) {
        ensure_eq!(verdict(check_path(s)), want, "verdict", "the verdict on {} as text", gen::show(p));
        ensure_eq!(verdict(check_path(&s.to_string())), want, "verdict", "the verdict on {} as a String", gen::show(p));
    }
    if want == Verdict::Accepted {
        ensure!(lowest(p) == 0, "escape", "the accepted path {} escapes", gen::show(p));
        let base = Path::new("/a/b");
        let joined = base.join(path);
        ensure!(joined.starts_with(base), "escape", "{} is outside", joined.display());
    } else {
        // The reported component is one of the path's.
        let c = check_path(path).unwrap_err();
        ensure!(path.components().any(|d| d == c), "component", "{:?} is not a component of {}", c, gen::show(p));
    }
    Ok(())
}

fn component(src: &mut Src) -> Vec<u8> {
    match src.weighted(&[6, 3, 3, 2, 2, 1, 1, 1]) {
        0 => gen::ident(src).into_bytes(),
        1 => b"..".to_vec(),
        2 => b".".to_vec(),
        3 => vec![],
        4 => src.pick(&[&b"..."[..], b".. ", b" ..", b"..a", b"a..", b".a", b"a.", b"..\\..", b"\\", b"C:", b"C:\\", b"~", b"%2e%2e", b"..\0", b"\0", b"..;", b"\xff..", "․․".as_bytes(), "．．".as_bytes(), b"\\\\?\\C:"]).to_vec(),
        5 => gen::string(src, 10).into_bytes(),
        6 => gen::bytes(src, 10),
        _ => {
            let n = gen::size(src, 300);
            vec![b'.'; n]
        }
    }
}

fn paths(src: &mut Src, case: &mut Case) -> Res {
    let mut parts = vec![];
    let long = src.chance(1, 30);
    let deep = src.chance(1, 200);
    if deep {
        // Deeper than any counter of one or two bytes can count.
        let n = *src.pick(&[250usize, 1000, 4000, 33_000, 66_000]);
        for _ in 0..src.range(n - n / 10, n + n / 10) {
            parts.push(b"a".to_vec());
        }
        case.label("very deep");
    }
    let most = parts.len() + if long { 200 } else { 20 };
    while src.more(parts.len(), if long { 60 } else { 5 }, most) {
        let mut c = component(src);
        // Mostly acceptable ones, so that the rest of the path matters.
        if c == b".." && src.flip() {
            c = gen::ident(src).into_bytes();
        }
        parts.push(c);
    }
    let mut p = parts.join(&b'/');
    if p.first() == Some(&b'/') && src.chance(3, 4) {
        let n = p.iter().take_while(|&&b| b == b'/').count();
        p.drain(..n);
    }
    case.note(|| gen::show(&p));
    let v = oracle(&p);
    case.label(match v {
        Verdict::Accepted => "accepted",
        Verdict::Root => "root",
        _ => "parent",
    });
    case.nontrivial_if(parts.len() > 2 && (v == Verdict::Parent || p.windows(2).any(|w| w == b"..") || p.contains(&b'\\')));
    compare(&p)
}

/// Every path up to some length over the characters that matter.
fn all_short(src: &mut Src, case: &mut Case) -> Res {
    let letters = b"./a\\ ";
    let prefix: Vec<u8> = (0..3).map(|_| *src.pick(letters)).collect();
    case.note(|| format!("{} followed by up to 4 of {}", gen::show(&prefix), gen::show(letters)));
    case.nontrivial();
    for n in 0..4 {
        compare(&prefix[..n])?;
    }
    let k = letters.len();
    for n in 0..5 {
        for mut i in 0..k.pow(n) {
            let mut p = prefix.clone();
            for _ in 0..n {
                p.push(letters[i % k]);
                i /= k;
            }
            compare(&p)?;
        }
    }
    Ok(())
}

fn main() {
    runner::main("P15", "a path of several components that has a parent component or something that looks like one, or all short paths with a prefix", &[
        Prop { name: "paths", quick: 9_000_000, thorough: 135_000_000, run: paths },
        Prop { name: "short", quick: 18_000, thorough: 270_000, run: all_short },
    ]);
}
