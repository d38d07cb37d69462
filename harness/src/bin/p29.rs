//! P29: a media type that is written out is the one that its parts name.
#[macro_use(content_type)]
extern crate rustful;

use pbt::*;
use rustful::mime::{Attr, Mime, SubLevel, TopLevel, Value};

macro_rules! known {
    ($f:ident, $all:ident, $t:ident: $($v:ident = $s:expr),*) => (
        fn $all() -> Vec<(&'static str, $t)> {
            vec![$(($s, $t::$v)),*]
        }

        /// Which of the known ones, written as itself.
        fn $f(t: &$t) -> Option<&'static str> {
            match *t {
                $($t::$v => Some($s),)*
                $t::Ext(_) => None,
            }
        }
    )
}

known!(top, tops, TopLevel: Star = "*", Text = "text", Image = "image", Audio = "audio", Video = "video", Application = "application", Multipart = "multipart", Message = "message", Model = "model");
known!(sub, subs, SubLevel: Star = "*", Plain = "plain", Html = "html", Xml = "xml", Javascript = "javascript", Css = "css", EventStream = "event-stream", Json = "json", WwwFormUrlEncoded = "x-www-form-urlencoded", Msgpack = "msgpack", OctetStream = "octet-stream", FormData = "form-data", Png = "png", Gif = "gif", Bmp = "bmp", Jpeg = "jpeg", Mpeg = "mpeg", Mp4 = "mp4", Ogg = "ogg");
known!(attr, attrs, Attr: Charset = "charset", Boundary = "boundary", Q = "q");
known!(value, values, Value: Utf8 = "utf-8");

/// One part: its text, and its value when it's not given as text.
struct Part<T> {
    text: String,
    typed: T,
    known: bool,
}

fn part<T: Clone>(src: &mut Src, all: &[(&'static str, T)], ext: fn(String) -> T) -> Part<T> {
    if src.chance(3, 5) {
        let (s, ref t) = *src.pick(all);
        Part { text: s.into(), typed: t.clone(), known: true }
    } else {
        let text = match src.below(4) {
            0 => (*src.pick(&["octet-stream", "vnd.ms-excel", "x-c++", "utf8", "1.0", "type", "image/gif", "x-", "\"a b\"", "Text", "UTF-8"])).to_string(),
            1 => gen::string(src, 8),
            2 => gen::ident(src),
            _ => src.pick(all).0.to_uppercase(),
        };
        // It may happen to be a known one.
        let known = all.iter().find(|a| a.0 == text);
        Part { typed: known.map_or(ext(text.clone()), |k| k.1.clone()), known: known.is_some(), text }
    }
}

/// With every combination of parts given as text and as values.
macro_rules! with {
    ($mask:expr, $t:ident / $s:ident $(; $($a:ident = $v:ident),+)*) => ({
        match $mask & 3 {
            0 => { let ($t, $s) = (&$t.text[..], &$s.text[..]); with!(@params $mask, $t / $s $(; $($a = $v),+)*) }
            1 => { let ($t, $s) = ($t.typed.clone(), &$s.text[..]); with!(@params $mask, $t / $s $(; $($a = $v),+)*) }
            2 => { let ($t, $s) = (&$t.text[..], $s.typed.clone()); with!(@params $mask, $t / $s $(; $($a = $v),+)*) }
            _ => { let ($t, $s) = ($t.typed.clone(), $s.typed.clone()); with!(@params $mask, $t / $s $(; $($a = $v),+)*) }
        }
    });
    (@params $mask:expr, $t:ident / $s:ident) => (content_type!($t / $s));
    (@params $mask:expr, $t:ident / $s:ident; $($a:ident = $v:ident),+) => (
        match $mask >> 2 & 3 {
            0 => { $(let ($a, $v) = (&$a.text[..], &$v.text[..]);)+ content_type!($t / $s; $($a = $v);+) }
            1 => { $(let ($a, $v) = ($a.typed.clone(), &$v.text[..]);)+ content_type!($t / $s; $($a = $v);+) }
            2 => { $(let ($a, $v) = (&$a.text[..], $v.typed.clone());)+ content_type!($t / $s; $($a = $v);+) }
            _ => { $(let ($a, $v) = ($a.typed.clone(), $v.typed.clone());)+ content_type!($t / $s; $($a = $v);+) }
        }
    );
}

fn same(got: &Mime, t: (&str, bool), s: (&str, bool), params: &[(&str, bool, &str, bool)]) -> Res {
    ensure_eq!(got.0.as_str(), t.0, "type", "the type");
    ensure_eq!(top(&got.0).is_some(), t.1, "known type", "is the type {} a known one", t.0);
    ensure_eq!(got.1.as_str(), s.0, "subtype", "the subtype");
    ensure_eq!(sub(&got.1).is_some(), s.1, "known subtype", "is the subtype {} a known one", s.0);
    ensure_eq!(got.2.len(), params.len(), "parameters", "the number of parameters");
    for (g, w) in got.2.iter().zip(params) {
        ensure_eq!((g.0.as_str(), g.1.as_str()), (w.0, w.2), "parameters", "a parameter");
        ensure_eq!((attr(&g.0).is_some(), value(&g.1).is_some()), (w.1, w.3), "known parameters", "are {}={} known", w.0, w.2);
    }
    let mut text = format!("{}/{}", t.0, s.0);
    for p in params {
        text += &format!("; {}={}", p.0, p.2);
    }
    ensure_eq!(got.to_string(), text, "text", "the whole media type");
    Ok(())
}

fn parts(src: &mut Src, case: &mut Case) -> Res {
    let t = part(src, &tops(), TopLevel::Ext);
    let s = part(src, &subs(), SubLevel::Ext);
    let n = *src.pick(&[0, 1, 1, 2, 3, 4, 8]);
    let p: Vec<_> = (0..n).map(|_| (part(src, &attrs(), Attr::Ext), part(src, &values(), Value::Ext))).collect();
    let mask = src.below(16);
    case.note(|| format!("{}/{} {:?}, as {:b}", t.text, s.text, p.iter().map(|p| (&p.0.text, &p.1.text)).collect::<Vec<_>>(), mask));
    case.nontrivial_if(n > 0 && !(t.known && s.known));
    case.label_if(n > 1, "several parameters");
    let want: Vec<_> = p.iter().map(|p| (&p.0.text[..], p.0.known, &p.1.text[..], p.1.known)).collect();
    let (tw, sw) = ((t.text.clone(), t.known), (s.text.clone(), s.known));
    let got = {
        let mut i = p.iter();
        macro_rules! next {
            ($($a:ident = $v:ident),+) => ({
                $(let &(ref $a, ref $v) = i.next().unwrap();)+
                with!(mask, t / s; $($a = $v),+)
            })
        }
        match n {
            0 => with!(mask, t / s),
            1 => next!(a = b),
            2 => next!(a = b, c = d),
            3 => next!(a = b, c = d, e = f),
            4 => next!(a = b, c = d, e = f, g = h),
            _ => next!(a = b, c = d, e = f, g = h, a2 = b2, c2 = d2, e2 = f2, g2 = h2),
        }
    };
    same(&got, (&tw.0, tw.1), (&sw.0, sw.1), &want)
}

/// Every known name, written in the source.
fn names(src: &mut Src, case: &mut Case) -> Res {
    macro_rules! each {
        ($f:ident: $($t:ident = $ts:expr),*; $subs:tt) => ({
            let mut all: Vec<(Mime, &str, &str)> = vec![];
            $(each!(@subs all, $t, $ts, $subs);)*
            all
        });
        (@subs $all:ident, $t:ident, $ts:expr, ($($s:ident = $ss:expr),*)) => (
            $(
                $all.push((content_type!($t / $s), $ts, $ss));
                $all.push((content_type!($t / $ss), $ts, $ss));
                $all.push((content_type!($ts / $s), $ts, $ss));
                $all.push((content_type!($ts / $ss), $ts, $ss));
            )*
        );
    }
    let all = each!(top: Star = "*", Text = "text", Image = "image", Audio = "audio", Video = "video", Application = "application", Multipart = "multipart", Message = "message", Model = "model";
        (Star = "*", Plain = "plain", Html = "html", Xml = "xml", Javascript = "javascript", Css = "css", EventStream = "event-stream", Json = "json", WwwFormUrlEncoded = "x-www-form-urlencoded", Msgpack = "msgpack", OctetStream = "octet-stream", FormData = "form-data", Png = "png", Gif = "gif", Bmp = "bmp", Jpeg = "jpeg", Mpeg = "mpeg", Mp4 = "mp4", Ogg = "ogg"));
    let (ref m, t, s) = *src.pick(&all);
    case.note(|| format!("{}/{}", t, s));
    same(m, (t, true), (s, true), &[])?;
    let known = |a, v| (a, attr_known(a), v, v == "utf-8");
    let all = vec![
        (content_type!(Text / Html; Charset = Utf8), vec![("charset", "utf-8")]),
        (content_type!(Text / Html; "charset" = "utf-8"), vec![("charset", "utf-8")]),
        (content_type!(Text / Html; Charset = "latin1"; Q = "0.5"), vec![("charset", "latin1"), ("q", "0.5")]),
        (content_type!(Text / Html; Boundary = "x"; "a" = Utf8; "a" = "b"), vec![("boundary", "x"), ("a", "utf-8"), ("a", "b")]),
        (content_type!(Text / Html; "Charset" = "Utf8"; Q = Utf8; Charset = "c"; Boundary = "d"), vec![("Charset", "Utf8"), ("q", "utf-8"), ("charset", "c"), ("boundary", "d")]),
    ];
    let (ref m, ref p) = *src.pick(&all);
    case.nontrivial();
    same(m, ("text", true), ("html", true), &p.iter().map(|&(a, v)| known(a, v)).collect::<Vec<_>>())
}

fn attr_known(a: &str) -> bool {
    attrs().iter().any(|k| k.0 == a)
}

fn main() {
    runner::main(
        "P29",
        "the media type has a part that isn't a known one and a parameter, or is written out in the source",
        &[
            Prop { name: "parts", quick: 8_000_000, thorough: 100_000_000, run: parts },
            Prop { name: "names", quick: 6_000, thorough: 10_000, run: names },
        ],
    )
}
