//! P08: query strings and form bodies round-trip through the parser.
use std::cell::RefCell;

use pbt::*;
use rustful::context::Parameters;
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, Server};

#[derive(Clone, Debug, Default)]
struct Seen {
    query: form::Map,
    body: Option<Result<form::Map, String>>,
    again: Option<Result<form::Map, String>>,
}

thread_local! {
    static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]);
}

fn map(p: &Parameters) -> form::Map {
    p.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}

struct Look;

impl Handler for Look {
    fn handle(&self, mut c: Context, r: Response) {
        let mut s = Seen { query: map(&c.query), ..Seen::default() };
        s.body = Some(c.body.read_query_body().map(|p| map(&p)).map_err(|e| e.to_string()));
        s.again = Some(c.body.read_query_body().map(|p| map(&p)).map_err(|e| e.to_string()));
        SEEN.with(|v| v.borrow_mut().push(s));
        r.send("seen");
    }
}

fn show(m: &form::Map) -> String {
    let v: Vec<_> = m.iter().map(|(k, v)| format!("{}={}", gen::show(k), gen::show(v))).collect();
    format!("{{{}}}", v.join(", "))
}

fn same(got: &form::Map, want: &form::Map, at: &str) -> Res {
    ensure!(got == want, "parameters", "parameters ({})\n     got: {}\nexpected: {}", at, show(got), show(want));
    Ok(())
}

fn ask(server: &ServerInstance<Look>, src: &mut Src, req: wire::Req) -> Result<Seen, Fail> {
    SEEN.with(|v| v.borrow_mut().clear());
    let mut stream = wire::MockStream::new(req.bytes(), wire::addr());
    stream.0.lock().unwrap().reads = wire::read_sizes(src);
    let mut sink = wire::Sink::default();
    let talk = wire::converse(server, &mut stream, &mut sink, false);
    ensure_eq!(talk.requests, 1, "not parsed", "requests that reached the server");
    match SEEN.with(|v| v.borrow_mut().pop()) {
        Some(s) => Ok(s),
        None => fail("no handler", "the handler did not run".into()),
    }
}

fn frame(src: &mut Src, req: &mut wire::Req) {
    if src.flip() {
        let n = src.range(1, 3);
        req.chunked = Some((0..n).map(|_| 1 + gen::size(src, 4000)).collect());
    }
}

fn round_trip(src: &mut Src, case: &mut Case) -> Res {
    let server = Server::new(Look).build();
    let max = if src.chance(1, 50) { 300 } else { 12 };
    let f = form::form(src, if max > 100 { 100 } else { 3 }, max);
    // Another one, so that the two sources are not mixed up.
    let other = form::form(src, 1, 3);
    case.note(|| format!("form: {} other: {}", f.text, other.text));
    case.nontrivial_if(f.tricky && !f.map.is_empty());
    case.label_if(f.map.is_empty(), "empty map");
    case.label_if(f.map.contains_key(&b""[..]), "empty name");
    case.label_if(f.map.keys().chain(f.map.values()).any(|b| std::str::from_utf8(b).is_err()), "not text");
    case.label_if(max > 100, "long form");

    let content_type = *src.pick(&["application/x-www-form-urlencoded", "text/plain", ""]);
    let req = |t: String| {
        let r = wire::Req::new("POST", &t);
        if content_type.is_empty() { r } else { r.header("Content-Type", content_type) }
    };
    let mark = |t: &str, empty: bool| if t.is_empty() && empty { String::new() } else { format!("?{}", t) };
    let bare = src.flip();

    let mut r = req(format!("/{}", mark(&f.text, bare))).body(other.text.clone().into_bytes());
    frame(src, &mut r);
    let s = ask(&server, src, r)?;
    same(&s.query, &f.map, "query, origin form")?;
    same(s.body.as_ref().unwrap().as_ref().unwrap(), &other.map, "other form in the body")?;
    same(s.again.as_ref().unwrap().as_ref().unwrap(), &form::Map::new(), "body, read again")?;

    let r = req(format!("http://example.com/{}", mark(&f.text, bare)));
    let s = ask(&server, src, r)?;
    same(&s.query, &f.map, "query, absolute form")?;
    same(s.body.as_ref().unwrap().as_ref().unwrap(), &form::Map::new(), "no body")?;

    let mut r = req(format!("/{}", mark(&other.text, bare))).body(f.text.clone().into_bytes());
    frame(src, &mut r);
    let s = ask(&server, src, r)?;
    same(&s.query, &other.map, "other form in the query")?;
    same(s.body.as_ref().unwrap().as_ref().unwrap(), &f.map, "body")?;
    Ok(())
}

/// Bodies that were not written by a serialiser: the result is what the
/// reference reader gives.
fn any_body(src: &mut Src, case: &mut Case) -> Res {
    let server = Server::new(Look).build();
    let mut body = vec![];
    let n = gen::size(src, 40);
    if src.chance(1, 20) {
        body = dict::blob(src);
        body.retain(|&b| b != b'=');
    }
    for _ in 0..n {
        match src.weighted(&[6, 3, 1]) {
            0 => body.push(*src.pick(b"&=+%ab2Ff/?#;")),
            1 => body.extend_from_slice(*src.pick(&[&b"a="[..], b"%41", b"%ff", b"&&", b"=&", b"%2", b"%zz", b"%%", b"%C3%A9"])),
            _ => body.push(gen::byte(src)),
        }
    }
    // (What a second plain equals sign in a piece means is left open.)
    let mut seen = false;
    body.retain(|&b| {
        let again = b == b'=' && seen;
        seen = if b == b'&' { false } else { seen || b == b'=' };
        !again
    });
    case.note(|| format!("body: {}", gen::show(&body)));
    let want = form::read(&body);
    case.nontrivial_if(want.len() > 1 || (want.len() == 1 && body.contains(&b'%')));
    let mut r = wire::Req::new("POST", "/").more(src).body(body);
    frame(src, &mut r);
    let s = ask(&server, src, r)?;
    same(s.body.as_ref().unwrap().as_ref().unwrap(), &want, "body")
}

/// Long forms, in the body.
fn long_body(src: &mut Src, case: &mut Case) -> Res {
    let server = Server::new(Look).build();
    let mut want = form::Map::new();
    let mut body = vec![];
    // Perhaps many short ones instead.
    let many = if src.chance(1, 3) { (1usize << src.range(3, 14)) + src.idx(5) } else { 0 };
    let count = src.range(1, 5);
    for i in 0..count.max(many) {
        let n = if many > 0 { i % 7 } else { match src.below(3) {
            0 => src.idx(300_000),
            1 => (1usize << (12 + src.below(7))) + src.idx(5) - 2,
            _ => src.idx(9000),
        } };
        let value = gen::blob(src, n);
        if i > 0 {
            body.push(b'&');
        }
        let name = format!("field{}", i);
        body.extend_from_slice(name.as_bytes());
        body.push(b'=');
        for &b in &value {
            if b == b' ' {
                body.push(b'+');
            } else if form::plain(b) {
                body.push(b);
            } else {
                body.extend_from_slice(format!("%{:02X}", b).as_bytes());
            }
        }
        want.insert(name.into_bytes(), value);
    }
    case.note(|| format!("{} values of {:?} ... bytes in a body of {} bytes", want.len(), want.values().take(6).map(|v| v.len()).collect::<Vec<_>>(), body.len()));
    case.label_if(many > 1000, "over 1000 names");
    case.label_if(body.len() > 65536, "over 64 KiB");
    case.nontrivial_if(body.len() > 4096);
    let mut r = wire::Req::new("POST", "/").more(src).body(body);
    if src.flip() {
        let n = src.range(1, 3);
        r.chunked = Some((0..n).map(|_| 1 + src.idx(70000)).collect());
    }
    SEEN.with(|v| v.borrow_mut().clear());
    wire::send(&server, r.bytes(), false);
    let s = match SEEN.with(|v| v.borrow_mut().pop()) {
        Some(s) => s,
        None => return fail("no handler", "the handler did not run".into()),
    };
    let got = match s.body.unwrap() {
        Ok(m) => m,
        Err(e) => return fail("read error", e),
    };
    for (k, v) in &want {
        let g = got.get(k).map(|g| g.len());
        ensure!(got.get(k) == Some(v), "parameters", "{} should have {} bytes, got {:?}", gen::show(k), v.len(), g);
    }
    ensure_eq!(got.len(), want.len(), "parameters", "number of parameters");
    Ok(())
}

fn main() {
    runner::main("P08", "a non-empty map whose serialisation uses escapes, plus signs, repeated names or missing values; a body of more than 4096 bytes", &[
        Prop { name: "round trip", quick: 1_800_000, thorough: 6_000_000, run: round_trip },
        Prop { name: "any body", quick: 1_800_000, thorough: 6_000_000, run: any_body },
        Prop { name: "long body", quick: 1_500, thorough: 30_000, run: long_body },
    ]);
}
