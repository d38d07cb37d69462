//! P09: request bodies reach the handler byte for byte.
use std::cell::RefCell;
use std::io::Read;
use std::sync::{Arc, Mutex};

use multipart::server::MultipartData;
use pbt::*;
use rustful::context::body::BodyReader;
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, Server};

#[derive(Clone, Debug)]
enum Op {
    /// One `read` call with a buffer of this size.
    Read(usize),
    /// `read` with this size until end of input or an error.
    All(usize),
    ToEnd,
    Bytes(usize),
    Copy,
    /// Make a multipart reader and drop it without using it.
    Peek,
    /// Read all the fields with buffers of this size (zero: `read_to_end`).
    Fields(usize),
    /// Read at most this many fields, and only a part of their data.
    Some(usize, usize),
}

#[derive(Clone, Debug, PartialEq)]
struct Field {
    name: String,
    file: Option<String>,
    mime: Option<String>,
    data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Data(Vec<u8>),
    /// Everything up to the end of input.
    End(Vec<u8>),
    Error(Vec<u8>, String),
    Multipart(bool),
    Fields(Vec<Field>, Option<String>),
}

thread_local! {
    static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]);
}

struct Look(Arc<Mutex<Vec<Op>>>);

fn all<R: Read>(r: &mut R, size: usize) -> Seen {
    let mut v = vec![];
    let mut buf = vec![0xaa; size];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return Seen::End(v),
            Ok(n) => v.extend_from_slice(&buf[..n]),
            Err(e) => return Seen::Error(v, e.to_string()),
        }
    }
}

fn field_data<M: multipart::server::ReadEntry>(d: &mut MultipartData<M>, size: usize) -> Result<Vec<u8>, String> {
    if size == 0 {
        let mut v = vec![];
        d.read_to_end(&mut v).map_err(|e| e.to_string())?;
        return Ok(v);
    }
    match all(d, size) {
        Seen::End(v) => Ok(v),
        Seen::Error(_, e) => Err(e),
        _ => unreachable!(),
    }
}

fn run(op: &Op, body: &mut BodyReader) -> Seen {
    match *op {
        Op::Read(n) => {
            let mut buf = vec![0xaa; n];
            match body.read(&mut buf) {
                Ok(0) if n > 0 => Seen::End(vec![]),
                Ok(n) => Seen::Data(buf[..n].to_vec()),
                Err(e) => Seen::Error(vec![], e.to_string()),
            }
        }
        Op::All(n) => all(body, n),
        Op::ToEnd => {
            let mut v = vec![];
            match body.read_to_end(&mut v) {
                Ok(n) => {
                    assert!(n == v.len());
                    Seen::End(v)
                }
                Err(e) => Seen::Error(v, e.to_string()),
            }
        }
        Op::Bytes(n) => {
            let mut v = vec![];
            for b in body.bytes().take(n) {
                match b {
                    Ok(b) => v.push(b),
                    Err(e) => return Seen::Error(v, e.to_string()),
                }
            }
            if v.len() < n { Seen::End(v) } else { Seen::Data(v) }
        }
        Op::Copy => {
            let mut v = vec![];
            match std::io::copy(body, &mut v) {
                Ok(_) => Seen::End(v),
                Err(e) => Seen::Error(v, e.to_string()),
            }
        }
        Op::Peek => Seen::Multipart(body.as_multipart().is_some()),
        Op::Fields(size) => {
            let mut m = match body.as_multipart() {
                Some(m) => m,
                None => return Seen::Multipart(false),
            };
            // (Not `foreach_entry`: once reading fails, the multipart reader
            // must not be asked for more.)
            let mut v = vec![];
            loop {
                match m.read_entry() {
                    Ok(Some(mut f)) => match field_data(&mut f.data, size) {
                        Ok(data) => v.push(Field { name: f.headers.name.to_string(), file: f.headers.filename.clone(), mime: f.headers.content_type.as_ref().map(|m| m.to_string()), data }),
                        Err(e) => return Seen::Fields(v, Some(e)),
                    },
                    Ok(None) => return Seen::Fields(v, None),
                    Err(e) => return Seen::Fields(v, Some(e.to_string())),
                }
            }
        }
        Op::Some(n, part) => {
            let mut m = match body.as_multipart() {
                Some(m) => m,
                None => return Seen::Multipart(false),
            };
            let mut v = vec![];
            for _ in 0..n {
                match m.read_entry() {
                    Ok(Some(mut f)) => {
                        let mut data = vec![];
                        if let Err(e) = (&mut f.data).take(part as u64).read_to_end(&mut data) {
                            return Seen::Fields(v, Some(e.to_string()));
                        }
                        v.push(Field { name: f.headers.name.to_string(), file: f.headers.filename.clone(), mime: f.headers.content_type.as_ref().map(|m| m.to_string()), data });
                    }
                    Ok(None) => break,
                    Err(e) => return Seen::Fields(v, Some(e.to_string())),
                }
            }
            Seen::Fields(v, None)
        }
    }
}

impl Handler for Look {
    fn handle(&self, mut c: Context, r: Response) {
        for op in self.0.lock().unwrap().iter() {
            let s = run(op, &mut c.body);
            SEEN.with(|v| v.borrow_mut().push(s));
        }
        r.send("seen");
    }
}

thread_local! {
    static SERVER: (ServerInstance<Look>, Arc<Mutex<Vec<Op>>>) = {
        let ops = Arc::new(Mutex::new(vec![]));
        (Server::new(Look(ops.clone())).build(), ops)
    };
}

fn ask(ops: &[Op], data: Vec<u8>, reads: Vec<usize>, fault: Option<(usize, std::io::ErrorKind)>) -> Result<Vec<Seen>, Fail> {
    SEEN.with(|v| v.borrow_mut().clear());
    SERVER.with(|s| {
        *s.1.lock().unwrap() = ops.to_vec();
        let mut stream = wire::MockStream::new(data, wire::addr());
        {
            let mut script = stream.0.lock().unwrap();
            script.reads = reads;
            script.fail_at = fault;
        }
        let mut sink = wire::Sink::default();
        let talk = wire::converse(&s.0, &mut stream, &mut sink, false);
        ensure_eq!(talk.requests, 1, "not parsed", "requests that reached the server");
        Ok(())
    })?;
    Ok(SEEN.with(|v| v.borrow().clone()))
}

fn frame(src: &mut Src, req: &mut wire::Req) {
    if src.flip() {
        let n = src.range(1, 3);
        req.chunked = Some((0..n).map(|_| 1 + gen::size(src, 5000)).collect());
    }
}

fn plain_ops(src: &mut Src, long: bool) -> Vec<Op> {
    let max = if long { 200_000 } else { 5000 };
    let mut v = vec![];
    while src.more(v.len(), 4, 12) {
        v.push(match src.weighted(&[5, 2, 2, 1, 1]) {
            0 => Op::Read(gen::size(src, max)),
            1 => Op::All(1 + gen::size(src, max)),
            2 => Op::ToEnd,
            3 => Op::Bytes(gen::size(src, 300)),
            _ => Op::Copy,
        });
    }
    v
}

/// More than what any of the buffers on the way holds.
fn long_body(src: &mut Src) -> Vec<u8> {
    let n = 10_000 + src.below(240_000) as usize;
    let salt = src.below(256) as usize;
    (0..n).map(|i| (i + i / 251 + salt) as u8).collect()
}

fn body(src: &mut Src) -> Vec<u8> {
    let max = if src.chance(1, 10) { 20000 } else { 600 };
    let n = gen::size(src, max);
    gen::blob(src, n)
}

fn short(s: &Seen) -> String {
    runner::clip(&format!("{:?}", s), 300)
}

/// Checks one reading script against the body; `cut` is the number of body
/// bytes that were sent at all (and everything else is missing).
fn follow(ops: &[Op], seen: &[Seen], body: &[u8], complete: bool, case: &mut Case) -> Res {
    ensure_eq!(seen.len(), ops.len(), "script", "results of the script");
    let mut pos = 0;
    let mut ended = false;
    for (i, (op, s)) in ops.iter().zip(seen).enumerate() {
        let (data, end) = match *s {
            Seen::Data(ref d) => (d, false),
            Seen::End(ref d) => (d, true),
            Seen::Error(ref d, ref e) => {
                ensure!(!complete, "read error", "#{} {:?} fails with {:?} although the whole body was sent", i, op, e);
                ensure!(body[pos..].starts_with(d), "body bytes", "#{} {:?} gave {} after {} bytes of the body", i, op, short(s), pos);
                case.label("read error seen");
                return Ok(());
            }
            _ => return fail("script", format!("#{} {:?} gave {}", i, op, short(s))),
        };
        ensure!(body.len() - pos >= data.len() && &body[pos..pos + data.len()] == &data[..], "body bytes", "#{} {:?} gave {} after {} bytes of {}", i, op, short(s), pos, gen::show(&body[..body.len().min(300)]));
        pos += data.len();
        if end {
            ensure!(complete, "truncated", "#{} {:?} reports end of input after {} bytes although the body was cut short", i, op, pos);
            ensure!(pos == body.len(), "early end", "#{} {:?} reports end of input after {} of {} bytes", i, op, pos, body.len());
            ended = true;
        } else if let Op::Read(n) = *op {
            ensure!(data.len() <= n, "overlong read", "#{} {:?} gave {} bytes", i, op, data.len());
        }
    }
    case.label_if(ended, "read to the end");
    Ok(())
}

fn plain(src: &mut Src, case: &mut Case) -> Res {
    let long = src.chance(1, 25);
    let data = if long { long_body(src) } else { body(src) };
    let method = *src.pick(&["POST", "GET", "PUT", "DELETE", "PATCH", "FOO"]);
    let mut req = wire::Req::new(method, "/a/b?c=d").body(data.clone());
    if src.chance(1, 4) {
        req = req.header("Content-Type", *src.pick(&["text/plain", "application/x-www-form-urlencoded", "multipart/form-data; boundary=b", "application/json", "x"]));
    }
    frame(src, &mut req);
    let ops = plain_ops(src, long);
    let mut bytes = req.bytes();
    // What follows on the connection is not part of the body.
    match src.below(3) {
        0 => {}
        1 => bytes.extend_from_slice(b"GET /next HTTP/1.1\r\n\r\n"),
        _ => bytes.extend(gen::bytes(src, 40)),
    }
    let reads = wire::read_sizes(src);
    case.note(|| format!("{} with {} bytes, chunks {:?}; network reads {:?}; script {:?}", method, data.len(), req.chunked, reads, ops));
    case.nontrivial_if(data.len() > 1 && (reads.len() > 0 || req.chunked.is_some()) && ops.len() > 1);
    case.label_if(req.chunked.is_some(), "chunked");
    case.label_if(data.is_empty(), "empty body");
    case.label_if(data.len() > 4096, "long body");
    case.label_if(data.len() > 65536, "huge body");
    let seen = ask(&ops, bytes, reads, None)?;
    follow(&ops, &seen, &data, true, case)
}

/// The connection ends or fails somewhere in the body.
fn cut(src: &mut Src, case: &mut Case) -> Res {
    let mut data = body(src);
    if data.is_empty() {
        data.push(b'x');
    }
    let mut req = wire::Req::new("POST", "/").body(data.clone());
    frame(src, &mut req);
    let mut bytes = req.bytes();
    let head = bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
    let rest = bytes.len() - head;
    let keep = match src.weighted(&[3, 1, 1]) {
        0 => src.below(rest as u64) as usize,
        1 => rest - 1 - src.below(rest.min(9) as u64) as usize,
        _ => src.below(rest.min(9) as u64) as usize,
    };
    // For a sized body `rest` is the body; for a chunked one everything up to
    // and including the last CRLF is needed.
    use std::io::ErrorKind::*;
    let kind = *src.pick(&[ConnectionReset, UnexpectedEof, TimedOut, WouldBlock, ConnectionAborted, BrokenPipe, NotConnected, InvalidData, InvalidInput, Other]);
    let fault = if src.flip() { Some((head + keep, kind)) } else { None };
    bytes.truncate(head + keep);
    let mut ops = plain_ops(src, false);
    ops.push(match src.below(3) {
        0 => Op::ToEnd,
        1 => Op::Copy,
        _ => Op::All(1 + gen::size(src, 5000)),
    });
    let reads = wire::read_sizes(src);
    case.note(|| format!("{} bytes, chunks {:?}, cut after {} of {} bytes{}; reads {:?}; script {:?}", data.len(), req.chunked, keep, rest, fault.map(|f| format!(" by {:?}", f.1)).unwrap_or_default(), reads, ops));
    case.nontrivial();
    case.label_if(req.chunked.is_some(), "chunked");
    case.label_if(fault.is_some(), "read fault");
    let seen = ask(&ops, bytes, reads, fault)?;
    follow(&ops, &seen, &data, false, case)?;
    ensure!(seen.iter().any(|s| matches!(*s, Seen::Error(..))), "no error", "no error was reported by {:?}: {:?}", ops, seen.iter().map(short).collect::<Vec<_>>());
    Ok(())
}

/// What mime accepts as a parameter value: plain, or in quotes.
fn boundary(src: &mut Src) -> (String, String) {
    let len = match src.weighted(&[4, 2, 1]) {
        0 => src.range(1, 12),
        1 => src.range(12, 70),
        _ => src.range(1, 2),
    };
    if src.chance(1, 8) {
        let b = (*src.pick(&["utf-8", "UTF-8", "utf8", "Utf-8", "chunked", "boundary", "charset", "form-data"])).to_string();
        let t = if src.flip() { format!("\"{}\"", b) } else { b.clone() };
        return (b, t);
    }
    let quoted = src.flip();
    let mut s = String::new();
    for i in 0..len {
        let set: &[u8] = if i == 0 { b"abzAXZ059" } else if quoted { b"abXZ09-_.+'()=:?,/ ;!#$&^" } else { b"abXZ09-_.+!#$&^" };
        s.push(*src.pick(set) as char);
    }
    if s.ends_with(' ') {
        s.pop();
        s.push('x');
    }
    let t = if quoted { format!("\"{}\"", s) } else { s.clone() };
    (s, t)
}

fn encode_field(src: &mut Src, f: &Field, out: &mut Vec<u8>) {
    let cd = format!("{}: form-data; name=\"{}\"", *src.pick(&["Content-Disposition", "content-disposition"]), f.name);
    let cd = match f.file {
        Some(ref n) => format!("{}; filename=\"{}\"\r\n", cd, n),
        None => format!("{}\r\n", cd),
    };
    let ct = f.mime.as_ref().map(|m| format!("Content-Type: {}\r\n", m)).unwrap_or_default();
    if src.flip() {
        out.extend_from_slice(cd.as_bytes());
        out.extend_from_slice(ct.as_bytes());
    } else {
        out.extend_from_slice(ct.as_bytes());
        out.extend_from_slice(cd.as_bytes());
    }
    if src.chance(1, 5) {
        out.extend_from_slice(b"X-Other: 1\r\n");
    }
    out.extend_from_slice(b"\r\n");
    out.extend_from_slice(&f.data);
    out.extend_from_slice(b"\r\n");
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

fn field(src: &mut Src, mark: &[u8], big: bool) -> Field {
    let text = |src: &mut Src| -> String {
        let s = gen::string(src, 8);
        s.chars().filter(|&c| !c.is_control() && !"\";=".contains(c)).collect::<String>().trim().to_string()
    };
    let mut data = match src.weighted(&[3, 3, 1]) {
        0 => {
            let n = gen::size(src, if big { 4000 } else { 100 });
            gen::blob(src, n)
        }
        1 => {
            // Almost the boundary.
            let mut v = vec![];
            let n = src.range(1, 5);
            for _ in 0..n {
                match src.below(4) {
                    0 => v.extend_from_slice(b"\r\n"),
                    1 => v.extend_from_slice(b"--"),
                    2 => {
                        let k = src.below(mark.len() as u64 + 1) as usize;
                        v.extend_from_slice(&mark[..k]);
                    }
                    _ => v.extend(gen::bytes(src, 6)),
                }
            }
            v
        }
        _ => vec![],
    };
    while contains(&data, mark) {
        let p = data.windows(mark.len()).position(|w| w == mark).unwrap();
        data[p] = b'+';
    }
    let mut f = Field { name: text(src), file: None, mime: None, data };
    if src.chance(1, 3) {
        f.file = Some(text(src));
    }
    if src.chance(1, 3) {
        f.mime = Some((*src.pick(&["text/plain", "application/octet-stream", "image/png", "text/plain; charset=utf-8"])).to_string());
    }
    let mark = String::from_utf8_lossy(mark).into_owned();
    if f.name.contains(&mark) || f.file.as_ref().map(|n| n.contains(&mark)).unwrap_or(false) {
        f.name = "n".into();
        f.file = None;
    }
    f
}

fn form(src: &mut Src, case: &mut Case) -> Res {
    let (b, shown) = boundary(src);
    let mark = format!("--{}", b).into_bytes();
    let big = src.chance(1, 12);
    let mut fields = vec![];
    while src.more(fields.len(), 2, 6) {
        fields.push(field(src, &mark, big));
    }
    let mut body = vec![];
    // A preamble is skipped.
    if src.chance(1, 4) {
        let mut p = gen::bytes(src, 20);
        if contains(&p, &mark) {
            p.clear();
        }
        body.extend(p);
        body.extend_from_slice(b"\r\n");
    }
    for f in &fields {
        body.extend_from_slice(&mark);
        body.extend_from_slice(b"\r\n");
        encode_field(src, f, &mut body);
    }
    body.extend_from_slice(&mark);
    body.extend_from_slice(b"--\r\n");
    // (A header that happens to contain the boundary ends it.)
    let expected = 1 + fields.len();
    if body.windows(mark.len()).filter(|w| *w == &mark[..]).count() != expected {
        case.label("discarded: boundary inside a header");
        return Ok(());
    }
    // Read a part in the plain way first.
    let skipped = if src.chance(1, 4) { 1 + gen::size(src, 30) } else { 0 };
    let mut all = gen::blob(src, skipped);
    all.extend_from_slice(&body);

    // (The media type parser wants a quoted parameter to be the last one.)
    let extra = |src: &mut Src| {
        let mut s = String::new();
        while s.len() < 60 && src.chance(1, 3) {
            s.push_str(*src.pick(&[";", "; ", ";  "]));
            s.push_str(*src.pick(&["charset=utf-8", "charset=latin1", "x=y", "q=0.5", "name=boundary", "version=1.0"]));
        }
        s
    };
    let ct = match src.weighted(&[6, 2, 1, 1, 1, 1, 1]) {
        0 => format!("multipart/form-data; boundary={}", shown),
        1 => format!("{}{};{}boundary={}{}", *src.pick(&["Multipart/Form-Data", "multipart/form-data"]), extra(src), *src.pick(&["", " "]), shown, if shown.starts_with('"') { String::new() } else { extra(src) }),
        2 => format!("multipart/form-data; charset=utf-8; boundary={}", shown),
        3 => format!("multipart/mixed; boundary={}", shown),
        4 => format!("text/plain; boundary={}", shown),
        5 => "multipart/form-data".into(),
        _ => String::new(),
    };
    let is_form = ct.to_ascii_lowercase().starts_with("multipart/form-data") && ct.contains("boundary=");
    let mut req = wire::Req::new(*src.pick(&["POST", "PUT", "GET"]), "/").body(all.clone());
    if !ct.is_empty() {
        req = req.header("Content-Type", &ct);
    }
    // The multipart crate gives up when its buffer does not grow, so a form
    // has to arrive in one piece to be sure that it is read.
    let whole = !big && src.chance(2, 3);
    if !whole {
        frame(src, &mut req);
    }
    let bytes = req.bytes();
    let whole = whole && bytes.len() < 4000;
    let reads = if whole { vec![] } else { wire::read_sizes(src) };
    let cut = if src.chance(1, 6) && is_form { 1 + src.idx(body.len()) } else { 0 };
    let left = bytes.len() - cut;
    let cut_by = cut;
    let cut = cut > 0;
    let mut bytes = bytes;
    bytes.truncate(left);

    let mut ops = vec![];
    if skipped > 0 {
        ops.push(Op::Bytes(skipped));
    }
    if src.chance(1, 4) {
        ops.push(Op::Peek);
    }
    ops.push(match src.weighted(&[5, 1]) {
        0 => Op::Fields(if src.flip() { 0 } else { 1 + gen::size(src, 64) }),
        _ => Op::Some(src.range(0, 3), gen::size(src, 20)),
    });
    if !is_form && src.flip() {
        ops.push(Op::ToEnd);
    }
    case.note(|| format!("content type {:?}, {} bytes skipped, {} fields, chunks {:?}, reads {:?}{}; script {:?}\nbody: {}", ct, skipped, fields.len(), req.chunked, reads, if cut { ", cut short" } else { "" }, ops, gen::show(&body[..body.len().min(1500)])));
    case.nontrivial_if(is_form && fields.len() > 0);
    case.label_if(!is_form, "not a form");
    case.label_if(cut, "cut short");
    case.label_if(whole, "in one piece");
    case.label_if(b.eq_ignore_ascii_case("utf-8"), "special boundary");
    let seen = ask(&ops, bytes, reads, None)?;

    for (op, s) in ops.iter().zip(&seen) {
        match (op, s) {
            (Op::Bytes(_), Seen::Error(..)) if cut => return Ok(()),
            (Op::Bytes(n), s) => ensure!(*s == Seen::Data(all[..*n].to_vec()), "body bytes", "the first {} bytes were read as {}", n, short(s)),
            (Op::ToEnd, s) => ensure!(*s == Seen::End(body.clone()), "body bytes", "the rest of the body was read as {}", short(s)),
            (_, Seen::Multipart(m)) => {
                ensure!(!(m & !is_form), "not a form", "a body with content type {:?} is read as a form", ct);
                ensure!(*m || !is_form, "form not accepted", "a form with content type {:?} is not accepted", ct);
            }
            (op, Seen::Fields(got, error)) => {
                ensure!(is_form, "not a form", "a body with content type {:?} is read as a form", ct);
                let (limit, part) = match **&op {
                    Op::Some(n, p) => (n, p),
                    _ => (usize::max_value(), usize::max_value()),
                };
                let want: Vec<_> = fields.iter().take(limit).map(|f| Field { data: f.data[..f.data.len().min(part)].to_vec(), ..f.clone() }).collect();
                if cut {
                    // (What follows the last boundary doesn't matter.)
                    let end = matches!(**&op, Op::Fields(_));
                    ensure!(error.is_some() || !end || (cut_by < 16 && *got == want), "truncated", "a form that was cut short by {} bytes is read without an error: {:?}", cut_by, got);
                }
                if error.is_some() {
                    ensure!(cut || !whole, "multipart error", "a complete form gives the error {:?} after {} fields", error, got.len());
                    ensure!(want.starts_with(got) || cut, "fields", "fields before the error: {:?}\nexpected: {:?}", got, want);
                    case.label("multipart error");
                } else if !cut {
                    ensure_eq!(*got, want, "fields", "fields of the form");
                }
            }
            (op, s) => return fail("script", format!("{:?} gave {}", op, short(s))),
        }
    }
    Ok(())
}

fn main() {
    runner::main("P09", "a body of at least two bytes that arrives in pieces or chunks and is read by several operations; every cut body; a form with fields", &[
        Prop { name: "plain reading", quick: 1_350_000, thorough: 20_250_000, run: plain },
        Prop { name: "cut short", quick: 1_200_000, thorough: 18_000_000, run: cut },
        Prop { name: "multipart", quick: 1_350_000, thorough: 20_250_000, run: form },
    ]);
}
