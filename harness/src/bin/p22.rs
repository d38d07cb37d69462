//! P22: arbitrary input never crashes the server or corrupts its output.
use std::cell::{Cell, RefCell};
use std::ffi::OsStr;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::unix::ffi::OsStrExt;
use std::panic::{self, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use pbt::routes::{self, Table};
use pbt::*;
use rustful::context::body::BodyReader;
use rustful::context::{MaybeUtf8Owned, MaybeUtf8Slice};
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::{ContentType, Headers, Host};
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, DefaultRouter, Handler, Response, Server, StatusCode};

/// How a handler uses what it's given.
#[derive(Clone, Copy, Debug)]
struct Use {
    body: u8,
    answer: u8,
    size: usize,
}

thread_local! {
    static USE: Cell<Use> = Cell::new(Use { body: 0, answer: 0, size: 1 });
    static HANDLED: Cell<usize> = Cell::new(0);
    /// The ends of multipart forms, and whether they were errors.
    static FORMS: RefCell<Vec<Result<usize, String>>> = RefCell::new(vec![]);
}

fn form(body: &mut BodyReader, size: usize) -> Option<Result<usize, String>> {
    let mut m = body.as_multipart()?;
    let mut n = 0;
    loop {
        match m.read_entry() {
            Ok(Some(mut f)) => {
                n += 1;
                let mut total = 0;
                let mut buf = vec![0; size];
                loop {
                    match f.data.read(&mut buf) {
                        Ok(0) => break,
                        Ok(n) => total += n,
                        Err(e) => return Some(Err(e.to_string())),
                    }
                    if total > 1 << 20 {
                        return Some(Err("too much data".into()));
                    }
                }
            }
            Ok(None) => return Some(Ok(n)),
            Err(e) => return Some(Err(e.to_string())),
        }
    }
}

/// Uses everything that comes from the client.
struct Exercise(u32);

impl Handler for Exercise {
    fn handle(&self, mut c: Context, mut r: Response) {
        HANDLED.with(|h| h.set(h.get() + 1));
        let u = USE.with(|u| u.get());
        let mut text = format!("{} {} {} {:?} {}\n", self.0, c.method, c.http_version, c.uri_path, c.address);
        for h in c.headers.iter() {
            // (Hyper can't print values that aren't text.)
            text.push_str(&format!("{} {:?}\n", h.name(), c.headers.get_raw(h.name())));
        }
        if let Some(h) = c.headers.get::<Host>() {
            text.push_str(&format!("{} {:?}\n", h.hostname, h.port));
        }
        // (Parsing may panic if it isn't ASCII.)
        if c.headers.get_raw("Content-Type").map_or(false, |v| v.iter().all(|v| v.is_ascii())) {
            text.push_str(&format!("{:?}\n", c.headers.get::<ContentType>()));
        }
        let mut first = None;
        for (k, v) in c.variables.iter().chain(c.query.iter()) {
            text.push_str(&format!("{:?} {:?} {}\n", k, v, v.as_utf8_lossy()));
            first = first.or(Some(v.as_utf8_lossy().into_owned()));
        }
        if let Some(n) = c.query.get("n") {
            text.push_str(&format!("{:?}\n", n.parse::<i32>()));
        }
        for l in &c.hyperlinks {
            text.push_str(&format!("{:?}\n", routes::own_link(l)));
        }
        if let Some(ref f) = c.fragment {
            text.push_str(&format!("{:?} {}\n", f, f.as_utf8_lossy()));
        }
        if let Some(p) = c.uri_path.as_path() {
            let p: &[u8] = p.as_bytes();
            let p = Path::new(OsStr::from_bytes(p));
            text.push_str(&format!("{:?}\n", rustful::file::check_path(p)));
            if let Some(e) = p.extension() {
                text.push_str(&format!("{:?}\n", rustful::file::ext_to_mime(&e.to_string_lossy())));
            }
            first = first.or(Some(p.to_string_lossy().into_owned()));
        }
        match u.body {
            0 => {}
            1 => {
                let mut v = vec![];
                let res = c.body.read_to_end(&mut v);
                text.push_str(&format!("{} {}\n", v.len(), res.is_ok()));
            }
            2 => if let Ok(p) = c.body.read_query_body() {
                for (k, v) in p.iter() {
                    text.push_str(&format!("{:?} {:?}\n", k, v));
                }
            },
            3 => {
                let f = form(&mut c.body, u.size);
                text.push_str(&format!("{:?}\n", f));
                if let Some(f) = f {
                    FORMS.with(|v| v.borrow_mut().push(f));
                }
            }
            _ => {
                let mut buf = vec![0; u.size];
                let _ = c.body.read(&mut buf);
            }
        }
        // What the client sent goes back in a header, too.
        if let Some(f) = first {
            r.headers_mut().set_raw("X-Echo", vec![f.into_bytes()]);
        }
        match u.answer {
            0 => r.send(text),
            1 => {
                drop(c);
                let mut w = r.into_chunked();
                for p in text.as_bytes().chunks(u.size) {
                    let _ = w.try_send(p);
                }
            }
            2 => {
                let mut w = unsafe { r.into_raw(text.len() as u64) };
                let _ = w.write_all(text.as_bytes());
            }
            3 => drop(r),
            _ => {
                r.set_status(StatusCode::BadRequest);
                r.send(text.into_bytes());
            }
        }
    }
}

struct Idle;

impl ResponseFilter for Idle {
    fn begin(&self, _: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::Next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(Some("the end"))
    }
}

const PATTERNS: &[&str] = &["/", "*", "/a", "/a/*", "/a/:x", "/:x/b", "/:x/:y", "/a/*/b", "/files/*rest", "/a//b", "/:a/*b/:c", "%2f", "/."];

fn config(filters: bool) -> Server<DefaultRouter<Exercise>> {
    let mut router = DefaultRouter::<Exercise>::new();
    for (i, p) in PATTERNS.iter().enumerate() {
        for m in routes::methods().into_iter().enumerate().filter(|m| (m.0 + i) % 3 != 0).map(|m| m.1) {
            router.build().path(*p).then().on(m, Exercise(i as u32));
        }
    }
    router.find_hyperlinks = true;
    Server {
        keep_alive: Some(KeepAlive { timeout: Duration::from_secs(600), free_threads: 0 }),
        threads: Some(8),
        response_filters: if filters { vec![Box::new(Idle)] } else { vec![] },
        ..Server::new(router)
    }
}

thread_local! {
    static SERVERS: [ServerInstance<DefaultRouter<Exercise>>; 2] = [config(false).build(), config(true).build()];
}

const TOKENS: &[&str] = &[
    "GET", "POST", "PUT", "HEAD", "OPTIONS", "CONNECT", "DELETE", "TRACE", "PATCH", "G@T", "get", " ", "  ", "\t", "\r\n", "\n", "\r", "\r\n\r\n", "\n\n", "\r\n\t", "/", "*", "//", "/a", "/a/b", "?", "?a=b&c", "#f", "%", "%2", "%zz",
    "%00", "%2F", "%ff", "..", "/../", ":x", "http://", "https://h", "http://[::1]:8/", "HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/0.9", "HTTP/1.", "Host:", "Host: a:b:c", "Host: [::1", "Content-Length: ", "Content-Length: 5", "Content-Length: -1",
    "Content-Length: 18446744073709551616", "Content-Length: 18446744073709551615", "Content-Length: 5, 5", "Transfer-Encoding: chunked", "Transfer-Encoding: gzip, chunked", "Transfer-Encoding: identity", "Transfer-Encoding: ,", "Expect: 100-continue", "Expect: x", "Connection: close",
    "Connection: keep-alive", "Connection: ,", "Upgrade: h2c", "Content-Type: multipart/form-data; boundary=b", "Content-Type: multipart/form-data; boundary=", "Content-Type: application/x-www-form-urlencoded", "Content-Type: ;", "Content-Type: a/b; c=\"", "Content-Type: a/b; c=\"\u{e9}\"", "Content-Type: multipart/form-data; boundary=\"x\u{2603}\"; a=b", "Cookie: a=b; c",
    "Range: bytes=0-", "If-Modified-Since: x", "Date: x", ":", ": ", "X:", "\u{0}", "\u{ff}", "é", "0", "1", "5\r\nhello\r\n", "0\r\n\r\n", "ffffffffffffffff\r\n", "10000000000000000\r\n", "5;ext=1\r\n", "-1\r\n", "a\r\n", "--b", "--b--", "--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nx\r\n",
    "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "Accept: */*", "Authorization: Basic x", "Authorization: ", "Cache-Control: max-age=x", "ETag: \"", "Accept-Encoding: gzip;q=x",
];

fn token(src: &mut Src) -> Vec<u8> {
    if src.chance(1, 6) {
        gen::bytes(src, 20)
    } else {
        src.pick(TOKENS).as_bytes().to_vec()
    }
}

/// A request as a client might send it.
fn request(src: &mut Src, table: &Table) -> Vec<u8> {
    let method = if src.chance(1, 10) { src.pick(TOKENS).trim().to_string() } else { (*src.pick(&["GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "FOO"])).to_string() };
    let mut t = String::new();
    match src.weighted(&[4, 4, 1, 1]) {
        0 => {
            for s in routes::request_segments(src, &table.alpha, &table.patterns) {
                t.push('/');
                t.push_str(&gen::percent_encode(src, &s, gen::unreserved));
            }
        }
        1 => t = src.pick(PATTERNS).replace(':', "").replace('*', "x"),
        2 => t = gen::string(src, 40).replace(|c: char| c.is_whitespace() || c.is_control(), "_"),
        _ => t = format!("http://h{}", src.pick(PATTERNS)),
    }
    if !t.starts_with('/') && !t.starts_with("http") && !src.chance(1, 8) {
        t.insert(0, '/');
    }
    if src.flip() {
        t.push('?');
        t.push_str(&form::form(src, 3, 6).text);
    }
    if src.chance(1, 10) {
        t.push_str("#frag");
    }
    let mut r = wire::Req::new(&method, &t);
    if src.chance(1, 8) {
        r.version = "HTTP/1.0";
    }
    let n = src.below(4);
    for _ in 0..n {
        let l = *src.pick(TOKENS);
        let mut parts = l.splitn(2, ':');
        let name = parts.next().unwrap();
        if let Some(v) = parts.next() {
            if name.len() > 1 && !v.contains('\n') && name != "Content-Length" && name != "Transfer-Encoding" {
                r = r.header(name, v);
            }
        }
    }
    if src.chance(1, 3) {
        r.body = match src.below(4) {
            0 => gen::bytes(src, 60),
            1 => form::form(src, 3, 6).text.into_bytes(),
            2 => {
                r = r.header("Content-Type", "multipart/form-data; boundary=b");
                multipart(src, "b")
            }
            _ => {
                let n = gen::size(src, 5000);
                gen::blob(src, n)
            }
        };
        if src.flip() {
            let n = src.range(1, 3);
            r.chunked = Some((0..n).map(|_| 1 + gen::size(src, 300)).collect());
        }
    }
    r.bytes()
}

fn mutate(src: &mut Src, data: &mut Vec<u8>) {
    let at = src.idx(data.len() + 1);
    match src.weighted(&[3, 4, 3, 2, 2, 1, 1]) {
        0 => if at < data.len() {
            data[at] = gen::byte(src);
        },
        1 => {
            let t = token(src);
            data.splice(at..at, t);
        }
        2 => {
            let n = gen::size(src, 20).min(data.len() - at);
            data.drain(at..at + n);
        }
        3 => {
            let n = gen::size(src, 60).min(data.len() - at);
            let part = data[at..at + n].to_vec();
            data.splice(at..at, part);
        }
        4 => {
            // At the beginning of a line, where most of the structure is.
            let lines: Vec<usize> = data.iter().enumerate().filter(|b| *b.1 == b'\n').map(|b| b.0 + 1).collect();
            if !lines.is_empty() {
                let at = *src.pick(&lines);
                let mut t = token(src);
                if src.flip() {
                    t.extend(b"\r\n");
                }
                data.splice(at..at, t);
            }
        }
        5 => data.truncate(at),
        _ => {
            let n = *src.pick(&[100usize, 1000, 4096, 8192, 70000]);
            let b = gen::byte(src);
            data.splice(at..at, std::iter::repeat(b).take(n));
        }
    }
}

fn raw_input(src: &mut Src) -> Vec<u8> {
    let table = routes::table(src, 1, 3);
    let mut data = vec![];
    match src.weighted(&[8, 2, 1]) {
        0 => {
            let mut n = 0;
            loop {
                data.extend(request(src, &table));
                n += 1;
                if !src.more(n, 2, 4) {
                    break;
                }
            }
            let mut n = 0;
            while src.more(n, 3, 10) {
                mutate(src, &mut data);
                n += 1;
            }
        }
        1 => {
            let mut n = 0;
            while src.more(n, 12, 60) {
                data.extend(token(src));
                n += 1;
            }
        }
        _ => {
            let n = gen::size(src, 300);
            data = gen::blob(src, n);
        }
    }
    data
}

/// Whether a multipart form might be read to its end without one being there.
/// (That takes the parser a while.)
fn slow(data: &[u8]) -> bool {
    data.windows(9).any(|w| w.eq_ignore_ascii_case(b"multipart"))
}

fn blank_lines(data: &[u8]) -> usize {
    let mut n = 0;
    for (i, &b) in data.iter().enumerate() {
        if b == b'\n' && (data[..i].ends_with(b"\n") || data[..i].ends_with(b"\n\r")) {
            n += 1;
        }
    }
    n
}

fn connection(src: &mut Src, case: &mut Case) -> Res {
    let data = raw_input(src);
    let mut u = Use { body: src.below(5) as u8, answer: src.below(5) as u8, size: 1 + gen::size(src, 300) };
    if u.body == 3 && slow(&data) && !src.chance(1, 50) {
        u.body = 1;
    }
    let filters = src.flip();
    let mut reads = wire::read_sizes(src);
    if data.len() > 4000 {
        // (Hyper starts over for every piece of a head.)
        for r in &mut reads {
            *r = *r * 500 + 1;
        }
    }
    case.note(|| format!("{:?}, filters {}, reads {:?}\n{}", u, filters, reads, gen::show(&data[..data.len().min(4000)])));
    USE.with(|v| v.set(u));
    HANDLED.with(|h| h.set(0));
    FORMS.with(|f| f.borrow_mut().clear());
    let heads = blank_lines(&data);
    let mut stream = wire::MockStream::new(data, wire::addr());
    stream.0.lock().unwrap().reads = reads;
    let mut sink = wire::Sink::default();
    let talk = SERVERS.with(|s| {
        let s = &s[filters as usize];
        let r = panic::catch_unwind(AssertUnwindSafe(|| wire::converse(s, &mut stream, &mut sink, true)));
        if r.is_err() {
            hyper::server::Handler::on_connection_end(s);
        }
        r
    });
    let head_only = wire::heads();
    case.label_if(head_only.contains(&true), "HEAD request");
    let replies = match wire::parse_replies_to(&sink.out, &head_only) {
        Ok(r) => r,
        Err(m) => return fail("malformed", format!("{}\noutput: {}", m, gen::show(&sink.out[..sink.out.len().min(3000)]))),
    };
    let talk = match talk {
        Ok(t) => t,
        Err(_) => {
            let p = runner::last_panic();
            let sig = if p.contains("hyper") && p.contains("server/request.rs") { "content length that is not a number" } else { "panic" };
            return fail(sig, format!("panicked: {}", p));
        }
    };
    ensure_eq!(replies.len(), talk.requests, "responses", "responses to the requests that were read");
    ensure!(replies.len() <= heads, "responses", "{} responses, but only {} heads could be complete", replies.len(), heads);
    let handled = HANDLED.with(|h| h.get());
    ensure!(handled <= replies.len(), "responses", "{} requests were handled, {} answered", handled, replies.len());
    for r in &replies {
        ensure!(r.header_count("Date") == 1 && r.header_count("Server") == 1 && r.header_count("Content-Type") == 1, "headers", "headers of a response are missing or doubled: {:?}", r.headers);
        ensure!(r.header_count("X-Echo") <= 1, "headers", "several echoes: {:?}", r.headers);
        case.label(match r.status {
            200 => "200",
            400 => "400",
            404 => "404",
            _ => "other status",
        });
    }
    case.label_if(talk.continues > 0, "continue");
    case.label_if(replies.len() > 1, "several responses");
    case.nontrivial_if(talk.requests > 0);
    Ok(())
}

fn multipart(src: &mut Src, b: &str) -> Vec<u8> {
    let mut v = vec![];
    if src.chance(1, 6) {
        v.extend(gen::bytes(src, 20));
        v.extend(b"\r\n");
    }
    let mut n = 0;
    while src.more(n, 2, 5) {
        v.extend(format!("--{}\r\n", b).bytes());
        let mut h = 0;
        while src.more(h, 2, 6) {
            let line: Vec<u8> = match src.weighted(&[6, 2, 2, 1, 2]) {
                0 => format!("Content-Disposition: form-data; name=\"{}\"{}", gen::string(src, 10).replace(|c: char| c.is_control(), ""), if src.flip() { "; filename=\"x\"" } else { "" }).into_bytes(),
                1 => format!("Content-Type: {}", *src.pick(&["text/plain", "a/b; c", "multipart/mixed; boundary=c", "", ";", "/", "text/plain; charset"])).into_bytes(),
                2 => src.pick(&["Content-Disposition: form-data", "Content-Disposition: ;", "Content-Disposition: form-data; name=", "Content-Disposition: form-data; filename=a; name=b", "content-disposition:form-data;name=x", "Content-Disposition: attachment; name=a"]).as_bytes().to_vec(),
                3 => gen::bytes(src, 20),
                _ => token(src),
            };
            v.extend(line);
            v.extend(b"\r\n");
            h += 1;
        }
        v.extend(b"\r\n");
        let max = if src.chance(1, 10) { 3000 } else { 30 };
        v.extend(gen::bytes(src, max));
        v.extend(b"\r\n");
        n += 1;
    }
    v.extend(format!("--{}--\r\n", b).bytes());
    v
}

/// Multipart forms that have been tampered with.
fn forms(src: &mut Src, case: &mut Case) -> Res {
    let b = match src.below(4) {
        0 => "b".to_string(),
        1 => "-".into(),
        2 => gen::ident(src),
        _ => {
            let n = gen::size(src, 80);
            "x".repeat(n.max(1))
        }
    };
    let b: String = b.chars().filter(|c| c.is_ascii_alphanumeric() || *c == '-').collect();
    let mut body = multipart(src, &b);
    let mut n = 0;
    while src.more(n, 3, 10) {
        mutate(src, &mut body);
        n += 1;
    }
    let open = src.chance(1, 500);
    if !open {
        // (Whatever was made of it, it ends.)
        body.extend(format!("\r\n--{}--\r\n\r\n", b).bytes());
    }
    let ct = match src.weighted(&[6, 1, 1]) {
        0 => format!("multipart/form-data; boundary={}", b),
        1 => format!("multipart/form-data; boundary=\"{}\"", b),
        _ => {
            let mut v = format!("multipart/form-data; boundary={}", b).into_bytes();
            mutate(src, &mut v);
            String::from_utf8_lossy(&v).chars().filter(|c| !c.is_control()).take(300).collect()
        }
    };
    let mut r = wire::Req::new("POST", "/a").header("Content-Type", &ct).body(body.clone());
    if src.chance(1, 3) {
        let n = src.range(1, 3);
        r.chunked = Some((0..n).map(|_| 1 + gen::size(src, 300)).collect());
    }
    let mut data = r.bytes();
    let next = wire::Req::new("DELETE", "/nothing/of/this/kind").bytes();
    data.extend(&next);
    let reads = wire::read_sizes(src);
    let u = Use { body: 3, answer: src.below(5) as u8, size: 1 + gen::size(src, 300) };
    case.note(|| format!("{:?}, content type {:?}, chunks {:?}, reads {:?}{}\n{}", u, ct, r.chunked, reads, if open { ", not ended" } else { "" }, gen::show(&body[..body.len().min(4000)])));
    USE.with(|v| v.set(u));
    HANDLED.with(|h| h.set(0));
    FORMS.with(|f| f.borrow_mut().clear());
    let mut stream = wire::MockStream::new(data, wire::addr());
    stream.0.lock().unwrap().reads = reads;
    let mut sink = wire::Sink::default();
    let talk = SERVERS.with(|s| wire::converse(&s[0], &mut stream, &mut sink, true));
    let replies = match wire::parse_replies(&sink.out) {
        Ok(r) => r,
        Err(m) => return fail("malformed", format!("{}\noutput: {}", m, gen::show(&sink.out[..sink.out.len().min(3000)]))),
    };
    // The form ends where it says; the request after it is read.
    ensure_eq!((talk.requests, replies.len()), (2, 2), "responses", "requests and responses");
    FORMS.with(|f| {
        let f = f.borrow();
        case.nontrivial_if(!f.is_empty());
        case.label_if(f.iter().any(|f| f.is_ok()), "form read");
        case.label_if(f.iter().any(|f| matches!(*f, Ok(n) if n > 0)), "fields");
        case.label_if(f.iter().any(|f| f.is_err()), "form error");
        case.label_if(open && !f.is_empty(), "without an end");
    });
    Ok(())
}

/// The parsers that are not only used by the server.
fn parsers(src: &mut Src, case: &mut Case) -> Res {
    let data = match src.below(4) {
        0 => gen::bytes(src, 100),
        1 => {
            let mut v = vec![];
            let mut n = 0;
            while src.more(n, 6, 30) {
                v.extend(token(src));
                n += 1;
            }
            v
        }
        2 => {
            let parts: Vec<_> = (0..src.range(0, 5)).map(|_| gen::bytes(src, 8)).collect();
            routes::join(src, &parts)
        }
        _ => gen::string(src, 200).into_bytes(),
    };
    let lossy = String::from_utf8_lossy(&data).into_owned();
    case.note(|| gen::show(&data));
    case.nontrivial_if(data.len() > 1);
    // Path patterns and requests for them.
    let other = gen::bytes(src, 30);
    let mut router = DefaultRouter::<Exercise>::new();
    router.find_hyperlinks = src.flip();
    router.build().path(&data).then().on_get(Exercise(0));
    router.build().path(&lossy[..]).then().on_post(Exercise(1));
    router.build().path(&other).path(&data).then().on_get(Exercise(2));
    USE.with(|v| v.set(Use { body: 0, answer: 0, size: 1 }));
    for m in &[rustful::Method::Get, rustful::Method::Post] {
        for p in &[&data[..], lossy.as_bytes(), &other[..]] {
            let _ = routes::dispatch(&router, m, p);
        }
    }
    // Other paths.
    let p = Path::new(OsStr::from_bytes(&data));
    let checked = rustful::file::check_path(p).is_ok();
    case.label_if(checked, "safe path");
    ensure!(!checked || !data.starts_with(b"/"), "path", "{:?} is accepted", p);
    for part in lossy.split(|c| c == '.' || c == '/') {
        let _ = rustful::file::ext_to_mime(part);
    }
    let _ = rustful::file::ext_to_mime(&lossy);
    // Addresses.
    if let Ok(h) = lossy.parse::<rustful::server::Host>() {
        let _: SocketAddr = h.into();
        case.label("address");
    }
    // Headers of bodies.
    for line in &[&data[..], &[b"multipart/form-data; boundary=", &data[..]].concat()[..]] {
        let mut h = Headers::new();
        h.set_raw("Content-Type", vec![line.to_vec()]);
        let mut b = BodyReader::mock(&h);
        ensure!(b.as_multipart().is_none(), "mock", "a mock body is a form");
        let mut v = vec![];
        ensure!(matches!(b.read_to_end(&mut v), Ok(0)), "mock", "a mock body has data");
    }
    // Strings that may not be text.
    let o: MaybeUtf8Owned = data.clone().into();
    let s: MaybeUtf8Slice = o.as_slice();
    ensure!(o == s && o.as_utf8_lossy() == lossy && s.as_bytes() == &data[..], "text", "{:?} {:?}", o, s);
    Ok(())
}

static PANICS: AtomicUsize = AtomicUsize::new(0);

struct Watch;

impl Drop for Watch {
    fn drop(&mut self) {
        if std::thread::panicking() {
            PANICS.fetch_add(1, Ordering::SeqCst);
        }
    }
}

/// The same for a running server, as far as it doesn't depend on the thread.
struct Serve;

impl Handler for Serve {
    fn handle(&self, c: Context, r: Response) {
        let _watch = Watch;
        let u = Use { body: 1, answer: (c.headers.len() % 4) as u8, size: 7 };
        USE.with(|v| v.set(u));
        Exercise(0).handle(c, r);
    }
}

static POOL: Mutex<Vec<SocketAddr>> = Mutex::new(vec![]);

fn sockets(src: &mut Src, case: &mut Case) -> Res {
    let addr = POOL.lock().unwrap().pop();
    let addr = match addr {
        Some(a) => a,
        None => {
            let mut l = Server {
                host: "127.0.0.1:0".parse().unwrap(),
                keep_alive: Some(KeepAlive { timeout: Duration::from_secs(600), free_threads: 0 }),
                threads: Some(3),
                ..Server::new(Serve)
            }
            .run()
            .expect("could not start a server");
            let a = l.socket;
            let _ = l.close();
            std::mem::forget(l);
            a
        }
    };
    let panics = PANICS.load(Ordering::SeqCst);
    let data = raw_input(src);
    case.note(|| gen::show(&data[..data.len().min(4000)]));
    let mut s = TcpStream::connect(addr).expect("could not connect");
    s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    s.set_write_timeout(Some(Duration::from_secs(60))).unwrap();
    // (The server may close the connection before it has everything.)
    let sent = s.write_all(&data).is_ok() && s.shutdown(Shutdown::Write).is_ok();
    let mut out = vec![];
    match s.read_to_end(&mut out) {
        Ok(_) => {}
        Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::BrokenPipe => {
            case.label("reset");
            out.clear();
        }
        Err(e) => return fail("hang", format!("the connection was not closed: {}", e)),
    }
    if sent {
        // Which of the requests are HEAD requests is easier to see from here.
        let local = Server::new(Serve).build();
        let _ = panic::catch_unwind(AssertUnwindSafe(|| wire::send(&local, data.clone(), true)));
        match wire::parse_replies_to(&out, &wire::heads()) {
            Ok(r) => {
                ensure!(r.len() <= blank_lines(&data), "responses", "{} responses, but only {} heads could be complete", r.len(), blank_lines(&data));
                case.nontrivial_if(!r.is_empty());
            }
            Err(m) => return fail("malformed", format!("{}\noutput: {}", m, gen::show(&out[..out.len().min(3000)]))),
        }
    }
    let mut s = TcpStream::connect(addr).expect("could not connect");
    s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    let _ = s.write_all(b"GET /after HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n");
    let mut out = vec![];
    if let Err(e) = s.read_to_end(&mut out) {
        return fail("no answer", format!("a request after that was not answered: {}", e));
    }
    match wire::parse_replies(&out) {
        Ok(ref v) if v.len() == 1 && v[0].status == 200 => {}
        other => return fail("no answer", format!("the answer to a request after that: {:?}", other)),
    }
    ensure_eq!(PANICS.load(Ordering::SeqCst), panics, "panic", "handlers that panicked");
    POOL.lock().unwrap().push(addr);
    Ok(())
}

fn main() {
    runner::main("P22", "input from which at least one request was read; a body that was taken for a form; parser input of at least two bytes", &[
        Prop { name: "connection", quick: 500_000, thorough: 12_000_000, run: connection },
        Prop { name: "forms", quick: 60_000, thorough: 1_500_000, run: forms },
        Prop { name: "parsers", quick: 600_000, thorough: 15_000_000, run: parsers },
        Prop { name: "sockets", quick: 10_000, thorough: 200_000, run: sockets },
    ]);
}
