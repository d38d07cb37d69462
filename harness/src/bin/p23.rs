//! P23: request metadata and configured defaults are passed on faithfully.
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

use pbt::resp::*;
use pbt::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::handler::{Environment, HandleRequest};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{Global, Host, KeepAlive};
use rustful::handler::{ApplyContext, BuilderContext, FromHandler, OrElse, StatusRouter, TreeRouter, Variables};
use rustful::{Context, Handler, Response, Server, StatusCode};

/// What is seen of a request, and of the configuration.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    method: String,
    version: String,
    address: SocketAddr,
    headers: BTreeMap<String, Vec<Vec<u8>>>,
    global: Shared,
}

/// The global values: two types, which may be missing.
#[derive(Clone, Debug, Default, PartialEq)]
struct Shared(Option<u32>, Option<String>, Option<Word>);

#[derive(Clone, Debug, PartialEq)]
struct Word(Vec<u8>);

fn shared(g: &Global) -> Shared {
    Shared(g.get::<u32>().cloned(), g.get::<String>().cloned(), g.get::<Word>().cloned())
}

thread_local! {
    static SCRIPT: RefCell<Option<Plan>> = RefCell::new(None);
    static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]);
    static GLOBALS: RefCell<Vec<(&'static str, Shared)>> = RefCell::new(vec![]);
}

/// The response, and whether it's made by a handler. If it isn't, only the
/// status and the headers are set before the request is rejected.
#[derive(Clone, Debug)]
struct Plan(Script, bool);

fn view(c: &Context) -> Seen {
    let mut headers = BTreeMap::new();
    for h in c.headers.iter() {
        let raw = c.headers.get_raw(h.name()).map(|v| v.to_vec()).unwrap_or_default();
        let old = headers.insert(h.name().to_ascii_lowercase(), raw);
        assert!(old.is_none(), "a header is listed twice");
    }
    assert_eq!(headers.len(), c.headers.len());
    Seen { method: c.method.to_string(), version: c.http_version.to_string(), address: c.address, headers, global: shared(c.global) }
}

struct Act;

impl HandleRequest for Act {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let plan = SCRIPT.with(|s| s.borrow_mut().take()).expect("a request without a script");
        SEEN.with(|s| s.borrow_mut().push(view(&e.context)));
        if plan.1 {
            perform(&plan.0, e.response);
            Ok(())
        } else {
            if let Some(s) = plan.0.status {
                e.response.set_status(StatusCode::from_u16(s));
            }
            for h in &plan.0.headers {
                h.apply(e.response.headers_mut());
            }
            Err(e)
        }
    }
    fn hyperlinks<'a>(&'a self, _: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> {
        vec![]
    }
}

/// Any of the routers, around the handler.
#[derive(Default)]
struct Any(Option<Box<dyn HandleRequest>>);

impl HandleRequest for Any {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        match self.0 {
            Some(ref h) => h.handle_request(e),
            None => Err(e),
        }
    }
    fn hyperlinks<'a>(&'a self, base: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> {
        self.0.as_ref().map_or(vec![], |h| h.hyperlinks(base))
    }
}

/// Sets the status back to what it was at first.
struct Fresh(Any);

impl HandleRequest for Fresh {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        e.response.set_status(StatusCode::Ok);
        self.0.handle_request(e)
    }
    fn hyperlinks<'a>(&'a self, base: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> {
        self.0.hyperlinks(base)
    }
}

impl ApplyContext for Any {
    fn apply_context(&mut self, _: BuilderContext) {}
    fn prepend_context(&mut self, _: BuilderContext) {}
}

impl FromHandler<Any> for Any {
    fn from_handler(_: BuilderContext, h: Any) -> Any {
        h
    }
}

/// Routers that all lead to the handler, for `/a`.
fn routers(src: &mut Src, case: &mut Case) -> Any {
    let mut h = Any(Some(Box::new(Act)));
    let mut layers = 0;
    let mut consumed = false;
    let mut text = String::from("handler");
    while src.more(layers, 2, 5) {
        layers += 1;
        let links = src.flip();
        let what = src.below(6);
        text = format!("{}({})", ["path", "after a tree", "primary", "secondary", "status", "variables"][what as usize], text);
        h = Any(Some(match what {
            0 if !consumed => {
                consumed = true;
                let mut t = TreeRouter::<Any>::new();
                t.build().on_path(*src.pick(&["a", ":x", "*", "/a/", "*all"]), h);
                t.find_hyperlinks = links;
                Box::new(t)
            }
            // Something that does not accept the request comes first.
            0 | 1 => {
                let mut t = TreeRouter::<Any>::new();
                t.build().on_path("*", Any(None));
                t.build().on_path("a", Any(None));
                t.build().on_path("b", Any(None));
                t.find_hyperlinks = links;
                Box::new(OrElse::new(t, Fresh(h)))
            }
            2 => Box::new(OrElse::new(h, Any(None))),
            3 => Box::new(OrElse::new(None::<Any>, Fresh(h))),
            4 => {
                let mut s = StatusRouter::<Any>::new();
                s.insert(StatusCode::Ok, h);
                s.insert(StatusCode::NotFound, Any(None));
                Box::new(s)
            }
            5 if consumed => Box::new(Variables::<Any>::from_handler(BuilderContext::new(), h)),
            _ => Box::new(h),
        }));
    }
    case.note(|| format!("routers {}", text));
    case.label_if(layers > 0, "through routers");
    h
}

struct Look;

fn look(at: &'static str, c: &FilterContext) {
    let s = shared(c.global);
    GLOBALS.with(|g| g.borrow_mut().push((at, s)));
}

impl ContextFilter for Look {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        look("context filter", &f);
        SEEN.with(|s| s.borrow_mut().push(view(c)));
        ContextAction::next()
    }
}

impl ResponseFilter for Look {
    fn begin(&self, f: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        look("begin", &f);
        (status, ResponseAction::next(None::<Data>))
    }
    fn write<'a>(&'a self, f: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        look("write", &f);
        ResponseAction::next(content)
    }
    fn end(&self, f: FilterContext) -> ResponseAction {
        look("end", &f);
        ResponseAction::next(None::<Data>)
    }
}

fn token(src: &mut Src) -> String {
    let n = src.range(1, 12);
    (0..n).map(|_| *src.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789!#$%&'*+-.^_`|~") as char).collect()
}

fn header(src: &mut Src) -> (String, Vec<u8>) {
    if src.chance(1, 10) {
        let (name, value) = *src.pick(&wire::NOISE);
        return (name.to_string(), value.as_bytes().to_vec());
    }
    let known = &["Host", "Accept", "Accept-Encoding", "Accept-Language", "Cookie", "User-Agent", "Referer", "Content-Type", "Date", "Server", "Authorization", "Range", "If-Modified-Since", "Origin", "Cache-Control", "X-Forwarded-For", "Content-Encoding", "Via"];
    let mut name = if src.flip() { token(src) } else { (*src.pick(known)).to_string() };
    if src.chance(1, 4) {
        name = name.chars().map(|c| if src.flip() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
    }
    match &name.to_ascii_lowercase()[..] {
        "content-length" | "transfer-encoding" | "expect" | "connection" => name.insert(0, 'X'),
        _ => {}
    }
    let mut value: Vec<u8> = match src.below(4) {
        0 => gen::bytes(src, 30),
        1 => gen::string(src, 30).into_bytes(),
        2 => (*src.pick(&["", "example.com", "a:1", "text/html; charset=utf-8", "*/*", "a, b", "gzip;q=0.5", "a=b; c=d", "Sun, 06 Nov 1994 08:49:37 GMT", "Basic YTpi", "bytes=0-5", "1"])).as_bytes().to_vec(),
        _ => {
            let n = gen::size(src, 2000);
            gen::blob(src, n)
        }
    };
    value.retain(|&b| b >= 0x20 && b != 0x7f || b == b'\t');
    let blank = |b: &u8| *b == b' ' || *b == b'\t';
    while value.first().map_or(false, blank) {
        value.remove(0);
    }
    while value.last().map_or(false, blank) {
        value.pop();
    }
    (name, value)
}

fn address(src: &mut Src) -> SocketAddr {
    let port = dict::int(src) as u16;
    if src.flip() {
        SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::from(dict::int(src) as u32), port))
    } else {
        let ip = Ipv6Addr::from((dict::int(src) as u128) << 64 | dict::int(src) as u128);
        let (flow, scope) = if src.flip() { (0, 0) } else { (dict::int(src) as u32, dict::int(src) as u32) };
        SocketAddr::V6(SocketAddrV6::new(ip, port, flow, scope))
    }
}

/// A media type as it's printed.
fn media_type(src: &mut Src) -> String {
    let name = |src: &mut Src| -> String {
        let n = src.range(1, 8);
        (0..n).map(|i| *src.pick(if i == 0 { &b"abcxyz019"[..] } else { &b"abcxyz019.+-_!#$&^"[..] }) as char).collect()
    };
    let mut t = if src.flip() { (*src.pick(&["text/html", "application/json", "image/png", "text/plain"])).to_string() } else { format!("{}/{}", name(src), name(src)) };
    let n = src.below(3);
    for _ in 0..n {
        if src.flip() {
            t.push_str("; charset=utf-8");
        } else {
            t = format!("{}; {}={}", t, name(src), name(src));
        }
    }
    t
}

/// Seconds since 1970, from a date as HTTP has it.
fn seconds(s: &str) -> Option<u64> {
    let p: Vec<&str> = s.split(' ').collect();
    if p.len() != 6 || s.len() != 29 || p[5] != "GMT" {
        return None;
    }
    let month = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"].iter().position(|m| *m == p[2])?;
    let (day, year): (u64, u64) = (p[1].parse().ok()?, p[3].parse().ok()?);
    let t: Vec<u64> = p[4].split(':').filter_map(|n| n.parse().ok()).collect();
    if t.len() != 3 || year < 1970 {
        return None;
    }
    let leap = |y: u64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let mut days: u64 = (1970..year).map(|y| if leap(y) { 366 } else { 365 }).sum();
    for m in 0..month {
        days += match m {
            1 => if leap(year) { 29 } else { 28 },
            3 | 5 | 8 | 10 => 30,
            _ => 31,
        };
    }
    days += day - 1;
    if ["Thu,", "Fri,", "Sat,", "Sun,", "Mon,", "Tue,", "Wed,"][(days % 7) as usize] != p[0] {
        return None;
    }
    Some(days * 86400 + t[0] * 3600 + t[1] * 60 + t[2])
}

fn now() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs()
}

fn requests(src: &mut Src, case: &mut Case) -> Res {
    let mut name: String = gen::string(src, 20).chars().filter(|c| !c.is_control()).collect();
    name = name.trim().to_string();
    let content_type = media_type(src);
    let keep_alive = src.flip();
    let shared = Shared(
        if src.flip() { Some(dict::int(src) as u32) } else { None },
        if src.flip() { Some(gen::string(src, 8)) } else { None },
        if src.flip() { Some(Word(gen::bytes(src, 8))) } else { None },
    );
    let mut global = Global::default();
    for i in src.below(3)..6 {
        match i % 3 {
            0 => if let Some(v) = shared.0 {
                global.insert(v);
            },
            1 => if let Some(ref v) = shared.1 {
                global.insert(v.clone());
            },
            _ => if let Some(ref v) = shared.2 {
                global.insert(v.clone());
            },
        }
    }
    let context_filters = src.below(3);
    let filters = if src.flip() { vec![] } else { Filter::list(src, 2) };
    let mut response_filters: Vec<Box<dyn ResponseFilter>> = filters.iter().map(|f| Box::new(Installed(f.clone())) as Box<dyn ResponseFilter>).collect();
    if src.flip() {
        response_filters.push(Box::new(Look));
    }
    case.note(|| format!("server {:?}, content type {:?}, keep-alive {}, {:?}, {} context filters, {:?}", name, content_type, keep_alive, shared, context_filters, filters));
    let router = routers(src, case);
    let server = Server {
        server: name.clone(),
        content_type: content_type.parse().expect("a media type"),
        keep_alive: if keep_alive { Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: 0 }) } else { None },
        threads: Some(3),
        global,
        context_filters: (0..context_filters).map(|_| Box::new(Look) as Box<dyn ContextFilter>).collect(),
        response_filters,
        ..Server::new(router)
    }
    .build();

    let mut n = 0;
    loop {
        request(src, case, &server, &name, &content_type, keep_alive, &shared, context_filters as usize, &filters)?;
        n += 1;
        if !src.more(n, 2, 4) {
            break;
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn request(src: &mut Src, case: &mut Case, server: &rustful::server::ServerInstance<Any>, name: &str, content_type: &str, keep_alive: bool, shared: &Shared, context_filters: usize, filters: &[Filter]) -> Res {
    // What the client sends.
    let method = match src.below(3) {
        0 => {
            let t = token(src);
            match &t[..] {
                "HEAD" | "CONNECT" => "FOO".to_string(),
                _ => t,
            }
        }
        _ => (*src.pick(&["GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "get", "Post"])).to_string(),
    };
    let old = src.chance(1, 6);
    let addr = address(src);
    let mut sent: Vec<(String, Vec<u8>)> = vec![];
    while src.more(sent.len(), 4, 40) {
        let mut h = header(src);
        if src.chance(1, 5) && !sent.is_empty() {
            h.0 = src.pick(&sent).0.to_ascii_lowercase();
        }
        sent.push(h);
    }
    let mut data = format!("{} /a HTTP/1.{}\r\n", method, if old { 0 } else { 1 }).into_bytes();
    let mut want: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
    for (n, v) in &sent {
        data.extend(n.bytes());
        data.push(b':');
        let space = match src.weighted(&[6, 1, 1, 1]) {
            0 => " ",
            1 => "",
            2 => "  ",
            _ => "\t",
        };
        data.extend(space.bytes());
        data.extend(v);
        data.extend(match src.weighted(&[8, 1, 1]) {
            0 => &b"\r\n"[..],
            1 => b" \r\n",
            _ => b"\t \r\n",
        });
        want.entry(n.to_ascii_lowercase()).or_default().push(v.clone());
    }
    if src.flip() {
        let n = gen::size(src, 100);
        data.extend(format!("Content-Length: {}\r\n\r\n", n).bytes());
        data.extend(gen::blob(src, n));
        want.insert("content-length".into(), vec![n.to_string().into_bytes()]);
    } else {
        data.extend(b"\r\n");
    }
    // What the server makes of it.
    let accepted = src.chance(3, 4);
    let mut script = Script { status: status(src), headers: HOp::list(src, 1, 3), style: if accepted { style(src, false) } else { Style::Drop } };
    if src.chance(1, 3) {
        let what = (*src.pick(&["Date", "Server", "Content-Type", "date", "SERVER"])).to_string();
        script.headers.push(if src.flip() { HOp::Remove(what) } else { HOp::Set(what, vec![(*src.pick(&["Thu, 01 Jan 1970 00:00:00 GMT", "something", ""])).to_string()]) });
    }
    let reads = wire::read_sizes(src);
    case.note(|| format!("{} from {}, HTTP/1.{}, {}; reads {:?}\n  {} {:?}", method, addr, if old { 0 } else { 1 }, sent.iter().map(|h| format!("{}: {}", h.0, gen::show(&h.1))).collect::<Vec<_>>().join(", "), reads, if accepted { "accepted" } else { "rejected" }, script));
    case.nontrivial_if(sent.len() > 1);
    case.label(if accepted { "accepted" } else { "rejected" });
    case.label_if(want.values().any(|v| v.len() > 1), "repeated header");
    SCRIPT.with(|s| *s.borrow_mut() = Some(Plan(script.clone(), accepted)));
    SEEN.with(|s| s.borrow_mut().clear());
    GLOBALS.with(|s| s.borrow_mut().clear());
    take_log();
    let mut stream = wire::MockStream::new(data, addr);
    stream.0.lock().unwrap().reads = reads;
    let mut sink = wire::Sink::default();
    let before = now();
    let talk = wire::converse(server, &mut stream, &mut sink, keep_alive);
    let after = now();
    ensure_eq!(talk.requests, 1, "requests", "requests that were read");
    let seen = SEEN.with(|s| s.borrow().clone());
    ensure_eq!(seen.len(), context_filters + 1, "requests", "looks at the request");
    let wanted = Seen { method, version: if old { "HTTP/1.0" } else { "HTTP/1.1" }.into(), address: addr, headers: want, global: shared.clone() };
    for s in &seen {
        ensure_eq!(s.method, wanted.method, "method", "the method");
        ensure_eq!(s.version, wanted.version, "version", "the version");
        ensure_eq!(s.address, wanted.address, "address", "the address");
        ensure_eq!(s.headers, wanted.headers, "headers", "the request headers");
        ensure_eq!(s.global, wanted.global, "global", "the global data in the context");
    }
    for (at, s) in GLOBALS.with(|s| s.borrow().clone()) {
        ensure!(s == *shared, "global", "the global data in {}: {:?}", at, s);
    }
    // The response.
    let mut defaults = defaults(name, content_type);
    defaults.insert("date".into(), vec!["<now>".into()]);
    if !accepted {
        script.status = match script.status {
            None | Some(200) => Some(404),
            s => s,
        };
    }
    let mut e = expect(filters, &script, &defaults);
    let reply = match wire::parse_reply(&sink.out, &mut 0) {
        Ok(r) => r,
        Err(m) => return fail("malformed", format!("{}\noutput: {}", m, gen::show(&sink.out[..sink.out.len().min(3000)]))),
    };
    if let Some(mut want) = e.headers.take() {
        let mut got = plain_headers(&reply);
        // A response without a date gets one.
        want.retain(|_, v| !v.is_empty());
        want.entry("date".into()).or_insert_with(|| vec!["<now>".into()]);
        for v in want.values_mut() {
            if v.len() == 1 && v[0] == "<now>" {
                let d = got.get_mut("date").map(|d| std::mem::replace(d, vec!["<now>".into()])).unwrap_or_default();
                ensure_eq!(d.len(), 1, "date", "dates");
                let t = seconds(&d[0]);
                ensure!(t.map_or(false, |t| t >= before && t <= after), "date", "the date is {:?}, the response was made between {} and {} s after 1970", d[0], before, after);
            }
        }
        for n in &["content-length", "transfer-encoding", "connection"] {
            want.remove(*n);
        }
        ensure_eq!(got, want, "response headers", "the headers of the response");
        case.label("headers checked");
    }
    ensure!(e.status.map_or(true, |s| s == reply.status), "status", "the status is {}, expected {:?}", reply.status, e.status);
    if !accepted && !e.failed {
        ensure!(e.body.as_ref().map_or(true, |b| *b == reply.body), "body", "the body of a rejected request is {}, expected {:?}", gen::show(&reply.body), e.body);
    }
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Conversions of addresses.
fn hosts(src: &mut Src, case: &mut Case) -> Res {
    let addr = address(src);
    let port = dict::int(src) as u16;
    case.note(|| format!("{:?}, port {}", addr, port));
    case.nontrivial_if(addr.port() != port);
    let from: Host = addr.into();
    ensure_eq!(SocketAddr::from(from), addr, "address", "the address of a host");
    let mut all: Vec<(Host, SocketAddr)> = vec![(from, addr)];
    let any = SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(0, 0, 0, 0), port));
    all.push((port.into(), any));
    all.push((Host::any_v4(port), any));
    match addr {
        SocketAddr::V4(a) => {
            all.push((a.into(), addr));
            all.push(((*a.ip(), a.port()).into(), addr));
        }
        SocketAddr::V6(a) => all.push((a.into(), addr)),
    }
    let text = addr.to_string();
    let parsed = text.parse::<SocketAddr>();
    match (text.parse::<Host>(), parsed) {
        (Ok(h), Ok(a)) => all.push((h, a)),
        (Err(_), Err(_)) => {}
        (h, a) => return fail("parse", format!("{:?} is parsed as {:?}, as an address it's {:?}", text, h, a)),
    }
    for &(h, a) in &all {
        ensure_eq!(SocketAddr::from(h), a, "address", "the address of a host");
        let mut moved = h;
        moved.port(port);
        let mut want = a;
        want.set_port(port);
        ensure_eq!(SocketAddr::from(moved), want, "port", "the address after changing the port");
        let copy = h;
        ensure!(copy == h && hash(&copy) == hash(&h), "equality", "{:?} is not equal to its copy", h);
        for &(g, b) in &all {
            ensure_eq!(h == g, a == b, "equality", "whether hosts are equal");
            ensure!(a != b || hash(&h) == hash(&g), "equality", "hashes of {:?} and {:?} differ", h, g);
        }
    }
    // Other text.
    let mut other: Vec<char> = text.chars().collect();
    let n = src.range(0, 2);
    for _ in 0..n {
        let i = src.idx(other.len() + 1);
        match src.below(3) {
            0 => other.insert(i, *src.pick(&['0', '9', ':', '.', '[', ']', ' ', 'f', '%', '+', '-'])),
            1 => if i < other.len() {
                other.remove(i);
            },
            _ => other.truncate(i),
        }
    }
    let other: String = if src.chance(1, 4) { gen::string(src, 20) } else { other.into_iter().collect() };
    ensure_eq!(other.parse::<Host>().map(SocketAddr::from).ok(), other.parse::<SocketAddr>().ok(), "parse", "the address that {:?} is parsed as", other);
    Ok(())
}

#[derive(Clone)]
struct Serve;

impl Handler for Serve {
    fn handle(&self, c: Context, r: Response) {
        let text = format!("{} {} {:?}", c.method, c.address, c.global.get::<u64>());
        r.send(text);
    }
}

/// Stands in for an encrypted stream: every third handshake fails.
#[derive(Clone)]
struct Plain(Arc<AtomicUsize>, usize);

impl rustful::net::SslServer for Plain {
    type Stream = rustful::net::HttpStream;
    fn wrap_server(&self, stream: rustful::net::HttpStream) -> Result<rustful::net::HttpStream, hyper::Error> {
        let n = self.0.fetch_add(1, Ordering::SeqCst);
        if self.1 > 0 && n % self.1 == self.1 - 1 {
            Err(hyper::Error::Ssl("injected".into()))
        } else {
            Ok(stream)
        }
    }
}

/// Whether there is a free address, and which: of the whole loopback network,
/// so that they're not reused.
fn free(src: &mut Src) -> Option<SocketAddr> {
    let ip = Ipv4Addr::new(127, src.range(1, 254) as u8, src.below(256) as u8, src.range(1, 254) as u8);
    let a: SocketAddr = if src.chance(1, 4) {
        "[::1]:0".parse().unwrap()
    } else {
        SocketAddr::V4(SocketAddrV4::new(ip, 0))
    };
    TcpListener::bind(a).ok().and_then(|l| l.local_addr().ok())
}

/// Servers listen where they are told to.
fn listening(src: &mut Src, case: &mut Case) -> Res {
    let addr = match free(src) {
        Some(a) => a,
        None => {
            case.label("no free address");
            return Ok(());
        }
    };
    let form = src.below(6);
    let mut bound = addr;
    let host: Host = match (form, addr) {
        (0, _) => addr.into(),
        (1, _) => addr.to_string().parse().unwrap(),
        (2, SocketAddr::V4(a)) => a.into(),
        (2, SocketAddr::V6(a)) => a.into(),
        (3, SocketAddr::V4(a)) => (*a.ip(), a.port()).into(),
        (4, SocketAddr::V4(a)) => {
            bound = SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(0, 0, 0, 0), a.port()));
            if src.flip() { a.port().into() } else { Host::any_v4(a.port()) }
        }
        _ => {
            let mut h: Host = SocketAddr::new(addr.ip(), 1).into();
            h.port(addr.port());
            h
        }
    };
    let ssl = src.flip();
    let every = if src.flip() { 0 } else { src.range(2, 4) };
    let value = src.u64();
    let wraps = Arc::new(AtomicUsize::new(0));
    case.note(|| format!("{:?} in form {}, ssl {} (failing {}), value {}", addr, form, ssl, every, value));
    let make = || Server { host, threads: Some(1), global: Box::new(value).into(), ..Server::new(Serve) };
    let run = |wraps: &Arc<AtomicUsize>| if ssl { make().run_https(Plain(wraps.clone(), every)) } else { make().run() };
    let mut l = match run(&wraps) {
        Ok(l) => l,
        Err(e) => {
            // Someone else may have taken it.
            case.label("address in use");
            ensure!(TcpListener::bind(bound).is_err(), "listening", "the server can't be started: {}", e);
            return Ok(());
        }
    };
    let at = l.socket;
    let _ = l.close();
    std::mem::forget(l);
    case.nontrivial();
    ensure_eq!(at, bound, "listening", "the address of the server");
    // (Nothing listens there twice.)
    ensure!(run(&Arc::new(AtomicUsize::new(0))).map(std::mem::forget).is_err(), "listening", "two servers listen on {}", bound);
    let n = src.range(1, 6);
    for i in 0..n {
        let mut s = match TcpStream::connect(addr) {
            Ok(s) => s,
            Err(e) => return fail("listening", format!("nothing listens on {}: {}", addr, e)),
        };
        let _ = s.set_read_timeout(Some(Duration::from_secs(60)));
        let local = s.local_addr().unwrap();
        let _ = s.write_all(b"PUT / HTTP/1.1\r\nHost: a\r\n\r\n");
        let mut out = vec![];
        let end = s.read_to_end(&mut out);
        if ssl && every > 0 && i % every == every - 1 {
            ensure!(out.is_empty(), "ssl", "there's a response without a handshake: {}", gen::show(&out));
            case.label("failed handshake");
            continue;
        }
        if let Err(e) = end {
            return fail("no answer", format!("{}", e));
        }
        let r = match wire::parse_replies(&out) {
            Ok(ref v) if v.len() == 1 => v[0].clone(),
            other => return fail("no answer", format!("{:?}", other)),
        };
        ensure_eq!(String::from_utf8_lossy(&r.body).into_owned(), format!("PUT {} {:?}", local, Some(value)), "context", "what the handler sees");
    }
    ensure_eq!(wraps.load(Ordering::SeqCst), if ssl { n } else { 0 }, "ssl", "handshakes");
    case.label(if ssl { "ssl" } else { "plain" });
    Ok(())
}

fn main() {
    runner::main("P23", "a request with at least two headers; two different ports; a server that was started", &[
        Prop { name: "requests", quick: 600_000, thorough: 6_000_000, run: requests },
        Prop { name: "hosts", quick: 800_000, thorough: 10_000_000, run: hosts },
        Prop { name: "listening", quick: 300, thorough: 3_000, run: listening },
    ]);
}
