//! P10: every response is one well-formed HTTP message with the right body.
use std::cell::RefCell;
use std::collections::VecDeque;

use pbt::resp::*;
use pbt::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, Handler, Response, Server, StatusCode};

thread_local! {
    static SCRIPTS: RefCell<VecDeque<Script>> = RefCell::new(VecDeque::new());
    static DID: RefCell<Vec<Vec<Did>>> = RefCell::new(vec![]);
    static SERVERS: [ServerInstance<Act>; 3] = [server(0), server(1), server(2)];
}

struct Act;

impl Handler for Act {
    fn handle(&self, _: Context, r: Response) {
        let s = SCRIPTS.with(|s| s.borrow_mut().pop_front()).expect("more requests than scripts");
        let d = perform(&s, r);
        DID.with(|v| v.borrow_mut().push(d));
    }
}

/// A filter that changes nothing.
struct Idle;

impl ResponseFilter for Idle {
    fn begin(&self, _: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::Next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::Next(None)
    }
}

fn server(filters: usize) -> ServerInstance<Act> {
    Server {
        keep_alive: Some(KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: 0 }),
        threads: Some(10),
        server: "test".into(),
        response_filters: (0..filters).map(|_| Box::new(Idle) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(Act)
    }
    .build()
}

fn script(src: &mut Src) -> Script {
    let status = status(src);
    let mut headers = HOp::list(src, 1, 4);
    if src.chance(1, 8) {
        // Whatever length is set by hand, the real one is sent.
        headers.push(HOp::Set((*src.pick(&["Content-Length", "content-length"])).into(), vec![(*src.pick(&["0", "5", "1000"])).into()]));
    }
    if src.chance(1, 16) {
        headers.push(HOp::Set("X-Split".into(), vec!["a\r\nX-Injected: b\r\n\r\nHTTP/1.1 200 OK".into()]));
    }
    Script { status, headers, style: style(src, false) }
}

fn connection(src: &mut Src, case: &mut Case) -> Res {
    let mut scripts = vec![script(src)];
    while src.more(scripts.len(), 3, 8) {
        scripts.push(script(src));
    }
    let filters = src.below(3) as usize;
    let reads = wire::read_sizes(src);
    let mut data = vec![];
    let mut heads = vec![];
    let mut versions = vec![];
    for i in 0..scripts.len() {
        let method = *src.pick(&["GET", "POST", "DELETE", "FOO", "GET", "HEAD", "head"]);
        heads.push(method == "HEAD");
        let mut r = wire::Req::new(method, &format!("/{}", i)).more(src);
        // (Older clients don't know chunks.)
        let old = i + 1 == scripts.len() && src.chance(1, 8) && (method == "HEAD" || !matches!(scripts[i].style, Style::Chunked(..)));
        if old {
            r.version = "HTTP/1.0";
        }
        versions.push(r.version);
        data.extend(r.bytes());
    }
    case.note(|| format!("{} idle filters, network reads {:?}\n{:?}", filters, reads, scripts));
    case.nontrivial_if(scripts.len() > 1);
    SCRIPTS.with(|s| *s.borrow_mut() = scripts.iter().cloned().collect());
    DID.with(|v| v.borrow_mut().clear());
    let mut stream = wire::MockStream::new(data, wire::addr());
    stream.0.lock().unwrap().reads = reads;
    let mut sink = wire::Sink { short: if src.chance(1, 4) { Some(1 + gen::size(src, 50)) } else { None }, ..wire::Sink::default() };
    let talk = SERVERS.with(|s| wire::converse(&s[filters], &mut stream, &mut sink, true));
    ensure_eq!(talk.requests, scripts.len(), "requests", "requests that were handled");
    let mut pos = 0;
    let did = DID.with(|v| v.borrow().clone());
    ensure_eq!(did.len(), scripts.len(), "requests", "requests that reached the handler");
    let none = [];
    for (i, s) in scripts.iter().enumerate() {
        let at = format!("response {} of {}", i + 1, scripts.len());
        let mut e = expect(&none, s, &defaults("test", "text/html; charset=utf-8"));
        if let Some(h) = e.headers.as_mut() {
            // Line breaks in values are replaced.
            for v in h.values_mut().flat_map(|v| v.iter_mut()) {
                *v = v.replace(|c| c == '\r' || c == '\n', " ");
            }
        }
        let reply = match wire::parse_reply_to(&sink.out, &mut pos, heads[i]) {
            Ok(r) => r,
            Err(m) => return fail("malformed", format!("{}: {}\noutput: {}", at, m, gen::show(&sink.out[..sink.out.len().min(3000)]))),
        };
        ensure!(reply.version == versions[i], "version", "{}: version {}", at, reply.version);
        ensure!(!reply.closes() || versions[i] == "HTTP/1.0", "closes", "{}: the connection is closed", at);
        let mut reply = reply;
        if versions[i] == "HTTP/1.0" {
            // (Added by hyper.)
            reply.headers.retain(|h| !(h.0 == "Connection" && h.1 == b"close"));
        }
        if heads[i] {
            // Like any other response, except for the body.
            case.label("HEAD request");
            case.label_if(versions[i] == "HTTP/1.0", "old HEAD request");
            if reply.framing == wire::Framing::Sized {
                let n = e.body.as_ref().map_or(0, |b| b.len());
                ensure_eq!(reply.header("Content-Length"), Some(n.to_string()), "length", "{}: the length of the body that's left out", at);
            }
            e.body = e.body.map(|_| vec![]);
        }
        check(&reply, &e, &at)?;
        check_results(&did[i], &e, &at)?;
        case.label_if(no_body(reply.status), "no body");
        case.label(match s.style {
            Style::Drop => "dropped",
            Style::Chunked(..) => "chunked",
            Style::Raw(..) => "declared length",
            _ => "sent",
        });
    }
    ensure!(pos == sink.out.len(), "extra output", "{} bytes follow the last response: {}", sink.out.len() - pos, gen::show(&sink.out[pos..]));
    Ok(())
}

/// Any declared length is what's sent, even if the content never comes.
fn declared(src: &mut Src, case: &mut Case) -> Res {
    let mut ops = ops(src, false);
    ops.truncate(3);
    let all: Vec<u8> = ops.iter().flat_map(|o| o.bytes()).collect();
    let extra = match src.weighted(&[1, 3, 2]) {
        0 => 0,
        1 => {
            let k = src.range(0, 62);
            (1u64 << k) + src.below(1 << k.min(20)) - src.below(2)
        }
        _ => (*src.pick(&[u64::max_value(), u32::max_value() as u64, i32::max_value() as u64, i64::max_value() as u64])) - src.below(2),
    };
    let len = extra.saturating_add(all.len() as u64);
    let status = *src.pick(&[200, 201, 404, 500]);
    let s = Script { status: Some(status), headers: HOp::list(src, 1, 4), style: Style::Raw(len, ops, src.flip()) };
    case.note(|| format!("{:?}", s));
    case.nontrivial_if(len > u32::max_value() as u64);
    let want = expect(&[], &Script { style: Style::Drop, ..s.clone() }, &defaults("test", "text/html; charset=utf-8"));
    SCRIPTS.with(|v| *v.borrow_mut() = Some(s.clone()).into_iter().collect());
    DID.with(|v| v.borrow_mut().clear());
    let (out, talk) = SERVERS.with(|v| wire::send(&v[src.idx(3)], wire::Req::new("GET", "/").bytes(), true));
    ensure_eq!(talk.requests, 1, "requests", "requests that were handled");
    for d in DID.with(|v| v.borrow()[0].clone()) {
        ensure!(matches!(d, Did::Ok | Did::Took(_) | Did::Silent), "result", "an operation reported {:?}", d);
    }
    let head = match out.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(p) => p,
        None => return fail("malformed", format!("no end of the headers: {}", gen::show(&out[..out.len().min(3000)]))),
    };
    let text = String::from_utf8_lossy(&out[..head]).into_owned();
    let mut lines = text.split("\r\n");
    ensure!(lines.next().unwrap_or("").starts_with(&format!("HTTP/1.1 {} ", status)), "status", "the status line of: {}", text);
    let mut headers = HMap::new();
    for l in lines {
        let mut p = l.splitn(2, ": ");
        let name = p.next().unwrap_or("").to_ascii_lowercase();
        headers.entry(name).or_default().push(p.next().unwrap_or("").to_string());
    }
    headers.remove("date");
    let mut wanted: HMap = want.headers.unwrap();
    wanted.remove("date");
    wanted.insert("content-length".into(), vec![len.to_string()]);
    wanted.retain(|_, v| !v.is_empty());
    ensure_eq!(headers.get("content-length"), wanted.get("content-length"), "length", "the declared length");
    ensure_eq!(headers.len(), wanted.len(), "headers", "the number of headers: {:?}, {:?}", headers, wanted);
    ensure_eq!(gen::show(&out[head + 4..]), gen::show(&all), "body", "what follows the headers");
    Ok(())
}

fn main() {
    runner::main("P10", "a kept-alive connection with at least two requests, answered in generated ways; a declared length that needs more than 32 bits", &[
        Prop { name: "connection", quick: 2_400_000, thorough: 25_000_000, run: connection },
        Prop { name: "declared", quick: 400_000, thorough: 4_000_000, run: declared },
    ]);
}
