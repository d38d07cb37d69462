//! P31: mocked requests and responses behave as real ones, and replacing
//! the hyperlinks replaces nothing else.
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::sync::Arc;

use pbt::resp::*;
use pbt::routes::*;
use pbt::*;
use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::context::{MaybeUtf8Owned, Parameters, UriPath};
use rustful::filter::{ContextAction, ContextFilter, FilterContext};
use rustful::handler::{Environment, HandleRequest};
use rustful::header::Headers;
use rustful::server::Global;
use rustful::{Context, DefaultRouter, Handler, HttpVersion, Method, OrElse, Response, Server, StatusCode, StatusRouter};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Raw = BTreeMap<String, Vec<Vec<u8>>>;

fn map(p: &Parameters) -> Map {
    p.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}

fn raw(h: &Headers) -> Raw {
    h.iter().map(|v| (v.name().to_ascii_lowercase(), h.get_raw(v.name()).map(|v| v.to_vec()).unwrap_or_default())).collect()
}

/// Everything that's seen of a context, but the body.
#[derive(Clone, Debug, PartialEq)]
struct Seen {
    method: String,
    version: String,
    path: Option<Vec<u8>>,
    headers: Raw,
    links: Vec<OwnedLink>,
    variables: Map,
    query: Map,
    fragment: Option<Vec<u8>>,
    global: (Option<u32>, Option<String>),
    address: SocketAddr,
}

fn see(c: &Context) -> Seen {
    Seen {
        method: c.method.to_string(),
        version: c.http_version.to_string(),
        path: c.uri_path.as_path().map(|p| p.as_bytes().to_vec()),
        headers: raw(&c.headers),
        links: c.hyperlinks.iter().map(own_link).collect(),
        variables: map(&c.variables),
        query: map(&c.query),
        fragment: c.fragment.as_ref().map(|f| f.as_bytes().to_vec()),
        global: (c.global.get().cloned(), c.global.get().cloned()),
        address: c.address,
    }
}

/// What's seen of a response that hasn't been sent.
#[derive(Clone, Debug, PartialEq)]
struct Unsent {
    status: u16,
    headers: Raw,
    stored: Option<Note>,
}

#[derive(Clone, Debug, PartialEq)]
struct Note(u64);

fn unsent(r: &Response) -> Unsent {
    Unsent { status: r.status().to_u16(), headers: raw(r.headers()), stored: r.filter_storage().get::<Note>().cloned() }
}

fn names_of(h: &[HOp]) -> Raw {
    let mut m = HMap::new();
    for op in h {
        op.model(&mut m);
    }
    m.into_iter().map(|(k, v)| (k, v.into_iter().map(String::into_bytes).collect())).collect()
}

// ---------------------------------------------------------------------
// The views of a path

fn text(src: &mut Src) -> String {
    match src.weighted(&[3, 3, 2, 2]) {
        0 => format!("/{}", gen::ident(src)),
        1 => gen::string(src, 40),
        2 => (*src.pick(&["", "*", "/", "//", " /a ", "/*", "a/", "%2a", "/\u{0}", "\t", "/a?b#c", "/Å/", "http://a/b"])).to_string(),
        _ => {
            let n = src.range(1, 6);
            (0..n).map(|_| *src.pick(&["/", "a", " ", "%", "?", "#", "*", "é", "\u{0}", ".", "..", "\\", "%41", "A"])).collect()
        }
    }
}

fn check_path(p: &UriPath, want: Option<&[u8]>) -> Res {
    ensure_eq!(p.as_path().map(|p| p.as_bytes().to_vec()), want.map(|w| w.to_vec()), "as_path", "the bytes of the path");
    ensure_eq!(p.as_utf8_path(), want.and_then(|w| std::str::from_utf8(w).ok()), "as_utf8_path", "the path as text");
    let lossy = want.map(String::from_utf8_lossy);
    ensure_eq!(p.as_utf8_path_lossy().map(Cow::into_owned), lossy.clone().map(Cow::into_owned), "lossy", "the path as lossy text");
    ensure_eq!(p.is_path(), want.is_some(), "is_path", "whether it's a path");
    ensure_eq!(p.is_asterisk(), want.is_none(), "is_asterisk", "whether it's an asterisk");
    ensure_eq!(p.to_string(), lossy.map_or("*".to_string(), Cow::into_owned), "display", "the displayed path");
    ensure!(*p == p.clone(), "clone", "a clone is not equal");
    Ok(())
}

fn paths(src: &mut Src, case: &mut Case) -> Res {
    let mut all: Vec<Option<Vec<u8>>> = vec![];
    while src.more(all.len(), 3, 6) {
        let p = if !all.is_empty() && src.chance(1, 4) {
            src.pick(&all).clone()
        } else {
            match src.weighted(&[1, 3, 4]) {
                0 => None,
                1 => Some(text(src).into_bytes()),
                _ => Some(gen::bytes(src, 60)),
            }
        };
        all.push(p);
    }
    let made: Vec<UriPath> = all
        .iter()
        .map(|p| match *p {
            None => UriPath::Asterisk,
            Some(ref b) => UriPath::Path(match std::str::from_utf8(b) {
                Ok(s) if src.flip() => s.to_string().into(),
                _ => MaybeUtf8Owned::from(b.clone()),
            }),
        })
        .collect();
    case.note(|| format!("{:?}", all.iter().map(|p| p.as_ref().map(|p| gen::show(p))).collect::<Vec<_>>()));
    case.nontrivial_if(all.iter().any(|p| p.as_ref().map_or(false, |b| std::str::from_utf8(b).is_err())));
    case.label_if(all.contains(&None), "asterisk");
    for (p, want) in made.iter().zip(&all) {
        check_path(p, want.as_ref().map(|w| &w[..]))?;
    }
    for (p, a) in made.iter().zip(&all) {
        for (q, b) in made.iter().zip(&all) {
            ensure_eq!(p == q, a == b, "equality", "equality of {:?} and {:?}", p, q);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------
// Contexts

fn header_list(src: &mut Src) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    while src.more(v.len(), 2, 6) {
        let name = *src.pick(&["Host", "Accept", "X-A", "X-B", "Content-Type", "User-Agent", "Cookie", "Referer", "X-Forwarded-For", "Expect-CT", "content-length"]);
        if v.iter().any(|h| h.0.eq_ignore_ascii_case(name)) {
            continue;
        }
        let value = match name {
            "Host" => "example.com:81".to_string(),
            "content-length" => "0".to_string(),
            "Content-Type" => (*src.pick(&["text/plain", "multipart/form-data; boundary=x", "multipart/form-data; boundary=", "application/x-www-form-urlencoded", "nonsense"])).to_string(),
            _ => gen::string(src, 12).chars().filter(|c| !c.is_control()).collect::<String>().trim().to_string(),
        };
        v.push((name.to_string(), value));
    }
    v
}

fn headers(v: &[(String, String)]) -> Headers {
    let mut h = Headers::new();
    for &(ref n, ref v) in v {
        h.append_raw(n.clone(), v.as_bytes().to_vec());
    }
    h
}

fn some_global(src: &mut Src) -> (Global, (Option<u32>, Option<String>)) {
    let n = src.range(1, 1000) as u32;
    match src.below(4) {
        0 => (Global::default(), (None, None)),
        1 => (Box::new(n).into(), (Some(n), None)),
        2 => (Box::new(n.to_string()).into(), (None, Some(n.to_string()))),
        _ => ((n, n.to_string()).into(), (Some(n), Some(n.to_string()))),
    }
}

fn context(src: &mut Src, case: &mut Case) -> Res {
    let method = routes::method(src);
    let path = text(src);
    let list = header_list(src);
    let (global, values) = some_global(src);
    case.note(|| format!("{} {:?}, {:?}, global {:?}", method, path, list, values));
    case.nontrivial_if(!path.is_empty() && !list.is_empty());
    let h = headers(&list);
    let mut c = if src.flip() {
        Context::mock(method.clone(), path.clone(), h, &global)
    } else {
        Context::mock(method.clone(), &path[..], h, &global)
    };
    let want = Seen {
        method: method.to_string(),
        version: HttpVersion::Http11.to_string(),
        path: Some(path.clone().into_bytes()),
        headers: raw(&headers(&list)),
        links: vec![],
        variables: Map::new(),
        query: Map::new(),
        fragment: None,
        global: values,
        address: "0.0.0.0:80".parse().unwrap(),
    };
    ensure_eq!(see(&c), want, "mock", "the mocked context");
    ensure!(c.method == method, "method", "the method is {:?}", c.method);
    ensure!(c.http_version == HttpVersion::Http11, "version", "the version is {:?}", c.http_version);
    ensure!(std::ptr::eq(c.global, &global), "global", "the global values are not the given ones");
    check_path(&c.uri_path, Some(path.as_bytes()))?;
    // The body is empty, for as long as it's read.
    for _ in 0..src.below(4) {
        match src.below(4) {
            0 => {
                let mut b = vec![1u8; gen::size(src, 30)];
                let n = b.len();
                ensure!(matches!(c.body.read(&mut b), Ok(0)), "body", "something was read from the body");
                ensure!(b == vec![1; n], "body", "the buffer was written to");
            }
            1 => {
                let mut s = String::new();
                ensure!(matches!(c.body.read_to_string(&mut s), Ok(0)) && s.is_empty(), "body", "the body is {:?}", s);
            }
            2 => {
                let p = c.body.read_query_body();
                ensure!(p.as_ref().map(|p| map(p).is_empty()).unwrap_or(false), "form", "the body has parameters: {:?}", p.map(|p| map(&p)));
            }
            _ => ensure!(c.body.as_multipart().is_none(), "multipart", "the body is a multipart body"),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------
// Requests to routers

struct Shared(Arc<dyn HandleRequest>);

impl HandleRequest for Shared {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        self.0.handle_request(e)
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(base)
    }
}

/// Takes note of what it's given, and of what is handed back by the part
/// inside of it.
struct Watch(Arc<dyn HandleRequest>);

thread_local! {
    static WATCHED: RefCell<Vec<(Seen, Map)>> = RefCell::new(vec![]);
    static BACK: RefCell<Vec<(Seen, u16)>> = RefCell::new(vec![]);
}

/// What can be told apart in a mocked request.
fn comparable(c: &Context) -> Seen {
    let mut s = see(c);
    s.address = wire::addr();
    s
}

impl HandleRequest for Watch {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let s = comparable(&e.context);
        let body = e.context.body.read_query_body().map(|p| map(&p)).expect("reading the body");
        WATCHED.with(|w| w.borrow_mut().push((s, body)));
        self.0.handle_request(e).map_err(|e| {
            BACK.with(|b| b.borrow_mut().push((comparable(&e.context), e.response.status().to_u16())));
            e
        })
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(base)
    }
}

#[derive(Debug, PartialEq)]
struct Outcome {
    hits: Vec<Hit>,
    watched: Vec<(Seen, Map)>,
    back: Vec<(Seen, u16)>,
    accepted: bool,
    /// If it wasn't accepted.
    status: u16,
}

fn collect(accepted: bool, status: u16) -> Outcome {
    Outcome {
        hits: take_hits(),
        watched: WATCHED.with(|w| std::mem::take(&mut *w.borrow_mut())),
        back: BACK.with(|w| std::mem::take(&mut *w.borrow_mut())),
        accepted,
        status: if accepted { 0 } else { status },
    }
}

fn requests(src: &mut Src, case: &mut Case) -> Res {
    let t = table(src, 5, 14);
    let links = src.flip();
    let (router, how): (DefaultRouter<Rec>, String) = build::some_default_router(src, &t.routes, links)?;
    let mut inner: Arc<dyn HandleRequest> = Arc::new(router);
    let mut text = how;
    if src.chance(1, 3) {
        let mut s = StatusRouter::<Rec>::new();
        if src.flip() {
            s.build().on(StatusCode::NotFound, Rec(900));
        }
        if src.flip() {
            s.build().on(StatusCode::MethodNotAllowed, Rec(901));
        }
        if src.flip() {
            inner = Arc::new(OrElse { primary: Shared(inner), secondary: s });
            text = format!("({}) or by status", text);
        }
    }
    let router: Arc<dyn HandleRequest> = Arc::new(Watch(inner));
    case.note(|| format!("{}\nlinks {}, {}", t.describe(), links, text));
    let (global, _) = some_global(src);
    let (global, server_global) = {
        // Twice the same, since one is moved.
        let v = (global.get::<u32>().cloned(), global.get::<String>().cloned());
        let again = || -> Global {
            match v.clone() {
                (None, None) => Global::default(),
                (Some(a), None) => Box::new(a).into(),
                (None, Some(b)) => Box::new(b).into(),
                (Some(a), Some(b)) => (a, b).into(),
            }
        };
        (again(), again())
    };
    let server = Server { global: server_global, ..Server::new(Shared(router.clone())) }.build();
    let patterns: Vec<Vec<Seg>> = t.routes.iter().map(|r| r.segs.clone()).collect();
    let n = src.range(1, 6);
    for _ in 0..n {
        let method = request_method(src, &t.routes);
        let parts = request_segments(src, &t.alpha, &patterns);
        let path = match String::from_utf8(join(src, &parts)) {
            Ok(p) => p,
            Err(_) => continue,
        };
        let path = if path.starts_with('/') { path } else { format!("/{}", path) };
        let list = header_list(src);
        case.note(|| format!("{} {:?} {:?}", method, path, list));

        let target = format!("/{}", gen::percent_encode(src, &path.as_bytes()[1..], |b| gen::unreserved(b) || b == b'/'));
        let mut req = wire::Req::new(method.as_ref(), &target);
        for &(ref n, ref v) in &list {
            req = req.header(n, v);
        }
        if list.iter().any(|h| h.0 == "content-length") || req.method == "POST" || req.method == "PUT" {
            // (It's added to these by itself.)
            req.headers.retain(|h| h.0 != "content-length");
            req.method = "POST".into();
        }
        let method: Method = req.method.parse().unwrap();
        collect(true, 0);
        let reply = match wire::one_reply(&server, req.bytes()) {
            Ok(Some(r)) => r,
            Ok(None) => return fail("not parsed", format!("the request {:?} did not reach the server", target)),
            Err(e) => return fail("wire", e),
        };
        let by = |hits: &[Hit]| hits.last().map(|h| format!("handler {}", h.id).into_bytes());
        let accepted = answered(&reply);
        let real = collect(accepted, reply.status);
        if method == Method::Head {
            ensure_eq!((real.hits.is_empty(), reply.body.is_empty()), (!accepted, true), "who answered", "who answered {} {:?}", method, path);
        } else {
            ensure_eq!(by(&real.hits), if accepted { Some(reply.body.clone()) } else { None }, "who answered", "who answered {} {:?}", method, path);
        }

        let mut h = headers(&list.iter().filter(|h| h.0 != "content-length").cloned().collect::<Vec<_>>());
        if req.method == "POST" {
            h.append_raw("Content-Length", b"0".to_vec());
        }
        let context = Context::mock(method.clone(), path.clone(), h, &global);
        let response = Response::mock(&global);
        let got = router.handle_request(Environment { context, response, route_state: path[..].into() });
        let mock = match got {
            Ok(()) => collect(true, 0),
            Err(e) => {
                let s = e.response.status().to_u16();
                drop(e);
                collect(false, s)
            }
        };
        ensure_eq!(mock, real, "mocked request", "{} {:?}, mocked and real", method, path);
        case.label(if accepted { "accepted" } else { "rejected" });
        case.nontrivial_if(accepted && real.hits.iter().any(|h| !h.vars.is_empty() || !h.links.is_empty()));
    }
    Ok(())
}

/// Whether a reply is from one of the handlers.
fn answered(reply: &wire::Reply) -> bool {
    reply.body.starts_with(b"handler ") || reply.framing == wire::Framing::Chunked || reply.header("Content-Length").map_or(false, |l| l != "0")
}

// ---------------------------------------------------------------------
// Responses

#[derive(Clone, Debug)]
enum Before {
    Status(u16),
    Header(HOp),
    /// Put into the filter storage.
    Store(u64),
    Unstore,
    Look,
}

#[derive(Clone, Debug)]
struct Plan {
    before: Vec<Before>,
    style: Style,
    /// What's put into the storage of a chunked response.
    later: Option<u64>,
}

struct Play;

thread_local! {
    static PLAN: RefCell<Option<Plan>> = RefCell::new(None);
    static LOOKS: RefCell<Option<(Vec<Unsent>, Vec<Did>)>> = RefCell::new(None);
}

/// Only the listed headers, since a real response has some from the start.
fn listed(h: &mut Raw) {
    h.retain(|n, _| n.starts_with("x-") || ["location", "set-cookie", "cache-control", "vary", "etag"].contains(&&n[..]));
}

fn play(plan: &Plan, mut r: Response) -> (Vec<Unsent>, Vec<Did>) {
    let mut looks = vec![unsent(&r)];
    for b in &plan.before {
        match *b {
            Before::Status(s) => r.set_status(StatusCode::from_u16(s)),
            Before::Header(ref h) => h.apply(r.headers_mut()),
            Before::Store(n) => {
                r.filter_storage_mut().insert(Note(n));
            }
            Before::Unstore => {
                r.filter_storage_mut().remove::<Note>();
            }
            Before::Look => looks.push(unsent(&r)),
        }
    }
    looks.push(unsent(&r));
    for l in &mut looks {
        listed(&mut l.headers);
    }
    if let Some(n) = plan.later {
        // Nothing is lost when it becomes a chunked response.
        let old = r.filter_storage().get::<Note>().cloned();
        let mut w = r.into_chunked();
        let mut did = vec![if w.filter_storage().get::<Note>().cloned() == old { Did::Ok } else { Did::Bad("the filter storage was lost".into()) }];
        w.filter_storage_mut().insert(Note(n));
        did.push(match w.write(b"abc") {
            Ok(n) => Did::Took(n),
            Err(e) => Did::Io(e.to_string()),
        });
        did.push(if w.filter_storage().get::<Note>() == Some(&Note(n)) { Did::Ok } else { Did::Bad("the filter storage was lost".into()) });
        did.push(match w.end() {
            Ok(()) => Did::Ok,
            Err(e) => from_error(e),
        });
        return (looks, did);
    }
    let did = perform_style(&plan.style, r);
    (looks, did)
}

impl Handler for Play {
    fn handle(&self, _: Context, r: Response) {
        let plan = PLAN.with(|p| p.borrow_mut().take()).expect("a request without a plan");
        let seen = play(&plan, r);
        LOOKS.with(|l| *l.borrow_mut() = Some(seen));
    }
}

fn response(src: &mut Src, case: &mut Case) -> Res {
    let mut before = vec![];
    while src.more(before.len(), 4, 12) {
        before.push(match src.weighted(&[3, 5, 2, 1, 3]) {
            0 => Before::Status(*src.pick(&[200, 201, 202, 400, 403, 404, 405, 410, 418, 500, 503, 599, 299])),
            1 => Before::Header(HOp::gen(src)),
            2 => Before::Store(src.below(1000)),
            3 => Before::Unstore,
            _ => Before::Look,
        });
    }
    let style = style(src, false);
    let style = match style {
        // (More than was declared is only noticed where it's sent.)
        Style::Raw(_, ops, end) => {
            let all: usize = ops.iter().map(|o| o.len()).sum();
            Style::Raw(all as u64 + if src.chance(1, 4) { 10 } else { 0 }, ops, end)
        }
        s => s,
    };
    let plan = Plan { before, style, later: if src.chance(1, 6) { Some(src.below(1000)) } else { None } };
    case.note(|| format!("{:?}", plan));
    case.nontrivial_if(plan.before.len() > 2);
    let global = Global::default();
    let response = Response::mock(&global);
    ensure_eq!(unsent(&response), Unsent { status: 200, headers: Raw::new(), stored: None }, "initial", "a new mocked response");
    let mock = play(&plan, response);

    PLAN.with(|p| *p.borrow_mut() = Some(plan.clone()));
    let server = Server::new(Play).build();
    match wire::send(&server, wire::Req::new("GET", "/").bytes(), false) {
        (_, ref talk) if talk.requests == 1 => {}
        _ => return fail("wire", "the request was not handled".into()),
    }
    let real = LOOKS.with(|l| l.borrow_mut().take()).expect("the handler did not run");
    ensure_eq!(mock, real, "mocked response", "what a mocked and a real response report");

    // And both are what was asked for.
    let (mut status, mut headers, mut stored) = (200, vec![], None);
    for b in &plan.before {
        match *b {
            Before::Status(s) => status = s,
            Before::Header(ref h) => headers.push(h.clone()),
            Before::Store(n) => stored = Some(Note(n)),
            Before::Unstore => stored = None,
            Before::Look => {}
        }
    }
    let mut headers = names_of(&headers);
    listed(&mut headers);
    let last = mock.0.last().unwrap();
    ensure_eq!(*last, Unsent { status, headers, stored }, "state", "the response before it's sent");
    for d in &mock.1 {
        ensure!(!matches!(*d, Did::Bad(_) | Did::Filter(_) | Did::Io(_)), "result", "an operation reported {:?}", d);
    }
    case.label(match plan.style {
        _ if plan.later.is_some() => "storage",
        Style::Drop => "dropped",
        Style::Chunked(..) => "chunked",
        Style::Raw(..) => "declared length",
        _ => "sent",
    });
    Ok(())
}

// ---------------------------------------------------------------------
// Replacing the hyperlinks

#[derive(Clone, Debug)]
struct NewLink {
    method: Option<Method>,
    path: Vec<(u8, MaybeUtf8Owned)>,
    handler: bool,
}

static REC: Rec = Rec(77);

fn link<'a>(l: &'a NewLink) -> Link<'a> {
    Link {
        method: l.method.clone(),
        path: l
            .path
            .iter()
            .map(|&(t, ref label)| LinkSegment {
                label: label.as_slice(),
                ty: [SegmentType::Static, SegmentType::VariableSegment, SegmentType::VariableSequence][t as usize].clone(),
            })
            .collect(),
        handler: if l.handler { Some(&REC) } else { None },
    }
}

fn owned(l: &NewLink) -> OwnedLink {
    own_link(&link(l))
}

fn new_links(src: &mut Src) -> Vec<NewLink> {
    let mut v = vec![];
    while src.more(v.len(), 2, 6) {
        let mut path = vec![];
        while src.more(path.len(), 1, 3) {
            path.push((src.below(3) as u8, gen::bytes(src, 6).into()));
        }
        v.push(NewLink { method: if src.flip() { Some(routes::method(src)) } else { None }, path, handler: src.flip() });
    }
    v
}

#[derive(Clone, Debug)]
struct Swap {
    /// Before, and what they are replaced with, one after the other.
    links: Vec<Vec<NewLink>>,
    /// Whether it's the environment or the context.
    environment: bool,
    variables: Vec<(Vec<u8>, Vec<u8>)>,
    status: u16,
    store: u64,
    /// How much of the route is consumed, and of the body read.
    keep: usize,
    read: usize,
}

struct Swapper;

thread_local! {
    static SWAP: RefCell<Option<Swap>> = RefCell::new(None);
    static SWAPPED: RefCell<Option<Res>> = RefCell::new(None);
    static BODY: RefCell<Vec<u8>> = RefCell::new(vec![]);
}

fn finish(mut e: Environment, before: &Seen, links: Vec<OwnedLink>, first: &[u8]) -> Res {
    let mut now = see(&e.context);
    ensure_eq!(now.links, links, "new links", "the links after they were replaced");
    now.links = before.links.clone();
    ensure_eq!(now, *before, "context", "the context after its links were replaced");
    let mut body = first.to_vec();
    e.context.body.read_to_end(&mut body).expect("reading the body");
    BODY.with(|b| *b.borrow_mut() = body);
    e.response.send("done");
    Ok(())
}

fn swap(e: Environment) -> Res {
    let s = SWAP.with(|s| s.borrow_mut().take()).expect("a request without a plan");
    let Environment { mut context, mut response, mut route_state } = e;
    for &(ref k, ref v) in &s.variables {
        context.variables.insert(k.clone(), v.clone());
    }
    response.set_status(StatusCode::from_u16(s.status));
    response.headers_mut().set_raw("X-Kept", vec![s.store.to_string().into_bytes()]);
    response.filter_storage_mut().insert(Note(s.store));
    for i in 0..s.keep {
        if i % 2 == 0 {
            route_state.keep();
        } else {
            route_state.skip();
        }
    }
    let mut first = vec![0; s.read];
    let n = context.body.read(&mut first).expect("reading the body");
    first.truncate(n);
    let (empty, none) = context.replace_hyperlinks(vec![]);
    ensure_eq!(none.iter().map(own_link).collect::<Vec<_>>(), vec![], "old links", "the first links");
    let before = see(&empty);
    ensure_eq!(before.variables, s.variables.iter().cloned().collect::<Map>(), "context", "the variables");
    let e = Environment { context: empty, response, route_state };
    let left: Vec<Vec<u8>> = {
        let mut r = e.route_state.clone();
        let mut v = vec![];
        while let Some(p) = r.get() {
            v.push(p.to_vec());
            r.skip();
        }
        v
    };
    let mut old: Vec<OwnedLink> = vec![];
    let mut e = e;
    for links in &s.links {
        let (next, replaced) = if s.environment {
            e.replace_hyperlinks(links.iter().map(link).collect())
        } else {
            let Environment { context, response, route_state } = e;
            let (context, old) = context.replace_hyperlinks(links.iter().map(link).collect());
            (Environment { context, response, route_state }, old)
        };
        ensure_eq!(replaced.iter().map(own_link).collect::<Vec<_>>(), old, "old links", "the links that were replaced");
        old = links.iter().map(owned).collect();
        e = next;
        let mut r = e.route_state.clone();
        let mut now = vec![];
        while let Some(p) = r.get() {
            now.push(p.to_vec());
            r.skip();
        }
        ensure_eq!(now, left, "route", "what's left of the route");
        ensure_eq!(e.response.status().to_u16(), s.status, "response", "the status after the links were replaced");
        ensure_eq!(e.response.headers().get_raw("X-Kept").map(|v| v.to_vec()), Some(vec![s.store.to_string().into_bytes()]), "response", "the header after the links were replaced");
        ensure_eq!(e.response.filter_storage().get::<Note>().cloned(), Some(Note(s.store)), "response", "the filter storage after the links were replaced");
    }
    finish(e, &before, old, &first)
}

impl HandleRequest for Swapper {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let r = swap(e);
        SWAPPED.with(|s| *s.borrow_mut() = Some(r));
        Ok(())
    }
    fn hyperlinks<'a>(&'a self, _: Link<'a>) -> Vec<Link<'a>> {
        vec![]
    }
}

/// Sees the context before the handler.
struct First;

thread_local! {
    static FIRST: RefCell<Option<Seen>> = RefCell::new(None);
}

impl ContextFilter for First {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        FIRST.with(|f| *f.borrow_mut() = Some(see(c)));
        ContextAction::Next
    }
}

fn replace(src: &mut Src, case: &mut Case) -> Res {
    let n = src.range(1, 4);
    let mut variables = vec![];
    while src.more(variables.len(), 1, 4) {
        variables.push((gen::bytes(src, 6), gen::bytes(src, 6)));
    }
    let s = Swap {
        links: (0..n).map(|_| new_links(src)).collect(),
        environment: src.flip(),
        variables,
        status: *src.pick(&[200, 201, 404, 500]),
        store: src.below(1000),
        keep: src.range(0, 3),
        read: src.range(0, 5),
    };
    let p = gen::bytes(src, 20);
    let mut target = format!("/{}", gen::percent_encode(src, &p, |b| gen::unreserved(b) || b == b'/'));
    if src.flip() {
        target.push('?');
        target.push_str(&form::form(src, 2, 5).text);
    }
    if src.chance(1, 4) {
        target.push_str("#frag");
    }
    let body = gen::bytes(src, 60);
    let mut req = wire::Req::new(*src.pick(&["GET", "POST", "PUT", "FOO"]), &target).body(body.clone());
    for (n, v) in header_list(src) {
        if n != "content-length" {
            req = req.header(&n, &v);
        }
    }
    case.note(|| format!("{} {:?} {:?}\n{:?}", req.method, req.target, req.headers, s));
    case.nontrivial_if(s.links.len() > 1 && s.links.iter().any(|l| !l.is_empty()));
    let server = Server { global: (3u32, "four".to_string()).into(), context_filters: vec![Box::new(First)], ..Server::new(Swapper) }.build();
    SWAP.with(|x| *x.borrow_mut() = Some(s.clone()));
    BODY.with(|b| b.borrow_mut().clear());
    let reply = match wire::one_reply(&server, req.bytes()) {
        Ok(Some(r)) => r,
        Ok(None) => return fail("not parsed", format!("the request {:?} did not reach the server", target)),
        Err(e) => return fail("wire", e),
    };
    SWAPPED.with(|s| s.borrow_mut().take()).expect("the handler did not run")?;
    // GET requests without a body are read as empty.
    ensure_eq!(BODY.with(|b| b.borrow().clone()), body, "body", "the body that was read");
    ensure_eq!(reply.status, s.status, "status", "the status of the reply");
    ensure_eq!(reply.body, b"done".to_vec(), "reply", "the reply");
    ensure_eq!(reply.header("X-Kept"), Some(s.store.to_string()), "header", "the header of the reply");
    Ok(())
}

fn main() {
    runner::main("P31", "a path that isn't text; a request that reaches a handler with variables or links; a response that is changed before it's sent; links that are replaced more than once", &[
        Prop { name: "paths", quick: 2_000_000, thorough: 40_000_000, run: paths },
        Prop { name: "context", quick: 1_500_000, thorough: 30_000_000, run: context },
        Prop { name: "requests", quick: 500_000, thorough: 10_000_000, run: requests },
        Prop { name: "response", quick: 1_500_000, thorough: 30_000_000, run: response },
        Prop { name: "replace", quick: 1_000_000, thorough: 20_000_000, run: replace },
    ]);
}
