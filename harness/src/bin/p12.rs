//! P12: context filters run in order, can stop a request, and share state.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::io::Read;

use pbt::resp::{HMap, HOp};
use pbt::routes::*;
use pbt::*;
use rustful::context::hypermedia::Link;
use rustful::context::UriPath;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::handler::{Environment, HandleRequest};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::{Context, Method, Response, Server, StatusCode};

/// What the units have left in the storage of the request.
#[derive(Clone, Debug, Default, PartialEq)]
struct Trail(Vec<String>);
/// A second type in the same storage.
#[derive(Clone, Debug, Default, PartialEq)]
struct Sum(u64);

#[derive(Clone, Debug)]
enum Change {
    Method(Method),
    Path(Vec<u8>),
    Asterisk,
    Header(HOp),
    Query(Vec<u8>, Vec<u8>),
    DropQuery(Vec<u8>),
    Fragment(Option<Vec<u8>>),
    Address(u16),
    Variable(Vec<u8>),
    Read(usize),
}

#[derive(Clone, Debug)]
struct Step {
    changes: Vec<Change>,
    /// Leave a mark in the storage.
    mark: bool,
    abort: Option<u16>,
}

#[derive(Clone, Debug, PartialEq)]
struct View {
    method: String,
    path: Option<Vec<u8>>,
    headers: HMap,
    query: BTreeMap<Vec<u8>, Vec<u8>>,
    fragment: Option<Vec<u8>>,
    port: u16,
}

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    by: String,
    trail: Vec<String>,
    sum: u64,
    view: Option<View>,
}

thread_local! {
    /// The steps of the current requests, one list per request.
    static STEPS: RefCell<VecDeque<Vec<Step>>> = RefCell::new(VecDeque::new());
    static NOW: RefCell<Vec<Step>> = RefCell::new(vec![]);
    static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]);
    static BODY: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
    static HANDLER: RefCell<(bool, bool)> = RefCell::new((true, true));
}

const NAMES: &[&str] = &["x-a", "x-b", "content-type", "location"];

fn view(c: &Context) -> View {
    let mut headers = HMap::new();
    for n in NAMES {
        if let Some(v) = c.headers.get_raw(n) {
            headers.insert((*n).into(), v.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect());
        }
    }
    View {
        method: c.method.to_string(),
        path: match c.uri_path {
            UriPath::Path(ref p) => Some(p.as_bytes().to_vec()),
            UriPath::Asterisk => None,
        },
        headers,
        query: (&c.query).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
        fragment: c.fragment.as_ref().map(|f| f.as_bytes().to_vec()),
        port: c.address.port(),
    }
}

fn see(by: String, storage: &mut rustful_anymap::Storage, c: Option<&Context>, mark: bool) {
    let (trail, sum) = storage.read();
    let entry = Seen { by: by.clone(), trail, sum, view: c.map(view) };
    SEEN.with(|s| s.borrow_mut().push(entry));
    if mark {
        storage.mark(by);
    }
}

/// The storage type is not re-exported, so that it is used through closures.
mod rustful_anymap {
    pub struct Storage<'a> {
        pub get: Box<dyn FnMut(Option<String>) -> (Vec<String>, u64) + 'a>,
    }
    impl<'a> Storage<'a> {
        pub fn read(&mut self) -> (Vec<String>, u64) {
            (self.get)(None)
        }
        pub fn mark(&mut self, by: String) {
            (self.get)(Some(by));
        }
    }
}

macro_rules! storage {
    ($s:expr) => {{
        let s = $s;
        rustful_anymap::Storage {
            get: Box::new(move |mark| {
                if let Some(m) = mark {
                    let n = m.len() as u64;
                    s.entry::<Trail>().or_insert_with(Trail::default).0.push(m);
                    let old = s.insert(Sum(0)).unwrap_or_default();
                    s.insert(Sum(old.0.wrapping_mul(3).wrapping_add(n)));
                }
                (s.get::<Trail>().cloned().unwrap_or_default().0, s.get::<Sum>().cloned().unwrap_or_default().0)
            }),
        }
    }};
}

struct Filter(usize);

impl ContextFilter for Filter {
    fn modify(&self, fc: FilterContext, c: &mut Context) -> ContextAction {
        if self.0 == 0 {
            let steps = STEPS.with(|s| s.borrow_mut().pop_front()).expect("more requests than steps");
            NOW.with(|n| *n.borrow_mut() = steps);
        }
        let step = NOW.with(|n| n.borrow()[self.0].clone());
        see(format!("filter {}", self.0), &mut storage!(fc.storage), Some(c), step.mark);
        for change in &step.changes {
            match *change {
                Change::Method(ref m) => c.method = m.clone(),
                Change::Path(ref p) => c.uri_path = UriPath::Path(p.clone().into()),
                Change::Asterisk => c.uri_path = UriPath::Asterisk,
                Change::Header(ref h) => h.apply(&mut c.headers),
                Change::Query(ref k, ref v) => {
                    c.query.insert(k.clone(), v.clone());
                }
                Change::DropQuery(ref k) => {
                    c.query.remove(&k[..]);
                }
                Change::Fragment(ref f) => c.fragment = f.clone().map(|f| f.into()),
                Change::Address(p) => c.address.set_port(p),
                Change::Variable(ref k) => {
                    c.variables.insert(k.clone(), "from a filter");
                }
                Change::Read(n) => {
                    let mut v = vec![0; n];
                    let mut have = 0;
                    while have < n {
                        match c.body.read(&mut v[have..]) {
                            Ok(0) | Err(_) => break,
                            Ok(k) => have += k,
                        }
                    }
                    v.truncate(have);
                    BODY.with(|b| b.borrow_mut().push(v));
                }
            }
        }
        match step.abort {
            Some(s) => ContextAction::abort(StatusCode::from_u16(s)),
            None => ContextAction::next(),
        }
    }
}

/// What a handler that answers in chunks sees of the storage.
fn between(w: &mut rustful::response::Chunked, at: usize) {
    let kept = (w.filter_storage().get::<Trail>().cloned().unwrap_or_default().0, w.filter_storage().get::<Sum>().cloned().unwrap_or_default().0);
    let (mark, _) = HANDLER.with(|h| *h.borrow());
    assert!(kept == storage!(w.filter_storage_mut()).read(), "the two ways to the storage disagree");
    see(format!("between {}", at), &mut storage!(w.filter_storage_mut()), None, mark);
}

struct Watch<R>(R);

impl<R: HandleRequest> HandleRequest for Watch<R> {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let (mark, read) = HANDLER.with(|h| *h.borrow());
        see("handler".into(), &mut storage!(e.response.filter_storage_mut()), Some(&e.context), mark);
        if read {
            let mut v = vec![];
            let _ = e.context.body.read_to_end(&mut v);
            BODY.with(|b| b.borrow_mut().push(v));
        }
        self.0.handle_request(e)
    }
    fn hyperlinks<'a>(&'a self, l: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(l)
    }
}

struct Answer(usize);

impl ResponseFilter for Answer {
    fn begin(&self, fc: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        see(format!("begin {}", self.0), &mut storage!(fc.storage), None, true);
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, fc: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        if content.as_ref().map_or(false, |c| !c.as_bytes().is_empty()) {
            see(format!("write {}", self.0), &mut storage!(fc.storage), None, true);
        }
        ResponseAction::Next(content)
    }
    fn end(&self, fc: FilterContext) -> ResponseAction {
        see(format!("end {}", self.0), &mut storage!(fc.storage), None, true);
        ResponseAction::Next(None)
    }
}

fn change(src: &mut Src, t: &Table) -> Change {
    match src.weighted(&[3, 4, 1, 5, 3, 1, 2, 1, 1, 3]) {
        0 => Change::Method(request_method(src, &t.routes)),
        1 => {
            let segs = request_segments(src, &t.alpha, &t.patterns);
            Change::Path(join(src, &segs))
        }
        2 => Change::Asterisk,
        3 => Change::Header(loop {
            let op = HOp::gen(src);
            let n = match op {
                HOp::Set(ref n, _) | HOp::Append(ref n, _) | HOp::Remove(ref n) => n.to_ascii_lowercase(),
            };
            if NAMES.contains(&&*n) {
                break op;
            }
            break HOp::Set("X-A".into(), vec!["seen".into()]);
        }),
        4 => Change::Query(gen::ident(src).into_bytes(), gen::bytes(src, 8)),
        5 => Change::DropQuery(gen::ident(src).into_bytes()),
        6 => Change::Fragment(if src.flip() { Some(gen::bytes(src, 8)) } else { None }),
        7 => Change::Address(src.below(65536) as u16),
        8 => Change::Variable(gen::ident(src).into_bytes()),
        _ => Change::Read(gen::size(src, 40)),
    }
}

struct Sent {
    method: Method,
    path: Vec<u8>,
    query: BTreeMap<Vec<u8>, Vec<u8>>,
    headers: HMap,
    body: Vec<u8>,
}

/// The storage of one request, as it should be.
#[derive(Default)]
struct Store {
    trail: Vec<String>,
    sum: u64,
    seen: Vec<Seen>,
}

impl Store {
    fn see(&mut self, by: String, view: Option<View>, mark: bool) {
        self.seen.push(Seen { by: by.clone(), trail: self.trail.clone(), sum: self.sum, view });
        if mark {
            self.sum = self.sum.wrapping_mul(3).wrapping_add(by.len() as u64);
            self.trail.push(by);
        }
    }
}

fn filters(src: &mut Src, case: &mut Case) -> Res {
    let t = table(src, 3, 8);
    let n_filters = if src.chance(1, 60) { src.range(6, 40) } else { src.range(1, 5) } as usize;
    let n_answers = src.below(3) as usize;
    let mark = src.flip();
    let read = src.flip();
    let way = *src.pick(&[0u8, 0, 1, 1, 2]);
    WAY.with(|w| w.set(way));
    BETWEEN.with(|b| b.set(Some(between)));
    HANDLER.with(|h| *h.borrow_mut() = (mark, read));
    let mut requests: Vec<(Sent, Vec<Step>)> = vec![];
    let mut data = vec![];
    let mut n = 0;
    loop {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let mut path = join(src, &segs);
        if path.first() != Some(&b'/') {
            path.insert(0, b'/');
        }
        let mut method = request_method(src, &t.routes);
        if method == Method::Connect {
            method = Method::Post;
        }
        let mut target = gen::percent_encode(src, &path[1..], |b| gen::unreserved(b) || b == b'/');
        target.insert(0, '/');
        let mut query = BTreeMap::new();
        if src.chance(1, 3) {
            let (k, v) = (gen::ident(src), gen::ident(src));
            target.push_str(&format!("?{}={}", k, v));
            query.insert(k.into_bytes(), v.into_bytes());
        }
        let mut req = wire::Req::new(&method.to_string(), &target).more(src);
        let old = src.chance(1, 12);
        if old {
            req.version = "HTTP/1.0";
        }
        let mut headers = HMap::new();
        if src.flip() {
            req = req.header("X-A", "sent");
            headers.insert("x-a".into(), vec!["sent".into()]);
        }
        // All of the body is read if the handler reads, or else there is none.
        let body = if read && src.flip() && method != Method::Get && method != Method::Delete { gen::bytes(src, 60) } else { vec![] };
        req = req.body(body.clone());
        data.extend(req.bytes());
        let mut steps = vec![];
        for _ in 0..n_filters {
            let mut changes = vec![];
            while src.more(changes.len(), 1, 4) {
                changes.push(change(src, &t));
            }
            let abort = if src.chance(1, 2 + n_filters as u64) { Some(*src.pick(pbt::resp::STATUSES)) } else { None };
            steps.push(Step { changes, mark: src.chance(3, 4), abort });
        }
        requests.push((Sent { method, path, query, headers, body }, steps));
        n += 1;
        // A body that may be left unread ends the connection.
        let stop = {
            let (ref sent, ref steps) = *requests.last().unwrap();
            let aborted = steps.iter().any(|s| s.abort.is_some());
            let star = steps.iter().any(|s| s.changes.iter().any(|c| matches!(c, Change::Asterisk)));
            !sent.body.is_empty() && (aborted || star)
        };
        if stop || old || !src.more(n, 2, 5) {
            break;
        }
    }
    case.note(|| format!("routes: {}\n{} filters, {} response filters, handler marks {}, reads {} and answers in way {}", t.describe(), n_filters, n_answers, mark, read, way));
    for (s, steps) in &requests {
        case.note(|| format!("{} {} {:?} body {}\n  {:?}", s.method, gen::show(&s.path), s.headers, gen::show(&s.body), steps));
    }
    STEPS.with(|s| *s.borrow_mut() = requests.iter().map(|r| r.1.clone()).collect());
    SEEN.with(|s| s.borrow_mut().clear());
    BODY.with(|s| s.borrow_mut().clear());
    take_hits();
    let server = Server {
        context_filters: (0..n_filters).map(|i| Box::new(Filter(i)) as Box<dyn ContextFilter>).collect(),
        response_filters: (0..n_answers).map(|i| Box::new(Answer(i)) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(Watch(default_router(&t.routes, src.flip())))
    }
    .build();
    let (out, talk) = wire::send(&server, data, true);
    ensure_eq!(talk.requests, requests.len(), "requests", "requests that were handled");
    let heads = wire::heads();
    let replies = match wire::parse_replies_to(&out, &heads) {
        Ok(r) => r,
        Err(e) => return fail("wire", format!("{}: {}", e, gen::show(&out))),
    };
    ensure_eq!(replies.len(), requests.len(), "replies", "number of responses");
    let seen = SEEN.with(|s| s.borrow().clone());
    let bodies = BODY.with(|s| s.borrow().clone());
    let hits = take_hits();
    let (mut seen_at, mut hit_at, mut body_at) = (0, 0, 0);
    let eff = effective(&t.routes);
    for (i, &(ref sent, ref steps)) in requests.iter().enumerate() {
        let at = format!("request {} of {}", i + 1, requests.len());
        let mut store = Store::default();
        let mut v = View { method: sent.method.to_string(), path: Some(sent.path.clone()), headers: sent.headers.clone(), query: sent.query.clone(), fragment: None, port: 40000 };
        let mut method = sent.method.clone();
        let mut left = &sent.body[..];
        let mut reads: Vec<Vec<u8>> = vec![];
        let mut aborted = None;
        for (k, step) in steps.iter().enumerate() {
            store.see(format!("filter {}", k), Some(v.clone()), step.mark);
            for c in &step.changes {
                match *c {
                    Change::Method(ref m) => method = m.clone(),
                    Change::Path(ref p) => v.path = Some(p.clone()),
                    Change::Asterisk => v.path = None,
                    Change::Header(ref h) => h.model(&mut v.headers),
                    Change::Query(ref k, ref x) => {
                        v.query.insert(k.clone(), x.clone());
                    }
                    Change::DropQuery(ref k) => {
                        v.query.remove(k);
                    }
                    Change::Fragment(ref f) => v.fragment = f.clone(),
                    Change::Address(p) => v.port = p,
                    Change::Variable(_) => {}
                    Change::Read(n) => {
                        let n = n.min(left.len());
                        reads.push(left[..n].to_vec());
                        left = &left[n..];
                    }
                }
                v.method = method.to_string();
            }
            if step.abort.is_some() {
                aborted = step.abort;
                break;
            }
        }
        let mut status = aborted;
        let mut body = vec![];
        if aborted.is_none() {
            if let Some(ref p) = v.path {
                store.see("handler".into(), Some(v.clone()), mark);
                if read {
                    reads.push(left.to_vec());
                }
                let segs = split(p);
                match select(&eff, &method, &segs) {
                    Outcome::Handled { id, vars } => {
                        ensure!(hit_at < hits.len(), "handler", "{}: handler {} did not run", at, id);
                        let h = &hits[hit_at];
                        hit_at += 1;
                        ensure_eq!(h.id, id, "handler", "{}: the handler for {} {}", at, method, gen::show(p));
                        ensure_eq!((&h.method, &h.path), (&method.to_string(), p), "handler", "{}: what the handler saw", at);
                        ensure_eq!(h.vars, vars, "variables", "{}: variables", at);
                        status = Some(200);
                        body = format!("handler {}", id).into_bytes();
                    }
                    Outcome::WrongMethod => status = Some(405),
                    Outcome::NoRoute => status = Some(if node_matches(&t.routes, &segs) { 405 } else { 404 }),
                }
            }
        }
        // A response of declared length is not filtered.
        if body.is_empty() || way < 2 {
            for k in 0..n_answers {
                store.see(format!("begin {}", k), None, true);
            }
            let pieces = match (body.is_empty(), way) {
                (true, _) => 0,
                (false, 1) => 2,
                _ => 1,
            };
            for piece in 0..pieces {
                if pieces == 2 {
                    store.see(format!("between {}", piece), None, mark);
                }
                for k in 0..n_answers {
                    store.see(format!("write {}", k), None, true);
                }
            }
            for k in 0..n_answers {
                store.see(format!("end {}", k), None, true);
            }
        }
        for want in &store.seen {
            let got = seen.get(seen_at);
            ensure!(got == Some(want), "order or storage", "{}: the next unit that ran saw {:?}\nexpected: {:?}", at, got, want);
            seen_at += 1;
        }
        for want in &reads {
            let got = bodies.get(body_at);
            ensure!(got == Some(want), "body", "{}: {:?} was read from the body, expected {:?}", at, got.map(|b| gen::show(b)), gen::show(want));
            body_at += 1;
        }
        if let Some(s) = status {
            ensure_eq!(replies[i].status, s, "status", "{}: status", at);
        }
        // (As it was sent, whatever the filters made of it.)
        if heads[i] {
            case.label("HEAD request");
            body.clear();
        }
        ensure_eq!(gen::show(&replies[i].body), gen::show(if resp::no_body(replies[i].status) { b"" } else { &body }), "response body", "{}: response body", at);
        case.label_if(aborted.is_some(), "aborted");
        case.label_if(v.path.is_none(), "asterisk");
        case.nontrivial_if(n_filters > 1 && store.trail.len() > 1 && i > 0);
    }
    ensure!(seen_at == seen.len(), "order or storage", "more units ran than expected: {:?}", &seen[seen_at..]);
    ensure!(hit_at == hits.len(), "handler", "more handlers ran than expected: {:?}", &hits[hit_at..]);
    Ok(())
}

fn main() {
    let _ = Response::mock;
    runner::main("P12", "a request that is not the first on its connection, with several filters and more than one mark in its storage", &[
        Prop { name: "filters", quick: 1_200_000, thorough: 9_000_000, run: filters },
    ]);
}
