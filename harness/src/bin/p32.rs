//! P32: a panic never passes for a response.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use pbt::src::Src;
use pbt::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, Handler, Response, Server, StatusCode};

/// Where something panics.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    /// Context filter.
    Context(usize),
    /// The handler, before this operation (or after the last one).
    Handler(usize),
    /// Response filters.
    Begin(usize),
    /// The n-th time it's given something.
    Write(usize, usize),
    End(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    /// Left to be dropped.
    Drop,
    Send,
    Chunked,
    Raw,
}

#[derive(Clone, Debug)]
enum Op {
    Send(String),
    Write(String),
    Flush,
}

#[derive(Clone, Debug)]
struct Plan {
    head: bool,
    status: u16,
    header: Option<String>,
    /// How much of the body is read first.
    read: usize,
    way: Way,
    ops: Vec<Op>,
    /// Ended by hand.
    end: bool,
    /// The panic is caught by the handler, and nothing else is done.
    caught: bool,
    panic: Option<At>,
}

thread_local! {
    static PLANS: RefCell<Vec<Plan>> = RefCell::new(vec![]);
    static AT: Cell<Option<At>> = Cell::new(None);
    static WRITES: RefCell<Vec<usize>> = RefCell::new(vec![]);
    /// What was called while a panic was under way.
    static LATE: RefCell<Vec<String>> = RefCell::new(vec![]);
    static SERVERS: RefCell<Vec<ServerInstance<Act>>> = RefCell::new(vec![]);
}

/// Those of requests to running servers, by path.
static TABLE: Mutex<BTreeMap<u64, Plan>> = Mutex::new(BTreeMap::new());
static NEXT: AtomicU64 = AtomicU64::new(1 << 32);
/// Servers that aren't in use: their kind, and where they are.
static POOL: Mutex<Vec<(usize, SocketAddr)>> = Mutex::new(vec![]);

fn point(at: At) {
    if std::thread::panicking() {
        LATE.with(|l| l.borrow_mut().push(format!("{:?}", at)));
        return;
    }
    if AT.with(|a| a.get()) == Some(at) {
        panic!("injected panic");
    }
}

struct Look(usize);

impl ContextFilter for Look {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        if self.0 == 0 {
            let id = c.uri_path.as_path().and_then(|p| p.as_utf8().and_then(|p| p[1..].parse().ok()));
            if let Some(p) = id.and_then(|id: u64| TABLE.lock().unwrap_or_else(|e| e.into_inner()).get(&id).cloned()) {
                PLANS.with(|v| *v.borrow_mut() = vec![p]);
            }
            let p = PLANS.with(|p| p.borrow()[0].clone());
            AT.with(|a| a.set(p.panic));
            WRITES.with(|w| {
                w.borrow_mut().clear();
                w.borrow_mut().resize(8, 0);
            });
        }
        point(At::Context(self.0));
        ContextAction::next()
    }
}

/// Marks everything.
struct Mark(usize);

impl ResponseFilter for Mark {
    fn begin(&self, _: FilterContext, status: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        point(At::Begin(self.0));
        h.set_raw(format!("X-F{}", self.0), vec![b"yes".to_vec()]);
        (status, ResponseAction::next(None::<String>))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        match content {
            Some(c) => {
                let n = WRITES.with(|w| {
                    w.borrow_mut()[self.0] += 1;
                    w.borrow()[self.0] - 1
                });
                point(At::Write(self.0, n));
                let mut v = c.into_bytes();
                v.extend(format!("[{}]", self.0).bytes());
                ResponseAction::next(Some(v))
            }
            None => ResponseAction::next(None::<String>),
        }
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        point(At::End(self.0));
        ResponseAction::next(Some(format!("end {}", self.0)))
    }
}

struct Act;

fn act(p: &Plan, c: &mut Context, mut r: Response) {
    let mut b = vec![0; p.read];
    let _ = c.body.read(&mut b);
    point(At::Handler(0));
    r.set_status(StatusCode::from_u16(p.status));
    if let Some(ref h) = p.header {
        r.headers_mut().set_raw("X-Set", vec![h.clone().into_bytes()]);
    }
    let at = |i: usize| point(At::Handler(i + 1));
    match p.way {
        Way::Drop => at(0),
        Way::Send => {
            at(0);
            if let Some(&Op::Send(ref s)) = p.ops.first() {
                r.send(&s[..]);
            }
            at(1);
        }
        Way::Chunked => {
            let mut w = r.into_chunked();
            for (i, op) in p.ops.iter().enumerate() {
                at(i);
                match *op {
                    Op::Send(ref s) => w.send(&s[..]),
                    Op::Write(ref s) => w.write_all(s.as_bytes()).expect("write"),
                    Op::Flush => w.flush().expect("flush"),
                }
            }
            at(p.ops.len());
            if p.end {
                let _ = w.end();
                at(p.ops.len() + 1);
            }
        }
        Way::Raw => {
            let mut w = unsafe { r.into_raw(total(&p.ops)) };
            for (i, op) in p.ops.iter().enumerate() {
                at(i);
                match *op {
                    Op::Send(ref s) => w.send(&s[..]),
                    Op::Write(ref s) => w.write_all(s.as_bytes()).expect("write"),
                    Op::Flush => w.flush().expect("flush"),
                }
            }
            at(p.ops.len());
        }
    }
}

fn total(ops: &[Op]) -> u64 {
    ops.iter().map(|o| match *o {
        Op::Send(ref s) | Op::Write(ref s) => s.len() as u64,
        Op::Flush => 0,
    }).sum()
}

impl Handler for Act {
    fn handle(&self, mut c: Context, r: Response) {
        let p = PLANS.with(|p| p.borrow_mut().remove(0));
        if p.caught {
            let _ = panic::catch_unwind(AssertUnwindSafe(|| act(&p, &mut c, r)));
        } else {
            act(&p, &mut c, r);
        }
    }
}

/// What's expected of one response.
#[derive(Debug)]
enum Want {
    Whole(Vec<u8>),
    /// Nothing was sent before the panic.
    Failed,
    /// This much of the body, and no end.
    Cut(Vec<u8>),
}

struct Sim<'a> {
    filters: usize,
    at: Option<At>,
    calls: Vec<usize>,
    _p: &'a Plan,
}

impl<'a> Sim<'a> {
    fn hit(&self, at: At) -> Result<(), ()> {
        if self.at == Some(at) { Err(()) } else { Ok(()) }
    }
    fn pass(&mut self, from: usize, mut v: Vec<u8>) -> Result<Vec<u8>, ()> {
        for f in from..self.filters {
            let n = self.calls[f];
            self.calls[f] += 1;
            self.hit(At::Write(f, n))?;
            v.extend(format!("[{}]", f).bytes());
        }
        Ok(v)
    }
    fn begin(&self) -> Result<(), ()> {
        (0..self.filters).map(|f| self.hit(At::Begin(f))).collect()
    }
    /// Each one is given what the ones before it added, one at a time.
    fn end(&mut self) -> Result<Vec<u8>, ()> {
        let mut queue: Vec<Vec<u8>> = vec![];
        for f in 0..self.filters {
            for v in queue.iter_mut() {
                let n = self.calls[f];
                self.calls[f] += 1;
                self.hit(At::Write(f, n))?;
                v.extend(format!("[{}]", f).bytes());
            }
            self.hit(At::End(f))?;
            queue.push(format!("end {}", f).into_bytes());
        }
        Ok(queue.concat())
    }
}

/// What the client gets, and whether there was a panic that wasn't caught.
fn expect(p: &Plan, contexts: usize, filters: usize) -> (Want, bool) {
    let mut s = Sim { filters, at: p.panic, calls: vec![0; 8], _p: p };
    for i in 0..contexts {
        if s.hit(At::Context(i)).is_err() {
            return (Want::Failed, true);
        }
    }
    let none = |r: Result<Vec<u8>, ()>| match r {
        Ok(v) => (Want::Whole(v), false),
        Err(()) => (Want::Failed, !p.caught),
    };
    if s.hit(At::Handler(0)).is_err() {
        return none(Err(()));
    }
    match p.way {
        Way::Drop | Way::Send => {
            if s.hit(At::Handler(1)).is_err() {
                return none(Err(()));
            }
            let sent = match p.ops.first() {
                Some(&Op::Send(ref t)) if p.way == Way::Send => t.clone().into_bytes(),
                _ => vec![],
            };
            let r = s.begin().and_then(|_| {
                let mut v = s.pass(0, sent)?;
                v.extend(s.end()?);
                Ok(v)
            });
            let bad = p.way == Way::Send && r.is_ok() && s.hit(At::Handler(2)).is_err();
            let (w, lost) = none(r);
            (w, lost || (bad && !p.caught))
        }
        Way::Chunked => {
            if s.begin().is_err() {
                return none(Err(()));
            }
            let mut v = vec![];
            let cut = |v| (Want::Cut(v), !p.caught);
            for (i, op) in p.ops.iter().enumerate() {
                if s.hit(At::Handler(i + 1)).is_err() {
                    return cut(v);
                }
                if let Op::Send(ref t) | Op::Write(ref t) = *op {
                    match s.pass(0, t.clone().into_bytes()) {
                        Ok(t) => v.extend(t),
                        Err(()) => return cut(v),
                    }
                }
            }
            if s.hit(At::Handler(p.ops.len() + 1)).is_err() {
                return cut(v);
            }
            match s.end() {
                Ok(t) => v.extend(t),
                Err(()) => return cut(v),
            }
            let bad = p.end && s.hit(At::Handler(p.ops.len() + 2)).is_err();
            (Want::Whole(v), bad && !p.caught)
        }
        Way::Raw => {
            let mut v = vec![];
            for (i, op) in p.ops.iter().enumerate() {
                if s.hit(At::Handler(i + 1)).is_err() {
                    let whole = v.len() as u64 == total(&p.ops);
                    return (if whole { Want::Whole(v) } else { Want::Cut(v) }, !p.caught);
                }
                if let Op::Send(ref t) | Op::Write(ref t) = *op {
                    v.extend(t.bytes());
                }
            }
            let bad = s.hit(At::Handler(p.ops.len() + 1)).is_err();
            (Want::Whole(v), bad && !p.caught)
        }
    }
}

fn text(src: &mut Src) -> String {
    match src.weighted(&[6, 1, 1]) {
        0 => gen::ident(src),
        1 => String::new(),
        // More than what's buffered.
        _ => {
            let n = gen::size(src, 20000);
            "x".repeat(n)
        }
    }
}

fn plan(src: &mut Src, contexts: usize, filters: usize, panics: bool) -> Plan {
    let way = *src.pick(&[Way::Drop, Way::Send, Way::Chunked, Way::Chunked, Way::Raw]);
    let mut ops = vec![];
    match way {
        Way::Drop => {}
        Way::Send => ops.push(Op::Send(text(src))),
        _ => {
            while src.more(ops.len(), 3, 8) {
            ops.push(match src.weighted(&[3, 2, 1]) {
                0 => Op::Send(text(src)),
                1 => Op::Write(text(src)),
                _ => Op::Flush,
            });
            }
        }
    }
    let panic = if !panics {
        None
    } else {
        Some(match src.weighted(&[6, if contexts > 0 { 1 } else { 0 }, if filters > 0 { 5 } else { 0 }]) {
            0 => At::Handler(src.below(ops.len() as u64 + 3) as usize),
            1 => At::Context(src.idx(contexts)),
            _ => {
                let f = src.idx(filters);
                match src.below(4) {
                    0 => At::Begin(f),
                    1 => At::End(f),
                    _ => At::Write(f, src.below(4) as usize),
                }
            }
        })
    };
    Plan {
        head: src.chance(1, 8),
        status: *src.pick(&[200, 200, 200, 201, 301, 404, 503]),
        header: if src.flip() { Some(gen::ident(src)) } else { None },
        read: if src.flip() { 0 } else { gen::size(src, 30) },
        way,
        ops,
        end: src.flip(),
        // (Whoever declares a length has to send it.)
        caught: way != Way::Raw && src.chance(1, 6),
        panic,
    }
}

/// The body of a response that isn't complete, as far as there is one.
fn partial(out: &[u8], mut p: usize, chunked: bool) -> Result<Vec<u8>, String> {
    if !chunked {
        return Ok(out[p..].to_vec());
    }
    let mut v = vec![];
    while p < out.len() {
        let e = out[p..].windows(2).position(|w| w == b"\r\n").ok_or("no chunk size")? + p;
        let n = usize::from_str_radix(&String::from_utf8_lossy(&out[p..e]), 16).map_err(|_| "bad chunk size".to_string())?;
        if n == 0 {
            return Err("the last chunk was sent".into());
        }
        if out.len() < e + 2 + n + 2 || &out[e + 2 + n..e + 4 + n] != b"\r\n" {
            return Err("a chunk is incomplete".into());
        }
        v.extend(&out[e + 2..e + 2 + n]);
        p = e + 4 + n;
    }
    Ok(v)
}

fn check(p: &Plan, want: &Want, filters: usize, out: &[u8], pos: &mut usize, at: &str) -> Res {
    match *want {
        Want::Whole(ref b) => {
            let r = match wire::parse_reply_to(out, pos, p.head) {
                Ok(r) => r,
                Err(m) => return fail("malformed", format!("{}: {}\noutput: {}", at, m, gen::show(&out[..out.len().min(2000)]))),
            };
            ensure_eq!(r.status, p.status, "status", "{}: status of a complete response", at);
            ensure_eq!(gen::show(&r.body), gen::show(if p.head { b"" } else { b }), "body", "{}: body of a complete response", at);
        }
        Want::Failed => {
            let r = match wire::parse_reply_to(out, pos, p.head) {
                Ok(r) => r,
                Err(m) => return fail("malformed", format!("{}: {}\noutput: {}", at, m, gen::show(&out[..out.len().min(2000)]))),
            };
            ensure!(r.status == 500, "passes for a response", "{}: the status is {} after a panic, with {} as the body", at, r.status, gen::show(&r.body));
            ensure!(r.body.is_empty(), "body", "{}: the body is {}", at, gen::show(&r.body));
        }
        Want::Cut(ref b) => {
            let rest = &out[*pos..];
            let end = match rest.windows(4).position(|w| w == b"\r\n\r\n") {
                Some(i) => i + 4,
                None => return fail("malformed", format!("{}: no head: {}", at, gen::show(rest))),
            };
            let head = String::from_utf8_lossy(&rest[..end]).into_owned();
            ensure!(head.starts_with(&format!("HTTP/1.1 {} ", p.status)), "status", "{}: {}", at, head);
            for f in 0..filters {
                let there = head.contains(&format!("X-F{}: yes\r\n", f));
                ensure_eq!(there, p.way == Way::Chunked, "headers", "{}: header of filter {}", at, f);
            }
            let got = match partial(rest, end, p.way == Way::Chunked) {
                Ok(b) => b,
                Err(m) => return fail("passes for a response", format!("{}: {}: {}", at, m, gen::show(&rest[rest.len().saturating_sub(500)..]))),
            };
            ensure_eq!(gen::show(&got), gen::show(if p.head { b"" } else { b }), "body", "{}: the beginning of the body", at);
            *pos = out.len();
        }
    }
    Ok(())
}

fn server(contexts: usize, filters: usize) -> Server<Act> {
    Server {
        host: "127.0.0.1:0".parse().unwrap(),
        keep_alive: Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: 0 }),
        threads: Some(10),
        server: "test".into(),
        context_filters: (0..contexts).map(|i| Box::new(Look(i)) as Box<dyn ContextFilter>).collect(),
        response_filters: (0..filters).map(|i| Box::new(Mark(i)) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(Act)
    }
}

fn responses(src: &mut Src, case: &mut Case) -> Res {
    let contexts = src.range(1, 3);
    let filters = src.below(4) as usize;
    let mut plans = vec![];
    // (The ones that are caught keep the connection as it is.)
    loop {
        let last = plans.len() == 3 || src.flip();
        let mut p = plan(src, contexts, filters, last);
        if !last {
            p.caught = false;
        }
        plans.push(p);
        if last {
            break;
        }
    }
    let mut data = vec![];
    for (i, p) in plans.iter().enumerate() {
        let r = wire::Req::new(if p.head { "HEAD" } else { "POST" }, &format!("/{}", i)).more(src);
        data.extend(r.body(if src.flip() { gen::bytes(src, 60) } else { vec![] }).bytes());
    }
    // One that's never answered after a panic.
    data.extend(wire::Req::new("GET", "/more").bytes());
    let more = Plan { head: false, status: 200, header: None, read: 0, way: Way::Drop, ops: vec![], end: false, caught: false, panic: None };
    case.note(|| format!("{} context filters, {} response filters", contexts, filters));
    for p in &plans {
        case.note(|| format!("{:?}\n-> {:?}", p, expect(p, contexts, filters)));
    }
    PLANS.with(|p| *p.borrow_mut() = plans.iter().cloned().chain(Some(more.clone())).collect());
    LATE.with(|l| l.borrow_mut().clear());
    let key = (contexts - 1) * 4 + filters;
    SERVERS.with(|s| {
        if s.borrow().is_empty() {
            *s.borrow_mut() = (0..12).map(|i| server(i / 4 + 1, i % 4).build()).collect();
        }
    });
    let mut stream = wire::MockStream::new(data, wire::addr());
    stream.0.lock().unwrap().reads = wire::read_sizes(src);
    let mut sink = wire::Sink { short: if src.chance(1, 4) { Some(1 + gen::size(src, 50)) } else { None }, ..wire::Sink::default() };
    let panicked = SERVERS.with(|s| {
        let s = &s.borrow()[key];
        panic::catch_unwind(AssertUnwindSafe(|| wire::converse(s, &mut stream, &mut sink, true))).is_err()
    });
    let mut pos = 0;
    let mut open = true;
    for (i, p) in plans.iter().enumerate() {
        let at = format!("response {} of {}", i + 1, plans.len());
        let (want, lost) = expect(p, contexts, filters);
        check(p, &want, filters, &sink.out, &mut pos, &at)?;
        case.label(match want {
            Want::Whole(_) => "complete",
            Want::Failed => "500",
            Want::Cut(_) => "cut",
        });
        case.label_if(p.caught && p.panic.is_some(), "caught");
        if i + 1 == plans.len() {
            ensure!(lost || !panicked, "panic", "a panic that was caught reached the connection");
            // (The server may catch it as well.)
            open = !panicked && (!lost || pos < sink.out.len());
            case.nontrivial_if(p.panic.is_some() && (lost || !matches!(want, Want::Whole(_))));
            if let Want::Cut(_) = want {
                // Nothing can follow, even if the handler goes on.
                return late();
            }
        }
    }
    if open {
        let (want, _) = expect(&more, contexts, filters);
        check(&more, &want, filters, &sink.out, &mut pos, "the response after that")?;
    }
    ensure!(pos == sink.out.len(), "extra output", "{} bytes follow the last response: {}", sink.out.len() - pos, gen::show(&sink.out[pos..]));
    late()
}

/// Nothing of the application runs while a panic is under way (another one
/// would end the whole process).
fn late() -> Res {
    let l = LATE.with(|l| l.borrow().clone());
    ensure!(l.is_empty(), "filters during a panic", "called during the panic: {:?}", l);
    Ok(())
}

fn ask(addr: SocketAddr, p: &Plan) -> Result<Vec<u8>, String> {
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    TABLE.lock().unwrap().insert(id, p.clone());
    let mut s = TcpStream::connect(addr).map_err(|e| format!("connecting: {}", e))?;
    s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    let req = wire::Req::new(if p.head { "HEAD" } else { "GET" }, &format!("/{}", id)).header("Connection", "close");
    s.write_all(&req.bytes()).map_err(|e| format!("writing: {}", e))?;
    let mut out = vec![];
    let r = s.read_to_end(&mut out);
    let _ = s.shutdown(Shutdown::Both);
    TABLE.lock().unwrap().remove(&id);
    r.map_err(|e| format!("reading: {}", e))?;
    Ok(out)
}

/// The same with running servers, which go on.
fn sockets(src: &mut Src, case: &mut Case) -> Res {
    let contexts = src.range(1, 3);
    let filters = src.below(4) as usize;
    let kind = (contexts - 1) * 4 + filters;
    let n = src.range(1, 6);
    let clients: Vec<Vec<Plan>> = (0..n)
        .map(|_| {
            let mut v = vec![];
            loop {
                let panics = src.chance(2, 3);
                let mut p = plan(src, contexts, filters, panics);
                p.read = 0;
                v.push(p);
                if !src.more(v.len(), 3, 8) {
                    break v;
                }
            }
        })
        .collect();
    case.note(|| format!("{} context filters, {} response filters", contexts, filters));
    for (i, v) in clients.iter().enumerate() {
        for p in v {
            case.note(|| format!("client {}: {:?}\n-> {:?}", i + 1, p, expect(p, contexts, filters)));
        }
    }
    let lost: usize = clients.iter().flat_map(|v| v).filter(|p| expect(p, contexts, filters).1).count();
    case.nontrivial_if(lost > 0);
    // More than there are threads: none of them may be gone.
    case.label_if(lost > 3, "more panics than threads");
    let found = {
        let mut pool = POOL.lock().unwrap();
        let i = pool.iter().position(|s| s.0 == kind);
        i.map(|i| pool.swap_remove(i).1)
    };
    let addr = found.unwrap_or_else(|| {
        let mut l = Server { threads: Some(3), ..server(contexts, filters) }.run().expect("could not start a server");
        let a = l.socket;
        let _ = l.close();
        std::mem::forget(l);
        a
    });
    let one = |p: &Plan, at: &str| -> Res {
        let out = match ask(addr, p) {
            Ok(out) => out,
            Err(m) => return fail("no answer", format!("{}: {}", at, m)),
        };
        let mut pos = 0;
        let (want, _) = expect(p, contexts, filters);
        check(p, &want, filters, &out, &mut pos, at)?;
        ensure!(pos == out.len(), "extra output", "{}: {} bytes follow: {}", at, out.len() - pos, gen::show(&out[pos..]));
        Ok(())
    };
    let results: Vec<Res> = std::thread::scope(|s| {
        let one = &one;
        let all: Vec<_> = clients
            .iter()
            .enumerate()
            .map(|(i, v)| {
                s.spawn(move || {
                    for (k, p) in v.iter().enumerate() {
                        one(p, &format!("client {}, request {}", i + 1, k + 1))?;
                    }
                    Ok(())
                })
            })
            .collect();
        all.into_iter().map(|t| t.join().expect("client")).collect()
    });
    results.into_iter().collect::<Result<(), _>>()?;
    let fine = Plan { head: false, status: 200, header: None, read: 0, way: Way::Send, ops: vec![Op::Send("fine".into())], end: false, caught: false, panic: None };
    one(&fine, "a request after that")?;
    POOL.lock().unwrap().push((kind, addr));
    Ok(())
}

fn main() {
    runner::main("P32", "a panic that reached the connection, or kept a response from being complete", &[
        Prop { name: "responses", quick: 600_000, thorough: 10_000_000, run: responses },
        Prop { name: "sockets", quick: 3_000, thorough: 60_000, run: sockets },
    ]);
}
