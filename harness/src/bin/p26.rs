//! P26: connection faults stay contained in their request.
use std::cell::RefCell;
use std::io::{self, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use hyper::server::Handler as HyperHandler;
use pbt::resp::*;
use pbt::*;
use rustful::filter::ResponseFilter;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, Handler, Response, Server};

const THREADS: usize = 6;
const FREE: usize = 2;

/// How a handler reads the body.
#[derive(Clone, Debug)]
enum Take {
    Nothing,
    AtMost(usize),
    All,
}

#[derive(Clone, Debug)]
struct Plan {
    take: Take,
    piece: usize,
    script: Script,
}

/// What a handler saw.
#[derive(Clone, Debug, Default)]
struct Saw {
    index: usize,
    data: Vec<u8>,
    error: Option<io::ErrorKind>,
    /// The reader said that there is no more.
    ended: bool,
    did: Vec<Did>,
    log: Log,
}

thread_local! {
    static PLANS: RefCell<Vec<Plan>> = RefCell::new(vec![]);
    static SAW: RefCell<Vec<Saw>> = RefCell::new(vec![]);
}

struct Act;

impl Handler for Act {
    fn handle(&self, mut c: Context, mut r: Response) {
        r.headers_mut().set_raw("Date", vec![b"Tue, 01 Jan 2030 00:00:00 GMT".to_vec()]);
        let index: usize = c.uri_path.as_utf8_path().and_then(|p| p[1..].parse().ok()).expect("an index");
        let plan = PLANS.with(|p| p.borrow()[index].clone());
        let mut saw = Saw { index, ..Saw::default() };
        let max = match plan.take {
            Take::Nothing => 0,
            Take::AtMost(n) => n,
            Take::All => usize::MAX,
        };
        let mut buf = vec![0; plan.piece];
        while saw.data.len() < max {
            let n = buf.len().min(max - saw.data.len());
            match c.body.read(&mut buf[..n]) {
                Ok(0) => {
                    saw.ended = true;
                    break;
                }
                Ok(n) => saw.data.extend_from_slice(&buf[..n]),
                Err(e) => {
                    saw.error = Some(e.kind());
                    break;
                }
            }
        }
        saw.did = perform(&plan.script, r);
        saw.log = take_log();
        SAW.with(|s| s.borrow_mut().push(saw));
    }
}

fn server(filters: &[Filter]) -> ServerInstance<Act> {
    Server {
        keep_alive: Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: FREE }),
        threads: Some(THREADS),
        server: "test".into(),
        response_filters: filters.iter().map(|f| Box::new(Installed(f.clone())) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(Act)
    }
    .build()
}

struct Input {
    data: Vec<u8>,
    /// Where the head and the body of each request end.
    heads: Vec<usize>,
    ends: Vec<usize>,
    bodies: Vec<Vec<u8>>,
}

struct Outcome {
    out: Vec<u8>,
    saw: Vec<Saw>,
    requests: usize,
}

fn talk(server: &ServerInstance<Act>, data: &[u8], reads: Vec<usize>, fail_at: Option<(usize, io::ErrorKind)>, sink: wire::Sink) -> Outcome {
    SAW.with(|s| s.borrow_mut().clear());
    take_log();
    let mut stream = wire::MockStream::new(data.to_vec(), wire::addr());
    {
        let mut s = stream.0.lock().unwrap();
        s.reads = reads;
        s.fail_at = fail_at;
    }
    let mut sink = sink;
    let t = wire::converse(server, &mut stream, &mut sink, true);
    Outcome { out: sink.out, saw: SAW.with(|s| s.borrow().clone()), requests: t.requests }
}

fn plan(src: &mut Src, body: usize) -> Plan {
    let take = match src.weighted(&[2, 2, 5]) {
        0 => Take::Nothing,
        1 => Take::AtMost(src.idx(body + 2)),
        _ => Take::All,
    };
    let piece = 1 + gen::size(src, 64);
    let style = if src.chance(1, 10) {
        // Larger than any buffer on the way.
        let n = src.range(8000, 40000);
        let c = gen::blob(src, n);
        match src.below(3) {
            0 => Style::Send(Content(c, 0)),
            1 => Style::Chunked(vec![Op::TrySend(Content(c, 0)), Op::Flush, Op::Write(b"more".to_vec())], src.flip()),
            _ => Style::Raw(c.len() as u64 + 4, vec![Op::WriteAll(c), Op::Write(b"more".to_vec())], src.flip()),
        }
    } else {
        style(src, false)
    };
    Plan { take, piece, script: Script { status: if src.chance(1, 3) { status(src) } else { None }, headers: HOp::list(src, 1, 3), style } }
}

fn input(src: &mut Src, case: &mut Case) -> Input {
    let mut i = Input { data: vec![], heads: vec![], ends: vec![], bodies: vec![] };
    let mut plans = vec![];
    let mut reqs = vec![];
    loop {
        let method = *src.pick(&["GET", "POST", "PUT", "FOO"]);
        let body = if method == "GET" || src.chance(1, 4) {
            vec![]
        } else {
            let max = if src.chance(1, 8) { 20000 } else { 60 };
            let n = gen::size(src, max);
            gen::blob(src, n)
        };
        let mut r = wire::Req::new(method, &format!("/{}", plans.len())).body(body.clone());
        if !body.is_empty() && src.chance(1, 2) {
            let mut sizes = vec![];
            while src.more(sizes.len(), 2, 5) {
                sizes.push(1 + gen::size(src, 40));
            }
            r.chunked = Some(sizes);
        }
        if src.chance(1, 4) {
            let v = gen::ident(src);
            r = r.header("X-Some", &v);
        }
        let bytes = r.bytes();
        let head = bytes.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
        i.heads.push(i.data.len() + head);
        i.data.extend_from_slice(&bytes);
        i.ends.push(i.data.len());
        plans.push(plan(src, body.len()));
        i.bodies.push(body);
        reqs.push(r);
        if !src.more(plans.len(), 2, 5) {
            break;
        }
    }
    // (The last plan is for the control request.)
    plans.push(Plan { take: Take::All, piece: 10, script: Script { status: None, headers: vec![], style: Style::TrySend(Content(b"control".to_vec(), 0)) } });
    case.note(|| format!("{}\n{:?}", reqs.iter().map(|r| gen::show(&r.bytes()[..r.bytes().len().min(300)])).collect::<Vec<_>>().join("\n"), plans));
    PLANS.with(|p| *p.borrow_mut() = plans);
    i
}

/// Another connection, after the fault.
fn control(server: &ServerInstance<Act>, fresh: &ServerInstance<Act>, held: usize, i: &Input, others: usize) -> Res {
    let index = i.ends.len();
    let req = wire::Req::new("GET", &format!("/{}", index)).bytes();
    let want = talk(fresh, &req, vec![], None, wire::Sink::default());
    for _ in 0..others {
        server.on_connection_start();
    }
    let got = talk(server, &req, vec![], None, wire::Sink::default());
    for _ in 0..others {
        server.on_connection_end();
    }
    ensure_eq!(got.requests, 1, "control", "requests that were handled after the fault");
    let want = match wire::parse_reply(&want.out, &mut 0) {
        Ok(r) => r,
        Err(m) => return fail("malformed", m),
    };
    let mut pos = 0;
    let mut reply = match wire::parse_reply(&got.out, &mut pos) {
        Ok(r) => r,
        Err(m) => return fail("control", format!("the response after the fault is malformed: {}", m)),
    };
    ensure!(pos == got.out.len(), "control", "there is more than one response after the fault: {}", gen::show(&got.out));
    let closes = reply.closes();
    let in_use = held + others + 1;
    let expected = in_use + FREE > THREADS;
    ensure!(closes == expected, "count", "{} connections should be in use after the fault, but the connection is {}", in_use, if closes { "closed" } else { "kept" });
    reply.headers.retain(|h| !h.0.eq_ignore_ascii_case("connection"));
    let mut want = want;
    want.headers.retain(|h| !h.0.eq_ignore_ascii_case("connection"));
    ensure_eq!(reply, want, "control", "the response after the fault");
    Ok(())
}

fn filters(src: &mut Src) -> Vec<Filter> {
    if src.chance(1, 3) {
        Filter::list(src, 3)
    } else {
        vec![]
    }
}

/// Where the responses end.
fn ends(out: &[u8]) -> Result<Vec<usize>, Fail> {
    let mut v = vec![];
    let mut p = 0;
    while p < out.len() {
        if let Err(m) = wire::parse_reply(out, &mut p) {
            return fail("malformed", format!("response {}: {}\noutput: {}", v.len() + 1, m, gen::show(&out[..out.len().min(3000)])));
        }
        v.push(p);
    }
    Ok(v)
}

fn writes(src: &mut Src, case: &mut Case) -> Res {
    let filters = filters(src);
    let i = input(src, case);
    let reads = wire::read_sizes(src);
    let (fresh, server) = (server(&filters), server(&filters));
    // Stays below the point where connections are closed.
    let held = src.below(4) as usize;
    for _ in 0..held {
        fresh.on_connection_start();
        server.on_connection_start();
    }
    let full = talk(&fresh, &i.data, vec![], None, wire::Sink::default());
    let replies = ends(&full.out)?;
    ensure_eq!(replies.len(), full.requests, "requests", "responses without a fault");
    let limit = match src.below(3) {
        0 => src.idx(full.out.len() + 1),
        1 => {
            // Around the end of a response, or what BufWriter holds.
            let at = *src.pick(&replies);
            (at + src.idx(9)).saturating_sub(4)
        }
        _ => (src.idx(4) * 8192 + src.idx(20)).saturating_sub(10),
    };
    let short = if src.chance(1, 3) { Some(1 + gen::size(src, 50)) } else { None };
    case.note(|| format!("{:?}\n{} other connections, the connection fails after {} of {} bytes, writes of {:?}, reads of {:?}", filters, held, limit, full.out.len(), short, reads));
    let got = talk(&server, &i.data, reads, None, wire::Sink { limit: Some(limit), kind: Some(*src.pick(&wire::LOST)), short, ..wire::Sink::default() });
    let hit = limit < full.out.len();
    ensure!(full.out.starts_with(&got.out), "prefix", "the output is not the beginning of the full output: {}\nfull: {}", gen::show(&got.out), gen::show(&full.out));
    ensure_eq!(got.out.len(), limit.min(full.out.len()), "prefix", "bytes that were written");
    ensure!(got.requests <= full.requests, "requests", "{} requests were handled with a fault, {} without", got.requests, full.requests);
    ensure_eq!(got.saw.len(), got.requests, "requests", "requests that reached the handler");
    for (n, (g, w)) in got.saw.iter().zip(&full.saw).enumerate() {
        ensure_eq!((g.index, &g.data, g.error, g.ended), (w.index, &w.data, w.error, w.ended), "body", "what handler {} read", n + 1);
        if !hit {
            ensure_eq!(g.did, w.did, "results", "results of handler {}", n + 1);
        }
        for (k, (g, w)) in g.did.iter().zip(&w.did).enumerate() {
            match *g {
                Did::Bad(ref m) => return fail("contract", format!("handler {}, operation {}: {}", n + 1, k, m)),
                Did::Io(_) | Did::Took(_) => {}
                // What was not taken leaves room in a declared length, and a
                // filter that was not asked doesn't refuse.
                _ => ensure!(g == w || matches!(*w, Did::Io(_) | Did::Took(_) | Did::Filter(_)), "results", "operation {} of handler {} gave {:?}, without a fault {:?}", k, n + 1, g, w),
            }
        }
    }
    case.nontrivial_if(hit && limit > 0 && !replies.contains(&limit));
    case.label_if(hit, "hit");
    case.label_if(hit && got.saw.iter().any(|s| s.did.iter().any(|d| matches!(*d, Did::Io(_)))), "handler was told");
    case.label_if(hit && limit > replies[0], "later response");
    let others = src.below(4) as usize;
    control(&server, &fresh, held, &i, others)
}

fn reads(src: &mut Src, case: &mut Case) -> Res {
    let filters = filters(src);
    let i = input(src, case);
    let sizes = wire::read_sizes(src);
    let (fresh, server) = (server(&filters), server(&filters));
    let held = src.below(4) as usize;
    for _ in 0..held {
        fresh.on_connection_start();
        server.on_connection_start();
    }
    let full = talk(&fresh, &i.data, vec![], None, wire::Sink::default());
    let replies = ends(&full.out)?;
    let at = match src.below(3) {
        0 => src.idx(i.data.len() + 1),
        1 => {
            let at = *src.pick(&i.ends);
            (at + src.idx(9)).saturating_sub(6).min(i.data.len())
        }
        _ => {
            let at = *src.pick(&i.heads);
            (at + src.idx(40)).saturating_sub(4).min(i.data.len())
        }
    };
    let kind = match src.below(5) {
        0 => None,
        1 => Some(io::ErrorKind::ConnectionReset),
        2 => Some(io::ErrorKind::TimedOut),
        3 => Some(io::ErrorKind::WouldBlock),
        _ => Some(io::ErrorKind::Other),
    };
    case.note(|| format!("{:?}\n{} other connections, after {} of {} bytes the connection {}, reads of {:?}", filters, held, at, i.data.len(), kind.map_or("ends".to_string(), |k| format!("fails with {:?}", k)), sizes));
    let got = match kind {
        None => talk(&server, &i.data[..at], sizes, None, wire::Sink::default()),
        Some(k) => talk(&server, &i.data, sizes, Some((at, k)), wire::Sink::default()),
    };
    let complete = i.ends.iter().filter(|&&e| e <= at).count();
    let heads = i.heads.iter().filter(|&&e| e <= at).count();
    // Responses may have ended the connection before that.
    let handled = heads.min(full.requests);
    ensure_eq!(got.requests, handled, "requests", "requests that were handled of {} complete heads", heads);
    ensure_eq!(got.saw.len(), handled, "requests", "requests that reached the handler");
    let want = &full.out[..if handled == 0 { 0 } else { replies[handled - 1] }];
    ensure!(got.out == want, "output", "the output is {}\nexpected: {}", gen::show(&got.out), gen::show(want));
    for (n, (g, w)) in got.saw.iter().zip(&full.saw).enumerate() {
        ensure_eq!((g.index, &g.did, &g.log), (w.index, &w.did, &w.log), "results", "what handler {} did", n + 1);
        if n < complete {
            ensure_eq!((&g.data, g.error, g.ended), (&w.data, w.error, w.ended), "body", "what handler {} read of a complete body", n + 1);
            continue;
        }
        case.label("cut body");
        let there = at - i.heads[n];
        ensure!(w.data.starts_with(&g.data), "body", "handler {} read {}, which is not the beginning of the body", n + 1, gen::show(&g.data));
        ensure!(g.data.len() <= there, "body", "handler {} read {} bytes of a body of which {} had come", n + 1, g.data.len(), there);
        // The end of the body is reported only if it came.
        ensure!(!g.ended || g.data == i.bodies[n], "silent cut", "handler {} was told that the body ends after {} of {} bytes", n + 1, g.data.len(), i.bodies[n].len());
        if let Some(e) = g.error {
            case.label("handler was told");
            if let Some(k) = kind {
                // hyper words some of them itself.
                ensure!(e == k || e == io::ErrorKind::Other || e == io::ErrorKind::InvalidInput, "error", "handler {} was given {:?} for {:?}", n + 1, e, k);
            }
        }
        case.nontrivial();
    }
    case.nontrivial_if(heads > 0 && heads == complete && at > i.ends[heads - 1]);
    let others = src.below(4) as usize;
    control(&server, &fresh, held, &i, others)
}

static ACTIVE: AtomicUsize = AtomicUsize::new(0);
static PANICS: AtomicUsize = AtomicUsize::new(0);

struct Watch;

impl Watch {
    fn new() -> Watch {
        ACTIVE.fetch_add(1, Ordering::SeqCst);
        Watch
    }
}

impl Drop for Watch {
    fn drop(&mut self) {
        ACTIVE.fetch_sub(1, Ordering::SeqCst);
        if std::thread::panicking() {
            PANICS.fetch_add(1, Ordering::SeqCst);
        }
    }
}

struct Serve;

impl Handler for Serve {
    fn handle(&self, mut c: Context, r: Response) {
        let _watch = Watch::new();
        let path = c.uri_path.as_utf8_path().unwrap_or("").to_owned();
        let size: usize = c.query.get("size").and_then(|s| s.parse().ok()).unwrap_or(0);
        let piece = vec![b'x'; 1 << 15];
        match &*path {
            "/chunked" => {
                let mut w = r.into_chunked();
                for _ in 0..size {
                    if w.try_send(&piece[..]).is_err() {
                        break;
                    }
                }
            }
            "/careless" => {
                let mut w = r.into_chunked();
                for _ in 0..size {
                    w.send(&piece[..]);
                }
            }
            "/raw" => {
                let mut w = unsafe { r.into_raw((size * piece.len()) as u64) };
                for _ in 0..size {
                    if w.write_all(&piece).is_err() {
                        break;
                    }
                }
            }
            "/sized" => r.send(vec![b'x'; size * piece.len()]),
            "/read" => {
                let mut v = vec![];
                match c.body.read_to_end(&mut v) {
                    Ok(n) => r.send(format!("{} bytes", n)),
                    Err(_) => r.send("cut"),
                }
            }
            "/leave" => r.send("left"),
            _ => r.send("control"),
        }
    }
}

struct Real {
    addr: SocketAddr,
    threads: usize,
}

static POOL: Mutex<Vec<Real>> = Mutex::new(vec![]);

fn reset(s: &TcpStream) {
    let linger = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
    }
}

fn ask(addr: SocketAddr, path: &str) -> Result<wire::Reply, Fail> {
    let mut s = TcpStream::connect(addr).expect("could not connect");
    s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
    let _ = s.write_all(format!("GET {} HTTP/1.1\r\nHost: a\r\nConnection: close\r\n\r\n", path).as_bytes());
    let mut out = vec![];
    if let Err(e) = s.read_to_end(&mut out) {
        return fail("no answer", format!("a request after the faults was not answered: {}", e));
    }
    match wire::parse_replies(&out) {
        Ok(mut v) if v.len() == 1 => Ok(v.pop().unwrap()),
        Ok(v) => fail("control", format!("{} responses after the faults", v.len())),
        Err(m) => fail("control", format!("the response after the faults is malformed: {}", m)),
    }
}

/// Clients that go away, on real connections to a running server.
fn sockets(src: &mut Src, case: &mut Case) -> Res {
    let threads = src.range(2, 4);
    let real = {
        let mut p = POOL.lock().unwrap();
        match p.iter().position(|r| r.threads == threads) {
            Some(i) => p.remove(i),
            None => {
                let mut l = Server {
                    host: "127.0.0.1:0".parse().unwrap(),
                    keep_alive: Some(KeepAlive { timeout: Duration::from_secs(600), free_threads: 0 }),
                    threads: Some(threads),
                    ..Server::new(Serve)
                }
                .run()
                .expect("could not start a server");
                let addr = l.socket;
                let _ = l.close();
                std::mem::forget(l);
                Real { addr, threads }
            }
        }
    };
    let panics = PANICS.load(Ordering::SeqCst);
    let mut done = 0;
    loop {
        let path = *src.pick(&["chunked", "careless", "raw", "sized", "read", "leave"]);
        let size = src.range(1, 40);
        let (method, body) = if path == "read" || path == "leave" { ("POST", src.range(1, 70000)) } else { ("GET", 0) };
        let chunked = body > 0 && src.flip();
        let mut data = format!("{} /{}?size={} HTTP/1.1\r\nHost: a\r\n", method, path, size).into_bytes();
        let blob = vec![b'y'; body];
        if chunked {
            data.extend(format!("Transfer-Encoding: chunked\r\n\r\n{:x}\r\n", body).bytes());
            data.extend(&blob);
            data.extend(b"\r\n0\r\n\r\n");
        } else if body > 0 {
            data.extend(format!("Content-Length: {}\r\n\r\n", body).bytes());
            data.extend(&blob);
        } else {
            data.extend(b"\r\n");
        }
        let cut = if src.chance(1, 2) { src.idx(data.len()) } else { data.len() };
        let read = if cut < data.len() { 0 } else { src.idx(100000) };
        let end = src.below(3);
        case.note(|| format!("{} /{} size {}, body {} ({}), {} of {} bytes sent, {} read, {}", method, path, size, body, if chunked { "chunked" } else { "declared" }, cut, data.len(), read, ["reset", "closed", "shut down"][end as usize]));
        let mut s = TcpStream::connect(real.addr).expect("could not connect");
        s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
        let _ = s.write_all(&data[..cut]);
        let mut got = 0;
        let mut buf = [0; 4096];
        let mut out = vec![];
        while got < read {
            let want = buf.len().min(read - got);
            // (Without this the connection would be kept open and wait.)
            if out.len() > 40 && wire::parse_reply(&out, &mut 0).is_ok() {
                break;
            }
            match s.read(&mut buf[..want]) {
                Ok(0) | Err(_) => break,
                Ok(n) => {
                    got += n;
                    out.extend_from_slice(&buf[..n]);
                }
            }
        }
        match end {
            0 => reset(&s),
            1 => {}
            _ => {
                let _ = s.shutdown(Shutdown::Write);
                let mut rest = vec![];
                if let Err(e) = s.read_to_end(&mut rest) {
                    if e.kind() != io::ErrorKind::ConnectionReset {
                        return fail("left open", format!("the connection was not closed after the client ended it: {}", e));
                    }
                }
            }
        }
        drop(s);
        done += 1;
        if !src.more(done, 4, 8) {
            break;
        }
    }
    case.nontrivial_if(done > 1);
    // All threads can answer.
    let r = ask(real.addr, "/control")?;
    ensure!(r.status == 200 && r.body == b"control", "control", "the response after the faults is {:?}", r);
    let r = ask(real.addr, "/chunked?size=3")?;
    ensure!(r.status == 200 && r.body.len() == 3 << 15, "control", "the response after the faults has {} bytes", r.body.len());
    let mut open = vec![];
    for _ in 0..threads {
        let mut s = TcpStream::connect(real.addr).expect("could not connect");
        s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
        let _ = s.write_all(b"GET /control HTTP/1.1\r\nHost: a\r\n\r\n");
        open.push(s);
    }
    for s in &mut open {
        let mut buf = [0; 4096];
        match s.read(&mut buf) {
            Ok(n) if n > 0 => {}
            other => return fail("no answer", format!("with {} connections at once after the faults, one was not answered: {:?}", threads, other)),
        }
    }
    drop(open);
    ensure_eq!(PANICS.load(Ordering::SeqCst), panics, "panic", "handlers that panicked");
    POOL.lock().unwrap().push(real);
    Ok(())
}

fn main() {
    runner::main("P26", "a fault inside a response, or inside a request after at least one complete head (or several faulty real connections)", &[
        Prop { name: "writes", quick: 800_000, thorough: 8_000_000, run: writes },
        Prop { name: "reads", quick: 800_000, thorough: 8_000_000, run: reads },
        Prop { name: "sockets", quick: 16_000, thorough: 60_000, run: sockets },
    ]);
}
