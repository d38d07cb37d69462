//! P21: requests do not influence each other.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::panic::{self, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Duration;

use pbt::routes::{self, Route, Table};
use pbt::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::Data;
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, DefaultRouter, Handler, Response, Server, StatusCode};

/// Tells everything about the request, in the way that the `X-Do` header asks
/// for: how much of the body to read, the kind of response, the status.
struct Echo(u32);

/// What the context filter saw, for the handler and the response filter.
struct Stash(Vec<String>);

struct Pieces(usize);

fn sorted(p: &rustful::context::Parameters) -> BTreeMap<Vec<u8>, Vec<u8>> {
    p.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect()
}

impl Handler for Echo {
    fn handle(&self, mut c: Context, mut r: Response) {
        let order = c.headers.get_raw("X-Do").and_then(|v| v.get(0).cloned()).map(|v| String::from_utf8_lossy(&v).into_owned()).unwrap_or_default();
        let mut order = order.split(' ');
        let read = order.next().unwrap_or("");
        let style = order.next().unwrap_or("");
        if let Some(s) = order.next().and_then(|s| s.parse().ok()) {
            r.set_status(StatusCode::from_u16(s));
        }
        let mut body = vec![];
        let mut fields = vec![];
        let mut err = None;
        match read {
            "all" => err = c.body.read_to_end(&mut body).err().map(|e| e.to_string()),
            "form" => match c.body.read_query_body() {
                Ok(p) => fields = sorted(&p).into_iter().collect(),
                Err(e) => err = Some(e.to_string()),
            },
            "multipart" => {
                if let Some(mut m) = c.body.as_multipart() {
                    while let Ok(Some(mut e)) = m.read_entry() {
                        let mut v = vec![];
                        match e.data.read_to_end(&mut v) {
                            Ok(_) => fields.push((e.headers.name.as_bytes().to_vec(), v)),
                            Err(_) => break,
                        }
                    }
                }
            }
            n => if let Some(n) = n.parse::<usize>().ok() {
                err = (&mut c.body).take(n as u64).read_to_end(&mut body).err().map(|e| e.to_string());
            },
        }
        let links: Vec<_> = c.hyperlinks.iter().map(routes::own_link).collect();
        let mut headers: Vec<(String, String)> = c.headers.iter().map(|h| (h.name().to_ascii_lowercase(), h.value_string())).collect();
        headers.sort();
        let stash = r.filter_storage().get::<Stash>().map(|s| s.0.clone());
        let text = format!(
            "handler {}\n{} {} {} {}\nheaders {:?}\nvariables {:?}\nquery {:?}\nfragment {:?}\nlinks {:?}\nbody {} {:?} {:?}\nstash {:?}\nglobal {:?}\nstatus {}\n",
            self.0,
            c.method,
            c.uri_path.as_path().map(|p| gen::show(p.as_bytes())).unwrap_or_else(|| "*".into()),
            c.http_version,
            c.address,
            headers,
            sorted(&c.variables),
            sorted(&c.query),
            c.fragment.as_ref().map(|f| f.as_bytes().to_vec()),
            links,
            gen::show(&body),
            err,
            fields,
            stash,
            c.global.get::<String>(),
            r.status(),
        );
        match style {
            "drop" => {
                let h = src::hash_bytes(text.as_bytes());
                r.headers_mut().set_raw("X-Echo", vec![h.to_string().into_bytes()]);
            }
            "chunked" => {
                drop(c);
                let mut w = r.into_chunked();
                for l in text.as_bytes().chunks(50) {
                    let _ = w.try_send(l);
                }
            }
            "raw" => {
                let mut w = unsafe { r.into_raw(text.len() as u64) };
                let _ = w.write_all(text.as_bytes());
            }
            "panic" => panic!("injected panic"),
            _ => r.send(text),
        }
    }

    fn description(&self) -> Option<std::borrow::Cow<'static, str>> {
        Some(format!("h{}", self.0).into())
    }
}

struct Before;

impl ContextFilter for Before {
    fn modify(&self, f: FilterContext, c: &mut Context) -> ContextAction {
        let tag = c.headers.get_raw("X-Tag").map(|v| v.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect::<Vec<_>>());
        if let Some(tag) = tag {
            if let Some(n) = tag.iter().find(|t| t.starts_with("stop ")).and_then(|t| t[5..].parse().ok()) {
                return ContextAction::abort(StatusCode::from_u16(n));
            }
            f.storage.entry::<Stash>().or_insert_with(|| Stash(vec![])).0.extend(tag);
        }
        ContextAction::next()
    }
}

struct After;

impl ResponseFilter for After {
    fn begin(&self, f: FilterContext, status: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        if let Some(s) = f.storage.get::<Stash>() {
            h.set_raw("X-Stash", vec![s.0.join(",").into_bytes()]);
        }
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, f: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        let n = f.storage.entry::<Pieces>().or_insert_with(|| Pieces(0));
        n.0 += 1;
        ResponseAction::Next(content)
    }
    fn end(&self, f: FilterContext) -> ResponseAction {
        ResponseAction::next(Some(format!("pieces {:?}", f.storage.get::<Pieces>().map(|p| p.0))))
    }
}

/// What servers are made from.
struct Plan {
    table: Table,
    hyperlinks: bool,
    filters: bool,
}

impl Plan {
    fn draw(src: &mut Src) -> Plan {
        Plan { table: routes::table(src, 6, 14), hyperlinks: src.flip(), filters: src.flip() }
    }

    fn config(&self) -> Server<DefaultRouter<Echo>> {
        let mut router = DefaultRouter::<Echo>::new();
        for r in &self.table.routes {
            router.build().path(&r.pattern).then().on(r.method.clone(), Echo(r.id));
        }
        router.find_hyperlinks = self.hyperlinks;
        Server {
            keep_alive: Some(KeepAlive { timeout: Duration::from_secs(600), free_threads: 0 }),
            threads: Some(1000),
            server: "test".into(),
            global: (String::from("shared"), 5u8).into(),
            context_filters: if self.filters { vec![Box::new(Before)] } else { vec![] },
            response_filters: if self.filters { vec![Box::new(After)] } else { vec![] },
            ..Server::new(router)
        }
    }

    fn server(&self) -> ServerInstance<DefaultRouter<Echo>> {
        self.config().build()
    }

    fn describe(&self) -> String {
        format!("{}; hyperlinks {}, filters {}", self.table.describe(), self.hyperlinks, self.filters)
    }
}

fn target(src: &mut Src, routes: &Table) -> String {
    let mut t = String::new();
    for s in routes::request_segments(src, &routes.alpha, &routes.patterns) {
        t.push('/');
        t.push_str(&gen::percent_encode(src, &s, gen::unreserved));
    }
    if t.is_empty() {
        t.push('/');
    }
    if src.flip() {
        t.push('?');
        let f = form::form(src, 3, 6);
        t.push_str(&f.text);
    }
    if src.chance(1, 8) {
        t.push('#');
        t.push_str(&gen::ident(src));
    }
    t
}

fn request(src: &mut Src, plan: &Plan) -> wire::Req {
    let method = routes::request_method(src, &plan.table.routes).to_string();
    let mut t = target(src, &plan.table);
    if src.chance(1, 8) && !t.contains("/.") && !t.contains("%2") {
        t = format!("http://host{}{}", src.below(3), t);
    } else if src.chance(1, 40) {
        t = "*".into();
    } else if src.chance(1, 40) {
        t = "example.com:80".into();
    }
    let mut r = wire::Req::new(&method, &t);
    if src.chance(1, 30) {
        r.version = "HTTP/1.0";
    }
    let n = src.below(4);
    for _ in 0..n {
        r = match src.below(4) {
            0 => r.header("X-Tag", &gen::ident(src)),
            1 => r.header("Host", &format!("h{}", src.below(3))),
            2 => {
                let v = gen::ident(src);
                r.header("X-Other", &v)
            }
            _ => r.header("Accept", "text/*"),
        };
    }
    if src.chance(1, 16) {
        r = r.header("X-Tag", &format!("stop {}", src.pick(&[200, 400, 401, 403, 404, 407, 429, 500, 503])));
    }
    r = r.more(src);
    let read = match src.weighted(&[4, 3, 2, 1, 2]) {
        0 => "all".to_string(),
        1 => "none".into(),
        2 => "form".into(),
        3 => "multipart".into(),
        _ => gen::size(src, 60).to_string(),
    };
    let style = *src.pick(&["send", "send", "drop", "chunked", "raw"]);
    let order = if src.chance(1, 6) { format!("{} {} {}", read, style, src.pick(&[201, 404, 503])) } else { format!("{} {}", read, style) };
    r = r.header("X-Do", &order);
    if src.flip() {
        if read == "multipart" || src.chance(1, 8) {
            r = r.header("Content-Type", "multipart/form-data; boundary=xx");
            let mut b = vec![];
            let n = src.below(4);
            for i in 0..n {
                b.extend_from_slice(format!("--xx\r\nContent-Disposition: form-data; name=\"n{}\"\r\n\r\n{}\r\n", i, gen::ident(src)).as_bytes());
            }
            b.extend_from_slice(b"--xx--\r\n");
            r.body = b;
        } else {
            r.body = match src.weighted(&[3, 3, 1]) {
                0 => gen::bytes(src, 80),
                // Might be taken for a request, if it's left unread.
                1 => wire::Req::new("GET", &target(src, &plan.table)).header("X-Do", "all send 201").bytes(),
                _ => {
                    let n = if src.chance(1, 16) { src.range(1 << 15, 1 << 20) } else if src.chance(1, 60) { src.range(1 << 20, 3 << 20) } else { gen::size(src, 20000) };
                    gen::blob(src, n)
                }
            };
        }
        if src.chance(1, 3) {
            let n = src.range(1, 3);
            let most = if r.body.len() > 1 << 15 { 1 << 17 } else { 5000 };
            r.chunked = Some((0..n).map(|_| 1 + gen::size(src, most)).collect());
        }
    }
    if r.body.is_empty() {
        // (The multipart parser does not notice the end of an empty body.)
        for h in r.headers.iter_mut().filter(|h| h.0 == "X-Do") {
            h.1 = String::from_utf8_lossy(&h.1).replace("multipart", "all").into_bytes();
        }
    } else if !r.body.starts_with(b"--xx") {
        r.headers.retain(|h| h.0 != "Content-Type");
    }
    r
}

/// Small changes to a request.
fn vary(src: &mut Src, plan: &Plan, r: &wire::Req) -> wire::Req {
    let other = request(src, plan);
    let mut r = r.clone();
    match src.below(5) {
        0 => r.method = other.method,
        1 => r.target = other.target,
        2 => r.headers = {
            let keep: Vec<_> = r.headers.iter().filter(|h| h.0 == "X-Do" || h.0 == "Content-Type").cloned().collect();
            other.headers.into_iter().filter(|h| h.0 != "X-Do" && h.0 != "Content-Type").chain(keep).collect()
        },
        3 => {
            r.target = r.target.split(|c| c == '?' || c == '#').next().unwrap().to_string();
            r.target.push_str("?other=query");
        }
        _ => {}
    }
    r
}

fn pool(src: &mut Src, plan: &Plan, avg: u64) -> Vec<wire::Req> {
    let mut v = vec![request(src, plan)];
    while src.more(v.len(), avg, 12) {
        let r = if src.flip() {
            let i = src.idx(v.len());
            let r = v[i].clone();
            vary(src, plan, &r)
        } else {
            request(src, plan)
        };
        v.push(r);
    }
    v
}

fn undated(mut r: wire::Reply) -> wire::Reply {
    r.headers.retain(|h| !h.0.eq_ignore_ascii_case("date"));
    r.headers.sort();
    r
}

fn next_reply(out: &[u8], pos: &mut usize, r: &wire::Req, at: &str) -> Result<wire::Reply, Fail> {
    match wire::parse_reply_to(out, pos, r.method == "HEAD") {
        Ok(r) => Ok(undated(r)),
        Err(m) => fail("malformed", format!("{}: {}\noutput: {}", at, m, gen::show(&out[..out.len().min(3000)]))),
    }
}

/// The answer of a server that has never had another request.
fn alone(plan: &Plan, r: &wire::Req) -> Result<(wire::Reply, bool), Fail> {
    let (out, talk) = wire::send(&plan.server(), r.bytes(), true);
    let mut pos = 0;
    let reply = next_reply(&out, &mut pos, r, "alone")?;
    let at = String::from_utf8_lossy(&out).into_owned();
    ensure!(talk.requests == 1 && pos == out.len(), "unread body", "one request gives {} responses: {}", talk.requests, runner::clip(&at, 2000));
    Ok((reply, talk.open))
}

fn is_multipart(r: &wire::Req) -> bool {
    r.headers.iter().any(|h| h.0 == "X-Do" && h.1.starts_with(b"multipart"))
}

/// The requests of a connection. (The multipart parser depends on how its
/// input is split, so its requests come first and in one piece.)
fn picks(src: &mut Src, pool: &[wire::Req], open: &dyn Fn(usize) -> bool, avg: u64, max: usize) -> Vec<usize> {
    let mut pick = vec![src.idx(pool.len())];
    while open(*pick.last().unwrap()) && src.more(pick.len(), avg, max) {
        let i = src.idx(pool.len());
        if !is_multipart(&pool[i]) {
            pick.push(i);
        }
    }
    pick
}

fn show_req(r: &wire::Req) -> String {
    gen::show(&r.bytes()[..r.bytes().len().min(600)])
}

fn disturb(src: &mut Src, case: &mut Case, server: &ServerInstance<DefaultRouter<Echo>>, plan: &Plan) {
    let mut r = request(src, plan);
    let kind = src.below(4);
    let mut sink = wire::Sink::default();
    let mut data = r.bytes();
    match kind {
        0 => {
            for h in r.headers.iter_mut().filter(|h| h.0 == "X-Do") {
                h.1 = b"none panic".to_vec();
            }
            data = r.bytes();
        }
        1 => {
            let n = src.idx(data.len() + 1);
            data.truncate(n);
        }
        2 => sink.limit = Some(gen::size(src, 400)),
        _ => data = gen::bytes(src, 60),
    }
    case.note(|| format!("disturbance {}: {}", kind, gen::show(&data[..data.len().min(600)])));
    if is_multipart(&r) {
        return;
    }
    let mut stream = wire::MockStream::new(data, "10.0.0.1:5".parse().unwrap());
    let _ = panic::catch_unwind(AssertUnwindSafe(|| wire::converse(server, &mut stream, &mut sink, true)));
}

/// Connections one after the other, with faulty ones in between.
fn history(src: &mut Src, case: &mut Case) -> Res {
    let plan = Plan::draw(src);
    case.note(|| plan.describe());
    let pool = pool(src, &plan, 4);
    let mut want = vec![];
    for (i, r) in pool.iter().enumerate() {
        case.note(|| format!("request {}: {}", i, show_req(r)));
        want.push(alone(&plan, r)?);
    }
    let server = plan.server();
    let mut connections = 0;
    let mut asked = 0;
    loop {
        if src.chance(1, 4) {
            disturb(src, case, &server, &plan);
        }
        let pick = picks(src, &pool, &|i| want[i].1, 3, 8);
        let reads = if is_multipart(&pool[pick[0]]) { vec![] } else { wire::read_sizes(src) };
        case.note(|| format!("a connection with requests {:?}, network reads {:?}", pick, reads));
        let data: Vec<u8> = pick.iter().flat_map(|&i| pool[i].bytes()).collect();
        let mut stream = wire::MockStream::new(data, wire::addr());
        stream.0.lock().unwrap().reads = reads;
        let mut sink = wire::Sink::default();
        let talk = wire::converse(&server, &mut stream, &mut sink, true);
        let mut pos = 0;
        for (n, &i) in pick.iter().enumerate() {
            let at = format!("connection {}, request {} (number {})", connections + 1, n + 1, i);
            let got = next_reply(&sink.out, &mut pos, &pool[i], &at)?;
            ensure_eq!(got, want[i].0, "another response", "{}, compared with the response of a new server", at);
        }
        ensure!(talk.requests == pick.len() && pos == sink.out.len(), "requests", "{} requests were sent, {} were handled, {} bytes follow the last response", pick.len(), talk.requests, sink.out.len() - pos);
        asked += pick.len();
        connections += 1;
        if !src.more(connections, 3, 8) {
            break;
        }
    }
    case.label_if(connections > 1, "several connections");
    case.label_if(pool.iter().any(|r| !r.body.is_empty()), "bodies");
    case.nontrivial_if(asked > 2 && want.iter().any(|w| w.0 != want[0].0));
    Ok(())
}

/// Connections at the same time, on threads of their own.
fn threads(src: &mut Src, case: &mut Case) -> Res {
    let plan = Plan::draw(src);
    case.note(|| plan.describe());
    let pool = pool(src, &plan, 5);
    let mut want = vec![];
    for (i, r) in pool.iter().enumerate() {
        case.note(|| format!("request {}: {}", i, show_req(r)));
        want.push(alone(&plan, r)?);
    }
    let server = plan.server();
    let n = src.range(2, 6);
    let plans: Vec<Vec<usize>> = (0..n).map(|_| picks(src, &pool, &|i| want[i].1, 10, 40)).collect();
    case.note(|| format!("connections: {:?}", plans));
    case.nontrivial_if(want.iter().any(|w| w.0 != want[0].0));
    let barrier = std::sync::Barrier::new(n);
    let results: Vec<Res> = std::thread::scope(|s| {
        let all: Vec<_> = plans.iter().map(|pick| {
            let (server, pool, want, barrier) = (&server, &pool, &want, &barrier);
            s.spawn(move || -> Res {
                let data: Vec<u8> = pick.iter().flat_map(|&i| pool[i].bytes()).collect();
                barrier.wait();
                let (out, talk) = wire::send(server, data, true);
                let mut pos = 0;
                for (n, &i) in pick.iter().enumerate() {
                    let at = format!("request {} of {:?}", n + 1, pick);
                    let got = next_reply(&out, &mut pos, &pool[i], &at)?;
                    ensure_eq!(got, want[i].0, "another response", "{}, compared with the response of a new server", at);
                }
                ensure!(talk.requests == pick.len() && pos == out.len(), "requests", "{} requests were sent, {} were handled", pick.len(), talk.requests);
                Ok(())
            })
        }).collect();
        all.into_iter().map(|h| match h.join() {
            Ok(r) => r,
            Err(_) => fail("panic", "the server panicked".into()),
        }).collect()
    });
    for r in results {
        r?;
    }
    Ok(())
}

struct Shared {
    plan: Plan,
    addr: SocketAddr,
}

/// A server that listens can't be stopped, so they are few.
static SERVERS: Mutex<Vec<Shared>> = Mutex::new(vec![]);

/// Real connections, to servers that have a long history.
fn sockets(src: &mut Src, case: &mut Case) -> Res {
    let s = SERVERS.lock().unwrap().pop();
    let s = match s {
        Some(s) => s,
        None => {
            // (As good as any other table: not drawn from `src`, since the
            // server is used by many cases.)
            let plan = Plan::draw(&mut Src::random(77));
            let plan = Plan { hyperlinks: true, filters: true, ..plan };
            let mut l = Server { host: "127.0.0.1:0".parse().unwrap(), threads: Some(12), ..plan.config() }.run().expect("could not start a server");
            let addr = l.socket;
            let _ = l.close();
            std::mem::forget(l);
            Shared { plan, addr }
        }
    };
    let r = at_once(src, case, &s);
    if r.is_ok() {
        SERVERS.lock().unwrap().push(s);
    }
    r
}

fn at_once(src: &mut Src, case: &mut Case, s: &Shared) -> Res {
    let pool: Vec<wire::Req> = pool(src, &s.plan, 5).into_iter().filter(|r| r.version == "HTTP/1.1" && !is_multipart(r)).collect();
    let mut want = vec![];
    for (i, r) in pool.iter().enumerate() {
        case.note(|| format!("request {}: {}", i, show_req(r)));
        want.push(alone(&s.plan, r)?.0);
    }
    if pool.is_empty() {
        return Ok(());
    }
    let n = src.range(1, 6);
    let plans: Vec<(Vec<usize>, usize)> = (0..n).map(|_| {
        let pick = picks(src, &pool, &|_| true, 5, 16);
        (pick, 1 + gen::size(src, 5000))
    }).collect();
    case.note(|| format!("connections (requests, largest write): {:?}", plans));
    case.nontrivial_if(n > 1 && want.iter().any(|w| *w != want[0]));
    let results: Vec<Res> = std::thread::scope(|scope| {
        let all: Vec<_> = plans.iter().map(|&(ref pick, step)| {
            let (pool, want) = (&pool, &want);
            scope.spawn(move || -> Res {
                let data: Vec<u8> = pick.iter().flat_map(|&i| pool[i].bytes()).collect();
                let mut c = TcpStream::connect(s.addr).expect("could not connect");
                c.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
                let me = c.local_addr().unwrap().to_string();
                let mut w = c.try_clone().unwrap();
                let writer = std::thread::spawn(move || {
                    for p in data.chunks(step.max(data.len() / 20 + 1)) {
                        if w.write_all(p).is_err() {
                            return;
                        }
                    }
                    let _ = w.shutdown(Shutdown::Write);
                });
                let mut out = vec![];
                let r = c.read_to_end(&mut out);
                let _ = writer.join();
                if let Err(e) = r {
                    return fail("no answer", format!("{} after {} bytes", e, out.len()));
                }
                let mut pos = 0;
                for (n, &i) in pick.iter().enumerate() {
                    let at = format!("request {} of {:?}", n + 1, pick);
                    let mut got = next_reply(&out, &mut pos, &pool[i], &at)?;
                    let mut want = want[i].clone();
                    // The address of the client is the only difference.
                    for r in vec![&mut got, &mut want] {
                        r.headers.retain(|h| h.0 != "X-Echo" && h.0 != "Content-Length");
                        r.chunks.clear();
                        r.body = String::from_utf8_lossy(&r.body).replace(&me, "(client)").replace("127.0.0.1:40000", "(client)").into_bytes();
                        // (Which changes the pieces as well.)
                        if let Some(p) = r.body.windows(7).rposition(|w| w == b"pieces ") {
                            r.body.truncate(p);
                        }
                    }
                    ensure_eq!(got, want, "another response", "{}, compared with the response of a new server", at);
                }
                ensure!(pos == out.len(), "requests", "{} bytes follow the last response", out.len() - pos);
                Ok(())
            })
        }).collect();
        all.into_iter().map(|h| match h.join() {
            Ok(r) => r,
            Err(_) => fail("panic", "the client failed".into()),
        }).collect()
    });
    for r in results {
        r?;
    }
    Ok(())
}

fn main() {
    let _: Option<Route> = None;
    runner::main("P21", "more than two requests with different answers (for the concurrent checks: at the same time)", &[
        Prop { name: "history", quick: 60_000, thorough: 1_500_000, run: history },
        Prop { name: "threads", quick: 10_000, thorough: 250_000, run: threads },
        Prop { name: "sockets", quick: 3_000, thorough: 60_000, run: sockets },
    ]);
}
