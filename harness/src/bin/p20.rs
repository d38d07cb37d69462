//! P20: keep-alive is refused exactly when too few threads are free.
use std::cell::RefCell;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::unix::io::AsRawFd;
use std::panic::{self, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

use pbt::resp::*;
use pbt::*;
use rustful::filter::{ContextAction, ContextFilter, FilterContext, ResponseFilter};
use rustful::server::{KeepAlive, ServerInstance};
use rustful::{Context, Handler, Response, Server, StatusCode};

thread_local! {
    static SCRIPT: RefCell<Option<(Script, Panic)>> = RefCell::new(None);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Panic {
    No,
    /// Before the response is begun.
    Before,
    /// When it has been sent.
    After,
    /// In a context filter.
    Filter,
}

struct Act;

impl Handler for Act {
    fn handle(&self, _: Context, r: Response) {
        let (s, p) = SCRIPT.with(|s| s.borrow_mut().take()).expect("a request without a script");
        if p == Panic::Before {
            panic!("injected panic");
        }
        perform(&s, r);
        if p == Panic::After {
            panic!("injected panic");
        }
    }
}

struct Trap;

impl ContextFilter for Trap {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        let trap = SCRIPT.with(|s| s.borrow().as_ref().map_or(false, |s| s.1 == Panic::Filter));
        if trap {
            panic!("injected panic");
        }
        if c.headers.get_raw("X-Abort").is_some() {
            SCRIPT.with(|s| s.borrow_mut().take());
            return ContextAction::abort(StatusCode::Forbidden);
        }
        ContextAction::next()
    }
}

/// One connection after the other on this thread; what the others do is
/// played by the notifications that hyper sends.
fn history(src: &mut Src, case: &mut Case) -> Res {
    let threads = if src.chance(1, 30) { src.range(10, 2000) } else { src.range(0, 9) };
    let free = match src.weighted(&[10, 4, 1]) {
        0 => src.range(0, threads / 2),
        1 => src.range(0, threads + 2),
        _ => usize::max_value() - src.range(0, 9),
    };
    let keep_alive = src.chance(9, 10);
    let mut filters = if src.flip() { vec![] } else { Filter::list(src, 3) };
    // A filter may have its own opinion about the connection.
    let mut meddles = false;
    for f in &mut filters {
        if src.chance(1, 6) {
            meddles = true;
            f.headers.push(match src.idx(4) {
                0 => HOp::Remove("Connection".into()),
                1 => HOp::Set("connection".into(), vec!["upgrade".into()]),
                _ => HOp::Set("Connection".into(), vec!["keep-alive".into()]),
            });
        }
    }
    case.label_if(meddles, "filter sets Connection");
    case.note(|| format!("{} threads, {}, filters {:?}", threads, if keep_alive { format!("{} to keep free", free) } else { "keep-alive off".into() }, filters));
    let server: ServerInstance<Act> = Server {
        keep_alive: if keep_alive { Some(KeepAlive { timeout: Duration::from_secs(5), free_threads: free }) } else { None },
        threads: Some(threads),
        context_filters: vec![Box::new(Trap)],
        response_filters: filters.iter().map(|f| Box::new(Installed(f.clone())) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(Act)
    }
    .build();

    let mut open = 0usize;
    let mut n = 0;
    let (mut kept, mut forced, mut panics) = (0, 0, 0);
    use hyper::server::Handler as HyperHandler;
    while src.more(n, 12, 60) {
        n += 1;
        match src.weighted(&[5, 1, 8]) {
            0 => {
                if open < threads {
                    let n = src.range(1, threads - open);
                    open += n;
                    for _ in 0..n {
                        server.on_connection_start();
                    }
                    case.note(|| format!("{} connections begin", n));
                }
            }
            1 => {
                if open > 0 {
                    open -= 1;
                    server.on_connection_end();
                    case.note(|| "a connection ends".into());
                }
            }
            _ => {
                if open == 0 {
                    open = 1;
                    server.on_connection_start();
                }
                let mut script = Script { status: status(src), headers: HOp::list(src, 1, 3), style: style(src, false) };
                let says_keep = src.chance(1, 6);
                if says_keep {
                    script.headers.push(HOp::Set("Connection".into(), vec!["keep-alive".into()]));
                }
                let panic = match src.weighted(&[12, 1, 1, 1]) {
                    0 => Panic::No,
                    1 => Panic::Before,
                    2 => Panic::After,
                    _ => Panic::Filter,
                };
                let target = match src.weighted(&[8, 1, 1]) {
                    0 => "/",
                    1 => "*",
                    _ => "example.com:80",
                };
                let mut req = wire::Req::new("GET", target);
                let wants = src.weighted(&[8, 1, 1, 1]);
                match wants {
                    0 => {}
                    1 => req = req.header("Connection", "close"),
                    2 => req.version = "HTTP/1.0",
                    _ => {
                        req.version = "HTTP/1.0";
                        req = req.header("Connection", "keep-alive");
                    }
                }
                // Headers that the decision has nothing to do with.
                let mut others = 0;
                while src.chance(1, 4) && others < 4 {
                    others += 1;
                    req = match src.below(4) {
                        0 => {
                            let (n, v) = *src.pick(&[
                                ("Upgrade", "websocket"), ("Upgrade", "h2c"), ("Keep-Alive", "timeout=5, max=100"), ("TE", "trailers"), ("Trailer", "X-Sum"), ("Cache-Control", "no-cache"),
                                ("Accept", "text/html"), ("Proxy-Connection", "keep-alive"), ("Proxy-Connection", "close"), ("User-Agent", "Mozilla/5.0"), ("Range", "bytes=0-"), ("If-None-Match", "\"a\""),
                                ("Cookie", "a=b"), ("Pragma", "no-cache"), ("Authorization", "Basic YTpi"), ("Accept-Encoding", "gzip, chunked"), ("Sec-WebSocket-Version", "13"), ("Date", "Thu, 19 Nov 2026 22:00:00 GMT"),
                                ("Via", "1.0 a"), ("X-Forwarded-For", "127.0.0.1"), ("DNT", "1"), ("HTTP2-Settings", "AAMAAABkAARAAAAAAAIAAAAA"),
                            ]);
                            req.header(n, v)
                        }
                        1 => req.header("Upgrade", "websocket"),
                        2 => req.header(&format!("X-{}", src.range(0, 99)), "close"),
                        _ => req.header("Keep-Alive", "300"),
                    };
                }
                case.label_if(others > 0, "request headers");
                let mut req = req.more(src);
                if src.chance(1, 4) {
                    // A body that nobody reads.
                    req.method = (*src.pick(&["GET", "POST", "PUT", "OPTIONS", "DELETE"])).to_string();
                    let n = gen::size(src, 20000);
                    req.body = gen::blob(src, n);
                    if req.version == "HTTP/1.1" && src.chance(1, 3) {
                        req.chunked = Some(vec![src.range(1, 5000)]);
                    }
                }
                let abort = src.chance(1, 12);
                if abort {
                    req = req.header("X-Abort", "1");
                }
                let handled = target == "/" && !abort;
                let force = keep_alive && open.saturating_add(free) > threads;
                case.note(|| format!("{} in use: a request for {} (wants {}, aborted {}), {:?}, {:?}", open, target, wants, abort, panic, script));
                SCRIPT.with(|s| *s.borrow_mut() = Some((script.clone(), panic)));
                let mut stream = wire::MockStream::new(req.bytes(), wire::addr());
                let mut sink = wire::Sink::default();
                let talk = panic::catch_unwind(AssertUnwindSafe(|| wire::exchange(&server, &mut stream, &mut sink, keep_alive)));
                let left = SCRIPT.with(|s| s.borrow_mut().take());
                let talk = match talk {
                    Ok(t) => t,
                    Err(_) => {
                        ensure!(panic != Panic::No, "panic", "the server panicked");
                        // The thread ends without further notice, and the
                        // connection with it.
                        open -= 1;
                        panics += 1;
                        continue;
                    }
                };
                ensure!(talk.requests == 1, "requests", "{} requests", talk.requests);
                ensure!(!handled || left.is_none(), "requests", "the handler did not run");
                let mut pos = 0;
                let reply = match wire::parse_reply(&sink.out, &mut pos) {
                    Ok(r) => r,
                    Err(m) => return fail("malformed", format!("{}\noutput: {}", m, gen::show(&sink.out[..sink.out.len().min(3000)]))),
                };
                // What hyper makes of the request and of the headers.
                let wanted = keep_alive && wants != 1 && wants != 2;
                let agreed = wants != 3 || (says_keep && handled);
                let failing = filters.iter().any(|f| matches!(f.begin, Add::Abort) || f.write.contains(&Mode::Abort) || matches!(f.end, Add::Abort));
                if force {
                    forced += 1;
                    ensure!(reply.closes(), "not closed", "{} connections are in use, {} of {} threads should be free, but the response does not close the connection", open, free, threads);
                    ensure!(!talk.open, "left open", "the connection is not closed");
                    case.label_if(failing, "closed, with failing filters");
                } else if !wanted {
                    ensure!(!talk.open, "left open", "the connection is not closed");
                    if (!says_keep || !handled) && !meddles {
                        ensure!(reply.closes(), "not closed", "keep-alive is {}, the client wants {}, but the response does not close the connection", keep_alive, wants);
                    }
                } else {
                    kept += 1;
                    ensure!(!reply.closes(), "closed", "{} connections are in use, {} of {} threads should be free, but the response closes the connection", open, free, threads);
                    if !meddles || wants != 3 {
                        ensure_eq!(talk.open, agreed, "closed", "whether the connection stays open");
                    }
                }
                if !talk.open {
                    open -= 1;
                    server.on_connection_end();
                }
            }
        }
    }
    case.label_if(panics > 0, "panicking handlers");
    case.label_if(kept > 0 && forced > 0, "kept and closed");
    case.nontrivial_if(kept > 0 && forced > 0);
    Ok(())
}

/// Handlers of the real servers.
struct Serve;

struct Gate(Mutex<bool>, Condvar);

static GATE: Gate = Gate(Mutex::new(false), Condvar::new());

impl Gate {
    fn set(&self, open: bool) {
        *self.0.lock().unwrap() = open;
        self.1.notify_all();
    }
    fn wait(&self) {
        let mut open = self.0.lock().unwrap();
        while !*open {
            open = self.1.wait(open).unwrap();
        }
    }
}

impl Handler for Serve {
    fn handle(&self, mut c: Context, mut r: Response) {
        let path = c.uri_path.as_path().map(|p| p.as_utf8_lossy().into_owned()).unwrap_or_default();
        match &path[..] {
            "/drop" => {}
            "/send" => r.send("data"),
            "/chunked" => {
                let mut w = r.into_chunked();
                let _ = w.try_send("some");
                let _ = w.try_send("data");
            }
            "/raw" => {
                let mut w = unsafe { r.into_raw(4) };
                let _ = w.write_all(b"data");
            }
            "/read" => {
                let mut v = vec![];
                if c.body.read_to_end(&mut v).is_err() {
                    r.set_status(StatusCode::BadRequest);
                }
                r.send(v);
            }
            "/big" => {
                let mut w = r.into_chunked();
                let piece = vec![b'x'; 1 << 16];
                for _ in 0..64 {
                    if w.try_send(&piece[..]).is_err() {
                        break;
                    }
                }
            }
            "/gate" => {
                GATE.wait();
                r.send("data");
            }
            "/panic" => panic!("injected panic"),
            _ => r.set_status(StatusCode::NotFound),
        }
    }
}

struct Real {
    addr: SocketAddr,
    threads: usize,
    free: usize,
}

fn start(threads: usize, free: usize, timeout: Duration) -> Real {
    let mut l = Server {
        host: "127.0.0.1:0".parse().unwrap(),
        keep_alive: Some(KeepAlive { timeout, free_threads: free }),
        threads: Some(threads),
        ..Server::new(Serve)
    }
    .run()
    .expect("could not start a server");
    let addr = l.socket;
    let _ = l.close();
    std::mem::forget(l);
    Real { addr, threads, free }
}

/// Servers that are not in use. They can't be stopped, so they are kept.
static POOL: Mutex<Vec<Real>> = Mutex::new(vec![]);

struct Client(TcpStream, Vec<u8>);

impl Client {
    fn open(addr: SocketAddr) -> Client {
        let s = TcpStream::connect(addr).expect("could not connect");
        s.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
        s.set_nodelay(true).unwrap();
        Client(s, vec![])
    }

    fn ask(&mut self, path: &str) {
        let _ = self.0.write_all(format!("GET {} HTTP/1.1\r\nHost: a\r\n\r\n", path).as_bytes());
    }

    /// The next response, or `None` if the connection ends before it.
    fn reply(&mut self) -> Result<Option<wire::Reply>, Fail> {
        let mut buf = vec![0; 1 << 16];
        loop {
            let mut pos = 0;
            if let Ok(r) = wire::parse_reply(&self.1, &mut pos) {
                self.1.drain(..pos);
                return Ok(Some(r));
            }
            match self.0.read(&mut buf) {
                Ok(0) => return Ok(None),
                Ok(n) => self.1.extend_from_slice(&buf[..n]),
                Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => return Ok(None),
                Err(e) => return fail("no answer", format!("no response: {}", e)),
            }
        }
    }

    /// Waits for the end of the connection. The server has stopped counting
    /// it by then.
    fn wait_end(&mut self) -> Res {
        match self.0.read(&mut [0; 1024]) {
            Ok(0) => Ok(()),
            Ok(n) => fail("extra output", format!("{} more bytes", n)),
            Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset => Ok(()),
            Err(e) => fail("left open", format!("the connection is not closed: {}", e)),
        }
    }

    /// Ends the connection without a proper goodbye.
    fn reset(self) {
        let linger = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(self.0.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &linger as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32);
        }
    }
}

/// Real connections to running servers.
fn sockets(src: &mut Src, case: &mut Case) -> Res {
    let threads = src.range(2, 5);
    let free = src.range(0, threads);
    let real = {
        let mut p = POOL.lock().unwrap();
        match p.iter().position(|r| r.threads == threads && r.free == free) {
            Some(i) => p.remove(i),
            None => start(threads, free, Duration::from_secs(600)),
        }
    };
    let r = talk(src, case, &real);
    if r.is_ok() {
        POOL.lock().unwrap().push(real);
    }
    r
}

fn talk(src: &mut Src, case: &mut Case, real: &Real) -> Res {
    let (threads, free) = (real.threads, real.free);
    case.note(|| format!("{} threads, {} to keep free", threads, free));
    let mut open: Vec<Client> = vec![];
    let (mut kept, mut forced) = (0, 0);
    let mut n = 0;
    while src.more(n, 10, 40) {
        n += 1;
        match src.weighted(&[6, 2, 3, 2]) {
            // One request, on a new or an open connection.
            0 => {
                let fresh = open.is_empty() || (open.len() < threads && src.flip());
                let mut c = if fresh {
                    Client::open(real.addr)
                } else {
                    let i = src.idx(open.len());
                    open.remove(i)
                };
                let path = *src.pick(&["/send", "/drop", "/chunked", "/raw", "/none", "/read"]);
                let in_use = open.len() + 1;
                case.note(|| format!("{} in use: {} on {} connection", in_use, path, if fresh { "a new" } else { "an open" }));
                c.ask(path);
                let reply = match c.reply()? {
                    Some(r) => r,
                    None => return fail("no answer", "the connection was closed without a response".into()),
                };
                let force = in_use + free > threads;
                if force {
                    forced += 1;
                    ensure!(reply.closes(), "not closed", "{} connections are in use, {} of {} threads should be free, but the response does not close the connection", in_use, free, threads);
                    c.wait_end()?;
                } else {
                    kept += 1;
                    ensure!(!reply.closes(), "closed", "{} connections are in use, {} of {} threads should be free, but the response closes the connection", in_use, free, threads);
                    open.push(c);
                }
            }
            // An orderly end.
            1 => {
                if !open.is_empty() {
                    let i = src.idx(open.len());
                    let mut c = open.remove(i);
                    case.note(|| "the client ends a connection".into());
                    let _ = c.0.shutdown(Shutdown::Write);
                    c.wait_end()?;
                }
            }
            // Other ends.
            2 => {
                let mut c = if open.is_empty() {
                    Client::open(real.addr)
                } else {
                    let i = src.idx(open.len());
                    open.remove(i)
                };
                let kind = src.below(7);
                case.note(|| format!("a connection ends in way {}", kind));
                match kind {
                    0 => {
                        case.label("panicking handler");
                        c.ask("/panic");
                        while let Some(_) = c.reply()? {}
                    }
                    1 => {
                        let _ = c.0.write_all(b"GET / HTTP/1.1\r\nHos");
                        let _ = c.0.shutdown(Shutdown::Write);
                        c.wait_end()?;
                    }
                    2 => {
                        let _ = c.0.write_all(b"\x00 not a request\r\n\r\n");
                        let _ = c.0.shutdown(Shutdown::Write);
                        c.wait_end()?;
                    }
                    3 => {
                        let _ = c.0.write_all(b"POST /read HTTP/1.1\r\nContent-Length: 100\r\n\r\nbut less");
                        let _ = c.0.shutdown(Shutdown::Write);
                        while let Some(_) = c.reply()? {}
                    }
                    k => {
                        if k == 6 {
                            // (Hyper panics.)
                            case.label("panicking connection");
                        } else if k == 4 {
                            // Make sure that it has been accepted.
                            c.ask("/send");
                            c.reply()?;
                        } else {
                            c.ask("/big");
                            let mut b = [0; 10];
                            let _ = c.0.read(&mut b);
                        }
                        for mut o in open.drain(..) {
                            let _ = o.0.shutdown(Shutdown::Write);
                            o.wait_end()?;
                        }
                        if k == 6 {
                            let _ = c.0.write_all(b"GET /send HTTP/1.1\r\nContent-Length: x\r\n\r\n");
                            c.wait_end()?;
                        } else {
                            c.reset();
                        }
                        settle(real)?;
                    }
                }
            }
            // Requests at the same time.
            _ => {
                while open.len() + 1 < threads && src.flip() {
                    let mut c = Client::open(real.addr);
                    c.ask("/send");
                    match c.reply()? {
                        Some(ref r) if r.closes() => c.wait_end()?,
                        Some(_) => open.push(c),
                        None => return fail("no answer", "the connection was closed without a response".into()),
                    }
                    if open.len() + 1 + free > threads {
                        break;
                    }
                }
                let n = open.len();
                case.note(|| format!("{} requests at once", n));
                case.label_if(n > 1, "requests at once");
                for (i, c) in open.iter_mut().enumerate() {
                    c.ask(["/send", "/chunked", "/drop", "/raw"][i % 4]);
                }
                let mut closed = 0;
                let mut left = vec![];
                for mut c in open.drain(..) {
                    match c.reply()? {
                        Some(ref r) if r.closes() => {
                            c.wait_end()?;
                            closed += 1;
                        }
                        Some(_) => left.push(c),
                        None => return fail("no answer", "the connection was closed without a response".into()),
                    }
                }
                open = left;
                ensure!(closed == n || closed >= (n + free).saturating_sub(threads), "not closed", "{} of {} connections were closed, {} of {} threads should be free", closed, n, free, threads);
                ensure!(n + free > threads || closed == 0, "closed", "{} of {} connections were closed, {} of {} threads should be free", closed, n, free, threads);
            }
        }
    }
    for mut c in open.drain(..) {
        let _ = c.0.shutdown(Shutdown::Write);
        c.wait_end()?;
    }
    settle(real)?;
    case.nontrivial_if(kept > 0 && forced > 0);
    Ok(())
}

/// Waits until no connection is counted any more: as many as may be kept
/// open are.
fn settle(real: &Real) -> Res {
    let most = real.threads.saturating_sub(real.free);
    for i in 0..1000 {
        let mut all = vec![];
        let mut kept = true;
        while kept && all.len() < most {
            let mut c = Client::open(real.addr);
            c.ask("/send");
            match c.reply()? {
                Some(r) => kept = !r.closes(),
                None => return fail("no answer", "the connection was closed without a response".into()),
            }
            all.push(c);
        }
        for mut c in all {
            let _ = c.0.shutdown(Shutdown::Write);
            c.wait_end()?;
        }
        if kept {
            return Ok(());
        }
        std::thread::sleep(Duration::from_millis(if i < 100 { 1 } else { 10 }));
    }
    fail("count", format!("there are no other connections, but {} are not kept open, with {} of {} threads to be free", most, real.free, real.threads))
}

/// An idle connection ends after the configured time, and stops counting.
fn idle(src: &mut Src, case: &mut Case) -> Res {
    let threads = src.range(1, 3);
    let ms = src.range(1, 300) as u64;
    case.note(|| format!("{} threads, {} ms", threads, ms));
    let real = start(threads, 0, Duration::from_millis(ms));
    case.nontrivial();
    for round in 0..3 {
        let mut all: Vec<Client> = (0..threads).map(|_| Client::open(real.addr)).collect();
        for c in all.iter_mut() {
            c.ask("/send");
        }
        for c in all.iter_mut() {
            match c.reply()? {
                Some(r) => ensure!(!r.closes(), "closed", "round {}: one of {} connections is closed with {} threads", round, threads, threads),
                None => return fail("no answer", "the connection was closed without a response".into()),
            }
        }
        for c in all.iter_mut() {
            c.wait_end()?;
        }
    }
    settle(&real)
}

/// A connection that is reset before it could be accepted. hyper notifies of
/// its beginning but not of its end.
fn unaccepted(src: &mut Src, case: &mut Case) -> Res {
    let n = src.range(1, 3);
    let real = start(2, 0, Duration::from_secs(600));
    case.nontrivial();
    case.note(|| format!("{} connections are reset before they are accepted", n));
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    GATE.set(false);
    let mut busy: Vec<Client> = (0..2).map(|_| Client::open(real.addr)).collect();
    for c in busy.iter_mut() {
        c.ask("/gate");
    }
    // Both threads must be in the handler; a third connection is not
    // answered then.
    std::thread::sleep(Duration::from_millis(300));
    for _ in 0..n {
        Client::open(real.addr).reset();
    }
    std::thread::sleep(Duration::from_millis(50));
    GATE.set(true);
    for c in busy.iter_mut() {
        c.reply()?;
        let _ = c.0.shutdown(Shutdown::Write);
        c.wait_end()?;
    }
    std::thread::sleep(Duration::from_millis(100));
    // With one other connection, this one may be kept open.
    for i in 0..50 {
        let mut a = Client::open(real.addr);
        a.ask("/send");
        let r = a.reply()?;
        if r.map_or(false, |r| !r.closes()) {
            let mut b = Client::open(real.addr);
            b.ask("/send");
            if b.reply()?.map_or(false, |r| !r.closes()) {
                return Ok(());
            }
        }
        std::thread::sleep(Duration::from_millis(i));
    }
    fail("reset before it was accepted", "connections that were reset before they were accepted are counted for ever".into())
}

fn main() {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    runner::main("P20", "a history in which connections were kept open and others were refused that (for the timed checks: every case)", &[
        Prop { name: "history", quick: 300_000, thorough: 8_000_000, run: history },
        Prop { name: "sockets", quick: 3_000, thorough: 60_000, run: sockets },
        Prop { name: "idle", quick: 8, thorough: 40, run: idle },
        Prop { name: "unaccepted", quick: 2, thorough: 4, run: unaccepted },
    ]);
}
