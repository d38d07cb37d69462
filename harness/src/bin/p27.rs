//! P27: a running server keeps to its configuration.
use std::io::{self, Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use hyper::net::{HttpStream, NetworkStream, SslServer};
use pbt::*;
use rustful::server::{Host, KeepAlive};
use rustful::{Context, Handler, Response, Server, StatusCode};

/// A stand-in for a secure transport, which changes every byte.
#[derive(Clone)]
struct Veil {
    inner: HttpStream,
    mask: u8,
}

impl Read for Veil {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.inner.read(buf)?;
        for b in &mut buf[..n] {
            *b ^= self.mask;
        }
        Ok(n)
    }
}

impl Write for Veil {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let veiled: Vec<u8> = buf.iter().map(|b| b ^ self.mask).collect();
        self.inner.write(&veiled)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.inner.flush()
    }
}

impl NetworkStream for Veil {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        self.inner.peer_addr()
    }
    fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.inner.set_read_timeout(d)
    }
    fn set_write_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        self.inner.set_write_timeout(d)
    }
}

#[derive(Clone)]
struct Secure(u8);

impl SslServer for Secure {
    type Stream = Veil;
    fn wrap_server(&self, stream: HttpStream) -> hyper::Result<Veil> {
        Ok(Veil { inner: stream, mask: self.0 })
    }
}

/// How many handlers have begun to wait, and how many of them may go on.
#[derive(Default)]
struct Gate {
    state: Mutex<(usize, usize)>,
    change: Condvar,
}

impl Gate {
    fn pass(&self) {
        let mut s = self.state.lock().unwrap();
        s.0 += 1;
        let number = s.0;
        self.change.notify_all();
        while s.1 < number {
            s = self.change.wait(s).unwrap();
        }
    }

    /// Waits until this many have begun, and says how many have.
    fn begun(&self, n: usize) -> usize {
        let end = Instant::now() + Duration::from_secs(60);
        let mut s = self.state.lock().unwrap();
        while s.0 < n && Instant::now() < end {
            s = self.change.wait_timeout(s, Duration::from_secs(1)).unwrap().0;
        }
        s.0
    }

    fn open(&self, n: usize) {
        self.state.lock().unwrap().1 = n;
        self.change.notify_all();
    }
}

struct Act(Arc<Gate>);

impl Handler for Act {
    fn handle(&self, mut c: Context, mut r: Response) {
        match c.uri_path.as_utf8_path().unwrap_or("") {
            "/hold" => {
                self.0.pass();
                r.send("held");
            }
            "/echo" => {
                let mut b = vec![];
                match c.body.read_to_end(&mut b) {
                    Ok(_) => r.send([format!("{} ", c.address.port()).as_bytes(), &b].concat()),
                    Err(_) => r.set_status(StatusCode::BadRequest),
                }
            }
            _ => r.set_status(StatusCode::NotFound),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
struct Config {
    threads: Option<usize>,
    timeout: Option<u64>,
    /// The threads to keep free are all or none.
    all_free: bool,
    mask: Option<u8>,
    host: String,
}

impl Config {
    /// How long connections are kept.
    fn kept(&self) -> Option<Duration> {
        if self.all_free { None } else { self.timeout.map(Duration::from_millis) }
    }
}

struct Real {
    config: Config,
    addr: SocketAddr,
    gate: Arc<Gate>,
}

/// Servers that are not in use. They can't be stopped, so they are kept.
static POOL: Mutex<Vec<Real>> = Mutex::new(vec![]);

fn start(config: &Config) -> Result<Real, Fail> {
    let gate = Arc::new(Gate::default());
    let mut tries = 0;
    let (listening, want) = loop {
        tries += 1;
        let host: Host = match config.host.parse() {
            Ok(h) => h,
            Err(_) => return fail("host", format!("{} is no host", config.host)),
        };
        let mut want = SocketAddr::from(host);
        let mut host = host;
        if want.port() == 1 {
            // A port that was free a moment ago.
            want.set_port(TcpListener::bind((want.ip(), 0)).and_then(|l| l.local_addr()).expect("a free port").port());
            host = want.into();
        }
        let server = Server {
            host,
            keep_alive: config.timeout.map(|t| KeepAlive { timeout: Duration::from_millis(t), free_threads: if config.all_free { config.threads.unwrap_or(1000) } else { 0 } }),
            threads: config.threads,
            ..Server::new(Act(gate.clone()))
        };
        let r = match config.mask {
            Some(mask) => server.run_https(Secure(mask)),
            None => server.run(),
        };
        match r {
            Ok(l) => break (l, want),
            Err(e) => {
                if tries > 20 {
                    return fail("start", format!("the server does not start: {}", e));
                }
            }
        }
    };
    let addr = listening.socket;
    std::mem::forget(listening);
    ensure_eq!(addr.ip(), want.ip(), "address", "the address of the server");
    ensure!(want.port() == 0 || addr.port() == want.port(), "address", "the server listens on {}, expected {}", addr, want);
    Ok(Real { config: config.clone(), addr, gate })
}

struct Client {
    stream: TcpStream,
    mask: u8,
    data: Vec<u8>,
}

impl Client {
    fn open(real: &Real) -> Client {
        let mut addr = real.addr;
        if addr.ip().is_unspecified() {
            addr.set_ip([127, 0, 0, 1].into());
        }
        let stream = TcpStream::connect(addr).expect("could not connect");
        stream.set_read_timeout(Some(Duration::from_secs(60))).unwrap();
        stream.set_nodelay(true).unwrap();
        Client { stream, mask: real.config.mask.unwrap_or(0), data: vec![] }
    }

    fn ask(&mut self, path: &str, close: bool, body: &[u8]) {
        let mut d = format!("POST {} HTTP/1.1\r\nHost: a\r\nContent-Length: {}\r\n{}\r\n", path, body.len(), if close { "Connection: close\r\n" } else { "" }).into_bytes();
        d.extend_from_slice(body);
        for b in &mut d {
            *b ^= self.mask;
        }
        let _ = self.stream.write_all(&d);
    }

    fn reply(&mut self) -> Result<Option<wire::Reply>, Fail> {
        let mut buf = vec![0; 1 << 16];
        loop {
            let mut pos = 0;
            if let Ok(r) = wire::parse_reply(&self.data, &mut pos) {
                self.data.drain(..pos);
                return Ok(Some(r));
            }
            match self.stream.read(&mut buf) {
                Ok(0) => return Ok(None),
                Ok(n) => self.data.extend(buf[..n].iter().map(|b| b ^ self.mask)),
                Err(ref e) if e.kind() == io::ErrorKind::ConnectionReset => return Ok(None),
                Err(e) => return fail("no answer", format!("no response: {}; what came is {}", e, gen::show(&self.data))),
            }
        }
    }

    fn echo(&mut self, body: &[u8], close: bool, real: &Real) -> Result<bool, Fail> {
        self.ask("/echo", close, body);
        let r = match self.reply()? {
            Some(r) => r,
            None => return Ok(false),
        };
        let port = self.stream.local_addr().unwrap().port();
        let want = [format!("{} ", port).as_bytes(), body].concat();
        ensure_eq!(r.status, 200, "echo", "status of the response");
        let may_keep = real.config.kept().is_some();
        ensure_eq!(r.closes(), close || !may_keep, "keep-alive", "whether the response closes the connection");
        ensure!(r.body == want, "echo", "the response is {}, expected {}", gen::show(&r.body), gen::show(&want));
        Ok(true)
    }
}

fn running(src: &mut Src, case: &mut Case) -> Res {
    let threads = match src.weighted(&[10, 90, 1]) {
        0 => None,
        1 => Some(src.range(1, 5)),
        _ => Some(*src.pick(&[17, 33, 65, 70, 130])),
    };
    let config = Config {
        threads,
        all_free: src.chance(1, 8),
        timeout: *src.pick(&[None, None, Some(60), Some(150), Some(400), Some(1000)]),
        mask: if src.flip() { Some(0x55) } else { None },
        host: (*src.pick(&["127.0.0.1:0", "127.0.0.1:1", "0.0.0.0:0", "127.3.2.1:0"])).into(),
    };
    case.note(|| format!("{:?}", config));
    let real = {
        let mut p = POOL.lock().unwrap();
        p.iter().position(|r| r.config == config).map(|i| p.remove(i))
    };
    let real = match real {
        Some(r) => r,
        None => start(&config)?,
    };
    case.label_if(config.mask.is_some(), "other transport");
    let n = src.range(1, 3);
    for _ in 0..n {
        // With a short timeout, a busy machine may lose any connection.
        let short = config.timeout.map_or(false, |t| t < 1000);
        match if short { 1 } else { src.below(3) } {
            0 => at_once(src, case, &real)?,
            1 => idle(src, case, &real)?,
            _ => traffic(src, case, &real)?,
        }
    }
    POOL.lock().unwrap().push(real);
    Ok(())
}

/// Exactly as many connections as threads are served at the same time.
fn at_once(src: &mut Src, case: &mut Case, real: &Real) -> Res {
    let threads = real.config.threads.unwrap_or(num_cpus::get() * 5 / 4);
    let extra = src.range(1, 3);
    let before = real.gate.state.lock().unwrap().0;
    case.note(|| format!("{} connections at once", threads + extra));
    case.label("all threads in use");
    case.nontrivial();
    let mut clients: Vec<Client> = (0..threads + extra).map(|_| Client::open(real)).collect();
    for c in &mut clients {
        c.ask("/hold", true, b"");
    }
    let begun = real.gate.begun(before + threads) - before;
    ensure!(begun >= threads, "threads", "only {} of {} connections are served at once, with {} threads", begun, clients.len(), threads);
    std::thread::sleep(Duration::from_millis(8));
    let begun = real.gate.begun(0) - before;
    ensure!(begun == threads, "threads", "{} connections are served at once, with {} threads", begun, threads);
    real.gate.open(before + threads + extra);
    for (i, c) in clients.iter_mut().enumerate() {
        match c.reply()? {
            Some(r) => ensure_eq!(String::from_utf8_lossy(&r.body), "held", "response", "response {}", i),
            None => return fail("no answer", format!("connection {} ended without a response", i)),
        }
        let _ = c.stream.shutdown(Shutdown::Write);
        ensure!(c.reply()?.is_none(), "response", "a second response");
    }
    Ok(())
}

/// A connection without requests is closed after the configured time.
fn idle(src: &mut Src, case: &mut Case, real: &Real) -> Res {
    let first = gen::bytes(src, 20);
    let again = src.flip();
    case.note(|| format!("an idle connection, after {} requests", if again { 2 } else { 1 }));
    let timeout = real.config.kept();
    case.label(if timeout.is_some() { "left idle" } else { "closed" });
    case.nontrivial_if(timeout.is_some());
    let mut best = Duration::from_secs(1000);
    // Delays of the machine only ever make it longer.
    for _ in 0..15 {
        let opened = Instant::now();
        let mut c = Client::open(real);
        let mut began = Instant::now();
        if !c.echo(&first, false, real)? {
            let took = opened.elapsed();
            ensure!(timeout.map_or(false, |t| took >= t), "no answer", "no response in {:?}, the timeout is {:?}", took, timeout);
            continue;
        }
        if again && timeout.is_some() {
            let pause = timeout.unwrap() / 4;
            std::thread::sleep(pause);
            let asked = Instant::now();
            if c.echo(b"again", false, real)? {
                began = asked;
            } else {
                let took = began.elapsed();
                ensure!(took >= timeout.unwrap(), "closed early", "the connection was closed after {:?}, the timeout is {:?}", took, timeout);
                continue;
            }
        }
        ensure!(c.reply()?.is_none(), "response", "a response without a request");
        let took = began.elapsed();
        if let Some(t) = timeout {
            ensure!(took >= t, "closed early", "the connection was closed after {:?}, the timeout is {:?}", took, t);
        }
        best = best.min(took);
        if best <= timeout.unwrap_or_default() * 5 / 4 + Duration::from_millis(150) {
            return Ok(());
        }
    }
    fail("closed late", format!("idle connections are never closed before {:?}, the timeout is {:?}", best, timeout))
}

/// Requests and responses, unchanged.
fn traffic(src: &mut Src, case: &mut Case, real: &Real) -> Res {
    let n = src.range(1, 4);
    let mut bodies = vec![];
    for _ in 0..n {
        let most = if src.chance(1, 4) { 200_000 } else { 2000 };
        let size = gen::size(src, most);
        bodies.push(gen::blob(src, size));
    }
    case.note(|| format!("requests with {:?} bytes", bodies.iter().map(|b| b.len()).collect::<Vec<_>>()));
    let mut c = Client::open(real);
    let mut began = Instant::now();
    for (i, b) in bodies.iter().enumerate() {
        let start = Instant::now();
        if !c.echo(b, false, real)? {
            // It may have been idle for too long, on a busy machine.
            let timeout = real.config.kept().unwrap_or_default();
            ensure!(i > 0, "no answer", "no response to the first request");
            ensure!(real.config.kept().is_none() || began.elapsed() >= timeout, "closed early", "the connection was closed before request {}", i);
            c = Client::open(real);
            ensure!(c.echo(b, false, real)?, "no answer", "no response to the first request");
        }
        began = start;
    }
    let _ = c.stream.shutdown(Shutdown::Write);
    ensure!(c.reply()?.is_none(), "response", "a response without a request");
    Ok(())
}

/// What isn't configured is as documented.
fn defaults(_: &mut Src, case: &mut Case) -> Res {
    case.nontrivial();
    let check = |s: Server<Option<Act>>| -> Res {
        ensure_eq!(s.host, Host::from((std::net::Ipv4Addr::new(0, 0, 0, 0), 80)), "default host", "the default host");
        ensure_eq!(s.threads, None, "default threads", "the default number of threads");
        ensure!(s.keep_alive.is_none(), "default keep-alive", "keep-alive is on by default");
        ensure_eq!(s.server, "rustful", "default name", "the default name");
        ensure!(s.content_type.to_string().to_lowercase().ends_with("charset=utf-8"), "default type", "the default media type is {}", s.content_type);
        ensure!(s.context_filters.is_empty() && s.response_filters.is_empty(), "default filters", "there are filters");
        Ok(())
    };
    check(Server::new(None))?;
    check(Server::default())
}

fn main() {
    runner::main("P27", "all threads were in use, or a connection was left idle until it was closed", &[
        Prop { name: "defaults", quick: 1, thorough: 1, run: defaults },
        Prop { name: "running", quick: 300, thorough: 4_000, run: running },
    ]);
}
