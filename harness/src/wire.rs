//! Drives a server instance in-process, the way hyper's connection worker
//! does, over a scripted stream; and parses what it wrote.

use std::io::{self, BufWriter, Read, Write};
use std::net::SocketAddr;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use hyper::buffer::BufReader;
use hyper::header::{Connection, ConnectionOption, Expect, Headers};
use hyper::method::Method;
use hyper::net::NetworkStream;
use hyper::server::{Handler, Request, Response};
use hyper::version::HttpVersion;
use hyper::status::StatusCode;

use crate::gen;
use crate::src::Src;

pub struct Script {
    pub data: Vec<u8>,
    pub pos: usize,
    /// Sizes of successive reads, cycled. Empty: as much as asked for.
    pub reads: Vec<usize>,
    pub read_no: usize,
    /// Fail all reads from this position on.
    pub fail_at: Option<(usize, io::ErrorKind)>,
}

/// The client's side of a connection, as far as reads are concerned.
#[derive(Clone)]
pub struct MockStream(pub Arc<Mutex<Script>>, pub SocketAddr);

impl MockStream {
    pub fn new(data: Vec<u8>, addr: SocketAddr) -> MockStream {
        MockStream(Arc::new(Mutex::new(Script { data, pos: 0, reads: vec![], read_no: 0, fail_at: None })), addr)
    }
}

impl Read for MockStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.lock().unwrap();
        if let Some((at, kind)) = s.fail_at {
            if s.pos >= at {
                return Err(io::Error::new(kind, "injected read fault"));
            }
        }
        let mut n = buf.len().min(s.data.len() - s.pos);
        if !s.reads.is_empty() {
            let i = s.read_no % s.reads.len();
            n = n.min(s.reads[i].max(1));
            s.read_no += 1;
        }
        if let Some((at, _)) = s.fail_at {
            n = n.min(at - s.pos);
        }
        let p = s.pos;
        buf[..n].copy_from_slice(&s.data[p..p + n]);
        s.pos += n;
        Ok(n)
    }
}

impl Write for MockStream {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Err(io::Error::new(io::ErrorKind::Other, "the reading half is not written to"))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl NetworkStream for MockStream {
    fn peer_addr(&mut self) -> io::Result<SocketAddr> {
        Ok(self.1)
    }
    fn set_read_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
}

/// The writing half, with an optional fault: after `limit` bytes every write
/// fails.
#[derive(Default)]
pub struct Sink {
    pub out: Vec<u8>,
    pub limit: Option<usize>,
    /// What a write beyond the limit fails with, if not a broken pipe.
    pub kind: Option<io::ErrorKind>,
    /// Largest number of bytes taken per write call.
    pub short: Option<usize>,
    pub failed: bool,
    /// Every so many writes, one is interrupted.
    pub interrupts: Option<usize>,
    pub calls: usize,
    /// What happens once there is this much.
    pub then: Option<(usize, Box<dyn FnOnce()>)>,
}

/// What a connection that is lost reports.
pub const LOST: [io::ErrorKind; 8] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
];

thread_local! {
    /// How much the last sink that was written to on this thread has.
    pub static WRITTEN: std::cell::Cell<usize> = std::cell::Cell::new(0);
    /// How many writes failed on this thread.
    pub static FAULTS: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut n = buf.len();
        self.calls += 1;
        if self.interrupts.map_or(false, |k| self.calls % k == 0) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "injected interruption"));
        }
        if let Some(s) = self.short {
            n = n.min(s.max(1));
        }
        if let Some(l) = self.limit {
            let left = l - self.out.len();
            if left == 0 && n > 0 {
                self.failed = true;
                FAULTS.with(|f| f.set(f.get() + 1));
                return Err(io::Error::new(self.kind.unwrap_or(io::ErrorKind::BrokenPipe), "injected write fault"));
            }
            n = n.min(left);
        }
        self.out.extend_from_slice(&buf[..n]);
        WRITTEN.with(|w| w.set(self.out.len()));
        if self.then.as_ref().map_or(false, |t| t.0 <= self.out.len()) {
            (self.then.take().unwrap().1)();
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.limit.map(|l| self.out.len() >= l).unwrap_or(false) && self.failed {
            return Err(io::Error::new(self.kind.unwrap_or(io::ErrorKind::BrokenPipe), "injected flush fault"));
        }
        Ok(())
    }
}

pub fn addr() -> SocketAddr {
    "127.0.0.1:40000".parse().unwrap()
}

/// What a conversation did.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Talk {
    /// Requests that reached the server instance.
    pub requests: usize,
    /// Responses to `Expect: 100-continue`.
    pub continues: usize,
    /// The last exchange left the connection open.
    pub open: bool,
}

/// Mirrors `hyper::server::Worker::handle_connection`.
pub fn converse<H: Handler>(server: &H, stream: &mut MockStream, sink: &mut Sink, keep_alive: bool) -> Talk {
    server.on_connection_start();
    let talk = exchange(server, stream, sink, keep_alive);
    server.on_connection_end();
    talk
}

thread_local! {
    /// Which of the requests of the last exchange on this thread were for the
    /// head only.
    static HEADS: std::cell::RefCell<Vec<bool>> = std::cell::RefCell::new(vec![]);
}

/// Which of the requests of the last exchange on this thread were HEAD
/// requests.
pub fn heads() -> Vec<bool> {
    HEADS.with(|h| h.borrow().clone())
}

/// As `converse`, without the connection notifications.
pub fn exchange<H: Handler>(server: &H, stream: &mut MockStream, sink: &mut Sink, keep_alive: bool) -> Talk {
    let addr = stream.1;
    let net: &mut (dyn NetworkStream) = stream;
    let mut rdr = BufReader::new(net);
    let mut wrt = BufWriter::new(sink);
    let mut talk = Talk { requests: 0, continues: 0, open: true };
    HEADS.with(|h| h.borrow_mut().clear());
    while one(server, &mut rdr, &mut wrt, addr, keep_alive, &mut talk) {}
    let _ = wrt.flush();
    talk
}

fn one<H: Handler, W: Write>(server: &H, rdr: &mut BufReader<&mut dyn NetworkStream>, wrt: &mut W, addr: SocketAddr, enabled: bool, talk: &mut Talk) -> bool {
    let req = match Request::new(rdr, addr) {
        Ok(r) => r,
        Err(_) => return false,
    };
    if req.version == HttpVersion::Http11 && req.headers.get() == Some(&Expect::Continue) {
        let status = server.check_continue((&req.method, &req.uri, &req.headers));
        talk.continues += 1;
        if write!(wrt, "{} {}\r\n\r\n", HttpVersion::Http11, status).and_then(|_| wrt.flush()).is_err() {
            return false;
        }
        if status != StatusCode::Continue {
            return false;
        }
    }
    let mut keep = enabled && should_keep_alive(req.version, &req.headers);
    let version = req.version;
    let mut headers = Headers::new();
    if !keep {
        headers.set(Connection::close());
    }
    talk.requests += 1;
    HEADS.with(|h| h.borrow_mut().push(req.method == Method::Head));
    {
        let mut res = Response::new(wrt, &mut headers);
        res.version = version;
        server.handle(req, res);
    }
    if keep {
        keep = should_keep_alive(version, &headers);
    }
    talk.open = keep;
    keep
}

fn should_keep_alive(version: HttpVersion, headers: &Headers) -> bool {
    match (version, headers.get::<Connection>()) {
        (HttpVersion::Http10, None) => false,
        (HttpVersion::Http10, Some(c)) if !c.contains(&ConnectionOption::KeepAlive) => false,
        (HttpVersion::Http11, Some(c)) if c.contains(&ConnectionOption::Close) => false,
        _ => true,
    }
}

/// Sends raw bytes, returns everything the server wrote.
pub fn send<H: Handler>(server: &H, data: Vec<u8>, keep_alive: bool) -> (Vec<u8>, Talk) {
    let mut stream = MockStream::new(data, addr());
    let mut sink = Sink::default();
    let talk = converse(server, &mut stream, &mut sink, keep_alive);
    (sink.out, talk)
}

#[derive(Clone, Debug, PartialEq)]
pub struct Reply {
    pub version: String,
    pub status: u16,
    pub reason: String,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub framing: Framing,
    pub chunks: Vec<usize>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Framing {
    None,
    Sized,
    Chunked,
}

impl Reply {
    pub fn header(&self, name: &str) -> Option<String> {
        let mut v = self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name));
        v.next().map(|h| String::from_utf8_lossy(&h.1).into_owned())
    }

    pub fn header_count(&self, name: &str) -> usize {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).count()
    }

    pub fn closes(&self) -> bool {
        self.headers.iter().any(|h| h.0.eq_ignore_ascii_case("connection") && String::from_utf8_lossy(&h.1).split(',').any(|p| p.trim().eq_ignore_ascii_case("close")))
    }
}

fn line<'a>(b: &'a [u8], p: &mut usize) -> Result<&'a [u8], String> {
    let start = *p;
    let mut i = start;
    while i + 1 < b.len() {
        if b[i] == b'\r' && b[i + 1] == b'\n' {
            *p = i + 2;
            return Ok(&b[start..i]);
        }
        if b[i] == b'\n' {
            return Err(format!("bare line feed at offset {}", i));
        }
        i += 1;
    }
    Err(format!("missing line end after offset {}", start))
}

/// A strict response parser: one response, starting at `p`.
pub fn parse_reply(b: &[u8], p: &mut usize) -> Result<Reply, String> {
    parse_reply_to(b, p, false)
}

/// The same, where the request may have been a HEAD request: there are the
/// headers of a body then, but no body.
pub fn parse_reply_to(b: &[u8], p: &mut usize, head: bool) -> Result<Reply, String> {
    let at = *p;
    let first = String::from_utf8(line(b, p)?.to_vec()).map_err(|_| "status line is not text".to_string())?;
    let mut parts = first.splitn(3, ' ');
    let version = parts.next().unwrap_or("").to_string();
    if version != "HTTP/1.1" && version != "HTTP/1.0" {
        return Err(format!("bad status line {:?} at offset {}", first, at));
    }
    let code = parts.next().unwrap_or("");
    if code.len() != 3 {
        return Err(format!("bad status line {:?}", first));
    }
    let status: u16 = code.parse().map_err(|_| format!("bad status line {:?}", first))?;
    let reason = parts.next().unwrap_or("").to_string();
    let mut headers = vec![];
    loop {
        let l = line(b, p)?;
        if l.is_empty() {
            break;
        }
        let colon = l.iter().position(|&c| c == b':').ok_or_else(|| format!("header line without colon: {}", gen::show(l)))?;
        let name = &l[..colon];
        if name.is_empty() || !name.iter().all(|c| c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(c)) {
            return Err(format!("bad header name: {}", gen::show(name)));
        }
        let mut v = &l[colon + 1..];
        while v.first() == Some(&b' ') || v.first() == Some(&b'\t') {
            v = &v[1..];
        }
        while v.last() == Some(&b' ') || v.last() == Some(&b'\t') {
            v = &v[..v.len() - 1];
        }
        headers.push((String::from_utf8_lossy(name).into_owned(), v.to_vec()));
    }
    let mut reply = Reply { version, status, reason, headers, body: vec![], framing: Framing::None, chunks: vec![] };
    if status / 100 == 1 || status == 204 || status == 304 {
        return Ok(reply);
    }
    let lens: Vec<_> = reply.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("content-length")).map(|h| h.1.clone()).collect();
    let tes: Vec<_> = reply.headers.iter().filter(|h| h.0.eq_ignore_ascii_case("transfer-encoding")).map(|h| h.1.clone()).collect();
    if lens.len() + tes.len() != 1 {
        return Err(format!("{} content-length and {} transfer-encoding headers in a {} response", lens.len(), tes.len(), status));
    }
    if let Some(l) = lens.first() {
        let t = String::from_utf8_lossy(l).into_owned();
        if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
            return Err(format!("bad content-length {:?}", t));
        }
        let n: usize = t.parse().map_err(|_| format!("bad content-length {:?}", t))?;
        reply.framing = Framing::Sized;
        if head {
            return Ok(reply);
        }
        if b.len() - *p < n {
            return Err(format!("content-length is {} but only {} bytes follow", n, b.len() - *p));
        }
        reply.body = b[*p..*p + n].to_vec();
        *p += n;
    } else {
        if !tes[0].eq_ignore_ascii_case(b"chunked") {
            return Err(format!("bad transfer-encoding {}", gen::show(&tes[0])));
        }
        reply.framing = Framing::Chunked;
        if head {
            return Ok(reply);
        }
        loop {
            let l = line(b, p).map_err(|e| format!("chunk size: {}", e))?;
            let t = String::from_utf8_lossy(l).into_owned();
            if t.is_empty() || !t.bytes().all(|c| c.is_ascii_hexdigit()) {
                return Err(format!("bad chunk size {:?}", t));
            }
            let n = usize::from_str_radix(&t, 16).map_err(|_| format!("bad chunk size {:?}", t))?;
            if b.len() - *p < n + 2 {
                return Err(format!("chunk of {} bytes is cut short", n));
            }
            reply.body.extend_from_slice(&b[*p..*p + n]);
            *p += n;
            if &b[*p..*p + 2] != b"\r\n" {
                return Err("chunk is not followed by CRLF".into());
            }
            *p += 2;
            if n == 0 {
                break;
            }
            reply.chunks.push(n);
        }
    }
    Ok(reply)
}

/// Parses a whole connection's output; 100-continue interims are dropped.
pub fn parse_replies(b: &[u8]) -> Result<Vec<Reply>, String> {
    parse_replies_to(b, &[])
}

/// The same, where some of the requests were HEAD requests.
pub fn parse_replies_to(b: &[u8], heads: &[bool]) -> Result<Vec<Reply>, String> {
    let mut p = 0;
    let mut v = vec![];
    while p < b.len() {
        let head = heads.get(v.len()).map_or(false, |h| *h);
        let r = parse_reply_to(b, &mut p, head).map_err(|e| format!("response #{}: {}", v.len() + 1, e))?;
        if r.status != 100 || !r.headers.is_empty() {
            v.push(r);
        }
    }
    Ok(v)
}

/// Sends one request and expects exactly one well-formed response.
pub fn one_reply<H: Handler>(server: &H, data: Vec<u8>) -> Result<Option<Reply>, String> {
    let (out, talk) = send(server, data, false);
    if talk.requests == 0 {
        return if out.is_empty() { Ok(None) } else { Err("output without a request".into()) };
    }
    let mut v = parse_replies_to(&out, &heads())?;
    if v.len() != 1 {
        return Err(format!("{} responses to one request", v.len()));
    }
    Ok(v.pop())
}

/// Headers that a server may care about, but that have no meaning here.
pub const NOISE: [(&str, &str); 44] = [
    ("Upgrade", "websocket"), ("Upgrade", "h2c"), ("TE", "trailers"), ("Cache-Control", "no-cache"), ("Pragma", "no-cache"),
    ("Accept", "text/html"), ("Accept", "application/json;q=0.5, */*"), ("Accept-Charset", "utf-8"), ("Accept-Language", "en"),
    ("Accept-Encoding", "gzip, deflate"), ("Accept-Encoding", "identity;q=0"), ("User-Agent", "Mozilla/5.0"), ("User-Agent", "curl/8.0"),
    ("Range", "bytes=0-"), ("Range", "bytes=1-2"), ("If-Range", "\"a\""), ("If-None-Match", "*"), ("If-Match", "\"a\""),
    ("If-Modified-Since", "Thu, 19 Nov 2030 22:00:00 GMT"), ("If-Unmodified-Since", "Thu, 19 Nov 1998 22:00:00 GMT"),
    ("Cookie", "a=b; c=d"), ("Authorization", "Basic YTpi"), ("Date", "Thu, 19 Nov 2026 22:00:00 GMT"), ("Via", "1.0 a"),
    ("X-Forwarded-For", "10.0.0.1"), ("X-Forwarded-Host", "example.com"), ("X-Forwarded-Proto", "https"), ("X-Original-URL", "/other"),
    ("X-Rewrite-URL", "/other"), ("Forwarded", "for=10.0.0.1;host=h"), ("X-HTTP-Method-Override", "DELETE"), ("X-HTTP-Method-Override", "POST"),
    ("X-Method-Override", "GET"), ("X-HTTP-Method", "PUT"), ("Max-Forwards", "0"), ("Origin", "http://example.com"),
    ("X-Requested-With", "XMLHttpRequest"), ("Referer", "http://h/a?b=c"), ("DNT", "1"), ("Keep-Alive", "timeout=1"),
    ("X-Real-IP", "10.0.0.1"), ("X-Forwarded-Port", "81"), ("Front-End-Https", "on"), ("X-Forwarded-Prefix", "/a"),
];

/// A request to be serialised.
#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub version: &'static str,
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    /// Chunk sizes for a chunked body (cycled), or `None` for content-length.
    pub chunked: Option<Vec<usize>>,
}

impl Req {
    pub fn new(method: &str, target: &str) -> Req {
        Req { method: method.into(), target: target.into(), version: "HTTP/1.1", headers: vec![], body: vec![], chunked: None }
    }

    pub fn header(mut self, name: &str, value: &str) -> Req {
        self.headers.push((name.into(), value.as_bytes().to_vec()));
        self
    }

    /// Perhaps with headers that say nothing about what should be done here.
    pub fn more(mut self, src: &mut Src) -> Req {
        if src.chance(1, 8) {
            let mut n = 0;
            while src.more(n, 1, 3) || n == 0 {
                n += 1;
                let (name, value) = *src.pick(&NOISE);
                self = self.header(name, value);
            }
        }
        self
    }

    pub fn body(mut self, body: Vec<u8>) -> Req {
        self.body = body;
        self
    }

    pub fn bytes(&self) -> Vec<u8> {
        let mut v = format!("{} {} {}\r\n", self.method, self.target, self.version).into_bytes();
        for h in &self.headers {
            v.extend_from_slice(h.0.as_bytes());
            v.extend_from_slice(b": ");
            v.extend_from_slice(&h.1);
            v.extend_from_slice(b"\r\n");
        }
        match self.chunked {
            None => {
                if !self.body.is_empty() || self.method == "POST" || self.method == "PUT" {
                    v.extend_from_slice(format!("Content-Length: {}\r\n", self.body.len()).as_bytes());
                }
                v.extend_from_slice(b"\r\n");
                v.extend_from_slice(&self.body);
            }
            Some(ref sizes) => {
                v.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
                let mut p = 0;
                let mut i = 0;
                while p < self.body.len() {
                    let n = if sizes.is_empty() { self.body.len() } else { sizes[i % sizes.len()].max(1) }.min(self.body.len() - p);
                    if i % 2 == 0 {
                        v.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                    } else {
                        v.extend_from_slice(format!("{:X}\r\n", n).as_bytes());
                    }
                    v.extend_from_slice(&self.body[p..p + n]);
                    v.extend_from_slice(b"\r\n");
                    p += n;
                    i += 1;
                }
                v.extend_from_slice(b"0\r\n\r\n");
            }
        }
        v
    }
}

/// Random sizes for the network reads of a connection.
pub fn read_sizes(src: &mut Src) -> Vec<usize> {
    match src.weighted(&[4, 2, 2]) {
        0 => vec![],
        1 => vec![1],
        _ => {
            let n = src.range(1, 5);
            (0..n).map(|_| 1 + gen::size(src, 9000)).collect()
        }
    }
}
