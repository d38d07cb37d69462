//! P14: files are sent completely, with the right type and errors.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs::{self, File};
use std::io::{self, Read, Seek, SeekFrom};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

use pbt::resp::{defaults, no_body, HMap, HOp};
use pbt::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::{Data, FileError, SendResponse};
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, Server, StatusCode};

type Job = Box<dyn FnOnce(Response)>;

/// A directory of its own for every thread.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let mut base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        base.push(format!("pbt-p14-{}-{:?}", std::process::id(), std::thread::current().id()).replace(|c: char| !c.is_ascii_alphanumeric() && c != '-' && c != '/', ""));
        fs::create_dir_all(&base).expect("scratch directory");
        Scratch(base)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

thread_local! {
    static SCRATCH: Scratch = Scratch::new();
    static JOB: RefCell<Option<Job>> = RefCell::new(None);
    static NOTES: RefCell<Vec<String>> = RefCell::new(vec![]);
    static SERVERS: [ServerInstance<Act>; 2] = [server(false), server(true)];
    static TABLE: BTreeMap<String, String> = mimes::table();
    static KEYS: Vec<String> = mimes::table().keys().cloned().collect();
}

fn note(s: String) {
    NOTES.with(|n| n.borrow_mut().push(s));
}

struct Act;

impl Handler for Act {
    fn handle(&self, c: Context, r: Response) {
        if c.uri_path.as_utf8_path() == Some("/after") {
            return r.send("after");
        }
        let job = JOB.with(|j| j.borrow_mut().take()).expect("the handler ran twice");
        job(r)
    }
}

/// Adds a mark at the end, and would change everything else.
struct Mark;

impl ResponseFilter for Mark {
    fn begin(&self, _: FilterContext, status: StatusCode, h: &mut Headers) -> (StatusCode, ResponseAction) {
        h.set_raw("X-Filtered", vec![b"yes".to_vec()]);
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::next(content.map(|c| [b"<", c.as_bytes(), b">"].concat()))
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::next(Some("!"))
    }
}

fn server(mark: bool) -> ServerInstance<Act> {
    Server {
        server: "test".into(),
        response_filters: if mark { vec![Box::new(Mark)] } else { vec![] },
        ..Server::new(Act)
    }
    .build()
}

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    File,
    Missing,
    Directory,
    /// A path that goes through a file.
    Through,
    Link,
    Dangling,
    Loop,
    LinkToDirectory,
    Nul,
    Empty,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Path,
    PathBuf,
    Mapped,
    MappedToNothing,
    File,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum OnError {
    /// `send`, which handles errors itself.
    Default,
    /// `send_not_found` with a message, then `ignore_send_error`.
    NotFound,
    /// `recover_response`, then send something else.
    Recover,
}

fn file_name(src: &mut Src) -> Vec<u8> {
    let mut name: Vec<u8> = match src.weighted(&[6, 1, 1]) {
        0 => gen::ident(src).into_bytes(),
        1 => gen::string(src, 12).into_bytes(),
        _ => gen::bytes(src, 12),
    };
    let ext: Option<Vec<u8>> = match src.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => Some(KEYS.with(|k| src.pick(k).clone()).into_bytes()),
        1 => Some(KEYS.with(|k| src.pick(k).to_uppercase()).into_bytes()),
        2 => Some(gen::string(src, 6).into_bytes()),
        3 => Some(gen::bytes(src, 6)),
        4 => Some(vec![]),
        _ => None,
    };
    let dots = if src.chance(1, 5) { 2 } else { 1 };
    if let Some(e) = ext {
        for _ in 0..dots {
            name.push(b'.');
        }
        name.extend(e);
    }
    if src.chance(1, 10) {
        name.insert(0, b'.');
    }
    for b in name.iter_mut() {
        if *b == b'/' || *b == 0 {
            *b = b'_';
        }
    }
    name.truncate(100);
    if name.is_empty() || name == b"." || name == b".." {
        name = b"x".to_vec();
    }
    name
}

/// The part after the last dot, unless the name starts with it.
fn extension(name: &[u8]) -> Option<Vec<u8>> {
    let dot = name.iter().rposition(|&b| b == b'.')?;
    if dot == 0 { None } else { Some(name[dot + 1..].to_vec()) }
}

fn handle(kind: &str, res: Result<(), FileError>, on: OnError, message: &str) {
    match res {
        Ok(()) => note(format!("{} ok", kind)),
        Err(e) => {
            note(match e {
                FileError::Open(ref e, ref r) => format!("open {:?} {}", e.kind(), r.status().to_u16()),
                FileError::Send(ref e) => format!("send {:?}", e.kind()),
            });
            match on {
                OnError::Default => unreachable!(),
                OnError::NotFound => match e.send_not_found(message).or_else(|e| e.ignore_send_error()) {
                    Ok(()) => note("handled".into()),
                    Err((e, r)) => {
                        note(format!("left {:?}", e.kind()));
                        r.send_data(message);
                    }
                },
                OnError::Recover => match e.recover_response() {
                    Ok(r) => r.send_data(message),
                    Err(e) => {
                        let e: io::Error = e.into();
                        note(format!("not recovered {:?}", e.kind()));
                    }
                },
            }
        }
    }
}

fn files(src: &mut Src, case: &mut Case) -> Res {
    let dir = SCRATCH.with(|s| s.0.join("case"));
    let _ = fs::remove_dir_all(&dir);
    if let Err(e) = fs::create_dir_all(&dir) {
        panic!("scratch: {}", e);
    }
    let name = file_name(src);
    let kind = match src.weighted(&[14, 2, 3, 2, 2, 1, 1, 1, 1, 1]) {
        0 => Kind::File,
        1 => Kind::Missing,
        2 => Kind::Directory,
        3 => Kind::Through,
        4 => Kind::Link,
        5 => Kind::Dangling,
        6 => Kind::Loop,
        7 => Kind::LinkToDirectory,
        8 => Kind::Nul,
        _ => Kind::Empty,
    };
    let size = if src.chance(1, 20) { gen::size(src, 300_000) } else { gen::size(src, 20_000) };
    let content = gen::blob(src, size);
    let path = dir.join(OsString::from_vec(name.clone()));
    let other = dir.join("other-file-of-the-case");
    let link = |to: &Path| std::os::unix::fs::symlink(to, &path).expect("link");
    let path = match kind {
        Kind::File => {
            fs::write(&path, &content).expect("write");
            path
        }
        Kind::Missing => path,
        Kind::Directory => {
            fs::create_dir(&path).expect("directory");
            fs::write(path.join("inside"), b"inside").expect("write");
            path
        }
        Kind::Through => {
            fs::write(&other, &content).expect("write");
            other.join(OsString::from_vec(name.clone()))
        }
        Kind::Link => {
            fs::write(&other, &content).expect("write");
            link(&other);
            path
        }
        Kind::Dangling => {
            link(&other);
            path
        }
        Kind::Loop => {
            link(&path);
            path
        }
        Kind::LinkToDirectory => {
            link(&dir);
            path
        }
        Kind::Nul => dir.join(OsString::from_vec([&name[..], b"\0"].concat())),
        Kind::Empty => PathBuf::new(),
    };
    let sendable = kind == Kind::File || kind == Kind::Link;
    let mut how = *src.pick(&[How::Path, How::PathBuf, How::Mapped, How::MappedToNothing, How::File]);
    // The kind of error that opening gives, according to the system.
    let opened = File::open(&path);
    if opened.is_err() && how == How::File {
        how = How::Path;
    }
    let on = *src.pick(&[OnError::Default, OnError::NotFound, OnError::Recover]);
    let offset = if how == How::File && src.flip() { gen::size(src, content.len() + 10) } else { 0 };
    let status = resp::status(src);
    let headers = HOp::list(src, 1, 3);
    let mark = src.chance(1, 3);
    let message = if src.flip() { "the message" } else { "" };
    case.note(|| format!("{:?} {} ({} bytes) via {:?}, errors: {:?}, offset {}, status {:?}, headers {:?}, filter {}", kind, gen::show(path.as_os_str().as_bytes()), content.len(), how, on, offset, status, headers, mark));
    case.label(match kind {
        Kind::File | Kind::Link => "sent",
        Kind::Directory | Kind::LinkToDirectory => "directory",
        _ => "cannot be opened",
    });
    case.label_if(offset > 0, "not from the start");
    case.label_if(how == How::Mapped, "own mapping");

    let (hs, p) = (headers.clone(), path.clone());
    let asked = std::rc::Rc::new(RefCell::new(vec![]));
    let ask = asked.clone();
    let job: Job = Box::new(move |mut r: Response| {
        if let Some(s) = status {
            r.set_status(StatusCode::from_u16(s));
        }
        for h in &hs {
            h.apply(r.headers_mut());
        }
        let map = move |ext: &str| {
            ask.borrow_mut().push(ext.to_string());
            if how == How::Mapped { Some("application/x-mapped".parse().unwrap()) } else { None }
        };
        let open = || {
            let mut f = File::open(&p).expect("it was opened before");
            if offset > 0 {
                let _ = f.seek(SeekFrom::Start(offset as u64));
            }
            f
        };
        match (how, on) {
            (How::Path, OnError::Default) => r.send(&*p),
            (How::PathBuf, OnError::Default) => r.send(p.clone()),
            (How::File, OnError::Default) => r.send(open()),
            (How::Mapped, OnError::Default) | (How::MappedToNothing, OnError::Default) => {
                if let Err(e) = r.send_file_with_mime(&p, map) {
                    rustful::response::ResponseError::handle(e);
                }
            }
            (How::Path, _) => handle("path", r.try_send(&*p), on, message),
            (How::PathBuf, _) => handle("path", p.clone().send_response(r), on, message),
            (How::File, _) => handle("file", r.try_send(open()), on, message),
            (How::Mapped, _) | (How::MappedToNothing, _) => handle("mapped", r.send_file_with_mime(&p, map), on, message),
        }
    });
    JOB.with(|j| *j.borrow_mut() = Some(job));
    NOTES.with(|n| n.borrow_mut().clear());
    let method = *src.pick(&["GET", "POST", "GET", "POST", "HEAD"]);
    let head = method == "HEAD";
    case.label_if(head, "HEAD request");
    let reply = SERVERS.with(|s| wire::one_reply(&s[mark as usize], wire::Req::new(method, "/f").more(src).bytes()));
    let reply = match reply {
        Ok(Some(r)) => r,
        Ok(None) => return fail("wire", "no response".into()),
        Err(e) => return fail("wire", e),
    };
    let notes = NOTES.with(|n| n.borrow().clone());

    let mut h: HMap = defaults("test", "text/html; charset=utf-8");
    for op in &headers {
        op.model(&mut h);
    }
    let before = status.unwrap_or(200);
    let ext = if path.file_name().is_some() { extension(path.file_name().unwrap().as_bytes()).map(|e| String::from_utf8_lossy(&e).into_owned()) } else { None };
    let mut got = resp::plain_headers(&reply);
    got.remove("date");
    h.remove("date");
    if sendable {
        let body = content[offset.min(content.len())..].to_vec();
        if how != How::File {
            let ty = match how {
                How::Mapped if ext.is_some() => "application/x-mapped".to_string(),
                How::Mapped | How::MappedToNothing => "application/octet-stream".into(),
                _ => ext.as_ref().and_then(|e| TABLE.with(|t| t.get(e).cloned())).unwrap_or_else(|| "application/octet-stream".into()),
            };
            h.insert("content-type".into(), vec![ty]);
        }
        h.retain(|_, v| !v.is_empty());
        ensure_eq!(reply.status, before, "status", "status of a sent file");
        ensure!(got == h, "headers", "the headers are {:?}\nexpected: {:?}", got, h);
        if !no_body(before) {
            ensure!(reply.framing == wire::Framing::Sized, "framing", "a file was sent as {:?}", reply.framing);
            if head {
                ensure_eq!(reply.header("Content-Length"), Some(body.len().to_string()), "body", "content length of a file that isn't sent");
            }
            let body = if head { &body[..0] } else { &body[..] };
            ensure!(reply.body == *body, "body", "{} bytes were received: {}\nexpected {}: {}", reply.body.len(), gen::show(&reply.body[..reply.body.len().min(60)]), body.len(), gen::show(&body[..body.len().min(60)]));
            if on != OnError::Default {
                ensure!(notes.len() == 1 && notes[0].ends_with(" ok"), "result", "sending gave {:?}", notes);
            }
        } else {
            ensure!(reply.body.is_empty(), "body", "a {} has a body", before);
        }
        case.nontrivial_if(!body.is_empty() && body.len() > 1);
    } else {
        let missing = match opened {
            Err(ref e) => e.kind() == io::ErrorKind::NotFound,
            Ok(_) => false,
        };
        let (want_status, mut body) = match on {
            OnError::Default => (if missing { 404 } else { 500 }, ""),
            OnError::NotFound => (if missing { 404 } else { before }, message),
            OnError::Recover => (before, message),
        };
        let filtered;
        if mark {
            h.insert("x-filtered".into(), vec!["yes".into()]);
            filtered = format!("<{}>!", body);
            body = &filtered;
        }
        if head || no_body(want_status) {
            body = "";
        }
        h.retain(|_, v| !v.is_empty());
        if on != OnError::Default {
            ensure!(notes.first().map_or(false, |n| n.starts_with("open ") && n.ends_with(&format!(" {}", before))), "result", "opening {:?} gave {:?}, expected an error and the response as it was ({})", kind, notes, before);
            if on == OnError::NotFound {
                let want = if missing { "handled" } else { "left" };
                ensure!(notes.get(1).map_or(false, |n| n.starts_with(want)), "result", "send_not_found gave {:?}, expected it to be {}", notes, want);
            }
        }
        ensure_eq!(reply.status, want_status, "status", "status for a file that cannot be opened");
        ensure_eq!(String::from_utf8_lossy(&reply.body), body, "body", "body for a file that cannot be opened");
        ensure!(got == h, "headers", "the headers are {:?}\nexpected: {:?}", got, h);
        case.nontrivial();
    }
    // (A mapping may be asked more than once, or before opening.)
    for a in asked.borrow().iter() {
        ensure!(Some(a) == ext.as_ref(), "mapping", "the mapping was asked for {:?}, the extension is {:?}", a, ext);
    }
    if kind == Kind::File {
        let mut now = vec![];
        File::open(&path).and_then(|mut f| f.read_to_end(&mut now)).expect("read");
        ensure!(now == content, "file changed", "the file was changed by sending it");
    }
    Ok(())
}

/// Files of any size, mostly holes, of which perhaps not everything is taken.
fn large(src: &mut Src, case: &mut Case) -> Res {
    use std::os::unix::fs::FileExt;
    let dir = SCRATCH.with(|s| s.0.join("large"));
    fs::create_dir_all(&dir).expect("scratch");
    let path = dir.join("file.bin");
    let bits = src.range(10, 50);
    let size = (1u64 << bits) + src.below(1 << bits);
    let file = File::create(&path).expect("create");
    if file.set_len(size).is_err() {
        case.label("too large for this file system");
        return Ok(());
    }
    let by_path = src.chance(1, 4);
    let near = src.range(0, 3000) as u64;
    let offset = match src.weighted(&[2, 2, 2, 1, 1]) {
        _ if by_path => 0,
        0 => src.below(size),
        1 => size - near.min(size),
        2 => (1u64 << src.range(8, bits)).saturating_sub(near),
        3 => size + near,
        _ => 0,
    };
    let mut want = vec![0; size.saturating_sub(offset).min(70_000) as usize];
    let n = src.idx(want.len().min(2000) + 1);
    let piece = gen::blob(src, n);
    let at = if want.len() > n { src.idx(want.len() - n + 1) } else { 0 };
    if n > 0 {
        file.write_all_at(&piece, offset + at as u64).expect("write");
        want[at..at + n].copy_from_slice(&piece);
    }
    let left = size.saturating_sub(offset);
    let cut = if left > want.len() as u64 || src.chance(1, 4) { Some(1000 + src.idx(60_000)) } else { None };
    let kind = *src.pick(&wire::LOST);
    case.note(|| format!("{} bytes, from {} on, {} other than 0 at {} after that, {}, the connection is lost ({:?}) after {:?} bytes", size, offset, n, at, if by_path { "by path" } else { "as a file" }, kind, cut));
    case.label_if(cut.is_some(), "cut");
    case.label_if(left >> 32 > 0, "more than 4 GB");
    case.nontrivial_if(left > 1);
    let p = path.clone();
    let job: Job = Box::new(move |r: Response| {
        let result = if by_path {
            r.try_send(&*p)
        } else {
            let mut f = File::open(&p).expect("open");
            f.seek(SeekFrom::Start(offset)).expect("seek");
            r.try_send(f)
        };
        note(match result {
            Ok(()) => "ok".into(),
            Err(FileError::Open(e, _)) => format!("open {:?}", e.kind()),
            Err(FileError::Send(e)) => format!("send {:?}", e.kind()),
        });
    });
    JOB.with(|j| *j.borrow_mut() = Some(job));
    NOTES.with(|n| n.borrow_mut().clear());
    let mut sink = wire::Sink { limit: cut, kind: Some(kind), ..Default::default() };
    let mut stream = wire::MockStream::new(wire::Req::new("GET", "/f").bytes(), wire::addr());
    SERVERS.with(|s| wire::converse(&s[src.flip() as usize], &mut stream, &mut sink, true));
    let notes = NOTES.with(|n| n.borrow().clone());
    let head = match sink.out.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(i) => i + 4,
        None => return fail("head", format!("no complete head in {}", gen::show(&sink.out[..sink.out.len().min(300)]))),
    };
    let text = String::from_utf8_lossy(&sink.out[..head]).to_ascii_lowercase();
    let lengths: Vec<&str> = text.lines().filter(|l| l.starts_with("content-length:")).map(|l| l[15..].trim()).collect();
    let declared = left.to_string();
    ensure_eq!(lengths, vec![&declared[..]], "length", "the declared length");
    let body = &sink.out[head..];
    let end = cut.map_or(left as usize, |c| (c - head).min(left as usize));
    ensure_eq!(body.len(), end, "body", "number of bytes of the body");
    let same = want.len().min(end);
    ensure!(body[..same] == want[..same] && body[same..].iter().all(|&b| b == 0), "body", "the body is not what the file has from {} on", offset);
    let lost = cut.map_or(false, |c| ((c - head) as u64) < left);
    if !lost {
        ensure_eq!(notes, vec!["ok".to_string()], "result", "what sending gave");
    } else if left > 200_000 {
        // (What is at the end may be held back until it's too late to tell.)
        ensure_eq!(notes, vec![format!("send {:?}", kind)], "result", "what sending gave when the connection was lost");
    } else {
        ensure!(notes.len() == 1 && (notes[0] == "ok" || notes[0] == format!("send {:?}", kind)), "result", "sending gave {:?} when the connection was lost", notes);
    }
    Ok(())
}

/// Files that change while they are sent.
fn changing(src: &mut Src, case: &mut Case) -> Res {
    use std::os::unix::fs::FileExt;
    let dir = SCRATCH.with(|s| s.0.join("changing"));
    fs::create_dir_all(&dir).expect("scratch");
    let path = dir.join("file.bin");
    let size = if src.flip() { gen::size(src, 3000) } else { gen::size(src, 150_000) };
    let content = gen::blob(src, size);
    fs::write(&path, &content).expect("write");
    let by_path = src.chance(1, 3);
    let offset = if by_path || src.flip() { 0 } else { src.idx(size + 1) };
    let now = match src.weighted(&[3, 2, 2, 1]) {
        0 => src.idx(size + 1),
        1 => size - (1 + gen::size(src, 5000)).min(size),
        2 => size + 1 + gen::size(src, 20_000),
        _ => 0,
    };
    // (Once something has been sent, or just as it starts.)
    let from = src.idx(size + 400);
    let head = src.chance(1, 12);
    let left = size - offset;
    let short = if src.chance(1, 3) { Some(1 + gen::size(src, 9000)) } else { None };
    case.note(|| format!("{} bytes, from {} on, {}; {} after {} bytes have been sent; HEAD {}, {:?}", size, offset, if by_path { "by path" } else { "as a file" }, now, from, head, short));
    let p = path.clone();
    let job: Job = Box::new(move |r: Response| {
        let result = if by_path {
            r.try_send(&*p)
        } else {
            let mut f = File::open(&p).expect("open");
            f.seek(SeekFrom::Start(offset as u64)).expect("seek");
            r.try_send(f)
        };
        note(match result {
            Ok(()) => "ok".into(),
            Err(FileError::Open(e, _)) => format!("open {:?}", e.kind()),
            Err(FileError::Send(e)) => format!("send {:?}", e.kind()),
        });
    });
    JOB.with(|j| *j.borrow_mut() = Some(job));
    NOTES.with(|n| n.borrow_mut().clear());
    let change = Box::new(move || {
        let f = fs::OpenOptions::new().write(true).open(&path).expect("open");
        if now > size {
            f.write_all_at(&vec![b'+'; now - size], size as u64).expect("write");
        } else {
            f.set_len(now as u64).expect("truncate");
        }
    });
    let mut sink = wire::Sink { short, then: Some((from, change)), ..Default::default() };
    let mut data = wire::Req::new(if head { "HEAD" } else { "GET" }, "/f").more(src).bytes();
    data.extend(wire::Req::new("GET", "/after").bytes());
    let mut stream = wire::MockStream::new(data, wire::addr());
    let talk = SERVERS.with(|s| wire::converse(&s[src.flip() as usize], &mut stream, &mut sink, true));
    let changed = sink.then.is_none();
    let notes = NOTES.with(|n| n.borrow().clone());
    let mut pos = 0;
    let at = match sink.out.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(i) => i + 4,
        None => return fail("head", format!("no complete head in {}", gen::show(&sink.out[..sink.out.len().min(300)]))),
    };
    let text = String::from_utf8_lossy(&sink.out[..at]).to_ascii_lowercase();
    ensure!(text.contains(&format!("\r\ncontent-length: {}\r\n", left)), "length", "the declared length should be {}: {}", left, text);
    let whole = head || sink.out.len() - at >= left;
    let there = if head { 0 } else { left.min(sink.out.len() - at) };
    ensure!(sink.out[at..at + there] == content[offset..offset + there], "body", "{} bytes that were sent are not what the file had", there);
    ensure!(notes.len() == 1, "result", "sending gave {:?}", notes);
    let mut followed = false;
    if whole {
        wire::parse_reply_to(&sink.out, &mut pos, head).map_err(|m| Fail { sig: "malformed".into(), msg: m })?;
        followed = pos < sink.out.len();
        if followed {
            let r = wire::parse_reply(&sink.out, &mut pos).map_err(|m| Fail { sig: "malformed".into(), msg: format!("after a file of {} bytes: {}", left, m) })?;
            ensure!(r.body.starts_with(b"after") || r.body.starts_with(b"<after"), "next response", "the body of the next response is {}", gen::show(&r.body));
            ensure!(pos == sink.out.len(), "extra output", "{} bytes follow", sink.out.len() - pos);
        }
    }
    ensure_eq!(followed, talk.requests == 2, "requests", "whether the next request was answered");
    if !changed || now >= offset + left {
        // Nothing was missing at any time.
        ensure_eq!(notes[0], "ok", "result", "what sending gave");
        ensure!(whole && followed, "closed", "{} of {} bytes were sent, next response {}", there, left, followed);
    } else if !whole {
        // The next response would be taken for the missing part.
        ensure!(!talk.open, "left open", "{} of {} bytes were sent, and the connection is left open", there, left);
        ensure!(notes[0].starts_with("send "), "result", "{} of {} bytes were sent, sending gave {:?}", there, left, notes);
    }
    case.label(if !changed {
        "not changed"
    } else if !whole {
        "cut short"
    } else if now > size {
        "longer"
    } else {
        "shorter"
    });
    case.label_if(head, "HEAD request");
    case.nontrivial_if(changed && left > 1);
    Ok(())
}

/// Handling an error of any kind, with any response.
fn errors(src: &mut Src, case: &mut Case) -> Res {
    use io::ErrorKind::*;
    use rustful::response::ResponseError;
    #[derive(Clone, Copy, Debug)]
    enum Way {
        Handle,
        NotFound,
        Ignore,
        Recover,
        Into,
    }
    let kinds = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, UnexpectedEof, Other, Unsupported, OutOfMemory];
    let kind = *src.pick(&kinds);
    let text = gen::string(src, 10);
    let custom = src.flip();
    let sending = src.chance(1, 4);
    let way = *src.pick(&[Way::Handle, Way::NotFound, Way::Ignore, Way::Recover, Way::Into]);
    let status = resp::status(src);
    let headers = HOp::list(src, 1, 3);
    let mark = src.chance(1, 3);
    let message = if src.flip() { "the message" } else { "" };
    case.note(|| format!("{} error {:?} ({}), handled by {:?}, status {:?}, headers {:?}, filter {}, message {:?}", if sending { "send" } else { "open" }, kind, if custom { &text[..] } else { "plain" }, way, status, headers, mark, message));
    case.label_if(sending, "send error");
    case.nontrivial_if(kind != NotFound);
    let hs = headers.clone();
    let make = move || if custom { io::Error::new(kind, text.clone()) } else { io::Error::from(kind) };
    let shown = make().to_string();
    let job: Job = Box::new(move |mut r: Response| {
        if let Some(s) = status {
            r.set_status(StatusCode::from_u16(s));
        }
        for h in &hs {
            h.apply(r.headers_mut());
        }
        let e = if sending {
            drop(r);
            FileError::Send(make())
        } else {
            FileError::Open(make(), r)
        };
        let shows = format!("{}", e).contains(&shown) && !format!("{:?}", e).is_empty() && std::error::Error::source(&e).map_or(true, |s| s.to_string() == shown);
        note(format!("shows the error {}", shows));
        let last = |e: FileError| match e.recover_response() {
            Ok(r) => r.send_data(message),
            Err(e) => {
                let e: io::Error = e.into();
                note(format!("send {:?} {}", e.kind(), e.to_string() == shown));
            }
        };
        match way {
            Way::Handle => e.handle(),
            Way::NotFound => match e.send_not_found(message) {
                Ok(()) => note("not found".into()),
                Err(e) => last(e),
            },
            Way::Ignore => match e.ignore_send_error() {
                Ok(()) => note("ignored".into()),
                Err((e, r)) => {
                    note(format!("open {:?} {}", e.kind(), e.to_string() == shown));
                    r.send_data(message);
                }
            },
            Way::Recover => last(e),
            Way::Into => {
                let e: io::Error = e.into();
                note(format!("error {:?} {}", e.kind(), e.to_string() == shown));
            }
        }
    });
    JOB.with(|j| *j.borrow_mut() = Some(job));
    NOTES.with(|n| n.borrow_mut().clear());
    let reply = SERVERS.with(|s| wire::one_reply(&s[mark as usize], wire::Req::new("GET", "/f").bytes()));
    let reply = match reply {
        Ok(Some(r)) => r,
        Ok(None) => return fail("wire", "no response".into()),
        Err(e) => return fail("wire", e),
    };
    let notes = NOTES.with(|n| n.borrow().clone());
    let mut h: HMap = defaults("test", "text/html; charset=utf-8");
    for op in &headers {
        op.model(&mut h);
    }
    if mark {
        h.insert("x-filtered".into(), vec!["yes".into()]);
    }
    h.remove("date");
    h.retain(|_, v| !v.is_empty());
    let before = status.unwrap_or(200);
    let mut want = vec!["shows the error true".to_string()];
    let missing = kind == NotFound;
    let (want_status, body) = match way {
        Way::Into => {
            want.push(format!("error {:?} true", kind));
            (before, "")
        }
        _ if sending => {
            match way {
                Way::Handle => {}
                Way::Ignore => want.push("ignored".into()),
                _ => want.push(format!("send {:?} true", kind)),
            }
            (before, "")
        }
        Way::Handle => (if missing { 404 } else { 500 }, ""),
        Way::NotFound if missing => {
            want.push("not found".into());
            (404, message)
        }
        Way::Ignore => {
            want.push(format!("open {:?} true", kind));
            (before, message)
        }
        _ => (before, message),
    };
    let body = if no_body(want_status) {
        String::new()
    } else if mark {
        format!("<{}>!", body)
    } else {
        body.to_string()
    };
    ensure_eq!(notes, want, "result", "what handling the error gave");
    ensure_eq!(reply.status, want_status, "status", "status after an error");
    ensure_eq!(String::from_utf8_lossy(&reply.body), body, "body", "body after an error");
    let mut got = resp::plain_headers(&reply);
    got.remove("date");
    ensure!(got == h, "headers", "the headers are {:?}\nexpected: {:?}", got, h);
    Ok(())
}

fn main() {
    runner::main("P14", "a file with more than one byte to send, or a path that cannot be opened as a file", &[
        Prop { name: "files", quick: 1_280_000, thorough: 9_600_000, run: files },
        Prop { name: "errors", quick: 1_200_000, thorough: 9_000_000, run: errors },
        Prop { name: "changing", quick: 150_000, thorough: 1_500_000, run: changing },
        Prop { name: "large", quick: 120_000, thorough: 1_000_000, run: large },
    ]);
}
