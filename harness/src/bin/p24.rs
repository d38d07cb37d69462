//! P24: streaming writers honour the standard writer contract.
use std::cell::RefCell;
use std::io;

use pbt::resp::*;
use pbt::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::{Data, FileError};
use rustful::server::{Global, KeepAlive};
use rustful::{Context, Handler, Response, Server, StatusCode};

/// What one operation did, and what had reached the network by then.
#[derive(Clone, Debug, PartialEq)]
struct Step {
    did: Did,
    written: usize,
    /// Writes that had failed by then.
    faults: usize,
}

thread_local! {
    static SCRIPT: RefCell<Option<Script>> = RefCell::new(None);
    static STEPS: RefCell<Vec<Step>> = RefCell::new(vec![]);
    /// Writes that had failed before the first operation.
    static START: std::cell::Cell<usize> = std::cell::Cell::new(0);
}

fn step(did: Did) {
    let written = wire::WRITTEN.with(|w| w.get());
    STEPS.with(|s| s.borrow_mut().push(Step { did, written, faults: failures() }));
}

fn failures() -> usize {
    wire::FAULTS.with(|f| f.get())
}

fn from(r: Result<(), rustful::response::Error>) -> Did {
    match r {
        Ok(()) => Did::Ok,
        Err(e) => from_error(e),
    }
}

fn act(s: &Script, mut r: Response) {
    if let Some(s) = s.status {
        r.set_status(StatusCode::from_u16(s));
    }
    for h in &s.headers {
        h.apply(r.headers_mut());
    }
    match s.style {
        Style::Chunked(ref ops, end) => {
            let mut w = r.into_chunked();
            START.with(|s| s.set(failures()));
            for op in ops {
                step(match *op {
                    Op::Send(ref c) => {
                        w.send(c.data());
                        Did::Silent
                    }
                    Op::TrySend(ref c) => from(w.try_send(c.data()).map(|_| ())),
                    ref op => write_op(&mut w, op),
                });
            }
            if end {
                step(from(w.end()));
            }
        }
        Style::Raw(len, ref ops, end) => {
            let mut w = unsafe { r.into_raw(len) };
            START.with(|s| s.set(failures()));
            for op in ops {
                step(match *op {
                    Op::Send(ref c) => {
                        w.send(c.data());
                        Did::Silent
                    }
                    Op::TrySend(ref c) => from(w.try_send(c.data()).map_err(|e| e.into())),
                    ref op => write_op(&mut w, op),
                });
            }
            if end {
                step(from(w.end().map_err(|e| e.into())));
            }
        }
        _ => unreachable!(),
    }
}

struct Act;

impl Handler for Act {
    fn handle(&self, _: Context, r: Response) {
        let s = SCRIPT.with(|s| s.borrow().clone()).expect("a script");
        act(&s, r)
    }
}

/// How a filter changes each byte, wherever the pieces are cut.
#[derive(Clone, Debug)]
enum Map {
    Same,
    Twice,
    Hex,
    Escape,
    /// Drops one in so many byte values.
    Drop(u8),
    /// Drops everything.
    All,
}

#[derive(Clone, Debug)]
struct Morph {
    map: Map,
    /// How it passes on nothing: no data, empty data, or a silent abort.
    nothing: u8,
    begin: Option<Vec<u8>>,
    end: Option<Vec<u8>>,
    /// Refuses to begin.
    abort: bool,
}

impl Morph {
    fn gen(src: &mut Src) -> Morph {
        let extra = |src: &mut Src| if src.chance(1, 3) { Some(gen::bytes(src, 6)) } else { None };
        Morph {
            map: match src.weighted(&[3, 3, 3, 3, 3, 1]) {
                0 => Map::Same,
                1 => Map::Twice,
                2 => Map::Hex,
                3 => Map::Escape,
                4 => Map::Drop(src.range(2, 5) as u8),
                _ => Map::All,
            },
            nothing: src.below(3) as u8,
            begin: extra(src),
            end: extra(src),
            abort: false,
        }
    }

    fn apply(&self, d: &[u8]) -> Vec<u8> {
        let mut v = vec![];
        for &b in d {
            match self.map {
                Map::Same => v.push(b),
                Map::Twice => v.extend(&[b, b]),
                Map::Hex => v.extend(format!("{:02x}", b).bytes()),
                Map::Escape => match b {
                    b'<' => v.extend(b"&lt;"),
                    b'>' => v.extend(b"&gt;"),
                    b'&' => v.extend(b"&amp;"),
                    b => v.push(b),
                },
                Map::Drop(n) => if b % n != 0 {
                    v.push(b)
                },
                Map::All => {}
            }
        }
        v
    }

    fn add<'a>(d: &'a Option<Vec<u8>>) -> ResponseAction<'a> {
        match *d {
            Some(ref d) => ResponseAction::next(Some(&d[..])),
            None => ResponseAction::Next(None),
        }
    }
}

impl ResponseFilter for Morph {
    fn begin(&self, _: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        if self.abort {
            return (status, ResponseAction::abort("refused to begin".into()));
        }
        (status, Morph::add(&self.begin))
    }

    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        let content = match content {
            Some(c) => c,
            None => return ResponseAction::Next(None),
        };
        let v = self.apply(content.as_bytes());
        if v.is_empty() {
            match self.nothing {
                0 => return ResponseAction::Next(None),
                1 => return ResponseAction::silent_abort(),
                _ => {}
            }
        }
        ResponseAction::next(Some(v))
    }

    fn end(&self, _: FilterContext) -> ResponseAction {
        Morph::add(&self.end)
    }
}

fn through(filters: &[Morph], d: &[u8]) -> Vec<u8> {
    filters.iter().fold(d.to_vec(), |d, f| f.apply(&d))
}

fn extras(filters: &[Morph], get: fn(&Morph) -> &Option<Vec<u8>>) -> Vec<u8> {
    let mut v = vec![];
    for (i, f) in filters.iter().enumerate() {
        if let Some(ref d) = *get(f) {
            v.extend(through(&filters[i + 1..], d));
        }
    }
    v
}

struct Run {
    out: Vec<u8>,
    steps: Vec<Step>,
    failed: bool,
}

fn run(filters: &[Morph], script: &Script, sink: wire::Sink) -> Result<Run, Fail> {
    SCRIPT.with(|s| *s.borrow_mut() = Some(script.clone()));
    STEPS.with(|s| s.borrow_mut().clear());
    wire::WRITTEN.with(|w| w.set(0));
    let server = Server {
        keep_alive: Some(KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: 0 }),
        threads: Some(10),
        server: "test".into(),
        response_filters: filters.iter().map(|f| Box::new(f.clone()) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(Act)
    }
    .build();
    let mut sink = sink;
    let mut stream = wire::MockStream::new(wire::Req::new("GET", "/").bytes(), wire::addr());
    let talk = wire::converse(&server, &mut stream, &mut sink, true);
    ensure_eq!(talk.requests, 1, "requests", "requests that were handled");
    let steps = STEPS.with(|s| s.borrow().clone());
    for (i, s) in steps.iter().enumerate() {
        if let Did::Bad(ref m) = s.did {
            return fail("contract", format!("operation {}: {}", i, m));
        }
    }
    Ok(Run { out: sink.out, steps, failed: sink.failed })
}

fn sink(src: &mut Src) -> wire::Sink {
    wire::Sink {
        short: if src.chance(1, 3) { Some(1 + gen::size(src, 50)) } else { None },
        interrupts: if src.chance(1, 4) { Some(src.range(2, 6)) } else { None },
        ..wire::Sink::default()
    }
}

fn script(src: &mut Src) -> Script {
    let mut ops = vec![];
    while src.more(ops.len(), 4, 14) {
        ops.push(Op::gen(src, 24));
    }
    let end = src.chance(2, 3);
    let style = if src.chance(2, 3) {
        Style::Chunked(ops, end)
    } else {
        let total: usize = ops.iter().map(|o| o.len()).sum();
        let len = if src.chance(1, 3) { total - src.idx(total.min(20) + 1) } else { total };
        Style::Raw(len as u64, ops, end)
    };
    Script { status: if src.chance(1, 4) { Some(*src.pick(&[201, 404, 500])) } else { None }, headers: vec![HOp::Set("Date".into(), vec!["Tue, 01 Jan 2030 00:00:00 GMT".into()])], style }
}

fn ops_of(s: &Script) -> (&[Op], bool) {
    match s.style {
        Style::Chunked(ref o, e) | Style::Raw(_, ref o, e) => (o, e),
        _ => unreachable!(),
    }
}

/// The part of a body that can be decoded from the beginning of a response.
fn partial(out: &[u8]) -> Result<Vec<u8>, String> {
    let head = out.windows(4).position(|w| w == b"\r\n\r\n").ok_or("the head is not complete")? + 4;
    let text = String::from_utf8_lossy(&out[..head]).to_lowercase();
    let mut b = &out[head..];
    if !text.contains("transfer-encoding: chunked") {
        return Ok(b.to_vec());
    }
    let mut body = vec![];
    while !b.is_empty() {
        let p = b.windows(2).position(|w| w == b"\r\n").ok_or("a chunk size is cut")?;
        let n = std::str::from_utf8(&b[..p]).ok().and_then(|s| usize::from_str_radix(s, 16).ok()).ok_or("bad chunk size")?;
        if n == 0 {
            return Err("the body is already ended".into());
        }
        if b.len() < p + 2 + n + 2 {
            return Err("a chunk is cut".into());
        }
        body.extend(&b[p + 2..p + 2 + n]);
        b = &b[p + 2 + n + 2..];
    }
    Ok(body)
}

/// What flushes that succeeded have delivered.
fn check_flushes(filters: &[Morph], s: &Script, r: &Run, at: &str) -> Res {
    let (ops, _) = ops_of(s);
    let mut so_far = vec![];
    for (op, step) in ops.iter().zip(&r.steps) {
        so_far.extend(op.bytes());
        let flushes = matches!(*op, Op::Flush | Op::Buffered(..) | Op::Lines(..));
        if flushes && step.did == Did::Ok {
            let want = match s.style {
                Style::Raw(len, ..) => so_far[..so_far.len().min(len as usize)].to_vec(),
                _ => [extras(filters, |f| &f.begin), through(filters, &so_far)].concat(),
            };
            match partial(&r.out[..step.written]) {
                Ok(got) => ensure!(got == want, "flush", "{}: after a successful flush ({:?}), the client has {}\nexpected: {}", at, op, gen::show(&got), gen::show(&want)),
                Err(m) => return fail("flush", format!("{}: after a successful flush ({:?}), {} in what the client has", at, op, m)),
            }
        }
    }
    Ok(())
}

fn stream(src: &mut Src, case: &mut Case) -> Res {
    let mut filters = vec![];
    while src.more(filters.len(), 1, 3) {
        filters.push(Morph::gen(src));
    }
    let s = script(src);
    let sink = sink(src);
    case.note(|| format!("{:?}\n{:?}\nnetwork writes of {:?}, every {:?} interrupted", filters, s, sink.short, sink.interrupts));
    let r = run(&filters, &s, sink)?;
    let (ops, end) = ops_of(&s);
    ensure_eq!(r.steps.len(), ops.len() + end as usize, "results", "number of results");
    let content: Vec<u8> = ops.iter().flat_map(|o| o.bytes()).collect();
    case.label_if(!filters.is_empty(), "filters");
    case.label_if(ops.iter().any(|o| matches!(*o, Op::Flush)), "flush");
    case.nontrivial_if(ops.iter().filter(|o| o.len() > 0).count() > 1);
    let reply = match wire::parse_reply(&r.out, &mut 0) {
        Ok(r) => r,
        Err(m) => return fail("malformed", m),
    };
    let mut left = match s.style {
        Style::Raw(len, ..) => Some(len as usize),
        _ => None,
    };
    case.label(if left.is_some() { "declared length" } else { "chunked" });
    for (i, op) in ops.iter().enumerate() {
        let got = &r.steps[i].did;
        let k = op.len();
        let fits = left.map_or(true, |l| k <= l);
        case.label_if(!fits, "too much data");
        if fits {
            let want = match *op {
                Op::Send(_) => Did::Silent,
                Op::Write(_) => Did::Took(k),
                _ => Did::Ok,
            };
            ensure!(*got == want, "result", "operation {} ({:?}) gave {:?}, expected {:?}", i, op, got, want);
        } else {
            let l = left.unwrap();
            let good = match (op, got) {
                (&Op::Send(_), &Did::Silent) => true,
                (&Op::Write(_), &Did::Took(n)) | (&Op::Loop(_), &Did::Took(n)) | (&Op::Vectored(_), &Did::Took(n)) => n == l,
                (&Op::Write(_), _) | (&Op::Loop(_), _) | (&Op::Vectored(_), _) => false,
                (_, &Did::Io(_)) => true,
                _ => false,
            };
            ensure!(good, "result", "operation {} ({:?}) gave {:?} with {} bytes left", i, op, got, l);
        }
        left = left.map(|l| l.saturating_sub(k));
    }
    if end {
        ensure!(r.steps[ops.len()].did == Did::Ok, "result", "the end gave {:?}", r.steps[ops.len()].did);
    }
    let want = match s.style {
        Style::Raw(len, ..) => content[..len as usize].to_vec(),
        _ => [extras(&filters, |f| &f.begin), through(&filters, &content), extras(&filters, |f| &f.end)].concat(),
    };
    ensure!(reply.body == want, "body", "the body is {}\nexpected: {}", gen::show(&reply.body), gen::show(&want));
    check_flushes(&filters, &s, &r, "complete")
}

/// Operations that ask something of the writer, even without data.
fn asks(op: &Op) -> bool {
    op.len() > 0 || matches!(*op, Op::Flush | Op::Send(_) | Op::TrySend(_) | Op::Write(_) | Op::WriteAll(_) | Op::Buffered(..) | Op::Lines(..))
}

fn refused(src: &mut Src, case: &mut Case) -> Res {
    let mut filters = vec![];
    while src.more(filters.len(), 1, 3) {
        filters.push(Morph::gen(src));
    }
    let at = src.idx(filters.len() + 1);
    filters.insert(at, Morph { map: Map::Same, nothing: 0, begin: None, end: None, abort: true });
    let mut s = script(src);
    let (ops, end) = {
        let (o, e) = ops_of(&s);
        (o.to_vec(), e)
    };
    s.style = Style::Chunked(ops.clone(), end);
    case.note(|| format!("{:?}\n{:?}", filters, s));
    let sink = sink(src);
    let r = run(&filters, &s, sink)?;
    ensure_eq!(r.steps.len(), ops.len() + end as usize, "results", "number of results");
    let mut told = false;
    for (i, op) in ops.iter().enumerate() {
        let got = &r.steps[i].did;
        if !asks(op) {
            ensure!(*got == Did::Ok || matches!(*got, Did::Filter(_) | Did::Io(_)), "result", "operation {} ({:?}) gave {:?}", i, op, got);
            told |= *got != Did::Ok;
            continue;
        }
        let good = match (op, got) {
            (&Op::Send(_), _) => *got == Did::Silent,
            (_, &Did::Filter(ref m)) => !told && m == "refused to begin",
            (_, &Did::Io(_)) => told,
            _ => false,
        };
        ensure!(good, "result", "operation {} ({:?}) gave {:?} although the filter refused to begin (and it has {}been told)", i, op, got, if told { "" } else { "not " });
        told = true;
    }
    case.nontrivial_if(ops.iter().filter(|o| asks(o)).count() > 1);
    case.label_if(told, "told");
    if end && !told {
        ensure_eq!(r.steps[ops.len()].did, Did::Filter("refused to begin".into()), "result", "the end");
    }
    match wire::parse_reply(&r.out, &mut 0) {
        Ok(r) => ensure!(r.body.is_empty(), "body", "the body of a refused response is {}", gen::show(&r.body)),
        Err(m) => return fail("malformed", m),
    }
    Ok(())
}

fn faults(src: &mut Src, case: &mut Case) -> Res {
    let mut filters = vec![];
    while src.more(filters.len(), 1, 3) {
        filters.push(Morph::gen(src));
    }
    let mut s = script(src);
    let large = src.chance(1, 12);
    if large {
        // More than hyper holds back.
        let n = src.range(8000, 20000);
        s.headers.push(HOp::Set("X-Large".into(), vec!["x".repeat(n)]));
    }
    case.label_if(large, "large head");
    let full = run(&filters, &s, wire::Sink::default())?;
    let limit = if large && src.flip() { src.idx(8192) } else if src.flip() { src.idx(full.out.len() + 2) } else { full.out.len() - src.idx(full.out.len().min(40) + 1) };
    let kind = *src.pick(&wire::LOST);
    let sink = wire::Sink { limit: Some(limit), kind: Some(kind), ..sink(src) };
    case.note(|| format!("{:?}\n{}\nthe connection (a header may have 8000 more bytes) fails after {} of {} bytes", filters, format!("{:?}", s).replace(&"x".repeat(8000), ""), limit, full.out.len()));
    let r = run(&filters, &s, sink)?;
    let hit = limit < full.out.len();
    let (ops, end) = ops_of(&s);
    ensure_eq!(r.steps.len(), full.steps.len(), "results", "number of results");
    ensure!(full.out.starts_with(&r.out), "prefix", "the output is not the beginning of the full output: {}\nfull: {}", gen::show(&r.out), gen::show(&full.out));
    ensure_eq!(r.out.len(), limit.min(full.out.len()), "prefix", "bytes that were written");
    let mut told = false;
    let mut before = START.with(|s| s.get());
    for (i, (got, want)) in r.steps.iter().zip(&full.steps).enumerate() {
        let fault = got.faults > before;
        before = got.faults;
        let (got, want) = (&got.did, &want.did);
        if fault {
            ensure!(matches!(*got, Did::Io(_) | Did::Silent), "hidden", "operation {} gave {:?}, but the connection failed with {:?}", i, got, kind);
        }
        match *got {
            Did::Io(ref m) => {
                ensure!(hit || got == want, "result", "operation {} gave {:?} without a failure", i, got);
                // A failure to start is reported once.
                let own = m.starts_with(&format!("{:?}: ", kind)) || (large && m.starts_with("BrokenPipe: "));
                // What's beyond the declared length is refused either way.
                let beyond = m.starts_with("WriteZero: ") && matches!(*want, Did::Io(ref w) if w.starts_with("WriteZero: "));
                ensure!(got == want || own || beyond, "kind", "operation {} gave {:?} (without failures {:?}), but the connection reported {:?}", i, got, want, kind);
                told |= got != want;
            }
            // After a failure, less may be taken.
            Did::Took(n) if hit => ensure!(n <= ops[i].len(), "contract", "operation {} took {} of {} bytes", i, n, ops[i].len()),
            // What was not taken leaves room in a declared length.
            Did::Ok if r.failed && matches!(*want, Did::Io(_) | Did::Took(_)) => {}
            _ => ensure!(got == want, "result", "operation {} gave {:?}, expected {:?} or an error", i, got, want),
        }
    }
    case.label_if(told, "reported");
    case.label_if(hit && limit > 0 && r.failed, "cut");
    case.nontrivial_if(hit && r.failed && ops.iter().any(|o| o.len() > 0));
    if end {
        let did = &r.steps[ops.len()].did;
        // A failure to start is reported once, to the first operation that
        // needs the writer. Only a large head is written that early.
        let start = large && (told || r.steps.iter().any(|s| s.did == Did::Silent));
        ensure!((*did != Did::Ok) == hit || start && hit, "end", "the end gave {:?} and the connection {}", did, if hit { "had failed" } else { "had not failed" });
    }
    check_flushes(&filters, &s, &r, "cut")
}

/// What is told about errors.
fn errors(src: &mut Src, case: &mut Case) -> Res {
    use rustful::response::Error;
    let kind = *src.pick(&wire::LOST);
    let text = gen::string(src, 20);
    let io = src.flip();
    case.note(|| format!("{} error {:?} {:?}", if io { "io" } else { "filter" }, kind, text));
    let make = || io::Error::new(kind, text.clone());
    let e: Error = if io { make().into() } else { Error::Filter(text.clone()) };
    case.nontrivial_if(!text.is_empty());
    let shown = e.to_string();
    ensure!(shown.contains(&text), "display", "the error {:?} is shown as {:?}", text, shown);
    let cause = std::error::Error::source(&e).map(|c| c.to_string());
    #[allow(deprecated)]
    let old = std::error::Error::cause(&e).map(|c| c.to_string());
    ensure!(cause.is_none() || cause == old, "cause", "the causes are {:?} and {:?}", cause, old);
    ensure_eq!(old, if io { Some(make().to_string()) } else { None }, "cause", "the cause");
    match e {
        Error::Io(e) => {
            ensure!(io, "kind of error", "a filter error became an io error");
            ensure_eq!((e.kind(), e.to_string()), (kind, text.clone()), "kind of error", "the io error");
        }
        Error::Filter(t) => {
            ensure!(!io, "kind of error", "an io error became a filter error");
            ensure_eq!(t, text, "kind of error", "the filter error");
        }
    }
    Ok(())
}

fn mock(src: &mut Src, case: &mut Case) -> Res {
    let status = status(src);
    let headers = HOp::list(src, 1, 3);
    let style = style(src, false);
    let style = match style {
        Style::Raw(_, ops, end) => {
            let n: usize = ops.iter().map(|o| o.len()).sum();
            Style::Raw(n as u64, ops, end)
        }
        s => s,
    };
    case.note(|| format!("{:?} {:?} {:?}", status, headers, style));
    let global = Global::default();
    let mut r = Response::mock(&global);
    ensure_eq!(r.status(), StatusCode::Ok, "mock", "the status of a new response");
    let mut model = HMap::new();
    if let Some(s) = status {
        r.set_status(StatusCode::from_u16(s));
    }
    for h in &headers {
        h.apply(r.headers_mut());
        h.model(&mut model);
    }
    ensure_eq!(r.status().to_u16(), status.unwrap_or(200), "mock", "the status");
    for (n, v) in &model {
        let got: Vec<Vec<u8>> = r.headers().get_raw(n).map(|v| v.to_vec()).unwrap_or_default();
        let want: Vec<Vec<u8>> = v.iter().map(|v| v.as_bytes().to_vec()).collect();
        ensure_eq!(got, want, "mock", "the header {}", n);
    }
    r.filter_storage_mut().insert(5u32);
    ensure_eq!(r.filter_storage().get::<u32>(), Some(&5), "mock", "the filter storage");
    if src.chance(1, 20) {
        let before = r.status();
        match r.send_file_with_mime("/nonexistent/file.txt", |_| None) {
            Err(FileError::Open(_, back)) => {
                ensure_eq!(back.status(), before, "mock", "the status after a failed file");
                r = back;
            }
            _ => return fail("mock", "sending a missing file did not give the response back".into()),
        }
        case.label("missing file");
    }
    let (ops, end): (Vec<Op>, bool) = match style {
        Style::Chunked(ref o, e) | Style::Raw(_, ref o, e) => (o.clone(), e),
        _ => (vec![], false),
    };
    let did = perform_style(&style, r);
    case.nontrivial_if(ops.iter().any(|o| o.len() > 0));
    case.label(match style {
        Style::Chunked(..) => "chunked",
        Style::Raw(..) => "declared length",
        _ => "sent",
    });
    if ops.is_empty() && !end {
        ensure!(did.iter().all(|d| matches!(*d, Did::Ok | Did::Silent)), "mock", "sending gave {:?}", did);
        return Ok(());
    }
    for (i, d) in did.iter().enumerate() {
        let want = match ops.get(i) {
            Some(&Op::Send(_)) => Did::Silent,
            Some(&Op::Write(ref d)) => Did::Took(d.len()),
            _ => Did::Ok,
        };
        ensure!(*d == want, "mock", "operation {} ({:?}) gave {:?}, expected {:?}", i, ops.get(i), d, want);
    }
    Ok(())
}

fn main() {
    runner::main("P24", "a streaming response with several operations that have data (or, with a fault, one that is reached by it)", &[
        Prop { name: "stream", quick: 3_600_000, thorough: 40_000_000, run: stream },
        Prop { name: "refused", quick: 1_400_000, thorough: 15_000_000, run: refused },
        Prop { name: "faults", quick: 3_000_000, thorough: 40_000_000, run: faults },
        Prop { name: "mock", quick: 1_600_000, thorough: 15_000_000, run: mock },
        Prop { name: "errors", quick: 200_000, thorough: 1_000_000, run: errors },
    ]);
}
