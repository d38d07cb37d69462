//! Response scripts, response filters, and a model of what they produce.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::io::{self, Read, Write};

use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::{Data, Error};
use rustful::{Response, StatusCode};

use crate::gen;
use crate::src::Src;

/// Changes to the headers, by raw name.
#[derive(Clone, Debug)]
pub enum HOp {
    Set(String, Vec<String>),
    Append(String, String),
    Remove(String),
}

pub type HMap = BTreeMap<String, Vec<String>>;

impl HOp {
    pub fn apply(&self, h: &mut Headers) {
        match *self {
            HOp::Set(ref n, ref v) => h.set_raw(n.clone(), v.iter().map(|v| v.as_bytes().to_vec()).collect()),
            HOp::Append(ref n, ref v) => h.append_raw(n.clone(), v.as_bytes().to_vec()),
            HOp::Remove(ref n) => h.remove_raw(n),
        }
    }

    pub fn model(&self, h: &mut HMap) {
        match *self {
            HOp::Set(ref n, ref v) => {
                h.insert(n.to_ascii_lowercase(), v.clone());
            }
            HOp::Append(ref n, ref v) => h.entry(n.to_ascii_lowercase()).or_default().push(v.clone()),
            HOp::Remove(ref n) => {
                h.remove(&n.to_ascii_lowercase());
            }
        }
    }

    pub fn gen(src: &mut Src) -> HOp {
        let name = (*src.pick(&["X-A", "X-B", "x-a", "X-Long-Header-Name", "Server", "Content-Type", "Location", "Set-Cookie", "Cache-Control", "Vary", "ETag"])).to_string();
        let value = |src: &mut Src| -> String {
            let s: String = gen::string(src, 10).chars().filter(|c| !c.is_control()).collect();
            s.trim_matches(|c: char| c == ' ' || c == '\t').to_string()
        };
        match src.weighted(&[5, 2, 2]) {
            0 => {
                let n = if src.chance(1, 5) { 2 } else { 1 };
                HOp::Set(name, (0..n).map(|_| value(src)).collect())
            }
            // (Appending to a typed header would go through its formatter.)
            1 => HOp::Append(if name.starts_with("S") || name.starts_with("C") { "X-B".into() } else { name }, value(src)),
            _ => HOp::Remove(name),
        }
    }

    pub fn list(src: &mut Src, avg: u64, max: usize) -> Vec<HOp> {
        let mut v = vec![];
        while src.more(v.len(), avg, max) {
            v.push(HOp::gen(src));
        }
        v
    }
}

/// Content, sent as bytes or (if it can be) as text.
#[derive(Clone, PartialEq)]
pub struct Content(pub Vec<u8>, pub u8);

impl Content {
    pub fn gen(src: &mut Src, max: usize) -> Content {
        let kind = src.below(4) as u8;
        let b = if src.flip() { gen::string(src, max).into_bytes() } else { gen::bytes(src, max) };
        Content(b, kind)
    }

    pub fn data<'a>(&'a self) -> Data<'a> {
        match self.1 {
            0 => (&self.0[..]).into(),
            1 => self.0.clone().into(),
            k => match std::str::from_utf8(&self.0) {
                Ok(s) if k == 2 => s.into(),
                Ok(s) => s.to_string().into(),
                Err(_) => (&self.0[..]).into(),
            },
        }
    }
}

impl fmt::Debug for Content {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}{}", gen::show(&self.0), ["", " (vec)", " (str)", " (String)"][self.1 as usize & 3])
    }
}

impl fmt::Debug for Op {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match *self {
            Op::Send(ref c) => write!(f, "Send({:?})", c),
            Op::TrySend(ref c) => write!(f, "TrySend({:?})", c),
            Op::Write(ref d) => write!(f, "Write({})", gen::show(d)),
            Op::WriteAll(ref d) => write!(f, "WriteAll({})", gen::show(d)),
            Op::Loop(ref d) => write!(f, "Loop({})", gen::show(d)),
            Op::Fmt(ref s) => write!(f, "Fmt({})", gen::show(s.as_bytes())),
            Op::Copy(ref d, n) => write!(f, "Copy({}, by {})", gen::show(d), n),
            Op::Buffered(ref v, n) => write!(f, "Buffered({}, by {})", v.iter().map(|d| gen::show(d)).collect::<Vec<_>>().join(", "), n),
            Op::Vectored(ref v) => write!(f, "Vectored({})", v.iter().map(|d| gen::show(d)).collect::<Vec<_>>().join(", ")),
            Op::Lines(ref v, n) => write!(f, "Lines({}, by {})", v.iter().map(|d| gen::show(d)).collect::<Vec<_>>().join(", "), n),
            Op::Flush => write!(f, "Flush"),
        }
    }
}

/// What a streaming writer is used for.
#[derive(Clone)]
pub enum Op {
    Send(Content),
    TrySend(Content),
    /// `write`, once.
    Write(Vec<u8>),
    WriteAll(Vec<u8>),
    /// `write` until everything is accepted, as `io::Write::write_all` does.
    Loop(Vec<u8>),
    Fmt(String),
    /// `io::copy` from a reader that gives pieces of this size.
    Copy(Vec<u8>, usize),
    /// Through a `BufWriter` of this capacity.
    Buffered(Vec<Vec<u8>>, usize),
    /// `write_vectored` until everything is accepted.
    Vectored(Vec<Vec<u8>>),
    /// Through a `LineWriter` of this capacity.
    Lines(Vec<Vec<u8>>, usize),
    Flush,
}

impl Op {
    pub fn gen(src: &mut Src, max: usize) -> Op {
        let big = src.chance(1, 60);
        let max = if !big { max } else if src.chance(1, 10) { 300_000 } else { 10_000 };
        let data = |src: &mut Src| {
            if big {
                let n = gen::size(src, max);
                gen::blob(src, n)
            } else {
                gen::bytes(src, max)
            }
        };
        match src.weighted(&[8, 8, 6, 6, 4, 2, 4, 2, 4, 1, 1]) {
            0 => Op::Send(Content::gen(src, max)),
            1 => Op::TrySend(Content::gen(src, max)),
            2 => Op::Write(data(src)),
            3 => Op::WriteAll(data(src)),
            4 => Op::Loop(data(src)),
            5 => Op::Fmt(gen::string(src, max)),
            6 => {
                let d = data(src);
                let n = 1 + gen::size(src, max);
                Op::Copy(d, n)
            }
            7 => {
                let n = src.range(0, 3);
                let v = (0..n).map(|_| data(src)).collect();
                Op::Buffered(v, gen::size(src, 64))
            }
            k if k > 8 => {
                let n = src.range(0, 3);
                let v = (0..n).map(|_| data(src)).collect();
                if k == 9 { Op::Vectored(v) } else { Op::Lines(v, gen::size(src, 64)) }
            }
            _ => Op::Flush,
        }
    }

    /// How much data the operation has.
    pub fn len(&self) -> usize {
        match *self {
            Op::Send(ref c) | Op::TrySend(ref c) => c.0.len(),
            Op::Write(ref d) | Op::WriteAll(ref d) | Op::Loop(ref d) | Op::Copy(ref d, _) => d.len(),
            Op::Fmt(ref s) => s.len(),
            Op::Buffered(ref v, _) | Op::Vectored(ref v) | Op::Lines(ref v, _) => v.iter().map(|d| d.len()).sum(),
            Op::Flush => 0,
        }
    }

    pub fn bytes(&self) -> Vec<u8> {
        match *self {
            Op::Send(ref c) | Op::TrySend(ref c) => c.0.clone(),
            Op::Write(ref d) | Op::WriteAll(ref d) | Op::Loop(ref d) | Op::Copy(ref d, _) => d.clone(),
            Op::Fmt(ref s) => s.clone().into_bytes(),
            Op::Buffered(ref v, _) | Op::Vectored(ref v) | Op::Lines(ref v, _) => v.concat(),
            Op::Flush => vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Style {
    /// The response is dropped without a word.
    Drop,
    Send(Content),
    TrySend(Content),
    SendData(Content),
    TrySendData(Content),
    /// Operations, and whether `end` is called (or the writer just dropped).
    Chunked(Vec<Op>, bool),
    /// Declared length, operations, `end`.
    Raw(u64, Vec<Op>, bool),
}

/// What a handler does with its response.
#[derive(Clone, Debug)]
pub struct Script {
    pub status: Option<u16>,
    pub headers: Vec<HOp>,
    pub style: Style,
}

/// What an operation reported.
#[derive(Clone, Debug, PartialEq)]
pub enum Did {
    Ok,
    /// A number of bytes, where it means something.
    Took(usize),
    Filter(String),
    Io(String),
    /// `send`: nothing is reported.
    Silent,
    /// The operation broke the writer contract.
    Bad(String),
}

pub fn from_error(e: Error) -> Did {
    match e {
        Error::Filter(s) => Did::Filter(s),
        Error::Io(e) => Did::Io(format!("{:?}: {}", e.kind(), e)),
    }
}

fn from_result<T>(r: Result<T, Error>) -> Did {
    match r {
        Ok(_) => Did::Ok,
        Err(e) => from_error(e),
    }
}

fn from_io(e: io::Error) -> Did {
    // Filter errors are wrapped.
    if let Some(Error::Filter(s)) = e.get_ref().and_then(|e| e.downcast_ref::<Error>()) {
        return Did::Filter(s.clone());
    }
    Did::Io(format!("{:?}: {}", e.kind(), e))
}

struct Pieces<'a>(&'a [u8], usize);

impl<'a> Read for Pieces<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.1).min(self.0.len());
        b[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

/// Only `write` and `flush`, so that everything else is the standard's.
struct Plain<'a, W: 'a>(&'a mut W);

impl<'a, W: Write> Write for Plain<'a, W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.flush()
    }
}

/// The operations that only need `io::Write`.
pub fn write_op<W: Write>(w: &mut W, op: &Op) -> Did {
    match *op {
        Op::Write(ref d) => match w.write(d) {
            Ok(n) if n > d.len() => Did::Bad(format!("write of {} bytes reported {}", d.len(), n)),
            Ok(n) => Did::Took(n),
            Err(e) => from_io(e),
        },
        Op::WriteAll(ref d) => match w.write_all(d) {
            Ok(()) => Did::Ok,
            Err(e) => from_io(e),
        },
        Op::Loop(ref d) => {
            let mut rest = &d[..];
            let mut calls = 0;
            while !rest.is_empty() {
                calls += 1;
                if calls > d.len() + 2 {
                    return Did::Bad("writing everything does not terminate".into());
                }
                match w.write(rest) {
                    Ok(0) => return Did::Took(d.len() - rest.len()),
                    Ok(n) if n > rest.len() => return Did::Bad(format!("write of {} bytes reported {}", rest.len(), n)),
                    Ok(n) => rest = &rest[n..],
                    Err(e) => return from_io(e),
                }
            }
            Did::Ok
        }
        Op::Fmt(ref s) => match write!(w, "{}", s) {
            Ok(()) => Did::Ok,
            Err(e) => from_io(e),
        },
        Op::Copy(ref d, n) => match io::copy(&mut Pieces(d, n), &mut Plain(w)) {
            Ok(k) if k == d.len() as u64 => Did::Ok,
            Ok(k) => Did::Bad(format!("copying {} bytes reported {}", d.len(), k)),
            Err(e) => from_io(e),
        },
        Op::Buffered(ref v, cap) => {
            let mut b = io::BufWriter::with_capacity(cap, Plain(w));
            for d in v {
                if let Err(e) = b.write_all(d) {
                    let (_, _) = b.into_parts();
                    return from_io(e);
                }
            }
            let r = b.flush();
            let (_, _) = b.into_parts();
            match r {
                Ok(()) => Did::Ok,
                Err(e) => from_io(e),
            }
        }
        Op::Lines(ref v, cap) => {
            let mut b = io::LineWriter::with_capacity(cap, Plain(w));
            for d in v {
                if let Err(e) = b.write_all(d) {
                    return from_io(e);
                }
            }
            match b.flush() {
                Ok(()) => Did::Ok,
                Err(e) => from_io(e),
            }
        }
        Op::Vectored(ref v) => {
            let mut all: Vec<io::IoSlice> = v.iter().map(|d| io::IoSlice::new(d)).collect();
            let mut rest = &mut all[..];
            // Empty parts at the front are skipped.
            io::IoSlice::advance_slices(&mut rest, 0);
            let mut calls = 0;
            while !rest.is_empty() {
                calls += 1;
                if calls > op.len() + 2 {
                    return Did::Bad("writing everything does not terminate".into());
                }
                let left: usize = rest.iter().map(|d| d.len()).sum();
                match w.write_vectored(rest) {
                    Ok(0) => return Did::Took(op.len() - left),
                    Ok(n) if n > left => return Did::Bad(format!("write of {} bytes reported {}", left, n)),
                    Ok(n) => io::IoSlice::advance_slices(&mut rest, n),
                    Err(e) => return from_io(e),
                }
            }
            Did::Ok
        }
        Op::Flush => match w.flush() {
            Ok(()) => Did::Ok,
            Err(e) => from_io(e),
        },
        Op::Send(_) | Op::TrySend(_) => unreachable!(),
    }
}

/// Performs the script. The last result is the one of `end`, if it's called.
pub fn perform(script: &Script, mut r: Response) -> Vec<Did> {
    if let Some(s) = script.status {
        r.set_status(StatusCode::from_u16(s));
    }
    for h in &script.headers {
        h.apply(r.headers_mut());
    }
    perform_style(&script.style, r)
}

pub fn perform_style(style: &Style, r: Response) -> Vec<Did> {
    match *style {
        Style::Drop => {
            drop(r);
            vec![]
        }
        Style::Send(ref c) => {
            match c.1 {
                0 => r.send(&c.0[..]),
                1 => r.send(c.0.clone()),
                _ => match std::str::from_utf8(&c.0) {
                    Ok(s) => r.send(s),
                    Err(_) => r.send(&c.0[..]),
                },
            }
            vec![Did::Silent]
        }
        Style::TrySend(ref c) => vec![from_result(match std::str::from_utf8(&c.0) {
            Ok(s) if c.1 > 1 => r.try_send(s.to_string()),
            _ => r.try_send(&c.0[..]),
        })],
        Style::SendData(ref c) => {
            r.send_data(c.data());
            vec![Did::Silent]
        }
        Style::TrySendData(ref c) => vec![from_result(r.try_send_data(c.data()))],
        Style::Chunked(ref ops, end) => {
            let mut w = r.into_chunked();
            let mut v = vec![];
            for op in ops {
                v.push(match *op {
                    Op::Send(ref c) => {
                        w.send(c.data());
                        Did::Silent
                    }
                    Op::TrySend(ref c) => from_result(w.try_send(c.data())),
                    ref op => write_op(&mut w, op),
                });
            }
            if end {
                v.push(from_result(w.end()));
            }
            v
        }
        Style::Raw(len, ref ops, end) => {
            let mut w = unsafe { r.into_raw(len) };
            let mut v = vec![];
            for op in ops {
                v.push(match *op {
                    Op::Send(ref c) => {
                        w.send(c.data());
                        Did::Silent
                    }
                    Op::TrySend(ref c) => match w.try_send(c.data()) {
                        Ok(()) => Did::Ok,
                        Err(e) => from_io(e),
                    },
                    ref op => write_op(&mut w, op),
                });
            }
            if end {
                v.push(match w.end() {
                    Ok(()) => Did::Ok,
                    Err(e) => from_io(e),
                });
            }
            v
        }
    }
}

/// What a filter does with a piece.
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Pass,
    Prefix(Vec<u8>),
    Suffix(Vec<u8>),
    Twice,
    Reverse,
    /// Cuts off the first byte.
    Shorten,
    Empty,
    /// Goes on with no data.
    Nothing,
    Silent,
    Abort,
}

#[derive(Clone, Debug)]
pub enum Add {
    Nothing,
    Data(Content),
    Silent,
    Abort,
}

#[derive(Clone, Debug)]
pub struct Filter {
    pub id: usize,
    pub status: Option<u16>,
    pub headers: Vec<HOp>,
    pub begin: Add,
    /// How the n-th piece is treated (the last one for all further pieces).
    pub write: Vec<Mode>,
    /// What it makes of a piece that has become nothing.
    pub fill: Option<Vec<u8>>,
    pub end: Add,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    /// Status and `X-A` header that were seen.
    Begin(u16, Option<Vec<Vec<u8>>>),
    Write(Vec<u8>),
    End,
}

pub type Log = BTreeMap<usize, Vec<Event>>;

thread_local! {
    pub static LOG: RefCell<Log> = RefCell::new(Log::new());
    /// What's written now is content, and not from the beginning or the end.
    static CONTENT: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

pub fn take_log() -> Log {
    LOG.with(|l| std::mem::replace(&mut *l.borrow_mut(), Log::new()))
}

fn log(id: usize, e: Event) {
    LOG.with(|l| l.borrow_mut().entry(id).or_default().push(e));
}

/// How many pieces each filter has seen, in the storage of the request.
#[derive(Clone, Debug, Default)]
pub struct Counts(pub BTreeMap<usize, usize>);

impl Mode {
    /// `None` for an abort of any kind.
    fn apply(&self, d: &[u8]) -> Vec<u8> {
        match *self {
            Mode::Pass => d.to_vec(),
            Mode::Prefix(ref p) => [&p[..], d].concat(),
            Mode::Suffix(ref p) => [d, &p[..]].concat(),
            Mode::Twice => [d, d].concat(),
            Mode::Reverse => d.iter().rev().cloned().collect(),
            Mode::Shorten => d.iter().skip(1).cloned().collect(),
            Mode::Empty => vec![],
            Mode::Nothing | Mode::Silent | Mode::Abort => unreachable!(),
        }
    }
}

/// What an aborting filter says. One of them doesn't say anything.
fn message(id: usize, at: &str) -> String {
    if id == 1 { String::new() } else { format!("filter {} {}", id, at) }
}

impl Add {
    fn action<'a>(&'a self, id: usize, at: &str) -> ResponseAction<'a> {
        match *self {
            Add::Nothing => ResponseAction::Next(None),
            Add::Data(ref c) => ResponseAction::next(Some(c.data())),
            Add::Silent => ResponseAction::silent_abort(),
            Add::Abort => ResponseAction::abort(message(id, at)),
        }
    }
}

/// A filter that does as described.
pub struct Installed(pub Filter);

impl ResponseFilter for Installed {
    fn begin(&self, _: FilterContext, status: StatusCode, headers: &mut Headers) -> (StatusCode, ResponseAction) {
        CONTENT.with(|c| c.set(false));
        log(self.0.id, Event::Begin(status.to_u16(), headers.get_raw("X-A").map(|v| v.to_vec())));
        for h in &self.0.headers {
            h.apply(headers);
        }
        let status = self.0.status.map(StatusCode::from_u16).unwrap_or(status);
        (status, self.0.begin.action(self.0.id, "begin"))
    }

    fn write<'a>(&'a self, c: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        let content = match content {
            Some(c) => c,
            None => return match self.0.fill {
                Some(ref d) if CONTENT.with(|c| c.get()) => ResponseAction::next(Some(&d[..])),
                _ => ResponseAction::Next(None),
            },
        };
        if self.0.id == 0 {
            // Only content gets to the first one.
            CONTENT.with(|c| c.set(true));
        }
        log(self.0.id, Event::Write(content.as_bytes().to_vec()));
        let n = {
            let counts = c.storage.entry::<Counts>().or_insert_with(Counts::default);
            let n = counts.0.entry(self.0.id).or_insert(0);
            *n += 1;
            *n - 1
        };
        match self.0.mode(n) {
            Mode::Pass => ResponseAction::next(Some(content)),
            Mode::Nothing => ResponseAction::Next(None),
            Mode::Silent => ResponseAction::silent_abort(),
            Mode::Abort => ResponseAction::abort(message(self.0.id, &format!("write {}", n))),
            m => {
                let v = m.apply(content.as_bytes());
                if n % 2 == 0 {
                    if let Ok(s) = String::from_utf8(v.clone()) {
                        return ResponseAction::next(Some(s));
                    }
                }
                ResponseAction::next(Some(v))
            }
        }
    }

    fn end(&self, _: FilterContext) -> ResponseAction {
        CONTENT.with(|c| c.set(false));
        log(self.0.id, Event::End);
        self.0.end.action(self.0.id, "end")
    }
}

impl Filter {
    fn mode(&self, n: usize) -> Mode {
        self.write.get(n).or(self.write.last()).cloned().unwrap_or(Mode::Pass)
    }

    pub fn gen(src: &mut Src, id: usize) -> Filter {
        let tag = |src: &mut Src, c: char| -> Vec<u8> {
            let mut v = format!("{}{}", c, id).into_bytes();
            if src.chance(1, 4) {
                v.extend(gen::bytes(src, 5));
            }
            if src.chance(1, 300) {
                // More than what fits in a buffer.
                let n = src.range(1 << 12, 1 << 17);
                v.extend(gen::blob(src, n));
            }
            v
        };
        let add = |src: &mut Src, c: char| match src.weighted(&[4, 4, 1, 1]) {
            0 => Add::Nothing,
            1 => {
                let k = src.below(4) as u8;
                Add::Data(Content(if src.chance(1, 8) { vec![] } else { tag(src, c) }, k))
            }
            2 => Add::Silent,
            _ => if src.chance(1, 3) { Add::Abort } else { Add::Nothing },
        };
        let mut write = vec![];
        while src.more(write.len(), 2, 5) {
            write.push(match src.weighted(&[6, 3, 3, 1, 2, 2, 1, 2, 2, 1]) {
                0 => Mode::Pass,
                1 => Mode::Prefix(tag(src, '<')),
                2 => Mode::Suffix(tag(src, '>')),
                3 => Mode::Twice,
                4 => Mode::Reverse,
                5 => Mode::Shorten,
                6 => Mode::Empty,
                7 => Mode::Nothing,
                8 => Mode::Silent,
                _ => Mode::Abort,
            });
        }
        Filter {
            id,
            status: if src.chance(1, 4) { Some(*src.pick(&[200, 201, 202, 400, 404, 500, 503])) } else { None },
            headers: HOp::list(src, 1, 3).into_iter().filter(|h| !matches!(*h, HOp::Append(ref n, _) if n.eq_ignore_ascii_case("x-a"))).collect(),
            begin: add(src, 'B'),
            write,
            fill: if src.chance(1, 4) { Some(tag(src, 'F')) } else { None },
            end: add(src, 'E'),
        }
    }

    /// A list of filters whose meaning is not in doubt.
    pub fn list(src: &mut Src, max: usize) -> Vec<Filter> {
        let mut v: Vec<Filter> = vec![];
        let (avg, max) = if src.chance(1, 80) { (12, 40) } else { (2, max) };
        while src.more(v.len(), avg, max) {
            let n = v.len();
            v.push(Filter::gen(src, n));
        }
        // A filter that silently stops the beginning keeps the later ones
        // from seeing the head; what of the data of the earlier ones is not
        // specified.
        if let Some(k) = v.iter().position(|f| matches!(f.begin, Add::Silent)) {
            if k + 1 < v.len() {
                for f in &mut v[..k] {
                    if let Add::Data(_) = f.begin {
                        f.begin = Add::Nothing;
                    }
                }
            }
        }
        v
    }
}

/// The expected behaviour of a filter stack for one response.
#[derive(Clone, Debug)]
pub struct Stack<'f> {
    pub filters: &'f [Filter],
    pub counts: BTreeMap<usize, usize>,
    pub log: Log,
    pub silenced: bool,
    /// The last piece was stopped, and not just emptied.
    stopped: bool,
}

impl<'f> Stack<'f> {
    pub fn new(filters: &'f [Filter]) -> Stack<'f> {
        Stack { filters, counts: BTreeMap::new(), log: Log::new(), silenced: false, stopped: false }
    }

    /// One piece through one filter: `None` if nothing is left to pass on.
    fn write_one(&mut self, i: usize, d: Vec<u8>) -> Result<Option<Vec<u8>>, String> {
        let f = &self.filters[i];
        self.log.entry(f.id).or_default().push(Event::Write(d.clone()));
        let n = self.counts.entry(f.id).or_insert(0);
        *n += 1;
        let n = *n - 1;
        self.stopped = false;
        match f.mode(n) {
            Mode::Nothing => Ok(None),
            Mode::Silent => {
                self.stopped = true;
                self.silenced = true;
                Ok(None)
            }
            Mode::Abort => Err(message(f.id, &format!("write {}", n))),
            m => Ok(Some(m.apply(&d))),
        }
    }

    /// One piece through all the filters.
    pub fn write(&mut self, d: Vec<u8>) -> Result<Option<Vec<u8>>, String> {
        let mut d = Some(d);
        for i in 0..self.filters.len() {
            d = match d {
                Some(d) => match self.write_one(i, d)? {
                    None if self.stopped => return Ok(None),
                    d => d,
                },
                None => self.filters[i].fill.clone(),
            }
        }
        Ok(d)
    }

    fn queue(&mut self, i: usize, q: Vec<Vec<u8>>) -> (Vec<Vec<u8>>, Option<String>) {
        let mut out = vec![];
        let mut error = None;
        for d in q {
            match self.write_one(i, d) {
                Ok(Some(d)) => out.push(d),
                Ok(None) => {}
                Err(e) => error = error.or(Some(e)),
            }
        }
        (out, error)
    }

    /// Head: status, headers and the pieces that begin the body. An error
    /// leaves the rest open.
    pub fn begin(&mut self, mut status: u16, headers: &mut HMap) -> Result<(u16, Vec<Vec<u8>>), String> {
        let mut q = vec![];
        for i in 0..self.filters.len() {
            let f = &self.filters[i];
            let x_a = headers.get("x-a").map(|v| v.iter().map(|v| v.as_bytes().to_vec()).collect());
            self.log.entry(f.id).or_default().push(Event::Begin(status, x_a));
            for h in &f.headers {
                h.model(headers);
            }
            status = f.status.unwrap_or(status);
            if let Add::Abort = f.begin {
                return Err(message(f.id, "begin"));
            }
            let (next, e) = self.queue(i, q);
            if let Some(e) = e {
                return Err(e);
            }
            q = next;
            match f.begin {
                Add::Data(ref c) => q.push(c.0.clone()),
                Add::Silent => {
                    self.silenced = true;
                    return Ok((status, q));
                }
                _ => {}
            }
        }
        Ok((status, q))
    }

    pub fn end(&mut self) -> Result<Vec<Vec<u8>>, String> {
        let mut q = vec![];
        for i in 0..self.filters.len() {
            let f = &self.filters[i];
            let (next, e) = self.queue(i, q);
            if let Some(e) = e {
                return Err(e);
            }
            q = next;
            self.log.entry(f.id).or_default().push(Event::End);
            match f.end {
                Add::Data(ref c) => q.push(c.0.clone()),
                Add::Abort => return Err(message(f.id, "end")),
                Add::Silent => self.silenced = true,
                Add::Nothing => {}
            }
        }
        Ok(q)
    }
}

pub fn no_body(status: u16) -> bool {
    status / 100 == 1 || status == 204 || status == 304
}

impl Op {
    /// The pieces that the writer gets, if that is certain.
    pub fn pieces(&self) -> Option<Vec<Vec<u8>>> {
        Some(match *self {
            Op::Send(ref c) | Op::TrySend(ref c) => vec![c.0.clone()],
            Op::Write(ref d) | Op::WriteAll(ref d) => vec![d.clone()],
            Op::Loop(ref d) => if d.is_empty() { vec![] } else { vec![d.clone()] },
            Op::Fmt(ref s) => if s.is_empty() { return None } else { vec![s.clone().into_bytes()] },
            Op::Copy(ref d, n) => if n > 4096 && d.len() > 4096 { return None } else { d.chunks(n).map(|c| c.to_vec()).collect() },
            Op::Buffered(..) | Op::Vectored(..) | Op::Lines(..) => return None,
            Op::Flush => vec![],
        })
    }
}

/// What should come of a script. `None` where it is left open.
#[derive(Clone, Debug)]
pub struct Expect {
    pub status: Option<u16>,
    pub headers: Option<HMap>,
    pub body: Option<Vec<u8>>,
    pub chunked: Option<bool>,
    pub results: Vec<Option<Did>>,
    pub log: Option<Log>,
    pub silenced: bool,
    pub failed: bool,
    /// The errors that filters may give. When several filters fail at once,
    /// any of their errors may be the one that is reported.
    pub errors: Vec<Filter>,
}

impl Expect {
    fn may_fail_with(&self, message: &str) -> bool {
        self.errors.iter().any(|f| {
            if f.id == 1 && message.is_empty() {
                return matches!(f.begin, Add::Abort) || matches!(f.end, Add::Abort) || f.write.contains(&Mode::Abort);
            }
            let at = match message.strip_prefix(&format!("filter {} ", f.id)) {
                Some(at) => at,
                None => return false,
            };
            match at {
                "begin" => matches!(f.begin, Add::Abort),
                "end" => matches!(f.end, Add::Abort),
                _ => at.strip_prefix("write ").and_then(|n| n.parse().ok()).map_or(false, |n| matches!(f.mode(n), Mode::Abort)),
            }
        })
    }
}

pub fn expect(filters: &[Filter], script: &Script, defaults: &HMap) -> Expect {
    let mut headers = defaults.clone();
    for h in &script.headers {
        h.model(&mut headers);
    }
    let status = script.status.unwrap_or(200);
    let mut st = Stack::new(filters);
    let mut e = Expect { status: None, headers: None, body: None, chunked: None, results: vec![], log: None, silenced: false, failed: false, errors: filters.to_vec() };
    match script.style {
        Style::Raw(len, ref ops, end) => {
            let all: Vec<u8> = ops.iter().flat_map(|o| o.bytes()).collect();
            let n = all.len().min(len as usize);
            let empty = no_body(status);
            let mut left = len as usize;
            for op in ops {
                let k = op.len();
                e.results.push(if empty || k > left { None } else {
                    Some(match *op {
                        Op::Send(_) => Did::Silent,
                        Op::Write(_) => Did::Took(k),
                        _ => Did::Ok,
                    })
                });
                left = if k > left { 0 } else { left - k };
            }
            if end {
                e.results.push(Some(Did::Ok));
            }
            e.status = Some(status);
            e.headers = Some(headers);
            e.body = Some(if empty { vec![] } else { all[..n].to_vec() });
            e.chunked = if empty { None } else { Some(false) };
            e.log = Some(Log::new());
        }
        Style::Chunked(ref ops, end) => {
            let total = ops.len() + if end { 1 } else { 0 };
            match st.begin(status, &mut headers) {
                Err(m) => {
                    e.failed = true;
                    // The first operation that can tell reports it, unless data
                    // that can't be written has already failed.
                    let empty = no_body(status) || filters.iter().any(|f| f.status.map_or(false, no_body));
                    for (i, op) in ops.iter().enumerate() {
                        e.results.push(match *op {
                            Op::Send(_) => Some(Did::Silent),
                            _ if i == 0 && op.len() > 0 && !empty => Some(Did::Filter(m.clone())),
                            _ => None,
                        });
                    }
                    if end {
                        e.results.push(if ops.is_empty() && !empty { Some(Did::Filter(m)) } else { None });
                    }
                }
                Ok((status, mut body)) => {
                    e.status = Some(status);
                    e.headers = Some(headers);
                    if no_body(status) {
                        e.body = Some(vec![]);
                        e.results = vec![None; total];
                    } else {
                        let mut open = false;
                        for op in ops {
                            let mut res = match *op {
                                Op::Send(_) => Did::Silent,
                                Op::Write(ref d) => Did::Took(d.len()),
                                _ => Did::Ok,
                            };
                            match op.pieces() {
                                None => open = true,
                                Some(pieces) => for p in pieces {
                                    match st.write(p) {
                                        Ok(d) => body.extend(d),
                                        Err(m) => {
                                            e.failed = true;
                                            if res != Did::Silent {
                                                res = Did::Filter(m);
                                            }
                                            break;
                                        }
                                    }
                                },
                            }
                            e.results.push(Some(res));
                        }
                        let mut done = Did::Ok;
                        match st.end() {
                            Ok(q) => body.extend(q),
                            Err(m) => {
                                e.failed = true;
                                open = true;
                                done = Did::Filter(m);
                            }
                        }
                        if end {
                            e.results.push(Some(done));
                        }
                        e.chunked = Some(true);
                        if !open {
                            e.log = Some(st.log.clone());
                            e.body = Some(body.concat());
                        }
                    }
                }
            }
        }
        ref sized => {
            let (content, report) = match *sized {
                Style::Drop => (vec![], None),
                Style::Send(ref c) | Style::SendData(ref c) => (c.0.clone(), Some(false)),
                Style::TrySend(ref c) | Style::TrySendData(ref c) => (c.0.clone(), Some(true)),
                _ => unreachable!(),
            };
            let res = match st.begin(status, &mut headers) {
                Err(m) => Err(m),
                Ok((status, mut body)) => {
                    e.status = Some(status);
                    e.headers = Some(headers);
                    match st.write(content).and_then(|d| {
                        body.extend(d);
                        st.end()
                    }) {
                        Ok(q) => {
                            body.extend(q);
                            Ok((status, body.concat()))
                        }
                        Err(m) => Err(m),
                    }
                }
            };
            match res {
                Ok((status, body)) => {
                    let empty = no_body(status);
                    e.log = Some(st.log.clone());
                    e.chunked = if empty { None } else { Some(false) };
                    match report {
                        Some(true) => e.results.push(if empty { None } else { Some(Did::Ok) }),
                        Some(false) => e.results.push(Some(Did::Silent)),
                        None => {}
                    }
                    e.body = Some(if empty { vec![] } else { body });
                }
                Err(m) => {
                    e.failed = true;
                    match report {
                        Some(true) => e.results.push(Some(Did::Filter(m))),
                        Some(false) => e.results.push(Some(Did::Silent)),
                        None => {}
                    }
                }
            }
        }
    }
    e.silenced = st.silenced;
    e
}

/// The headers of a reply that are not about framing or the connection.
pub fn plain_headers(r: &crate::wire::Reply) -> HMap {
    let mut m = HMap::new();
    for h in &r.headers {
        let n = h.0.to_ascii_lowercase();
        if n == "content-length" || n == "transfer-encoding" || n == "connection" {
            continue;
        }
        m.entry(n).or_default().push(String::from_utf8_lossy(&h.1).into_owned());
    }
    m
}

pub fn defaults(server: &str, content_type: &str) -> HMap {
    let mut m = HMap::new();
    m.insert("server".into(), vec![server.into()]);
    m.insert("content-type".into(), vec![content_type.into()]);
    m.insert("date".into(), vec![]);
    m
}

fn valid_date(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 29 && s.ends_with(" GMT") && &s[3..5] == ", "
}

/// Compares a reply with what is expected.
pub fn check(r: &crate::wire::Reply, e: &Expect, at: &str) -> crate::Res {
    if let Some(s) = e.status {
        ensure!(r.status == s, "status", "{}: the status is {}, expected {}", at, r.status, s);
    }
    if let Some(ref h) = e.headers {
        let mut want = h.clone();
        let mut got = plain_headers(r);
        if want.get("date").map(|d| d.is_empty()).unwrap_or(true) {
            want.remove("date");
            let d = got.remove("date").unwrap_or_default();
            ensure!(d.len() == 1 && valid_date(&d[0]), "date", "{}: the date is {:?}", at, d);
        }
        for n in &["content-length", "transfer-encoding", "connection"] {
            want.remove(*n);
        }
        want.retain(|_, v| !v.is_empty());
        ensure!(got == want, "headers", "{}: the headers are {:?}\nexpected: {:?}", at, got, want);
    }
    if let Some(c) = e.chunked {
        let want = if c { crate::wire::Framing::Chunked } else { crate::wire::Framing::Sized };
        ensure!(r.framing == want, "framing", "{}: the body is framed as {:?}, expected {:?}", at, r.framing, want);
    }
    if let Some(ref b) = e.body {
        ensure!(r.body == *b, "body", "{}: the body is {}\nexpected: {}", at, gen::show(&r.body), gen::show(b));
    }
    Ok(())
}

pub fn check_results(got: &[Did], e: &Expect, at: &str) -> crate::Res {
    ensure!(got.len() == e.results.len(), "results", "{}: {} results, expected {}: {:?}", at, got.len(), e.results.len(), got);
    for (i, (g, w)) in got.iter().zip(&e.results).enumerate() {
        if let Did::Bad(ref m) = *g {
            return crate::fail("contract", format!("{}: operation {}: {}", at, i, m));
        }
        if let Some(ref w) = *w {
            if let (&Did::Filter(ref m), &Did::Filter(_)) = (g, w) {
                ensure!(e.may_fail_with(m), "results", "{}: operation {} failed with {:?}, which no filter gave", at, i, m);
                continue;
            }
            ensure!(g == w, "results", "{}: operation {} gave {:?}, expected {:?}", at, i, g, w);
        }
    }
    Ok(())
}

pub fn check_log(got: &Log, e: &Expect, at: &str) -> crate::Res {
    if let Some(ref w) = e.log {
        for id in got.keys().chain(w.keys()) {
            let (g, w) = (got.get(id), w.get(id));
            ensure!(g == w, "filter calls", "{}: filter {} saw {:?}\nexpected: {:?}", at, id, g, w);
        }
    }
    Ok(())
}

pub const STATUSES: &[u16] = &[200, 201, 202, 204, 206, 301, 304, 400, 401, 404, 405, 500, 501, 503, 599, 299, 700, 999];

pub fn status(src: &mut Src) -> Option<u16> {
    if src.flip() { None } else { Some(*src.pick(STATUSES)) }
}

pub fn content(src: &mut Src) -> Content {
    if src.chance(1, 40) {
        let most = if src.chance(1, 8) { 500_000 } else { 20_000 };
        let n = gen::size(src, most);
        Content(gen::blob(src, n), 0)
    } else {
        Content::gen(src, 40)
    }
}

pub fn ops(src: &mut Src, exact: bool) -> Vec<Op> {
    let mut v = vec![];
    let (avg, most, size) = if src.chance(1, 150) { (100, 400, 4) } else { (3, 10, 24) };
    while src.more(v.len(), avg, most) {
        let op = Op::gen(src, size);
        if !exact || op.pieces().is_some() {
            v.push(op);
        } else {
            v.push(Op::WriteAll(op.bytes()));
        }
    }
    v
}

pub fn style(src: &mut Src, exact: bool) -> Style {
    match src.weighted(&[2, 3, 2, 2, 2, 6, 4]) {
        0 => Style::Drop,
        1 => Style::Send(content(src)),
        2 => Style::TrySend(content(src)),
        3 => Style::SendData(content(src)),
        4 => Style::TrySendData(content(src)),
        5 => Style::Chunked(ops(src, exact), src.flip()),
        _ => {
            let ops = ops(src, exact);
            let total: usize = ops.iter().map(|o| o.len()).sum();
            let len = if src.chance(1, 6) { total - src.idx(total.min(8) + 1) } else { total };
            Style::Raw(len as u64, ops, src.flip())
        }
    }
}
