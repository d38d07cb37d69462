//! P13: sendable values map to their documented status and body.
use std::any::Any;
use std::cell::RefCell;
use std::io;

use pbt::resp::{defaults, no_body, HMap, HOp};
use pbt::*;
use rustful::filter::{FilterContext, ResponseAction, ResponseFilter};
use rustful::header::Headers;
use rustful::response::{Data, SendResponse};
use rustful::server::Global;
use rustful::{Context, ContentFactory, DefaultRouter, Handler, Method, Response, Server, StatusCode};

/// What a value should turn the response into: statuses are set from the
/// outside inwards.
#[derive(Clone, Debug)]
struct Model {
    status: u16,
    body: Vec<u8>,
}

trait Value: Sized + 'static {
    fn gen(src: &mut Src) -> Self;
    fn model(&self, m: &mut Model);
    fn text(&self) -> String;
}

impl Value for String {
    fn gen(src: &mut Src) -> String {
        gen::string(src, 60)
    }
    fn model(&self, m: &mut Model) {
        m.body = self.as_bytes().to_vec();
    }
    fn text(&self) -> String {
        format!("{:?}", self)
    }
}

const TEXTS: &[&str] = &["", "a", "0", "404", "hello world", "\r\n\r\n", "å√ü 💥", "None", "0\r\n\r\n"];
const BYTES: &[&[u8]] = &[b"", b"\0", b"\xff\xfe", b"abc", b"\xc3", b"HTTP/1.1 200 OK\r\n\r\n"];

impl Value for &'static str {
    fn gen(src: &mut Src) -> &'static str {
        *src.pick(TEXTS)
    }
    fn model(&self, m: &mut Model) {
        m.body = self.as_bytes().to_vec();
    }
    fn text(&self) -> String {
        format!("{:?}", self)
    }
}

impl Value for &'static [u8] {
    fn gen(src: &mut Src) -> &'static [u8] {
        *src.pick(BYTES)
    }
    fn model(&self, m: &mut Model) {
        m.body = self.to_vec();
    }
    fn text(&self) -> String {
        gen::show(self)
    }
}

impl Value for Vec<u8> {
    fn gen(src: &mut Src) -> Vec<u8> {
        let n = gen::size(src, 9000);
        gen::blob(src, n)
    }
    fn model(&self, m: &mut Model) {
        m.body = self.clone();
    }
    fn text(&self) -> String {
        gen::show(self)
    }
}

impl Value for io::Error {
    fn gen(src: &mut Src) -> io::Error {
        use std::io::ErrorKind::*;
        let kind = *src.pick(&[NotFound, PermissionDenied, Other, UnexpectedEof, AlreadyExists, InvalidInput, BrokenPipe, Interrupted, NotFound]);
        match src.below(3) {
            0 => io::Error::from(kind),
            1 => io::Error::new(kind, gen::string(src, 20)),
            _ => io::Error::from_raw_os_error(*src.pick(&[1, 2, 5, 13, 17, 20, 21])),
        }
    }
    fn model(&self, m: &mut Model) {
        if self.kind() == io::ErrorKind::NotFound {
            m.status = 404;
        }
        m.body = self.to_string().into_bytes();
    }
    fn text(&self) -> String {
        format!("io::{:?}", self)
    }
}

impl<T: Value> Value for Option<T> {
    fn gen(src: &mut Src) -> Option<T> {
        if src.chance(2, 3) { Some(T::gen(src)) } else { None }
    }
    fn model(&self, m: &mut Model) {
        match *self {
            Some(ref t) => t.model(m),
            None => {
                m.status = 404;
                m.body = vec![];
            }
        }
    }
    fn text(&self) -> String {
        self.as_ref().map_or("None".into(), |t| format!("Some({})", t.text()))
    }
}

impl<T: Value, U: Value> Value for Result<T, U> {
    fn gen(src: &mut Src) -> Result<T, U> {
        if src.flip() { Ok(T::gen(src)) } else { Err(U::gen(src)) }
    }
    fn model(&self, m: &mut Model) {
        match *self {
            Ok(ref t) => {
                m.status = 200;
                t.model(m);
            }
            Err(ref e) => {
                m.status = 500;
                e.model(m);
            }
        }
    }
    fn text(&self) -> String {
        match *self {
            Ok(ref t) => format!("Ok({})", t.text()),
            Err(ref e) => format!("Err({})", e.text()),
        }
    }
}

/// A value with its own status, like an application would write it.
struct Teapot(String, u16);

impl<'a, 'b> SendResponse<'a, 'b> for Teapot {
    type Error = rustful::response::Error;
    fn send_response(self, mut response: Response<'a, 'b>) -> Result<(), Self::Error> {
        response.set_status(StatusCode::from_u16(self.1));
        response.try_send_data(self.0)
    }
}

impl Value for Teapot {
    fn gen(src: &mut Src) -> Teapot {
        Teapot(gen::ident(src), *src.pick(&[418, 201, 403, 200, 404]))
    }
    fn model(&self, m: &mut Model) {
        m.status = self.1;
        m.body = self.0.clone().into_bytes();
    }
    fn text(&self) -> String {
        format!("Teapot({:?}, {})", self.0, self.1)
    }
}

type Job = Box<dyn FnOnce(Response)>;

thread_local! {
    static VALUE: RefCell<Option<Box<dyn Any>>> = RefCell::new(None);
    static JOB: RefCell<Option<Job>> = RefCell::new(None);
    static OK: RefCell<Option<bool>> = RefCell::new(None);
}

fn take<T: 'static>() -> T {
    *VALUE.with(|v| v.borrow_mut().take()).expect("the handler ran twice").downcast::<T>().ok().expect("wrong type")
}

struct Act;

impl Handler for Act {
    fn handle(&self, _: Context, r: Response) {
        let job = JOB.with(|j| j.borrow_mut().take()).expect("the handler ran twice");
        job(r)
    }
}

struct Idle;

impl ResponseFilter for Idle {
    fn begin(&self, _: FilterContext, status: StatusCode, _: &mut Headers) -> (StatusCode, ResponseAction) {
        (status, ResponseAction::Next(None))
    }
    fn write<'a>(&'a self, _: FilterContext, content: Option<Data<'a>>) -> ResponseAction {
        ResponseAction::Next(content)
    }
    fn end(&self, _: FilterContext) -> ResponseAction {
        ResponseAction::Next(None)
    }
}

fn filters(n: usize) -> Vec<Box<dyn ResponseFilter>> {
    (0..n).map(|_| Box::new(Idle) as Box<dyn ResponseFilter>).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    Send,
    TrySend,
    Direct,
    Factory,
    Routed,
    Mock,
}

fn run<T>(src: &mut Src, case: &mut Case, name: &'static str) -> Res
where
    T: Value + for<'a, 'b> SendResponse<'a, 'b>,
{
    let via = *src.pick(&[Via::Send, Via::TrySend, Via::Direct, Via::Factory, Via::Routed, Via::Mock]);
    let value = T::gen(src);
    let returned = via == Via::Factory || via == Via::Routed;
    let before = if returned { None } else { resp::status(src) };
    let headers = if returned { vec![] } else { HOp::list(src, 1, 3) };
    let mut want = Model { status: before.unwrap_or(200), body: vec![] };
    value.model(&mut want);
    let n_filters = src.below(2) as usize;
    case.note(|| format!("{:?}: {} = {}\nstatus before {:?}, headers {:?}, {} filters\nexpected: {:?}", via, name, value.text(), before, headers, n_filters, want));
    case.label(match via {
        Via::Send => "sent",
        Via::TrySend => "try_send",
        Via::Direct => "send_response",
        Via::Factory => "content factory",
        Via::Routed => "content factory in a router",
        Via::Mock => "mock",
    });
    OK.with(|o| *o.borrow_mut() = None);
    let (st, hs) = (before, headers.clone());
    let prepare = move |r: &mut Response| {
        if let Some(s) = st {
            r.set_status(StatusCode::from_u16(s));
        }
        for h in &hs {
            h.apply(r.headers_mut());
        }
    };
    let done = |ok: bool| OK.with(|o| *o.borrow_mut() = Some(ok));
    // Only a HEAD request makes a difference, it has no body in the response.
    let method = if src.chance(2, 3) { Method::Get } else { src.pick(&[Method::Head, Method::Post, Method::Put, Method::Delete, Method::Options, Method::Patch, Method::Trace, Method::Extension("PURGE".into())]).clone() };
    let head = method == Method::Head;
    case.note(|| format!("{} request", method));
    case.label_if(method != Method::Get, "other methods");
    let req = wire::Req::new(&method.to_string(), "/a").more(src).bytes();
    let reply = match via {
        Via::Mock => {
            let global = Global::default();
            let mut r = Response::mock(&global);
            prepare(&mut r);
            ensure!(r.try_send(value).is_ok(), "mock", "sending to a mock response failed");
            return Ok(());
        }
        Via::Factory => {
            VALUE.with(|v| *v.borrow_mut() = Some(Box::new(value)));
            let factory = ContentFactory(|_: Context| -> T { take() });
            wire::one_reply(&Server { response_filters: filters(n_filters), server: "test".into(), ..Server::new(factory) }.build(), req)
        }
        Via::Routed => {
            VALUE.with(|v| *v.borrow_mut() = Some(Box::new(value)));
            let mut router = DefaultRouter::<ContentFactory<fn(Context) -> T>>::new();
            fn produce<T: 'static>(_: Context) -> T {
                take()
            }
            router.build().path("a").then().on(method, produce::<T> as fn(Context) -> T);
            wire::one_reply(&Server { response_filters: filters(n_filters), server: "test".into(), ..Server::new(router) }.build(), req)
        }
        _ => {
            let job: Job = Box::new(move |mut r: Response| {
                prepare(&mut r);
                match via {
                    Via::Send => r.send(value),
                    Via::TrySend => done(r.try_send(value).is_ok()),
                    _ => done(value.send_response(r).is_ok()),
                }
            });
            JOB.with(|j| *j.borrow_mut() = Some(job));
            wire::one_reply(&Server { response_filters: filters(n_filters), server: "test".into(), ..Server::new(Act) }.build(), req)
        }
    };
    let reply = match reply {
        Ok(Some(r)) => r,
        Ok(None) => return fail("wire", "no response".into()),
        Err(e) => return fail("wire", e),
    };
    ensure_eq!(reply.status, want.status, "status", "status of {}", name);
    let empty = head || no_body(want.status);
    let body = if empty { vec![] } else { want.body.clone() };
    ensure!(reply.body == body, "body", "the body is {}, expected {}", gen::show(&reply.body), gen::show(&body));
    if !no_body(want.status) || want.body.is_empty() {
        let ok = OK.with(|o| *o.borrow());
        ensure!(ok != Some(false), "result", "sending failed");
    }
    let mut h: HMap = defaults("test", "text/html; charset=utf-8");
    for op in &headers {
        op.model(&mut h);
    }
    h.retain(|_, v| !v.is_empty());
    h.remove("date");
    let mut got = resp::plain_headers(&reply);
    got.remove("date");
    ensure!(got == h, "headers", "the headers are {:?}\nexpected: {:?}", got, h);
    case.nontrivial_if(name.contains('<') && (!want.body.is_empty() || want.status != before.unwrap_or(200)));
    Ok(())
}

macro_rules! types {
    ($src:ident, $case:ident, $($t:ty),+ $(,)*) => {{
        let all: &[fn(&mut Src, &mut Case) -> Res] = &[$(|s, c| run::<$t>(s, c, stringify!($t))),+];
        let i = $src.idx(all.len());
        all[i]($src, $case)
    }};
}

fn values(src: &mut Src, case: &mut Case) -> Res {
    types!(src, case,
        String, &'static str, &'static [u8], Vec<u8>, io::Error, Teapot,
        Option<String>, Option<Vec<u8>>, Option<&'static str>, Option<io::Error>, Option<Option<String>>, Option<Teapot>,
        Result<String, String>, Result<Vec<u8>, io::Error>, Result<&'static str, &'static [u8]>, Result<io::Error, String>, Result<Teapot, io::Error>, Result<String, Teapot>,
        Option<Result<String, io::Error>>, Result<Option<String>, io::Error>, Result<String, Option<&'static str>>, Result<Option<Vec<u8>>, Option<io::Error>>,
        Result<Result<String, io::Error>, io::Error>, Result<String, Result<io::Error, String>>, Result<Result<Teapot, String>, Option<io::Error>>,
        Option<Option<Result<Option<Teapot>, io::Error>>>, Result<Option<Result<String, Teapot>>, Result<Option<String>, io::Error>>,
    )
}

/// Data itself: made of text or bytes, and taken out again.
fn data(src: &mut Src, case: &mut Case) -> Res {
    let text = src.flip();
    let raw = if text { gen::string(src, 40).into_bytes() } else { gen::bytes(src, 40) };
    let owned = src.flip();
    case.note(|| format!("text {}, owned {}: {}", text, owned, gen::show(&raw)));
    let s = std::str::from_utf8(&raw).ok();
    case.nontrivial_if(!raw.is_empty() && (!text || s.is_some()));
    let make = || -> Data {
        match (text, owned) {
            (true, true) => s.unwrap().to_string().into(),
            (true, false) => s.unwrap().into(),
            (false, true) => raw.clone().into(),
            (false, false) => (&raw[..]).into(),
        }
    };
    ensure_eq!(gen::show(make().as_bytes()), gen::show(&raw), "data", "as_bytes");
    ensure_eq!(gen::show(&make().into_bytes()), gen::show(&raw), "data", "into_bytes");
    ensure_eq!(make().as_string().ok().map(|s| s.to_string()), s.map(|s| s.to_string()), "data", "as_string");
    ensure_eq!(make().into_string().ok(), s.map(|s| s.to_string()), "data", "into_string");
    if let Err(e) = make().into_string() {
        ensure!(e.into_bytes() == raw, "data", "the bytes are lost when they are not text");
    }
    ensure!(make().clone().into_bytes() == raw, "data", "clone");
    Ok(())
}

fn main() {
    runner::main("P13", "a result or optional value that changes the status or has a body", &[
        Prop { name: "values", quick: 6_000_000, thorough: 45_000_000, run: values },
        Prop { name: "data", quick: 2_000_000, thorough: 15_000_000, run: data },
    ]);
}
