//! P30: a handler is the same one, however it is wrapped and shared.
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use pbt::wire::{self, Req};
use pbt::*;
use rustful::handler::{HandleRequest, MethodRouter, StatusRouter, TreeRouter};
use rustful::header::Headers;
use rustful::server::Global;
use rustful::{Context, DefaultRouter, Handler, Method, OrElse, Response, Server, StatusCode};

thread_local! {
    static LOG: RefCell<Vec<(u32, usize)>> = RefCell::new(vec![]);
}

/// How a handler describes itself.
#[derive(Clone, Debug, PartialEq)]
enum Desc {
    None,
    Fixed,
    Made,
    /// Differs from one time to the next.
    Counting,
}

struct Shared {
    id: u32,
    desc: Desc,
    way: usize,
    calls: AtomicUsize,
}

struct Probe(Arc<Shared>);

impl Probe {
    fn text(&self) -> Option<Cow<'static, str>> {
        match self.0.desc {
            Desc::None => None,
            Desc::Fixed => Some(["zero", "one", "two", "three", "four", "five", "six", "seven"][self.0.id as usize % 8].into()),
            Desc::Made => Some(format!("made {}", self.0.id).into()),
            Desc::Counting => Some(format!("{} after {}", self.0.id, self.0.calls.load(Ordering::SeqCst)).into()),
        }
    }
}

impl Handler for Probe {
    fn handle(&self, mut c: Context, mut r: Response) {
        let nth = self.0.calls.fetch_add(1, Ordering::SeqCst);
        LOG.with(|l| l.borrow_mut().push((self.0.id, nth)));
        let mut body = vec![];
        let _ = c.body.read_to_end(&mut body);
        let mut vars: Vec<_> = (&c.variables).into_iter().map(|(k, v)| (gen::show(k.as_bytes()), gen::show(v.as_bytes()))).collect();
        vars.sort();
        let mut query: Vec<_> = (&c.query).into_iter().map(|(k, v)| (gen::show(k.as_bytes()), gen::show(v.as_bytes()))).collect();
        query.sort();
        let links: Vec<_> = c.hyperlinks.iter().map(|l| (routes::own_link(l), l.handler.map(|h| h.description()))).collect();
        let mut headers: Vec<_> = c.headers.iter().map(|h| (h.name().to_string(), h.value_string())).collect();
        headers.sort();
        let text = format!(
            "{} #{} {} {:?} {} {} {:?} {:?} {:?} {:?} {} {:?} {:?} {}",
            self.0.id, nth, c.method, c.uri_path, c.http_version, c.address, c.fragment.as_ref().map(|f| gen::show(f)), vars, query, headers, gen::show(&body), links, c.global.get::<String>(), r.status()
        );
        match self.0.way {
            0 => r.send(text),
            1 => {
                let mut w = r.into_chunked();
                for part in text.as_bytes().chunks(30) {
                    w.send(part);
                }
            }
            2 => {
                let mut w = unsafe { r.into_raw(text.len() as u64) };
                let _ = w.write_all(text.as_bytes());
            }
            3 => {
                r.set_status(StatusCode::Accepted);
                r.headers_mut().set_raw("X-Hash", vec![src::hash_bytes(text.as_bytes()).to_string().into_bytes()]);
            }
            _ => {
                r.set_status(StatusCode::ImATeapot);
                r.send(text)
            }
        }
    }

    fn description(&self) -> Option<Cow<'static, str>> {
        self.text()
    }
}

/// The places of handlers in a composition.
const SHAPES: usize = 9;

/// What can be seen of a composition from outside.
#[derive(Debug, PartialEq)]
struct Seen {
    replies: Vec<(u16, Vec<(String, Vec<u8>)>, Vec<u8>)>,
    log: Vec<(u32, usize)>,
    links: Vec<(routes::OwnedLink, Option<Option<String>>)>,
    linked: Vec<(u32, usize)>,
    again: Vec<Option<Option<String>>>,
}

thread_local! {
    /// How many times the whole composition is put into a `Some`.
    static OUTER: std::cell::Cell<usize> = std::cell::Cell::new(0);
    /// Where the links begin.
    static BASE: std::cell::Cell<(bool, usize, bool)> = std::cell::Cell::new((false, 0, false));
}

/// A handler that has nothing to do with the router.
struct Outsider;
impl Handler for Outsider {
    fn handle(&self, _: Context, _: Response) {
        LOG.with(|l| l.borrow_mut().push((999, 0)));
    }
    fn description(&self) -> Option<Cow<'static, str>> {
        Some("outsider".into())
    }
}

fn serve<R: HandleRequest>(router: R, reqs: &[Req]) -> Result<Seen, Fail> {
    match OUTER.with(|o| o.get()) {
        0 => serve_this(router, reqs),
        1 => serve_this(Some(router), reqs),
        _ => serve_this(Some(Some(router)), reqs),
    }
}

fn serve_this<R: HandleRequest>(router: R, reqs: &[Req]) -> Result<Seen, Fail> {
    LOG.with(|l| l.borrow_mut().clear());
    let take = || LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    // The links come first: the same handlers are used by the requests later.
    let mut links = vec![];
    let mut linked = vec![];
    let mut again = vec![];
    {
        let (method, depth, handler) = BASE.with(|b| b.get());
        let base = rustful::context::hypermedia::Link {
            method: if method { Some(Method::Put) } else { None },
            path: (0..depth).map(|_| rustful::context::hypermedia::LinkSegment { label: rustful::context::MaybeUtf8Slice::from("base"), ty: rustful::context::hypermedia::SegmentType::Static }).collect(),
            handler: if handler { Some(&Outsider) } else { None },
        };
        let mut found = router.hyperlinks(base);
        found.sort();
        // The order of those which are equal isn't specified.
        found.sort_by_key(|l| (routes::own_link(l), l.handler.map(|h| h.description().map(|d| d.into_owned()))));
        for l in &found {
            links.push((routes::own_link(l), l.handler.map(|h| h.description().map(|d| d.into_owned()))));
            if let Some(h) = l.handler {
                let global = Global::default();
                h.handle(Context::mock(Method::Get, "/linked", Headers::new(), &global), Response::mock(&global));
            }
            linked.extend(take());
            again.push(l.handler.map(|h| h.description().map(|d| d.into_owned())));
        }
    }
    linked.sort();
    let server = Server { global: Box::new(String::from("shared")).into(), ..Server::new(router) }.build();
    let mut replies = vec![];
    for r in reqs {
        let (out, _) = wire::send(&server, r.bytes(), false);
        let all = wire::parse_replies(&out);
        match all {
            Ok(all) => {
                for r in all {
                    let mut headers: Vec<_> = r.headers.into_iter().filter(|h| !h.0.eq_ignore_ascii_case("date")).collect();
                    headers.sort();
                    replies.push((r.status, headers, r.body));
                }
            }
            Err(e) => return fail("an unreadable response", e),
        }
    }
    Ok(Seen { replies, log: take(), links, linked, again })
}

fn methods() -> Vec<Method> {
    vec![Method::Get, Method::Post, Method::Delete]
}

/// Places handlers in a composition. `mk` makes the one with a certain id.
fn compose<H: Handler>(shape: usize, mk: &mut dyn FnMut(u32) -> H, ids: &[u32], reqs: &[Req]) -> Result<Seen, Fail> {
    let id = |i: usize| ids[i % ids.len()];
    match shape {
        0 => serve(mk(id(0)), reqs),
        1 => serve(Some(mk(id(0))), reqs),
        2 => {
            let mut r = DefaultRouter::<H>::new();
            for (i, p) in ["", "a", "a/:x", ":x/b", "*rest/c"].iter().enumerate() {
                r.build().path(p).then().on(methods()[i % 2].clone(), mk(id(i)));
            }
            // Takes the place of an other one.
            r.build().path("a").then().on(methods()[1].clone(), mk(id(5)));
            serve(r, reqs)
        }
        3 => {
            let mut r = TreeRouter::<MethodRouter<H>>::new();
            for (i, p) in ["", "a", "a", "a/:x", ":x"].iter().enumerate() {
                r.build().path(p).then().on(methods()[i % 3].clone(), mk(id(i)));
            }
            r.find_hyperlinks = true;
            serve(r, reqs)
        }
        4 => {
            let mut r = OrElse::<TreeRouter<Option<H>>, H>::with_secondary(mk(id(0)));
            r.build().primary().on_path("a/b", mk(id(1)));
            r.build().primary().on_route("a", mk(id(2)));
            r.build().primary().path("*").handler(mk(id(3)));
            serve(r, reqs)
        }
        5 => {
            let mut r = MethodRouter::<H>::new();
            r.build().on_get(mk(id(0)));
            r.insert(Method::Post, mk(id(1)));
            serve(r, reqs)
        }
        6 => {
            let mut inner = StatusRouter::<H>::new();
            inner.build().on(StatusCode::MethodNotAllowed, mk(id(0)));
            inner.insert(StatusCode::NotFound, mk(id(1)));
            let mut r = OrElse::<DefaultRouter<H>, StatusRouter<H>>::with_secondary(inner);
            r.build().primary().path("a").then().on_get(mk(id(2)));
            serve(r, reqs)
        }
        7 => {
            // The handlers of a merged router.
            let mut r = DefaultRouter::<H>::new();
            r.build().path("a").then().on_get(mk(id(0)));
            r.build().path("a/:x").then().on_get(mk(id(1)));
            let mut other = DefaultRouter::<H>::new();
            other.build().path("").then().on_get(mk(id(2)));
            other.build().path("b").then().on_post(mk(id(3)));
            r.build().path("a").merge(other);
            serve(r, reqs)
        }
        _ => {
            let routes: Vec<(Method, &str, H)> = ["a", "a/b", ":x", "*"].iter().enumerate().map(|(i, p)| (methods()[i % 2].clone(), *p, mk(id(i)))).collect();
            let mut r: DefaultRouter<H> = routes.into_iter().collect();
            r.find_hyperlinks = true;
            serve(r, reqs)
        }
    }
}

fn shared(desc: &Desc, way: usize, n: u32) -> Vec<Arc<Shared>> {
    (0..n).map(|id| Arc::new(Shared { id, desc: desc.clone(), way: (way + id as usize) % 5, calls: AtomicUsize::new(0) })).collect()
}

/// Wraps a handler in any number of layers.
fn wrap(h: Probe, layers: &[u64]) -> Box<dyn Handler> {
    let mut layers = layers.iter();
    // The first layer holds the handler itself, and not a box of it.
    let mut now: Box<dyn Handler> = match layers.next() {
        Some(&0) => Box::new(Arc::new(h)),
        Some(&1) => Box::new(Arc::new(Arc::new(h))),
        Some(&2) => Box::new(move |c: Context, r: Response| h.handle(c, r)),
        _ => Box::new(h),
    };
    for l in layers {
        now = match *l {
            0 => Box::new(Arc::new(now)),
            1 => Box::new(now),
            2 => Box::new(move |c: Context, r: Response| now.handle(c, r)),
            _ => Box::new(Arc::new(Box::new(now) as Box<dyn Handler>)),
        };
    }
    now
}

fn wrapped(src: &mut Src, case: &mut Case) -> Res {
    let shape = src.idx(SHAPES);
    let ids: Vec<u32> = (0..src.range(1, 6)).map(|_| src.below(4) as u32).collect();
    let way = src.idx(5);
    let kind = src.idx(5);
    let n = src.idx(5);
    let layers: Vec<Vec<u64>> = (0..4).map(|_| (0..n).map(|_| src.below(4)).collect()).collect();
    let closures = kind == 0 && layers.iter().any(|l| l.contains(&2));
    // A closure doesn't have a description.
    let desc = if closures { Desc::None } else { src.pick(&[Desc::Fixed, Desc::Made, Desc::Counting, Desc::None]).clone() };
    let reqs: Vec<Req> = (0..src.range(1, 8))
        .map(|_| {
            let path = *src.pick(&["/", "/a", "/a/b", "/b", "/x/y/c", "/a/x", "/nowhere/at/all", "/b/b", "/a/%2F?k=v&w", "/a#", "/a?x#y", "http://host/a/b?q#"]);
            let method = methods()[src.weighted(&[5, 3, 1])].to_string();
            let body = if src.flip() { gen::bytes(src, 40) } else { vec![] };
            Req::new(&method, path).header("X-Note", &src.below(1000).to_string()).body(body)
        })
        .collect();
    case.note(|| format!("shape {} ids {:?} kind {} layers {:?} {:?} way {} requests {:?}", shape, ids, kind, layers, desc, way, reqs));

    let outer = src.idx(3);
    let base = if src.flip() { (false, 0, false) } else { (src.flip(), src.idx(4), src.flip()) };
    BASE.with(|b| b.set(base));
    OUTER.with(|o| o.set(0));
    case.note(|| format!("in {} options, links from {:?}", outer, base));

    let plain = shared(&desc, way, 4);
    let want = compose(shape, &mut |id| Probe(plain[id as usize].clone()), &ids, &reqs)?;
    // The description is what the handler says.
    for (i, l) in want.links.iter().enumerate() {
        if let Some(ref d) = l.1 {
            ensure!(d.as_ref().map_or(false, |d| d == "outsider") || d.is_some() == (desc != Desc::None), "description of a handler", "link {}: {:?}", i, l);
        }
    }

    if [0, 1, 5].contains(&shape) {
        for l in &want.links {
            ensure!(!matches!(l.1, Some(Some(ref d)) if d == "outsider"), "handler of a link", "the link {:?} leads to a handler that isn't in the router", l);
        }
    }

    OUTER.with(|o| o.set(outer));
    let probes = shared(&desc, way, 4);
    let got = match kind {
        0 => compose(shape, &mut |id| wrap(Probe(probes[id as usize].clone()), &layers[id as usize]), &ids, &reqs)?,
        // All the places of a handler share it.
        1 => {
            let shared: Vec<_> = probes.iter().map(|p| Arc::new(Probe(p.clone()))).collect();
            let got = compose(shape, &mut |id| shared[id as usize].clone(), &ids, &reqs)?;
            for s in &shared {
                ensure_eq!(Arc::strong_count(s), 1, "shared handlers are kept", "{}", s.0.id);
            }
            got
        }
        2 => {
            let shared: Vec<_> = probes.iter().map(|p| Arc::new(Box::new(Probe(p.clone())) as Box<dyn Handler>)).collect();
            compose(shape, &mut |id| shared[id as usize].clone(), &ids, &reqs)?
        }
        3 => {
            let shared: Vec<_> = probes.iter().map(|p| Arc::new(Arc::new(Probe(p.clone())))).collect();
            compose(shape, &mut |id| shared[id as usize].clone(), &ids, &reqs)?
        }
        _ => {
            let shared: Vec<_> = probes.iter().map(|p| Arc::new(wrap(Probe(p.clone()), &[0, 3, 1]))).collect();
            compose(shape, &mut |id| shared[id as usize].clone(), &ids, &reqs)?
        }
    };
    case.nontrivial_if(!got.log.is_empty() && (kind > 0 || n > 0 || outer > 0));
    case.label_if(desc != Desc::None && !got.links.is_empty(), "described links");
    case.label_if(got.log.windows(2).any(|w| w[0].0 == w[1].0), "called again");
    ensure_eq!(got.log, want.log, "calls of a wrapped handler", "");
    ensure_eq!(got.links, want.links, "links to a wrapped handler", "");
    ensure_eq!(got.linked, want.linked, "calls through a link", "");
    ensure_eq!(got.again, want.again, "description of a wrapped handler after a call", "");
    ensure_eq!(got.replies, want.replies, "responses of a wrapped handler", "");
    for (id, p) in probes.iter().enumerate() {
        // Whatever held the handler is gone.
        let calls = got.log.iter().chain(&got.linked).filter(|c| c.0 == id as u32).count();
        ensure_eq!(p.calls.load(Ordering::SeqCst), calls, "number of calls", "{}", id);
        ensure!(Arc::strong_count(p) == 1, "handlers are kept", "handler {} is in {} places", id, Arc::strong_count(p) - 1);
    }
    Ok(())
}

fn main() {
    runner::main(
        "P30",
        "a handler is called through at least one wrapper",
        &[Prop { name: "wrapped", quick: 800_000, thorough: 4_000_000, run: wrapped }],
    )
}
