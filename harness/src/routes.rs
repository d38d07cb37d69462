//! The reference model of routing, recording handlers, and generators of
//! route tables and request paths.

use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

use rustful::context::hypermedia::{Link, SegmentType};
use rustful::handler::{Environment, HandleRequest};
use rustful::server::Global;
use rustful::{Context, Handler, Method, Response};

use crate::gen;
use crate::src::Src;

pub type Vars = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Seg {
    Static(Vec<u8>),
    Var(Vec<u8>),
    Seq(Vec<u8>),
}

impl Seg {
    pub fn shape(&self) -> Seg {
        match *self {
            Seg::Static(ref s) => Seg::Static(s.clone()),
            Seg::Var(_) => Seg::Var(vec![]),
            Seg::Seq(_) => Seg::Seq(vec![]),
        }
    }
}

/// The segments of a path: one leading and one trailing slash are not
/// significant, and nothing else is collapsed.
pub fn split(path: &[u8]) -> Vec<Vec<u8>> {
    let mut p = path;
    if p.first() == Some(&b'/') {
        p = &p[1..];
    }
    if p.last() == Some(&b'/') {
        p = &p[..p.len() - 1];
    }
    if p.is_empty() {
        return vec![];
    }
    p.split(|&c| c == b'/').map(|s| s.to_vec()).collect()
}

pub fn parse_pattern(p: &[u8]) -> Vec<Seg> {
    split(p).into_iter().map(|s| match s.first() {
        Some(&b':') => Seg::Var(s[1..].to_vec()),
        Some(&b'*') => Seg::Seq(s[1..].to_vec()),
        _ => Seg::Static(s),
    }).collect()
}

#[derive(Clone, Debug)]
pub struct Route {
    pub pattern: Vec<u8>,
    pub segs: Vec<Seg>,
    pub method: Method,
    pub id: u32,
}

impl Route {
    pub fn shape(&self) -> Vec<Seg> {
        self.segs.iter().map(|s| s.shape()).collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Match {
    pub decisions: Vec<u8>,
    pub vars: Vars,
}

/// The preferred way (if any) in which one pattern matches a path. Reading
/// from the left, a segment is preferably taken by the next part of the
/// pattern, and only otherwise by extending the current sequence.
pub fn match_route(segs: &[Seg], path: &[Vec<u8>]) -> Option<Match> {
    fn go(segs: &[Seg], path: &[Vec<u8>], i: usize, j: usize, dec: &mut Vec<u8>, dead: &mut HashSet<(usize, usize)>) -> bool {
        if i == path.len() {
            return j == segs.len();
        }
        if dead.contains(&(i, j)) {
            return false;
        }
        if j < segs.len() {
            let d = match segs[j] {
                Seg::Static(ref l) => if *l == path[i] { Some(0) } else { None },
                Seg::Var(_) => Some(1),
                Seg::Seq(_) => Some(2),
            };
            if let Some(d) = d {
                dec.push(d);
                if go(segs, path, i + 1, j + 1, dec, dead) {
                    return true;
                }
                dec.pop();
            }
        }
        if j > 0 {
            if let Seg::Seq(_) = segs[j - 1] {
                dec.push(3);
                if go(segs, path, i + 1, j, dec, dead) {
                    return true;
                }
                dec.pop();
            }
        }
        dead.insert((i, j));
        false
    }

    let mut dec = vec![];
    if !go(segs, path, 0, 0, &mut dec, &mut HashSet::new()) {
        return None;
    }
    Some(interpret(segs, path, dec))
}

/// What the variables hold if the path is read like this.
fn interpret(segs: &[Seg], path: &[Vec<u8>], dec: Vec<u8>) -> Match {
    let mut vars = Vars::new();
    let mut j = 0;
    for (d, s) in dec.iter().zip(path) {
        if *d != 3 {
            j += 1;
        }
        let name = match segs[j - 1] {
            Seg::Static(_) => continue,
            Seg::Var(ref n) | Seg::Seq(ref n) => n,
        };
        if name.is_empty() {
            continue;
        }
        if *d == 3 {
            let v = vars.get_mut(name).unwrap();
            v.push(b'/');
            v.extend_from_slice(s);
        } else {
            vars.insert(name.clone(), s.clone());
        }
    }
    Match { decisions: dec, vars }
}

/// All the ways in which one pattern matches a (short) path.
pub fn readings(segs: &[Seg], path: &[Vec<u8>]) -> Vec<Match> {
    fn go(segs: &[Seg], path: &[Vec<u8>], i: usize, j: usize, dec: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if i == path.len() {
            if j == segs.len() {
                out.push(dec.clone());
            }
            return;
        }
        if j < segs.len() {
            let d = match segs[j] {
                Seg::Static(ref l) => if *l == path[i] { Some(0) } else { None },
                Seg::Var(_) => Some(1),
                Seg::Seq(_) => Some(2),
            };
            if let Some(d) = d {
                dec.push(d);
                go(segs, path, i + 1, j + 1, dec, out);
                dec.pop();
            }
        }
        if j > 0 {
            if let Seg::Seq(_) = segs[j - 1] {
                dec.push(3);
                go(segs, path, i + 1, j, dec, out);
                dec.pop();
            }
        }
    }

    let mut out = vec![];
    go(segs, path, 0, 0, &mut vec![], &mut out);
    out.into_iter().map(|dec| interpret(segs, path, dec)).collect()
}

/// What a table of routes (in registration order) does with a request.
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Handled { id: u32, vars: Vars },
    /// A route matches the path, but only for other methods.
    WrongMethod,
    /// No registered route matches the path.
    NoRoute,
}

/// The effective routes: the last registration for a shape and method wins.
pub fn effective(routes: &[Route]) -> Vec<&Route> {
    let mut out: Vec<&Route> = vec![];
    for (i, r) in routes.iter().enumerate() {
        let shape = r.shape();
        if !routes[i + 1..].iter().any(|l| l.method == r.method && l.shape() == shape) {
            out.push(r);
        }
    }
    out
}

pub fn select(effective: &[&Route], method: &Method, path: &[Vec<u8>]) -> Outcome {
    let mut best: Option<(Match, u32)> = None;
    let mut any = false;
    for r in effective {
        if let Some(m) = match_route(&r.segs, path) {
            any = true;
            if r.method == *method && best.as_ref().map(|b| m.decisions < b.0.decisions).unwrap_or(true) {
                best = Some((m, r.id));
            }
        }
    }
    match best {
        Some((m, id)) => Outcome::Handled { id, vars: m.vars },
        None if any => Outcome::WrongMethod,
        None => Outcome::NoRoute,
    }
}

// ---------------------------------------------------------------------
// Recording handlers

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct OwnedLink {
    pub method: Option<String>,
    pub path: Vec<(u8, Vec<u8>)>,
    pub handler: Option<String>,
}

pub fn own_link(l: &Link) -> OwnedLink {
    OwnedLink {
        method: l.method.as_ref().map(|m| m.to_string()),
        path: l.path.iter().map(|s| (match s.ty {
            SegmentType::Static => 0,
            SegmentType::VariableSegment => 1,
            SegmentType::VariableSequence => 2,
        }, s.label.as_bytes().to_vec())).collect(),
        handler: l.handler.map(|h| h.description().map(|d| d.into_owned()).unwrap_or_else(|| "?".into())),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Hit {
    pub id: u32,
    pub vars: Vars,
    pub links: Vec<OwnedLink>,
    pub status: u16,
    pub method: String,
    pub path: Vec<u8>,
}

thread_local! {
    static HITS: RefCell<Vec<Hit>> = RefCell::new(vec![]);
}

pub fn take_hits() -> Vec<Hit> {
    HITS.with(|h| std::mem::take(&mut *h.borrow_mut()))
}

thread_local! {
    /// How the recording handlers answer: at once, in chunks or unfiltered.
    pub static WAY: std::cell::Cell<u8> = std::cell::Cell::new(0);
    /// Called between the pieces of a chunked answer.
    pub static BETWEEN: std::cell::Cell<Option<fn(&mut rustful::response::Chunked, usize)>> = std::cell::Cell::new(None);
}

/// A handler that records that it ran, and what it saw.
#[derive(Clone, Debug)]
pub struct Rec(pub u32);

pub fn record(id: u32, context: &Context, response: &Response) {
    let hit = Hit {
        id,
        vars: (&context.variables).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
        links: context.hyperlinks.iter().map(own_link).collect(),
        status: response.status().to_u16(),
        method: context.method.to_string(),
        path: context.uri_path.as_path().map(|p| p.as_bytes().to_vec()).unwrap_or_else(|| b"*".to_vec()),
    };
    HITS.with(|h| h.borrow_mut().push(hit));
}

impl Handler for Rec {
    fn handle(&self, context: Context, response: Response) {
        record(self.0, &context, &response);
        match WAY.with(|w| w.get()) {
            1 => {
                let mut w = response.into_chunked();
                let between = BETWEEN.with(|b| b.get());
                if let Some(f) = between {
                    f(&mut w, 0);
                }
                w.send("handler ");
                if let Some(f) = between {
                    f(&mut w, 1);
                }
                w.send(self.0.to_string());
            }
            2 => {
                let text = format!("handler {}", self.0);
                let mut w = unsafe { response.into_raw(text.len() as u64) };
                w.send(text);
            }
            _ => response.send(format!("handler {}", self.0)),
        }
    }

    fn description(&self) -> Option<Cow<'static, str>> {
        Some(format!("h{}", self.0).into())
    }
}

/// Dispatches a request to a router, without a server. Returns the handlers
/// that ran, and the status if the request was handed back.
pub fn dispatch<R: HandleRequest>(router: &R, method: &Method, path: &[u8]) -> (Vec<Hit>, Option<u16>) {
    dispatch_with(router, method, path, 200)
}

pub fn dispatch_with<R: HandleRequest>(router: &R, method: &Method, path: &[u8], status: u16) -> (Vec<Hit>, Option<u16>) {
    take_hits();
    let global = Global::default();
    let mut context = Context::mock(method.clone(), "", rustful::header::Headers::new(), &global);
    context.uri_path = rustful::context::UriPath::Path(path.to_vec().into());
    let mut response = Response::mock(&global);
    response.set_status(rustful::StatusCode::from_u16(status));
    let result = router.handle_request(Environment { context, response, route_state: path.into() });
    let back = result.err().map(|e| e.response.status().to_u16());
    (take_hits(), back)
}

// ---------------------------------------------------------------------
// Generators

pub fn methods() -> Vec<Method> {
    vec![
        Method::Get, Method::Post, Method::Put, Method::Delete, Method::Head, Method::Options, Method::Patch, Method::Connect, Method::Trace,
        Method::Extension("FOO".into()), Method::Extension("get".into()), Method::Extension("foo".into()),
    ]
}

pub fn method(src: &mut Src) -> Method {
    let i = match src.weighted(&[5, 3, 2]) {
        0 => 0,
        1 => 1,
        _ => src.idx(12),
    };
    methods().swap_remove(i)
}

/// The labels a case draws its segments from.
#[derive(Clone, Debug)]
pub struct Alphabet {
    pub labels: Vec<Vec<u8>>,
    /// Some of the segments are very long.
    pub long: bool,
}

/// A path segment: never contains a slash, may be empty.
pub fn segment(src: &mut Src) -> Vec<u8> {
    let s = match src.weighted(&[10, 3, 2, 2, 1, 1, 1]) {
        0 => gen::ident(src).into_bytes(),
        1 => gen::string(src, 40).into_bytes(),
        2 => gen::bytes(src, 40),
        3 => vec![],
        4 => (*src.pick(&[":a", "*a", ":", "*", "..", ".", "%2F", "a:b", "a*", "%", "+", "::", "**"])).as_bytes().to_vec(),
        5 => {
            let n = gen::size(src, 600);
            gen::blob(src, n)
        }
        _ => src.idx(1200).to_string().into_bytes(),
    };
    s.into_iter().filter(|&c| c != b'/').collect()
}

impl Alphabet {
    pub fn draw(src: &mut Src) -> Alphabet {
        let n = src.range(1, 4);
        let mut labels = vec![];
        for _ in 0..n {
            labels.push(segment(src));
        }
        Alphabet { labels, long: false }
    }

    pub fn segment(&self, src: &mut Src) -> Vec<u8> {
        if self.long && src.flip() {
            let n = match src.weighted(&[3, 1]) {
                0 => src.idx(5000),
                _ => gen::size(src, 70_000),
            };
            return gen::blob(src, n).into_iter().filter(|&c| c != b'/').collect();
        }
        if src.chance(5, 6) {
            src.pick(&self.labels).clone()
        } else {
            segment(src)
        }
    }

    pub fn static_label(&self, src: &mut Src) -> Vec<u8> {
        let s = self.segment(src);
        match s.first() {
            Some(&b':') | Some(&b'*') => {
                let mut t = b"x".to_vec();
                t.extend(s);
                t
            }
            _ => s,
        }
    }
}

/// A bound on how much backtracking a case may need.
pub fn depth(src: &mut Src) -> usize {
    match src.weighted(&[12, 4, 1]) {
        0 => src.idx(5),
        1 => src.idx(9),
        _ => gen::size(src, 40),
    }
}

pub fn var_name(src: &mut Src, used: &mut Vec<Vec<u8>>) -> Vec<u8> {
    if src.chance(1, 6) {
        return vec![];
    }
    let mut n = match src.weighted(&[8, 1, 1]) {
        0 => gen::ident(src).into_bytes(),
        1 => gen::string(src, 20).into_bytes().into_iter().filter(|&c| c != b'/').collect(),
        _ => gen::bytes(src, 20).into_iter().filter(|&c| c != b'/').collect(),
    };
    while n.is_empty() || used.contains(&n) {
        n.push(b'0' + (used.len() % 10) as u8);
    }
    used.push(n.clone());
    n
}

/// Segments for a pattern, with at most `max_seq` sequences.
pub fn pattern(src: &mut Src, alpha: &Alphabet, max: usize, max_seq: usize, used: &mut Vec<Vec<u8>>) -> Vec<Seg> {
    let mut v = vec![];
    let mut seqs = 0;
    for _ in 0..max {
        v.push(match src.weighted(&[5, 3, 2]) {
            0 => Seg::Static(alpha.static_label(src)),
            1 => Seg::Var(var_name(src, used)),
            _ if seqs < max_seq => {
                seqs += 1;
                Seg::Seq(var_name(src, used))
            }
            _ => Seg::Var(var_name(src, used)),
        });
    }
    v
}

pub fn seg_text(s: &Seg) -> Vec<u8> {
    match *s {
        Seg::Static(ref l) => l.clone(),
        Seg::Var(ref n) => [b":", &n[..]].concat(),
        Seg::Seq(ref n) => [b"*", &n[..]].concat(),
    }
}

/// A path text which has exactly these segments.
pub fn join(src: &mut Src, parts: &[Vec<u8>]) -> Vec<u8> {
    let body = parts.join(&b'/');
    let lead = src.chance(3, 4);
    let trail = src.chance(1, 4);
    let edge_first = parts.first().map(|p| p.is_empty()).unwrap_or(false);
    let edge_last = parts.last().map(|p| p.is_empty()).unwrap_or(false);
    let mut out = vec![];
    if lead || edge_first {
        out.push(b'/');
    }
    out.extend_from_slice(&body);
    if !parts.is_empty() && (trail || edge_last) {
        out.push(b'/');
    }
    out
}

pub fn pattern_text(src: &mut Src, segs: &[Seg]) -> Vec<u8> {
    let parts: Vec<_> = segs.iter().map(seg_text).collect();
    join(src, &parts)
}

/// A request path, usually related to one of the patterns.
pub fn request_segments(src: &mut Src, alpha: &Alphabet, patterns: &[Vec<Seg>]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    if !patterns.is_empty() && src.chance(7, 8) {
        let p = src.pick(patterns).clone();
        for s in &p {
            match *s {
                Seg::Static(ref l) => out.push(l.clone()),
                Seg::Var(_) => out.push(alpha.segment(src)),
                Seg::Seq(_) => {
                    out.push(alpha.segment(src));
                    let long = src.chance(1, 24);
                    let mut k = 1;
                    while src.more(k, if long { 12 } else { 1 }, if p.len() > 8 { 6 } else { 40 }) {
                        out.push(alpha.segment(src));
                        k += 1;
                    }
                }
            }
        }
        match src.weighted(&[6, 1, 1, 1]) {
            1 => {
                out.pop();
            }
            2 => {
                let s = alpha.segment(src);
                out.push(s);
            }
            3 if !out.is_empty() => {
                let i = src.idx(out.len());
                out[i] = alpha.segment(src);
            }
            _ => {}
        }
    } else {
        let n = depth(src);
        for _ in 0..n {
            out.push(alpha.segment(src));
        }
    }
    out
}

/// A table of routes over a small alphabet.
pub struct Table {
    pub alpha: Alphabet,
    pub routes: Vec<Route>,
    pub patterns: Vec<Vec<Seg>>,
}

impl Table {
    pub fn describe(&self) -> String {
        describe(&self.routes)
    }
}

pub fn describe(routes: &[Route]) -> String {
    let v: Vec<_> = routes.iter().map(|r| format!("{} {} -> {}", r.method, gen::show(&r.pattern), r.id)).collect();
    v.join(", ")
}

/// Patterns are often variations of earlier ones, so that they overlap.
pub fn vary_pattern(src: &mut Src, alpha: &Alphabet, base: &[Seg], max_seq: usize) -> Vec<Seg> {
    let mut used = vec![];
    let mut out: Vec<Seg> = vec![];
    let change = if base.is_empty() { 0 } else { src.idx(base.len()) };
    for (i, s) in base.iter().enumerate() {
        let seqs = out.iter().filter(|s| if let Seg::Seq(_) = **s { true } else { false }).count();
        let fresh = match src.weighted(&[5, 1]) {
            0 if i != change => match *s {
                Seg::Static(ref l) => Seg::Static(l.clone()),
                Seg::Var(_) => Seg::Var(var_name(src, &mut used)),
                Seg::Seq(_) if seqs < max_seq => Seg::Seq(var_name(src, &mut used)),
                Seg::Seq(_) => Seg::Var(var_name(src, &mut used)),
            },
            _ => match src.weighted(&[3, 3, 3]) {
                0 => Seg::Static(alpha.static_label(src)),
                1 => Seg::Var(var_name(src, &mut used)),
                _ if seqs < max_seq => Seg::Seq(var_name(src, &mut used)),
                _ => Seg::Var(var_name(src, &mut used)),
            },
        };
        out.push(fresh);
    }
    match src.weighted(&[6, 1, 1]) {
        1 => {
            out.pop();
        }
        2 => {
            let mut v = pattern(src, alpha, 1, 0, &mut used);
            out.append(&mut v);
        }
        _ => {}
    }
    out
}

pub fn table(src: &mut Src, avg: u64, max: usize) -> Table {
    let alpha = Alphabet::draw(src);
    let mut t = Table { alpha, routes: vec![], patterns: vec![] };
    extend_table(src, &mut t, avg, max, 0);
    t
}

pub fn extend_table(src: &mut Src, t: &mut Table, avg: u64, max: usize, first_id: u32) {
    let methods: Vec<Method> = {
        let n = src.range(1, 3);
        (0..n).map(|_| method(src)).collect()
    };
    let mut have = 0;
    loop {
        let segs = if !t.patterns.is_empty() && src.chance(3, 5) {
            let base = src.pick(&t.patterns).clone();
            let seq = base.iter().filter(|s| if let Seg::Seq(_) = **s { true } else { false }).count();
            vary_pattern(src, &t.alpha, &base, if base.len() > 12 { seq.min(2) } else { 3 })
        } else {
            let d = depth(src);
            pattern(src, &t.alpha, d, if d > 12 { 2 } else { 3 }, &mut vec![])
        };
        let text = pattern_text(src, &segs);
        // (A single empty segment cannot be written as a path.)
        let segs = parse_pattern(&text);
        let m = if src.chance(7, 8) { src.pick(&methods).clone() } else { method(src) };
        t.patterns.push(segs.clone());
        t.routes.push(Route { pattern: text, segs, method: m, id: first_id + have as u32 });
        have += 1;
        if !src.more(have, avg, max) {
            return;
        }
    }
}

/// Many routes, or very long ones.
pub fn big_table(src: &mut Src) -> Table {
    let mut t = Table { alpha: Alphabet::draw(src), routes: vec![], patterns: vec![] };
    let long = src.flip();
    let count = if long { src.range(1, 6) } else { src.range(20, 300) };
    if !long {
        let labels = src.range(4, 400);
        t.alpha.labels.extend((0..labels).map(|i| format!("s{}", i).into_bytes()));
    }
    let methods: Vec<Method> = (0..src.range(1, 12)).map(|_| method(src)).collect();
    for id in 0..count {
        let segs = if long && !t.patterns.is_empty() && src.chance(3, 4) {
            let base = src.pick(&t.patterns).clone();
            let seqs = base.iter().filter(|s| if let Seg::Seq(_) = **s { true } else { false }).count();
            vary_pattern(src, &t.alpha, &base, seqs.min(1))
        } else if long {
            let d = src.range(20, 500);
            let mut used = vec![];
            let mut seqs = 0;
            // Mostly of one kind.
            let w = *src.pick(&[[8, 1, 1], [1, 8, 1], [1, 1, 0], [0, 1, 0], [1, 0, 0]]);
            (0..d).map(|_| match src.weighted(&w) {
                0 => Seg::Static(t.alpha.static_label(src)),
                2 if seqs == 0 && src.chance(1, 8) => {
                    seqs = 1;
                    Seg::Seq(var_name(src, &mut used))
                }
                _ => {
                    let name = format!("v{}", used.len()).into_bytes();
                    used.push(name.clone());
                    Seg::Var(name)
                }
            }).collect()
        } else {
            let d = src.range(0, 4);
            pattern(src, &t.alpha, d, 1, &mut vec![])
        };
        let text = pattern_text(src, &segs);
        let segs = parse_pattern(&text);
        t.patterns.push(segs.clone());
        t.routes.push(Route { pattern: text, segs, method: src.pick(&methods).clone(), id: id as u32 });
    }
    t
}

/// A request path for a big table.
pub fn big_request(src: &mut Src, t: &Table) -> Vec<Vec<u8>> {
    let mut path = request_segments(src, &t.alpha, &t.patterns);
    if src.chance(1, 3) && !path.is_empty() {
        // Something for a sequence.
        let at = src.idx(path.len());
        let n = src.range(1, 500);
        let s = t.alpha.segment(src);
        for i in 0..n {
            let s = if src.chance(1, 8) { t.alpha.segment(src) } else if i % 2 == 0 { s.clone() } else { i.to_string().into_bytes() };
            path.insert(at, s);
        }
    }
    path
}

pub fn request_method(src: &mut Src, routes: &[Route]) -> Method {
    if !routes.is_empty() && src.chance(9, 10) {
        src.pick(routes).method.clone()
    } else {
        method(src)
    }
}

/// Is there any node of the route tree that matches? (Prefixes of patterns
/// are nodes as well.)
pub fn node_matches(routes: &[Route], path: &[Vec<u8>]) -> bool {
    path.is_empty() || routes.iter().any(|r| (1..r.segs.len() + 1).any(|n| match_route(&r.segs[..n], path).is_some()))
}

pub fn default_router(routes: &[Route], hyperlinks: bool) -> rustful::DefaultRouter<Rec> {
    let mut router = rustful::DefaultRouter::<Rec>::new();
    for r in routes {
        router.build().path(&r.pattern).then().on(r.method.clone(), Rec(r.id));
    }
    router.find_hyperlinks = hyperlinks;
    router
}
