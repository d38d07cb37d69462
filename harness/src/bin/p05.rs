//! P05: router composition hands rejected requests on intact.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

use pbt::routes::*;
use pbt::*;
use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::handler::{BuilderContext, Environment, FromHandler, HandleRequest, MethodRouter, StatusRouter, TreeRouter, VariableNames, Variables};
use rustful::{Method, OrElse, Server, StatusCode};

/// A composition of routers.
#[derive(Debug)]
enum Part {
    /// Accepts everything.
    Accept(u32),
    /// A user-written router that rejects, perhaps with another status, and
    /// perhaps leaving a response header.
    Reject(u32, Option<u16>, bool),
    /// Accepts only one method, as a user-written router.
    Picky(u32, Method),
    Nothing,
    Just(Box<Part>),
    Or(Box<Part>, Box<Part>),
    Status(Vec<(u16, Part)>),
    Method(Vec<(Method, Part)>),
    Tree(Vec<(Vec<u8>, Vec<Seg>, Part)>, bool),
    /// A user-written router that has a link of its own to tell about.
    Marked(u32, Box<Part>),
    /// A user-written router that consumes segments, without looking at them.
    Enter(usize, Box<Part>),
    /// Gives names to the variables found so far.
    Named(Vec<Vec<u8>>, Box<Part>),
}

#[derive(Clone, Debug, PartialEq)]
struct Visit {
    id: u32,
    status: u16,
    vars: Vars,
    /// Path segments that are not consumed yet.
    left: Vec<Vec<u8>>,
    seen: Vec<Vec<u8>>,
    links: Vec<Vec<u8>>,
    rest: Rest,
}

/// What never changes.
#[derive(Clone, Debug, PartialEq)]
struct Rest {
    method: String,
    path: Vec<u8>,
    query: Vars,
    tag: Vec<u8>,
    headers: usize,
    addr: String,
}

thread_local! {
    static VISITS: RefCell<(Vec<Visit>, Option<Vec<u8>>)> = RefCell::new((vec![], None));
}

struct Dyn(Box<dyn HandleRequest>);

impl HandleRequest for Dyn {
    fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        self.0.handle_request(environment)
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(base)
    }
}

impl FromHandler<Dyn> for Dyn {
    fn from_handler(_: BuilderContext, d: Dyn) -> Dyn {
        d
    }
}

impl rustful::handler::ApplyContext for Dyn {
    fn apply_context(&mut self, _: BuilderContext) {}
    fn prepend_context(&mut self, _: BuilderContext) {}
}

fn raw(h: &rustful::header::Headers, name: &str) -> Vec<Vec<u8>> {
    h.get_raw(name).map(|v| v.to_vec()).unwrap_or_default()
}

fn visit(id: u32, e: &Environment) {
    let mut state = e.route_state.clone();
    let mut left = vec![];
    while let Some(s) = state.get() {
        left.push(s.to_vec());
        state.skip();
    }
    let v = Visit {
        id,
        status: e.response.status().to_u16(),
        vars: (&e.context.variables).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
        left,
        seen: raw(e.response.headers(), "X-Seen"),
        links: e.context.hyperlinks.iter().map(|l| l.path.iter().flat_map(|s| s.label.as_bytes().to_vec()).collect()).collect(),
        rest: Rest {
            method: e.context.method.to_string(),
            path: e.context.uri_path.as_path().map(|p| p.as_bytes().to_vec()).unwrap_or_default(),
            query: (&e.context.query).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
            tag: raw(&e.context.headers, "X-Tag").concat(),
            headers: e.context.headers.len(),
            addr: e.context.address.to_string(),
        },
    };
    VISITS.with(|c| c.borrow_mut().0.push(v));
}

struct Leaf(u32, Option<Method>, Option<(Option<u16>, bool)>);

impl HandleRequest for Leaf {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        visit(self.0, &e);
        if let Some((status, touch)) = self.2 {
            if let Some(s) = status {
                e.response.set_status(StatusCode::from_u16(s));
            }
            if touch {
                let mut seen = raw(e.response.headers(), "X-Seen");
                seen.push(self.0.to_string().into_bytes());
                e.response.headers_mut().set_raw("X-Seen", seen);
            }
            return Err(e);
        }
        if let Some(ref m) = self.1 {
            if e.context.method != *m {
                return Err(e);
            }
        }
        let mut body = vec![];
        e.context.body.read_to_end(&mut body).expect("reading the body");
        VISITS.with(|c| c.borrow_mut().1 = Some(body));
        e.response.send(format!("part {}", self.0));
        Ok(())
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        vec![base]
    }
}

struct Marked(u32, String, Dyn);

impl HandleRequest for Marked {
    fn handle_request<'a, 'b, 'l, 'g>(&self, e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let link = Link { method: None, path: vec![LinkSegment { label: self.1[..].into(), ty: SegmentType::Static }], handler: None };
        let (e, old) = e.replace_hyperlinks(vec![link]);
        self.2.handle_request(e).map_err(|e| {
            // What came back is what was handed in, apart from what the parts did.
            visit(self.0, &e);
            e.replace_hyperlinks(old).0
        })
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.2.hyperlinks(base)
    }
}

struct Enter(usize, Dyn);

impl HandleRequest for Enter {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let here = e.route_state.snapshot();
        for _ in 0..self.0 {
            if !e.route_state.is_empty() {
                e.route_state.skip();
            }
        }
        self.1.handle_request(e).map_err(|mut e| {
            e.route_state.go_to(here);
            e
        })
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.1.hyperlinks(base)
    }
}

fn names(segs: &[Seg]) -> Vec<Vec<u8>> {
    segs.iter().filter_map(|s| match *s {
        Seg::Static(_) => None,
        Seg::Var(ref n) | Seg::Seq(ref n) => Some(n.clone()),
    }).collect()
}

fn make(p: &Part) -> Dyn {
    Dyn(match *p {
        Part::Accept(id) => Box::new(Leaf(id, None, None)),
        Part::Reject(id, s, t) => Box::new(Leaf(id, None, Some((s, t)))),
        Part::Picky(id, ref m) => Box::new(Leaf(id, Some(m.clone()), None)),
        Part::Nothing => Box::new(None::<Dyn>),
        Part::Just(ref p) => Box::new(Some(make(p))),
        Part::Or(ref a, ref b) => Box::new(OrElse::new(make(a), make(b))),
        Part::Status(ref v) => {
            let mut r = StatusRouter::<Dyn>::new();
            for (i, &(s, ref p)) in v.iter().enumerate() {
                if i % 2 == 0 {
                    r.insert(StatusCode::from_u16(s), make(p));
                } else {
                    r.build().on(StatusCode::from_u16(s), make(p));
                }
            }
            Box::new(r)
        }
        Part::Method(ref v) => {
            let mut r = MethodRouter::<Dyn>::new();
            for (i, &(ref m, ref p)) in v.iter().enumerate() {
                if i % 2 == 0 {
                    r.insert(m.clone(), make(p));
                } else {
                    r.build().on(m.clone(), make(p));
                }
            }
            Box::new(r)
        }
        Part::Tree(ref v, links) => {
            let mut r = TreeRouter::<Option<Dyn>>::new();
            for &(ref text, _, ref p) in v {
                r.build().on_path(text, make(p));
            }
            r.find_hyperlinks = links;
            Box::new(r)
        }
        Part::Marked(id, ref p) => Box::new(Marked(id, format!("mark {}", id), make(p))),
        Part::Enter(n, ref p) => Box::new(Enter(n, make(p))),
        Part::Named(ref n, ref p) => {
            let mut context = BuilderContext::new();
            context.insert(VariableNames(n.iter().map(|n| n.clone().into()).collect()));
            Box::new(Variables::<Dyn>::from_handler(context, make(p)))
        }
    })
}

// -- the model

#[derive(Clone)]
struct State {
    status: u16,
    vars: Vars,
    /// Consumed segments.
    at: usize,
    captured: Vars,
    seen: Vec<Vec<u8>>,
    /// `None` in a tree that looks for links.
    links: Option<Vec<Vec<u8>>>,
}

struct World<'a> {
    method: &'a Method,
    path: &'a [Vec<u8>],
    rest: Rest,
    visits: Vec<Visit>,
    offered: usize,
    budget: usize,
}

/// Every way in which a pattern matches: decisions and captured variables.
fn all_ways(segs: &[Seg], path: &[Vec<u8>]) -> Vec<(Vec<u8>, Vars)> {
    fn go(segs: &[Seg], path: &[Vec<u8>], i: usize, j: usize, dec: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if out.len() > 400 {
            return;
        }
        if i == path.len() {
            if j == segs.len() {
                out.push(dec.clone());
            }
            return;
        }
        if j < segs.len() {
            let d = match segs[j] {
                Seg::Static(ref l) => if *l == path[i] { Some(0) } else { None },
                Seg::Var(_) => Some(1),
                Seg::Seq(_) => Some(2),
            };
            if let Some(d) = d {
                dec.push(d);
                go(segs, path, i + 1, j + 1, dec, out);
                dec.pop();
            }
        }
        if j > 0 {
            if let Seg::Seq(_) = segs[j - 1] {
                dec.push(3);
                go(segs, path, i + 1, j, dec, out);
                dec.pop();
            }
        }
    }
    let mut out = vec![];
    go(segs, path, 0, 0, &mut vec![], &mut out);
    out.into_iter().map(|dec| {
        let mut vars = Vars::new();
        let mut j = 0;
        for (d, s) in dec.iter().zip(path) {
            if *d != 3 {
                j += 1;
            }
            match segs[j - 1] {
                Seg::Static(_) => {}
                Seg::Var(ref n) | Seg::Seq(ref n) => if !n.is_empty() {
                    let e = vars.entry(n.clone()).or_insert_with(Vec::new);
                    if *d == 3 {
                        e.push(b'/');
                    } else {
                        e.clear();
                    }
                    e.extend_from_slice(s);
                },
            }
        }
        (dec, vars)
    }).collect()
}

fn offer(p: &Part, st: State, w: &mut World) -> Result<(), State> {
    w.offered += 1;
    match *p {
        Part::Accept(id) | Part::Picky(id, _) | Part::Reject(id, _, _) => {
            w.visits.push(Visit {
                id,
                status: st.status,
                vars: st.vars.clone(),
                left: w.path[st.at..].to_vec(),
                seen: st.seen.clone(),
                links: st.links.clone().unwrap_or_default(),
                rest: w.rest.clone(),
            });
            match *p {
                Part::Picky(_, ref m) if m != w.method => Err(st),
                Part::Reject(id, status, touch) => {
                    let mut st = st;
                    if let Some(s) = status {
                        st.status = s;
                    }
                    if touch {
                        st.seen.push(id.to_string().into_bytes());
                    }
                    Err(st)
                }
                _ => Ok(()),
            }
        }
        Part::Nothing => Err(State { status: 404, ..st }),
        Part::Just(ref p) => offer(p, st, w),
        Part::Or(ref a, ref b) => offer(a, st, w).or_else(|st| offer(b, st, w)),
        Part::Status(ref v) => match v.iter().rev().find(|e| e.0 == st.status) {
            Some(e) => offer(&e.1, st, w),
            None => Err(st),
        },
        Part::Method(ref v) => match v.iter().rev().find(|e| e.0 == *w.method) {
            Some(e) => offer(&e.1, st, w),
            None => Err(State { status: 405, ..st }),
        },
        Part::Marked(id, ref p) => {
            let before = st.links.clone();
            let mark = vec![format!("mark {}", id).into_bytes()];
            match offer(p, State { links: Some(mark.clone()), ..st }, w) {
                Ok(()) => Ok(()),
                Err(st) => {
                    w.visits.push(Visit {
                        id,
                        status: st.status,
                        vars: st.vars.clone(),
                        left: w.path[st.at..].to_vec(),
                        seen: st.seen.clone(),
                        links: mark,
                        rest: w.rest.clone(),
                    });
                    Err(State { links: before, ..st })
                }
            }
        }
        Part::Enter(n, ref p) => {
            let at = st.at;
            offer(p, State { at: (at + n).min(w.path.len()), ..st }, w).map_err(|st| State { at, ..st })
        }
        Part::Named(_, ref p) => {
            let before = st.vars.clone();
            let captured = st.captured.clone();
            offer(p, State { vars: captured, ..st }, w).map_err(|st| State { vars: before, ..st })
        }
        Part::Tree(ref v, links) => {
            let path = w.path[st.at..].to_vec();
            // All nodes, by shape.
            let mut nodes: BTreeMap<Vec<Seg>, (Vec<Seg>, Option<&Part>)> = BTreeMap::new();
            nodes.insert(vec![], (vec![], None));
            for &(_, ref segs, ref p) in v {
                for n in 1..segs.len() + 1 {
                    let shape: Vec<Seg> = segs[..n].iter().map(|s| s.shape()).collect();
                    nodes.entry(shape).or_insert_with(|| (segs[..n].to_vec(), None));
                }
                let shape: Vec<Seg> = segs.iter().map(|s| s.shape()).collect();
                nodes.insert(shape, (segs.clone(), Some(p)));
            }
            let mut ways = vec![];
            for &(ref segs, p) in nodes.values() {
                for (dec, vars) in all_ways(segs, &path) {
                    ways.push((dec, vars, p));
                }
            }
            ways.sort_by(|a, b| a.0.cmp(&b.0));
            let start = st.clone();
            let mut st = st;
            if ways.is_empty() {
                st.status = 404;
            }
            w.budget = w.budget.saturating_sub(ways.len());
            if w.budget == 0 {
                return Err(st);
            }
            for (_, vars, p) in ways {
                let mut inner = st.clone();
                inner.status = start.status;
                inner.at = w.path.len();
                if !path.is_empty() {
                    inner.captured = vars;
                }
                inner.links = if links { None } else { Some(vec![]) };
                let result = match p {
                    None => Err(State { status: 404, ..inner }),
                    Some(p) => offer(p, inner, w),
                };
                match result {
                    Ok(()) => return Ok(()),
                    Err(back) => {
                        st.status = back.status;
                        st.seen = back.seen;
                    }
                }
            }
            Err(st)
        }
    }
}

// -- generation

struct Ctx {
    alpha: Alphabet,
    next: u32,
    patterns: Vec<Vec<Seg>>,
    methods: Vec<Method>,
    size: usize,
}

const STATUSES: [u16; 9] = [200, 404, 405, 403, 500, 418, 202, 301, 299];

fn part(src: &mut Src, c: &mut Ctx, depth: usize, known: &[Vec<u8>], inside: bool) -> Part {
    let id = c.next;
    c.next += 1;
    c.size += 1;
    let leaf = depth == 0 || c.size > 40;
    let kind = if leaf { src.weighted(&[3, 6, 1, 1]) } else { src.weighted(&[0, 2, 1, 1, 1, 9, 4, 4, if inside { 1 } else { 7 }, 3, 2, if inside { 0 } else { 2 }]) };
    match kind {
        0 => Part::Accept(id),
        1 => {
            let s = if src.flip() { Some(*src.pick(&STATUSES)) } else { None };
            Part::Reject(id, s, src.chance(1, 4))
        }
        2 => Part::Picky(id, src.pick(&c.methods).clone()),
        3 => Part::Nothing,
        4 => Part::Just(Box::new(part(src, c, depth - 1, known, inside))),
        5 => {
            let a = part(src, c, depth - 1, known, inside);
            let b = part(src, c, depth - 1, known, inside);
            Part::Or(Box::new(a), Box::new(b))
        }
        6 => {
            let n = src.range(0, 3);
            Part::Status((0..n).map(|_| (*src.pick(&STATUSES), part(src, c, depth - 1, known, inside))).collect())
        }
        7 => {
            let n = src.range(0, 3);
            Part::Method((0..n).map(|_| (src.pick(&c.methods).clone(), part(src, c, depth - 1, known, inside))).collect())
        }
        8 if src.chance(1, 12) => {
            // Many nodes that match the same paths, and mostly reject.
            let links = src.flip();
            let d = src.range(2, 4);
            let base: Vec<Vec<u8>> = (0..d).map(|_| c.alpha.segment(src)).collect();
            let n = src.range(6, 30);
            let v = (0..n).map(|_| {
                let segs: Vec<Seg> = base.iter().map(|l| match src.idx(3) {
                    0 => Seg::Static(l.clone()),
                    1 => Seg::Var(vec![]),
                    _ => Seg::Seq(vec![]),
                }).collect();
                let text = pattern_text(src, &segs);
                let segs = parse_pattern(&text);
                c.patterns.push(segs.clone());
                let inner_names = if inside { known.to_vec() } else { names(&segs) };
                let p = part(src, c, 0, &inner_names, true);
                (text, segs, p)
            }).collect();
            Part::Tree(v, links)
        }
        8 => {
            let n = src.range(0, 5);
            let links = src.chance(1, 3);
            let v = (0..n).map(|_| {
                let segs = if !c.patterns.is_empty() && src.chance(2, 3) {
                    let b = src.pick(&c.patterns).clone();
                    if src.flip() { vary_pattern(src, &c.alpha, &b, 1) } else { b }
                } else {
                    let d = src.idx(4);
                    pattern(src, &c.alpha, d, 1, &mut vec![])
                };
                let text = pattern_text(src, &segs);
                let segs = parse_pattern(&text);
                c.patterns.push(segs.clone());
                let inner_names = if inside { known.to_vec() } else { names(&segs) };
                let p = part(src, c, depth - 1, &inner_names, true);
                (text, segs, p)
            }).collect();
            Part::Tree(v, links)
        }
        10 => Part::Marked(id, Box::new(part(src, c, depth - 1, known, inside))),
        11 => Part::Enter(src.range(1, 3), Box::new(part(src, c, depth - 1, known, inside))),
        _ => {
            let p = part(src, c, depth - 1, known, inside);
            // More names than there are variables are of no use.
            let mut known = known.to_vec();
            let max = known.len() + 3;
            if src.flip() {
                while src.more(known.len(), 2, max) {
                    known.push(gen::ident(src).into_bytes());
                }
            }
            Part::Named(known, Box::new(p))
        }
    }
}

fn compose(src: &mut Src, case: &mut Case) -> Res {
    let methods = vec![Method::Get, Method::Post, Method::Put];
    let mut c = Ctx { alpha: Alphabet::draw(src), next: 0, patterns: vec![], methods, size: 0 };
    let depth = 2 + src.idx(5);
    let root = part(src, &mut c, depth, &[], false);
    case.note(|| format!("router: {:?}", root));
    let server = Server::new(make(&root)).build();
    let n = src.range(1, 3);
    let mut handed_on = false;
    for _ in 0..n {
        let segs = request_segments(src, &c.alpha, &c.patterns);
        let mut path = join(src, &segs);
        if path.first() != Some(&b'/') {
            path.insert(0, b'/');
        }
        let segs = split(&path);
        if segs.len() > 12 {
            continue;
        }
        let method = src.pick(&c.methods).clone();
        let tag = gen::ident(src);
        let body = if src.flip() { gen::bytes(src, 60) } else { vec![] };
        let enc = gen::percent_encode(src, &path[1..], |b| gen::unreserved(b) || b == b'/');
        let mut req = wire::Req::new(&method.to_string(), &format!("/{}?q={}", enc, tag)).header("X-Tag", &tag).more(src).body(body.clone());
        if src.chance(1, 4) {
            req.chunked = Some(vec![1 + src.idx(20)]);
        }
        let headers = if req.chunked.is_some() || !body.is_empty() || method != Method::Get { 1 } else { 0 };
        let headers = headers + req.headers.iter().map(|h| &h.0).collect::<BTreeSet<_>>().len();
        case.note(|| format!("request: {} {} ({} body bytes)", method, gen::show(&path), body.len()));
        let rest = Rest {
            method: method.to_string(),
            path: path.clone(),
            query: vec![(b"q".to_vec(), tag.clone().into_bytes())].into_iter().collect(),
            tag: tag.into_bytes(),
            headers,
            addr: wire::addr().to_string(),
        };
        let mut w = World { method: &method, path: &segs, rest, visits: vec![], offered: 0, budget: 3000 };
        let st = State { status: 200, vars: Vars::new(), at: 0, captured: Vars::new(), seen: vec![], links: Some(vec![]) };
        let result = offer(&root, st, &mut w);
        if w.budget == 0 || w.visits.len() > 300 {
            continue;
        }
        VISITS.with(|c| *c.borrow_mut() = (vec![], None));
        let reply = match wire::one_reply(&server, req.bytes()) {
            Ok(Some(r)) => r,
            other => return fail("wire", format!("{:?}", other)),
        };
        let (mut visits, read) = VISITS.with(|c| std::mem::replace(&mut *c.borrow_mut(), (vec![], None)));
        // Links inside of trees that look for them are not compared here.
        mask(&root, &mut visits, &w.visits);
        for (i, v) in visits.iter().enumerate() {
            match w.visits.get(i) {
                Some(m) => ensure!(v == m, "what a part saw", "offer #{}\n     got: {:?}\nexpected: {:?}", i, v, m),
                None => return fail("order", format!("too many offers\n     got: {:?}\nexpected: {:?}", visits.iter().map(|v| v.id).collect::<Vec<_>>(), w.visits.iter().map(|v| v.id).collect::<Vec<_>>())),
            }
        }
        ensure_eq!(visits.len(), w.visits.len(), "order", "number of offers to parts");
        match result {
            Ok(()) => {
                let last = w.visits.last().unwrap();
                ensure_eq!(read.as_ref(), Some(&body), "body", "body read by the accepting part");
                ensure_eq!(reply.status, last.status, "status", "status of the response");
                ensure_eq!(String::from_utf8_lossy(&reply.body), format!("part {}", last.id), "body", "response body");
                case.label("accepted");
            }
            Err(st) => {
                ensure!(read.is_none(), "accepted", "a part accepted, none should have");
                let want = if st.status == 200 { 404 } else { st.status };
                ensure_eq!(reply.status, want, "status", "status of a request that no part accepts");
                ensure!(reply.body.is_empty(), "body", "body of a request that no part accepts: {}", gen::show(&reply.body));
                case.label("nobody accepted");
            }
        }
        handed_on |= w.visits.len() > 1 && w.offered > 3;
        case.label_if(w.visits.len() > 3, "more than three offers");
        case.label_if(w.visits.windows(2).any(|p| p[0].left.len() != p[1].left.len()), "position changes between offers");
        case.label_if(w.visits.iter().any(|v| !v.vars.is_empty()), "with variables");
    }
    case.nontrivial_if(handed_on);
    Ok(())
}

/// The leaves below a tree with hyperlink search may see links.
fn mask(root: &Part, got: &mut [Visit], want: &[Visit]) {
    fn inside(p: &Part, on: bool, ids: &mut Vec<u32>) {
        match *p {
            Part::Accept(id) | Part::Reject(id, _, _) | Part::Picky(id, _) => if on {
                ids.push(id);
            },
            Part::Nothing => {}
            Part::Just(ref p) | Part::Named(_, ref p) | Part::Enter(_, ref p) => inside(p, on, ids),
            Part::Marked(_, ref p) => inside(p, false, ids),
            Part::Or(ref a, ref b) => {
                inside(a, on, ids);
                inside(b, on, ids);
            }
            Part::Status(ref v) => v.iter().for_each(|e| inside(&e.1, on, ids)),
            Part::Method(ref v) => v.iter().for_each(|e| inside(&e.1, on, ids)),
            Part::Tree(ref v, links) => v.iter().for_each(|e| inside(&e.2, links, ids)),
        }
    }
    let mut ids = vec![];
    inside(root, false, &mut ids);
    for (g, w) in got.iter_mut().zip(want) {
        if g.id == w.id && ids.contains(&g.id) {
            g.links = w.links.clone();
        }
    }
}

fn main() {
    runner::main("P05", "the request was offered to more than one part, after passing through at least one combinator", &[
        Prop { name: "composition", quick: 2_000_000, thorough: 15_000_000, run: compose },
    ]);
}
