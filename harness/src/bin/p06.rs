//! P06: hyperlinks list exactly the neighbouring methods and segments.
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

use pbt::routes::*;
use pbt::*;
use rustful::context::hypermedia::{Link, LinkSegment, SegmentType};
use rustful::context::MaybeUtf8Owned;
use rustful::handler::{ApplyContext, BuilderContext, Environment, FromHandler, HandleRequest, MethodRouter, StatusRouter, TreeRouter, Variables};
use rustful::{Method, OrElse, Server, StatusCode};

/// A link without its handler: method and labelled path.
type Key = (Option<String>, Vec<(Vec<u8>, u8)>);

fn key(l: &OwnedLink) -> Key {
    (l.method.clone(), l.path.iter().map(|s| (s.1.clone(), s.0)).collect())
}

fn child(s: &Seg) -> (Vec<u8>, u8) {
    match *s {
        Seg::Static(ref l) => (l.clone(), 0),
        Seg::Var(_) => (vec![], 1),
        Seg::Seq(_) => (vec![], 2),
    }
}

#[derive(Default)]
struct Around {
    methods: BTreeMap<String, BTreeSet<u32>>,
    children: BTreeSet<(Vec<u8>, u8)>,
    nodes: usize,
}

/// What is found at the nodes that match a path.
fn around(routes: &[Route], path: &[Vec<u8>]) -> Around {
    let mut a = Around::default();
    let mut seen = BTreeSet::new();
    for r in effective(routes) {
        if match_route(&r.segs, path).is_some() {
            a.methods.entry(r.method.to_string()).or_insert_with(BTreeSet::new).insert(r.id);
        }
    }
    for r in routes {
        for n in 0..r.segs.len() + 1 {
            if match_route(&r.segs[..n], path).is_some() {
                let shape: Vec<Seg> = r.segs[..n].iter().map(|s| s.shape()).collect();
                if seen.insert(shape) {
                    a.nodes += 1;
                }
                if n < r.segs.len() {
                    a.children.insert(child(&r.segs[n]));
                }
            }
        }
    }
    a
}

fn expected(a: &Around, method: &Method) -> Vec<Key> {
    let mut v: Vec<Key> = a.children.iter().map(|c| (None, vec![c.clone()])).collect();
    for m in a.methods.keys() {
        if *m != method.to_string() {
            v.push((Some(m.clone()), vec![]));
        }
    }
    v.sort();
    v
}

fn check_links(links: &[OwnedLink], a: &Around, method: &Method) -> Res {
    let got: Vec<Key> = links.iter().map(key).collect();
    let want = expected(a, method);
    ensure!(got == want, "links", "links seen by the handler\n     got: {:?}\nexpected: {:?}", got, want);
    for l in links {
        match l.method {
            None => ensure_eq!(l.handler, None, "link handler", "handler of a link to a segment: {:?}", l),
            Some(ref m) => {
                let ids = &a.methods[m];
                let ok = ids.iter().any(|i| l.handler == Some(format!("h{}", i)));
                ensure!(ok, "link handler", "link {:?} does not have one of the handlers {:?}", l, ids);
            }
        }
    }
    Ok(())
}

fn classify(case: &mut Case, a: &Around, method: &Method) {
    case.label_if(a.nodes > 1, "several nodes match");
    case.label_if(a.methods.len() > 1, "other methods");
    case.label_if(!a.children.is_empty(), "children");
    case.nontrivial_if(a.nodes > 1 && expected(a, method).len() > 1);
}

fn seen_by_handlers(src: &mut Src, case: &mut Case) -> Res {
    let t = table(src, 6, 24);
    seen(src, case, t)
}

/// Nodes with many children and methods.
fn seen_in_big_tables(src: &mut Src, case: &mut Case) -> Res {
    let t = big_table(src);
    seen(src, case, t)
}

fn seen(src: &mut Src, case: &mut Case, t: Table) -> Res {
    case.note(|| format!("routes: {}", t.describe()));
    let on = default_router(&t.routes, true);
    let off = default_router(&t.routes, false);
    let eff = effective(&t.routes);
    let n = src.range(1, 4);
    for _ in 0..n {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = request_method(src, &t.routes);
        if let Outcome::Handled { id, .. } = select(&eff, &method, &segs) {
            case.note(|| format!("request: {} {}", method, gen::show(&path)));
            let a = around(&t.routes, &segs);
            classify(case, &a, &method);
            let hits = dispatch(&on, &method, &path).0;
            ensure!(hits.len() == 1 && hits[0].id == id, "wrong handler", "handlers that ran: {:?}, expected {}", hits.iter().map(|h| h.id).collect::<Vec<_>>(), id);
            check_links(&hits[0].links, &a, &method)?;
            let hits = dispatch(&off, &method, &path).0;
            ensure!(hits.len() == 1 && hits[0].id == id, "wrong handler", "handlers that ran: {:?}, expected {}", hits.iter().map(|h| h.id).collect::<Vec<_>>(), id);
            ensure!(hits[0].links.is_empty(), "links", "links seen with the search off: {:?}", hits[0].links);
        }
    }
    Ok(())
}

/// Path routers below a method choice, path routers without methods, and a
/// server on top of it.
fn other_trees(src: &mut Src, case: &mut Case) -> Res {
    let t = table(src, 6, 16);
    case.note(|| format!("routes: {}", t.describe()));
    let mut methods: Vec<Method> = vec![];
    for r in &t.routes {
        if !methods.contains(&r.method) {
            methods.push(r.method.clone());
        }
    }
    let search: Vec<bool> = methods.iter().map(|_| src.chance(3, 4)).collect();
    let mut router = MethodRouter::<TreeRouter<Option<Variables<Rec>>>>::new();
    for (m, on) in methods.iter().zip(&search) {
        let mut tree = TreeRouter::new();
        for r in t.routes.iter().filter(|r| r.method == *m) {
            tree.build().on_path(&r.pattern, Rec(r.id));
        }
        tree.find_hyperlinks = *on;
        router.insert(m.clone(), tree);
    }
    // A fallback outside of the trees sees no links.
    let router = OrElse::new(router, Rec(9999));
    let server = Server::new(router).build();
    let eff = effective(&t.routes);
    let n = src.range(1, 3);
    for _ in 0..n {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let mut path = join(src, &segs);
        if path.first() != Some(&b'/') {
            path.insert(0, b'/');
        }
        let segs = split(&path);
        let method = request_method(src, &t.routes);
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        let enc = gen::percent_encode(src, &path[1..], |b| gen::unreserved(b) || b == b'/');
        take_hits();
        wire::send(&server, wire::Req::new(&method.to_string(), &format!("/{}", enc)).more(src).bytes(), false);
        let hits = take_hits();
        ensure_eq!(hits.len(), 1, "wrong handler", "number of handlers that ran");
        match select(&eff, &method, &segs) {
            Outcome::Handled { id, .. } => {
                ensure_eq!(hits[0].id, id, "wrong handler", "handler that ran");
                let own: Vec<Route> = t.routes.iter().filter(|r| r.method == method).cloned().collect();
                let mut a = around(&own, &segs);
                classify(case, &a, &method);
                let on = methods.iter().zip(&search).any(|(m, on)| *m == method && *on);
                if !on {
                    ensure!(hits[0].links.is_empty(), "links", "links seen with the search off: {:?}", hits[0].links);
                    continue;
                }
                // The handlers at the matching nodes may be listed as well.
                let ids = a.methods.remove(&method.to_string()).unwrap_or_default();
                let (own, rest): (Vec<OwnedLink>, Vec<OwnedLink>) = hits[0].links.iter().cloned().partition(|l| l.method.is_none() && l.path.is_empty());
                for l in own {
                    ensure!(ids.iter().any(|i| l.handler == Some(format!("h{}", i))), "link handler", "link {:?} does not belong to a matching node", l);
                }
                check_links(&rest, &a, &method)?;
            }
            _ => {
                ensure_eq!(hits[0].id, 9999, "wrong handler", "handler that ran");
                ensure!(hits[0].links.is_empty(), "links", "links seen outside of the tree: {:?}", hits[0].links);
                case.label("fallback");
            }
        }
    }
    Ok(())
}

fn base<'a>(src: &mut Src, labels: &'a [MaybeUtf8Owned]) -> Link<'a> {
    let n = src.idx(labels.len() + 1);
    Link {
        method: if src.flip() { Some(method(src)) } else { None },
        path: labels[..n].iter().map(|l| LinkSegment {
            label: l.as_slice(),
            ty: match src.idx(3) {
                0 => SegmentType::Static,
                1 => SegmentType::VariableSegment,
                _ => SegmentType::VariableSequence,
            },
        }).collect(),
        handler: None,
    }
}

fn with(b: &OwnedLink, method: Option<&Method>, seg: Option<&(Vec<u8>, u8)>, id: Option<u32>) -> OwnedLink {
    let mut l = b.clone();
    if let Some(m) = method {
        l.method = Some(m.to_string());
    }
    if let Some(s) = seg {
        l.path.push((s.1, s.0.clone()));
    }
    l.handler = id.map(|i| format!("h{}", i));
    l
}

fn root_children(routes: &[Route]) -> BTreeSet<(Vec<u8>, u8)> {
    routes.iter().filter_map(|r| r.segs.first().map(child)).collect()
}

fn listing(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 6, 24);
    // Roots with handlers.
    let n = src.idx(4);
    for i in 0..n {
        let m = method(src);
        t.routes.push(Route { pattern: b"/".to_vec(), segs: vec![], method: m, id: 100 + i as u32 });
    }
    case.note(|| format!("routes: {}", t.describe()));
    let labels: Vec<MaybeUtf8Owned> = (0..3).map(|_| segment(src).into()).collect();
    let base = base(src, &labels);
    let own = own_link(&base);
    case.note(|| format!("base: {:?}", own));

    let eff = effective(&t.routes);
    let roots: Vec<&&Route> = eff.iter().filter(|r| r.segs.is_empty()).collect();
    let children = root_children(&t.routes);
    let links = src.flip();
    let router = default_router(&t.routes, links);
    let mut want: Vec<OwnedLink> = roots.iter().map(|r| with(&own, Some(&r.method), None, Some(r.id))).collect();
    want.extend(children.iter().map(|c| with(&own, None, Some(c), None)));
    same(router.hyperlinks(base.clone()), want.clone(), "tree of methods")?;
    case.nontrivial_if(roots.len() > 1 && children.len() > 1);
    case.label_if(roots.len() > 1, "several handlers");
    case.label_if(children.len() > 1, "several children");

    // Methods of trees.
    let mut by_method = MethodRouter::<TreeRouter<Option<Variables<Rec>>>>::new();
    for r in &t.routes {
        by_method.build().method::<Rec>(r.method.clone()).on_path(&r.pattern, Rec(r.id));
    }
    let mut methods: Vec<Method> = vec![];
    let mut deep = vec![];
    for r in &t.routes {
        if !methods.contains(&r.method) {
            methods.push(r.method.clone());
            let own_routes: Vec<Route> = t.routes.iter().filter(|o| o.method == r.method).cloned().collect();
            if let Some(root) = effective(&own_routes).iter().find(|r| r.segs.is_empty()) {
                deep.push(with(&own, Some(&r.method), None, Some(root.id)));
            }
            deep.extend(root_children(&own_routes).iter().map(|c| with(&own, Some(&r.method), Some(c), None)));
        }
    }
    same(by_method.hyperlinks(base.clone()), deep.clone(), "methods of trees")?;

    // The others.
    let mut statuses = StatusRouter::<Option<Rec>>::new();
    let mut flat = vec![];
    for (i, s) in [404u16, 405, 500].iter().enumerate() {
        match src.idx(3) {
            0 => {}
            1 => statuses.insert(StatusCode::from_u16(*s), None),
            _ => {
                statuses.insert(StatusCode::from_u16(*s), Some(Rec(200 + i as u32)));
                flat.push(with(&own, None, None, Some(200 + i as u32)));
            }
        }
    }
    same(statuses.hyperlinks(base.clone()), flat.clone(), "statuses")?;
    want.extend(deep);
    want.extend(flat);
    let all = OrElse::new(router, OrElse::new(by_method, statuses));
    same(all.hyperlinks(base.clone()), want, "fallbacks")?;
    same(Rec(7).hyperlinks(base.clone()), vec![with(&own, None, None, Some(7))], "handler")?;
    same(None::<Rec>.hyperlinks(base), vec![], "no handler")
}

fn same(got: Vec<Link>, mut want: Vec<OwnedLink>, of: &str) -> Res {
    let mut got: Vec<OwnedLink> = got.iter().map(own_link).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "listing", "links of {}\n     got: {:?}\nexpected: {:?}", of, got, want);
    Ok(())
}

// -- routers within routers

#[derive(Debug)]
enum Item {
    Leaf(u32),
    Methods(Vec<(Method, Item)>),
    Tree(bool, Vec<(Vec<Seg>, Item)>),
    Or(Box<Item>, Box<Item>),
}

struct Dyn(Box<dyn HandleRequest>);

impl HandleRequest for Dyn {
    fn handle_request<'a, 'b, 'l, 'g>(&self, environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        self.0.handle_request(environment)
    }
    fn hyperlinks<'a>(&'a self, base: Link<'a>) -> Vec<Link<'a>> {
        self.0.hyperlinks(base)
    }
}

impl FromHandler<Dyn> for Dyn {
    fn from_handler(_: BuilderContext, d: Dyn) -> Dyn {
        d
    }
}

impl ApplyContext for Dyn {
    fn apply_context(&mut self, _: BuilderContext) {}
    fn prepend_context(&mut self, _: BuilderContext) {}
}

fn item(src: &mut Src, alpha: &Alphabet, known: &mut Vec<Vec<Seg>>, next: &mut u32, depth: u32) -> Item {
    match src.weighted(&[3, 3, if depth < 3 { 3 } else { 0 }, if depth < 3 { 2 } else { 0 }]) {
        0 => {
            *next += 1;
            Item::Leaf(*next)
        }
        1 => {
            let mut v: Vec<(Method, Item)> = vec![];
            for _ in 0..src.range(0, 3) {
                let m = src.pick(&[Method::Get, Method::Post, Method::Put]).clone();
                if v.iter().all(|e| e.0 != m) {
                    let i = item(src, alpha, known, next, depth + 1);
                    v.push((m, i));
                }
            }
            Item::Methods(v)
        }
        2 => tree_item(src, alpha, known, next, depth + 1),
        _ => Item::Or(Box::new(item(src, alpha, known, next, depth + 1)), Box::new(item(src, alpha, known, next, depth + 1))),
    }
}

fn tree_item(src: &mut Src, alpha: &Alphabet, known: &mut Vec<Vec<Seg>>, next: &mut u32, depth: u32) -> Item {
    let on = src.chance(3, 4);
    let mut v: Vec<(Vec<Seg>, Item)> = vec![];
    let mut n = 0;
    while src.more(n, if depth == 0 { 4 } else { 1 }, 6) {
        let segs = match src.idx(if depth == 0 { 4 } else { 2 }) {
            // (Whatever is further inside starts where the path ends.)
            0 => vec![],
            1 if !known.is_empty() => {
                let b = src.pick(known).clone();
                vary_pattern(src, alpha, &b, 1)
            }
            _ => {
                let d = src.idx(4);
                pattern(src, alpha, d, 1, &mut vec![])
            }
        };
        let segs: Vec<Seg> = parse_pattern(&pattern_text(src, &segs)).iter().map(|s| s.shape()).collect();
        n += 1;
        if v.iter().any(|e| e.0 == segs) {
            continue;
        }
        if depth == 0 {
            known.push(segs.clone());
        }
        let i = item(src, alpha, known, next, depth);
        v.push((segs, i));
    }
    Item::Tree(on, v)
}

fn make(src: &mut Src, item: &Item) -> Dyn {
    Dyn(match *item {
        Item::Leaf(id) => Box::new(Rec(id)),
        Item::Methods(ref v) => {
            let mut r = MethodRouter::<Dyn>::new();
            for (m, i) in v {
                r.insert(m.clone(), make(src, i));
            }
            Box::new(r)
        }
        Item::Tree(on, ref v) => {
            let mut r = TreeRouter::<Option<Dyn>>::new();
            for (segs, i) in v {
                let text = pattern_text(src, segs);
                r.build().on_path(&text, make(src, i));
            }
            r.find_hyperlinks = on;
            Box::new(r)
        }
        Item::Or(ref a, ref b) => Box::new(OrElse::new(make(src, a), make(src, b))),
    })
}

fn listed(item: &Item, base: &OwnedLink) -> Vec<OwnedLink> {
    match *item {
        Item::Leaf(id) => vec![with(base, None, None, Some(id))],
        Item::Methods(ref v) => v.iter().flat_map(|(m, i)| listed(i, &with(base, Some(m), None, None))).collect(),
        Item::Tree(_, ref v) => {
            let mut out: Vec<OwnedLink> = v.iter().filter(|e| e.0.is_empty()).flat_map(|e| listed(&e.1, base)).collect();
            let children: BTreeSet<_> = v.iter().filter_map(|e| e.0.first().map(child)).collect();
            out.extend(children.iter().map(|c| with(base, None, Some(c), None)));
            out
        }
        Item::Or(ref a, ref b) => {
            let mut out = listed(a, base);
            out.extend(listed(b, base));
            out
        }
    }
}

/// The handler that gets the request and the links it may see.
fn visit(item: &Item, method: &Method, path: &[Vec<u8>], links: Vec<OwnedLink>) -> Option<(u32, Vec<OwnedLink>)> {
    match *item {
        Item::Leaf(id) => Some((id, links)),
        Item::Methods(ref v) => v.iter().find(|e| e.0 == *method).and_then(|e| visit(&e.1, method, path, links)),
        Item::Or(ref a, ref b) => visit(a, method, path, links.clone()).or_else(|| visit(b, method, path, links)),
        Item::Tree(on, ref v) => {
            let none = OwnedLink { method: None, path: vec![], handler: None };
            let mut hits: Vec<(Vec<u8>, &Item)> = v.iter().filter_map(|e| match_route(&e.0, path).map(|m| (m.decisions, &e.1))).collect();
            hits.sort_by(|a, b| a.0.cmp(&b.0));
            let mut all = vec![];
            if on {
                for h in &hits {
                    all.extend(listed(h.1, &none).into_iter().filter(|l| l.method != Some(method.to_string()) || !l.path.is_empty()));
                }
                for (segs, _) in v {
                    for n in 0..segs.len() {
                        if match_route(&segs[..n], path).is_some() {
                            all.push(with(&none, None, Some(&child(&segs[n])), None));
                        }
                    }
                }
            }
            hits.into_iter().filter_map(|h| visit(h.1, method, &[], all.clone())).next()
        }
    }
}

fn nested(src: &mut Src, case: &mut Case) -> Res {
    let alpha = Alphabet::draw(src);
    let mut known = vec![];
    let mut next = 0;
    let top = tree_item(src, &alpha, &mut known, &mut next, 0);
    let extra = if src.flip() { Some(item(src, &alpha, &mut known, &mut next, 1)) } else { None };
    let top = match extra {
        Some(e) => Item::Or(Box::new(top), Box::new(e)),
        None => top,
    };
    case.note(|| format!("{:?}", top));
    let router = make(src, &top);
    for _ in 0..src.range(1, 4) {
        let segs = request_segments(src, &alpha, &known);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = src.pick(&[Method::Get, Method::Post, Method::Put]).clone();
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        let hits = dispatch(&router, &method, &path).0;
        let (id, want) = match visit(&top, &method, &segs, vec![]) {
            Some(v) => v,
            None => {
                ensure!(hits.is_empty(), "wrong handler", "a handler ran");
                continue;
            }
        };
        ensure!(hits.len() == 1 && hits[0].id == id, "wrong handler", "handlers that ran: {:?}, expected {}", hits.iter().map(|h| h.id).collect::<Vec<_>>(), id);
        // A link to the very node may be there.
        let here = |l: &&OwnedLink| l.method.is_some() || !l.path.is_empty();
        let got: Vec<Key> = hits[0].links.iter().filter(here).map(key).collect();
        let mut keys: Vec<Key> = want.iter().filter(here).map(key).collect();
        keys.sort();
        keys.dedup();
        ensure!(got == keys, "links", "links seen by handler {}\n     got: {:?}\nexpected: {:?}", id, got, keys);
        for l in &hits[0].links {
            ensure!(want.iter().any(|w| key(w) == key(l) && w.handler == l.handler), "link handler", "link {:?} is none of {:?}", l, want);
        }
        let deep = want.iter().any(|l| l.method.is_some() && !l.path.is_empty());
        case.label_if(deep, "links below a method");
        case.nontrivial_if(keys.len() > 1);
    }
    Ok(())
}

// -- ordering

fn link_method(src: &mut Src) -> Option<Method> {
    match src.idx(3) {
        0 => None,
        1 => Some(method(src)),
        _ => Some(Method::Extension(src.pick(&["GET", "GEU", "GE", "get", "POST", "", "A", "Z"]).to_string())),
    }
}

fn ordering(src: &mut Src, case: &mut Case) -> Res {
    let pool: Vec<MaybeUtf8Owned> = {
        let n = src.range(1, 3);
        (0..n).map(|_| segment(src).into()).collect()
    };
    let handler = Rec(0);
    let mut links: Vec<Link> = vec![];
    for _ in 0..3 {
        let mut l = if !links.is_empty() && src.flip() { src.pick(&links).clone() } else { Link { method: link_method(src), path: vec![], handler: None } };
        match src.idx(4) {
            0 => l.method = link_method(src),
            1 => l.handler = Some(&handler),
            2 => {
                l.path.pop();
            }
            _ => {
                let n = src.idx(3);
                for _ in 0..n {
                    let ty = match src.idx(3) {
                        0 => SegmentType::Static,
                        1 => SegmentType::VariableSegment,
                        _ => SegmentType::VariableSequence,
                    };
                    let p = src.idx(pool.len());
                    l.path.push(LinkSegment { label: pool[p].as_slice(), ty });
                }
            }
        }
        links.push(l);
    }
    case.note(|| format!("{:?}", links));
    let same_fields = |a: &Link, b: &Link| a.method == b.method && own_link(a).path == own_link(b).path;
    for a in &links {
        for b in &links {
            let o = a.cmp(b);
            ensure_eq!(a == b, same_fields(a, b), "equality", "{:?} == {:?}", a, b);
            ensure_eq!(o == Ordering::Equal, a == b, "ordering", "{:?} and {:?} compare as {:?}", a, b, o);
            ensure_eq!(b.cmp(a), o.reverse(), "ordering", "antisymmetry of {:?} and {:?}", a, b);
            ensure_eq!(a.partial_cmp(b), Some(o), "ordering", "partial order of {:?} and {:?}", a, b);
            for c in &links {
                if o != Ordering::Greater && b.cmp(c) != Ordering::Greater {
                    ensure!(a.cmp(c) != Ordering::Greater, "ordering", "{:?} <= {:?} <= {:?} is not transitive", a, b, c);
                }
            }
        }
    }
    let distinct = (0..3).flat_map(|i| (0..i).map(move |j| (i, j))).filter(|&(i, j)| links[i] != links[j]).count();
    case.nontrivial_if(distinct > 1 && links.iter().any(|l| !l.path.is_empty()));
    case.label_if(distinct < 3, "equal links");
    Ok(())
}

fn main() {
    runner::main("P06", "several nodes match the request and there are at least two links; a listing with several handlers and children; a triple of links with at most one equal pair and a path", &[
        Prop { name: "big tables", quick: 600, thorough: 30_000, run: seen_in_big_tables },
        Prop { name: "seen by handlers", quick: 500_000, thorough: 6_000_000, run: seen_by_handlers },
        Prop { name: "other trees", quick: 240_000, thorough: 3_000_000, run: other_trees },
        Prop { name: "listing", quick: 200_000, thorough: 2_000_000, run: listing },
        Prop { name: "nested", quick: 240_000, thorough: 3_000_000, run: nested },
        Prop { name: "ordering", quick: 300_000, thorough: 3_000_000, run: ordering },
    ]);
}
