//! P04: merging a router is the same as registering its routes there.
use pbt::build::{fallback_method, on_pair, select_paired, Paired};
use pbt::routes::*;
use pbt::*;
use rustful::handler::{HandleRequest, Merge, MethodRouter, StatusRouter, TreeRouter, Variables};
use rustful::{DefaultRouter, Method, OrElse, StatusCode};

type ByPath = TreeRouter<Option<Variables<Rec>>>;
type ByMethod = MethodRouter<ByPath>;

/// What a merged router amounts to.
#[derive(Clone, Default)]
struct Model {
    routes: Vec<Route>,
    /// Nodes that exist without any registration.
    nodes: Vec<Vec<Seg>>,
}

impl Model {
    fn absorb(&mut self, at: &[Seg], other: Model) {
        self.nodes.push(at.to_vec());
        for mut n in other.nodes {
            n.splice(0..0, at.iter().cloned());
            self.nodes.push(n);
        }
        for mut r in other.routes {
            r.segs.splice(0..0, at.iter().cloned());
            self.routes.push(r);
        }
    }

    fn known(&self, path: &[Vec<u8>]) -> bool {
        node_matches(&self.routes, path) || self.nodes.iter().any(|n| (1..n.len() + 1).any(|k| match_route(&n[..k], path).is_some()))
    }
}

/// Names are made unique per merge level.
fn tag(segs: Vec<Seg>, level: u8) -> Vec<Seg> {
    let t = |mut n: Vec<u8>| {
        if !n.is_empty() {
            n.extend_from_slice(&[b'~', level]);
        }
        n
    };
    segs.into_iter().map(|s| match s {
        Seg::Var(n) => Seg::Var(t(n)),
        Seg::Seq(n) => Seg::Seq(t(n)),
        s => s,
    }).collect()
}

struct Gen {
    t: Table,
    next: u32,
    merges: usize,
    log: Vec<String>,
}

trait Kit: Sized {
    fn empty() -> Self;
    fn put(&mut self, r: &Route);
    /// `how` selects between equivalent ways.
    fn join(&mut self, at: &[u8], how: usize, other: Self);
    const AT_PATH: bool;
    const METHODS: bool;
}

impl Kit for DefaultRouter<Rec> {
    fn empty() -> Self {
        TreeRouter::new()
    }
    fn put(&mut self, r: &Route) {
        self.build().path(&r.pattern).then().on(r.method.clone(), Rec(r.id));
    }
    fn join(&mut self, at: &[u8], how: usize, other: Self) {
        if how == 0 && split(at).is_empty() {
            self.merge(other);
        } else if how == 1 {
            self.build().path(at).many(|b| {
                b.merge(other);
            });
        } else {
            self.build().path(at).merge(other);
        }
    }
    const AT_PATH: bool = true;
    const METHODS: bool = true;
}

impl Kit for ByPath {
    fn empty() -> Self {
        TreeRouter::new()
    }
    fn put(&mut self, r: &Route) {
        self.build().on_path(&r.pattern, Rec(r.id));
    }
    fn join(&mut self, at: &[u8], how: usize, other: Self) {
        if how == 0 && split(at).is_empty() {
            self.merge(other);
        } else {
            self.build().path(at).merge(other);
        }
    }
    const AT_PATH: bool = true;
    const METHODS: bool = false;
}

impl Kit for ByMethod {
    fn empty() -> Self {
        MethodRouter::new()
    }
    fn put(&mut self, r: &Route) {
        self.build().method::<Rec>(r.method.clone()).on_path(&r.pattern, Rec(r.id));
    }
    fn join(&mut self, _: &[u8], how: usize, other: Self) {
        if how == 0 {
            self.merge(other);
        } else {
            self.build().merge(other);
        }
    }
    const AT_PATH: bool = false;
    const METHODS: bool = true;
}

impl Kit for Paired {
    fn empty() -> Self {
        TreeRouter::new()
    }
    fn put(&mut self, r: &Route) {
        on_pair(&mut self.build().path(&r.pattern), r.id % 2 == 0, r.id % 3 == 0, r);
    }
    fn join(&mut self, at: &[u8], how: usize, other: Self) {
        if how == 0 && split(at).is_empty() {
            self.merge(other);
        } else {
            self.build().path(at).merge(other);
        }
    }
    const AT_PATH: bool = true;
    const METHODS: bool = true;
}

fn fresh_pattern(src: &mut Src, g: &Gen) -> Vec<Seg> {
    if !g.t.patterns.is_empty() && src.chance(3, 5) {
        let base = src.pick(&g.t.patterns).clone();
        vary_pattern(src, &g.t.alpha, &base, 2)
    } else {
        let d = src.idx(5);
        pattern(src, &g.t.alpha, d, 2, &mut vec![])
    }
}

fn grow<K: Kit>(src: &mut Src, g: &mut Gen, methods: &[Method], depth: u8) -> (K, Model) {
    let mut router = K::empty();
    let mut model = Model::default();
    let mut n = 0;
    while src.more(n, 3, 8) {
        let segs = tag(fresh_pattern(src, g), depth + b'0');
        let text = pattern_text(src, &segs);
        let m = if K::METHODS { src.pick(methods).clone() } else { Method::Get };
        let r = Route { segs: parse_pattern(&text), pattern: text, method: m, id: g.next };
        g.next += 1;
        g.t.patterns.push(r.segs.clone());
        g.log.push(format!("on({}, {}, {})", r.method, gen::show(&r.pattern), r.id));
        router.put(&r);
        model.routes.push(r);
        n += 1;
    }
    let mut merges = 0;
    while depth < 4 && if depth == 0 && merges == 0 { true } else { src.chance(1, 3) } && merges < 3 {
        let at = if K::AT_PATH && src.chance(3, 4) {
            let d = 1 + src.idx(2);
            let p = match src.weighted(&[2, 2]) {
                0 => pattern(src, &g.t.alpha, d, 1, &mut vec![]),
                _ => {
                    let mut p = src.pick(&[&g.t.patterns[..], &[vec![Seg::Var(b"v".to_vec())]]].concat()).clone();
                    p.truncate(d);
                    p
                }
            };
            tag(p, b'a' + depth * 3 + merges)
        } else {
            vec![]
        };
        let text = pattern_text(src, &at);
        let at = parse_pattern(&text);
        g.log.push(format!("merge at {} {{", gen::show(&text)));
        let (other, sub) = grow::<K>(src, g, methods, depth + 1);
        g.log.push("}".into());
        let how = src.idx(3);
        router.join(&text, how, other);
        if K::AT_PATH {
            for r in &sub.routes {
                let mut p = at.clone();
                p.extend(r.segs.clone());
                g.t.patterns.push(p);
            }
        }
        model.absorb(&at, sub);
        g.merges += 1;
        merges += 1;
        // Registrations after the merge.
        if src.chance(1, 3) {
            let segs = tag(fresh_pattern(src, g), depth + b'0');
            let text = pattern_text(src, &segs);
            let m = if K::METHODS { src.pick(methods).clone() } else { Method::Get };
            let r = Route { segs: parse_pattern(&text), pattern: text, method: m, id: g.next };
            g.next += 1;
            g.log.push(format!("on({}, {}, {})", r.method, gen::show(&r.pattern), r.id));
            router.put(&r);
            model.routes.push(r);
        }
    }
    (router, model)
}

fn status(kit: u8, model: &Model, other: &Outcome, method: &Method, path: &[Vec<u8>]) -> u16 {
    match kit {
        0 | 3 if *other == Outcome::WrongMethod || model.known(path) => 405,
        2 if !model.routes.iter().any(|r| r.method == *method) => 405,
        _ => 404,
    }
}

fn merged<K: Kit + HandleRequest>(src: &mut Src, case: &mut Case, kit: u8) -> Res {
    let alpha = Alphabet::draw(src);
    let mut methods: Vec<Method> = {
        let n = src.range(1, 3);
        (0..n).map(|_| method(src)).collect()
    };
    if kit == 3 {
        methods.push(fallback_method());
    }
    let mut g = Gen { t: Table { alpha, routes: vec![], patterns: vec![] }, next: 0, merges: 0, log: vec![] };
    let (router, model) = grow::<K>(src, &mut g, &methods, 0);
    case.note(|| g.log.join(" "));
    let eff = effective(&model.routes);
    case.label_if(eff.len() < model.routes.len(), "replaced registration");
    case.label_if(g.merges > 1, "several merges");
    let patterns: Vec<Vec<Seg>> = model.routes.iter().map(|r| r.segs.clone()).collect();
    let n = src.range(1, 5);
    let mut inherited = false;
    for _ in 0..n {
        let segs = request_segments(src, &g.t.alpha, &patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = request_method(src, &model.routes);
        let method = if K::METHODS && method != fallback_method() { method } else { Method::Get };
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        let (hits, back) = dispatch(&router, &method, &path);
        let got: Vec<(u32, Vars)> = hits.iter().map(|h| (h.id, h.vars.clone())).collect();
        let want = if kit == 3 { select_paired(&model.routes, &method, &segs) } else { select(&eff, &method, &segs) };
        match want {
            Outcome::Handled { id, vars } => {
                let levels: std::collections::HashSet<u8> = vars.keys().map(|k| k[k.len() - 1]).collect();
                inherited |= levels.len() > 1;
                ensure!(got == vec![(id, vars.clone())], "merged routes", "handlers and variables\n     got: {:?}\nexpected: {:?}", got, (id, vars));
            }
            other => {
                ensure!(got.is_empty(), "merged routes", "handler {:?} ran, expected none", got);
                let want = status(kit, &model, &other, &method, &segs);
                ensure_eq!(back, Some(want), "status", "status of the returned request");
            }
        }
    }
    case.label_if(inherited, "names of the merge point and own names");
    case.nontrivial_if(inherited || eff.len() < model.routes.len());
    Ok(())
}

fn default_router(src: &mut Src, case: &mut Case) -> Res {
    merged::<DefaultRouter<Rec>>(src, case, 0)
}

fn path_only(src: &mut Src, case: &mut Case) -> Res {
    merged::<ByPath>(src, case, 1)
}

fn method_then_path(src: &mut Src, case: &mut Case) -> Res {
    merged::<ByMethod>(src, case, 2)
}

fn with_fallbacks(src: &mut Src, case: &mut Case) -> Res {
    merged::<Paired>(src, case, 3)
}

/// Method routers merged into a node of a tree, status routers and fallback
/// pairs.
fn parts(src: &mut Src, case: &mut Case) -> Res {
    let alpha = Alphabet::draw(src);
    let statuses = [404u16, 405, 200, 500, 418];

    type Both = OrElse<DefaultRouter<Rec>, StatusRouter<Variables<Rec>>>;
    let mut made: Vec<(Both, Vec<Route>, Vec<(u16, u32)>)> = vec![];
    let mut id = 0;
    let mut patterns: Vec<Vec<Seg>> = vec![];
    let mut log = vec![];
    for level in 0..2 + src.idx(2) {
        let mut tree = DefaultRouter::<Rec>::new();
        let mut routes: Vec<Route> = vec![];
        let mut n = 0;
        while src.more(n, 2, 5) {
            let segs = if !patterns.is_empty() && src.flip() {
                let b = src.pick(&patterns).clone();
                vary_pattern(src, &alpha, &b, 2)
            } else {
                let d = src.idx(4);
                pattern(src, &alpha, d, 2, &mut vec![])
            };
            let text = pattern_text(src, &segs);
            let segs = parse_pattern(&text);
            patterns.push(segs.clone());
            // A whole method router at once.
            let mut at = MethodRouter::<Variables<Rec>>::new();
            let k = src.range(1, 3);
            for _ in 0..k {
                let m = src.pick(&[Method::Get, Method::Post, Method::Put]).clone();
                log.push(format!("[{}] on({}, {}, {})", level, m, gen::show(&text), id));
                if src.flip() {
                    at.build().on(m.clone(), Rec(id));
                    routes.push(Route { segs: segs.clone(), pattern: text.clone(), method: m, id });
                } else {
                    at.build().many(|b| b.on(m.clone(), Rec(id)));
                    routes.push(Route { segs: segs.clone(), pattern: text.clone(), method: m, id });
                }
                id += 1;
            }
            tree.build().path(&text).then().merge(at);
            n += 1;
        }
        let mut by_status = StatusRouter::<Variables<Rec>>::new();
        let mut table: Vec<(u16, u32)> = vec![];
        let mut n = 0;
        while src.more(n, 2, 4) {
            let s = *src.pick(&statuses);
            log.push(format!("[{}] on({}, {})", level, s, id));
            by_status.build().on(StatusCode::from_u16(s), Rec(id));
            table.push((s, id));
            id += 1;
            n += 1;
        }
        made.push((OrElse::new(tree, by_status), routes, table));
    }
    // Merge from the right or from the left; the order of registration stays.
    let right = src.flip();
    let separate = src.flip();
    while made.len() > 1 {
        let i = if right { made.len() - 2 } else { 0 };
        let (b, br, bt) = made.remove(i + 1);
        let (a, ar, at) = &mut made[i];
        ar.extend(br);
        at.extend(bt);
        if separate {
            let OrElse { primary, secondary } = b;
            a.primary.build().merge(primary);
            a.secondary.build().merge(secondary);
        } else {
            a.merge(b);
        }
    }
    case.note(|| format!("{} merged {}", log.join(" "), if right { "from the right" } else { "from the left" }));
    let (router, routes, table) = made.pop().unwrap();
    let eff = effective(&routes);
    let replaced = eff.len() < routes.len() || table.iter().enumerate().any(|(i, a)| table[i + 1..].iter().any(|b| a.0 == b.0));
    case.label_if(replaced, "replaced registration");
    let mut fallback = false;
    let n = src.range(1, 4);
    for _ in 0..n {
        let segs = request_segments(src, &alpha, &patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = request_method(src, &routes);
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        let (hits, back) = dispatch(&router, &method, &path);
        let got: Vec<(u32, Vars)> = hits.iter().map(|h| (h.id, h.vars.clone())).collect();
        let (want, status) = match select(&eff, &method, &segs) {
            Outcome::Handled { id, vars } => (vec![(id, vars)], None),
            other => {
                let s = if other == Outcome::WrongMethod || node_matches(&routes, &segs) { 405 } else { 404 };
                match table.iter().rev().find(|t| t.0 == s) {
                    Some(t) => {
                        fallback = true;
                        (vec![(t.1, Vars::new())], None)
                    }
                    None => (vec![], Some(s)),
                }
            }
        };
        ensure!(got == want, "merged parts", "handlers and variables\n     got: {:?}\nexpected: {:?}", got, want);
        ensure_eq!(back, status, "status", "status of the returned request");
    }
    case.label_if(fallback, "fallback ran");
    case.nontrivial_if(replaced);
    Ok(())
}

type V = Variables<Rec>;
type Inner = OrElse<StatusRouter<V>, Option<V>>;

fn named(id: u32) -> V {
    rustful::handler::FromHandler::from_handler(rustful::handler::BuilderContext::new(), Rec(id))
}

/// What is merged into a node takes over the names of the path there, however
/// deep it is nested.
fn nested_parts(src: &mut Src, case: &mut Case) -> Res {
    let alpha = Alphabet::draw(src);
    let mut tree = TreeRouter::<MethodRouter<Inner>>::new();
    // (pattern, method) and the handlers for status 200, another and the rest
    let mut model: Vec<(Route, Option<Route>, Option<Route>)> = vec![];
    let mut patterns: Vec<Vec<Seg>> = vec![];
    let mut all: Vec<Route> = vec![];
    let mut id = 0;
    let mut n = 0;
    let mut replaced = false;
    while src.more(n, 3, 8) {
        let segs = if !patterns.is_empty() && src.flip() {
            let b = src.pick(&patterns).clone();
            vary_pattern(src, &alpha, &b, 2)
        } else {
            let d = src.idx(4);
            pattern(src, &alpha, d, 2, &mut vec![])
        };
        let text = pattern_text(src, &segs);
        let segs = parse_pattern(&text);
        patterns.push(segs.clone());
        let mut at = MethodRouter::<Inner>::new();
        let mut used = vec![];
        for _ in 0..src.range(1, 2) {
            let m = src.pick(&[Method::Get, Method::Post]).clone();
            if used.contains(&m) {
                continue;
            }
            used.push(m.clone());
            let route = |id: u32| Route { segs: segs.clone(), pattern: text.clone(), method: m.clone(), id };
            let mut by_status = StatusRouter::<V>::new();
            let mut primary = None;
            for _ in 0..src.range(0, 2) {
                let s = *src.pick(&[200u16, 404, 500]);
                case.note(|| format!("{} {}: status {} -> {}", m, gen::show(&text), s, id));
                match src.idx(2) {
                    0 => by_status.insert(StatusCode::from_u16(s), named(id)),
                    _ => by_status.build().on(StatusCode::from_u16(s), Rec(id)),
                }
                if s == 200 {
                    primary = Some(route(id));
                }
                id += 1;
            }
            let mut rest = None;
            let mut secondary = None;
            if src.flip() {
                case.note(|| format!("{} {}: otherwise -> {}", m, gen::show(&text), id));
                rest = Some(named(id));
                secondary = Some(route(id));
                id += 1;
            }
            let inner = match src.idx(3) {
                0 if rest.is_none() => OrElse::with_primary(by_status),
                1 if primary.is_none() => OrElse::with_secondary(rest),
                _ => OrElse::new(by_status, rest),
            };
            match src.idx(2) {
                0 => at.insert(m.clone(), inner),
                _ => {
                    let mut part = MethodRouter::new();
                    part.insert(m.clone(), inner);
                    at.build().merge(part);
                }
            }
            let key = route(0);
            all.push(key.clone());
            match model.iter_mut().find(|e| e.0.shape() == key.shape() && e.0.method == m) {
                Some(e) => {
                    replaced = true;
                    if primary.is_some() {
                        e.1 = primary;
                    }
                    if secondary.is_some() {
                        e.2 = secondary;
                    }
                }
                None => model.push((key, primary, secondary)),
            }
        }
        if src.flip() {
            tree.build().path(&text).then().merge(at);
        } else {
            // By way of a tree of its own.
            let cut = src.range(0, segs.len());
            let (a, b) = segs.split_at(cut);
            let (a, b) = (pattern_text(src, a), pattern_text(src, b));
            if [parse_pattern(&a), parse_pattern(&b)].concat() == segs {
                let mut other = TreeRouter::<MethodRouter<Inner>>::new();
                other.build().path(&b).then().merge(at);
                tree.build().path(&a).merge(other);
            } else {
                tree.build().path(&text).then().merge(at);
            }
        }
        n += 1;
    }
    let routes: Vec<Route> = model.iter().filter_map(|e| e.1.clone().or_else(|| e.2.clone())).collect();
    let eff = effective(&routes);
    let n = src.range(1, 4);
    let mut vars_seen = false;
    for _ in 0..n {
        let segs = request_segments(src, &alpha, &patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = request_method(src, &all);
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        let (hits, _) = dispatch(&tree, &method, &path);
        let got: Vec<(u32, Vars)> = hits.iter().map(|h| (h.id, h.vars.clone())).collect();
        let want = match select(&eff, &method, &segs) {
            Outcome::Handled { id, vars } => vec![(id, vars)],
            _ => vec![],
        };
        vars_seen |= want.iter().any(|w| !w.1.is_empty());
        ensure!(got == want, "nested parts", "handlers and variables\n     got: {:?}\nexpected: {:?}", got, want);
    }
    case.label_if(replaced, "replaced registration");
    case.nontrivial_if(replaced || vars_seen);
    Ok(())
}

type Whole = OrElse<Option<StatusRouter<DefaultRouter<Rec>>>, Option<MethodRouter<StatusRouter<ByPath>>>>;

/// Sets a status before the router is asked.
struct After<R>(R, u16);

impl<R: HandleRequest> HandleRequest for After<R> {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut e: rustful::handler::Environment<'a, 'b, 'l, 'g>) -> Result<(), rustful::handler::Environment<'a, 'b, 'l, 'g>> {
        e.response.set_status(StatusCode::from_u16(self.1));
        self.0.handle_request(e)
    }

    fn hyperlinks<'a>(&'a self, base: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> {
        self.0.hyperlinks(base)
    }
}

/// Whole trees within parts that are merged: everything in both is kept.
fn whole_trees(src: &mut Src, case: &mut Case) -> Res {
    let alpha = Alphabet::draw(src);
    let statuses = [200u16, 404, 405, 500];
    let mut patterns: Vec<Vec<Seg>> = vec![];
    // (in the first part, status, route)
    let mut made: Vec<(Whole, Vec<(bool, u16, Route)>)> = vec![];
    let mut id = 0;
    let mut log = vec![];
    for level in 0..2 + src.idx(2) {
        let mut first: Option<StatusRouter<DefaultRouter<Rec>>> = None;
        let mut second: Option<MethodRouter<StatusRouter<ByPath>>> = None;
        let mut table = vec![];
        let mut n = 0;
        let mut trees: Vec<(u16, DefaultRouter<Rec>)> = vec![];
        let mut plain: Vec<(Method, u16, ByPath)> = vec![];
        while src.more(n, 3, 8) {
            let segs = if !patterns.is_empty() && src.chance(2, 3) {
                let b = src.pick(&patterns).clone();
                vary_pattern(src, &alpha, &b, 2)
            } else {
                let d = src.idx(4);
                pattern(src, &alpha, d, 2, &mut vec![])
            };
            let text = pattern_text(src, &segs);
            let segs = parse_pattern(&text);
            patterns.push(segs.clone());
            let s = *src.pick(&statuses);
            let m = src.pick(&[Method::Get, Method::Post]).clone();
            let one = src.flip();
            log.push(format!("[{}] {} {} {} {} -> {}", level, if one { "first" } else { "second" }, s, m, gen::show(&text), id));
            let route = Route { segs, pattern: text.clone(), method: m.clone(), id };
            if one {
                let i = match trees.iter().position(|t| t.0 == s) {
                    Some(i) => i,
                    None => {
                        trees.push((s, TreeRouter::new()));
                        trees.len() - 1
                    }
                };
                trees[i].1.build().path(&text).then().on(m, Rec(id));
            } else {
                let i = match plain.iter().position(|t| t.0 == m && t.1 == s) {
                    Some(i) => i,
                    None => {
                        plain.push((m, s, TreeRouter::new()));
                        plain.len() - 1
                    }
                };
                plain[i].2.build().on_path(&text, Rec(id));
            }
            table.push((one, s, route));
            id += 1;
            n += 1;
        }
        if !trees.is_empty() || src.chance(1, 4) {
            let mut r = StatusRouter::new();
            for (s, t) in trees {
                r.insert(StatusCode::from_u16(s), t);
            }
            first = Some(r);
        }
        if !plain.is_empty() || src.chance(1, 4) {
            let mut r = MethodRouter::new();
            for (m, s, t) in plain {
                let mut at = StatusRouter::new();
                at.insert(StatusCode::from_u16(s), t);
                let mut part = MethodRouter::new();
                part.insert(m, at);
                r.merge(part);
            }
            second = Some(r);
        }
        made.push((OrElse::new(first, second), table));
    }
    let right = src.flip();
    while made.len() > 1 {
        let i = if right { made.len() - 2 } else { 0 };
        let (b, bt) = made.remove(i + 1);
        let (a, at) = &mut made[i];
        at.extend(bt);
        match src.idx(3) {
            0 => a.merge(b),
            1 => {
                a.primary.merge(b.primary);
                a.secondary.merge(b.secondary);
            }
            _ => {
                match (&mut a.primary, b.primary) {
                    (&mut Some(ref mut a), Some(b)) => {
                        a.build().merge(b);
                    }
                    (a, b) => a.merge(b),
                }
                match (&mut a.secondary, b.secondary) {
                    (&mut Some(ref mut a), Some(b)) => {
                        a.build().merge(b);
                    }
                    (a, b) => a.merge(b),
                }
            }
        }
    }
    case.note(|| format!("{} merged {}", log.join("; "), if right { "from the right" } else { "from the left" }));
    let (router, table) = made.pop().unwrap();
    let at = |one: bool, s: u16| -> Vec<Route> { table.iter().filter(|t| t.0 == one && t.1 == s).map(|t| t.2.clone()).collect() };
    let mut router = After(router, 200);
    let mut nontrivial = false;
    let n = src.range(1, 4);
    for _ in 0..n {
        let segs = request_segments(src, &alpha, &patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = src.pick(&[Method::Get, Method::Post, Method::Put]).clone();
        router.1 = *src.pick(&statuses);
        case.note(|| format!("request: {} {} after {}", method, gen::show(&path), router.1));
        let (hits, back) = dispatch(&router, &method, &path);
        let got: Vec<(u32, Vars)> = hits.iter().map(|h| (h.id, h.vars.clone())).collect();
        let mut want = vec![];
        let mut status = router.1;
        // A part that isn't there leaves 404.
        match router.0.primary {
            None => status = 404,
            Some(_) => {
                let routes = at(true, status);
                if !routes.is_empty() {
                    match select(&effective(&routes), &method, &segs) {
                        Outcome::Handled { id, vars } => want.push((id, vars)),
                        Outcome::WrongMethod => status = 405,
                        _ => status = if node_matches(&routes, &segs) { 405 } else { 404 },
                    }
                }
            }
        }
        if want.is_empty() {
            if router.0.secondary.is_none() {
                status = 404;
            } else if !table.iter().any(|t| !t.0 && t.2.method == method) {
                status = 405;
            } else {
                let routes: Vec<Route> = at(false, status).into_iter().filter(|r| r.method == method).collect();
                if !routes.is_empty() {
                    match select(&effective(&routes), &method, &segs) {
                        Outcome::Handled { id, vars } => want.push((id, vars)),
                        _ => status = 404,
                    }
                }
            }
        }
        nontrivial |= !want.is_empty();
        let back_want = if want.is_empty() { Some(status) } else { None };
        ensure!(got == want, "whole trees", "handlers and variables\n     got: {:?}\nexpected: {:?}", got, want);
        ensure_eq!(back, back_want, "status", "status of the returned request");
    }
    case.nontrivial_if(nontrivial);
    Ok(())
}

fn main() {
    runner::main("P04", "a merged registration replaces another, or a request's variables come from more than one merge level, or merged trees within parts answer a request", &[
        Prop { name: "path then method", quick: 400_000, thorough: 5_000_000, run: default_router },
        Prop { name: "path only", quick: 300_000, thorough: 3_000_000, run: path_only },
        Prop { name: "method then path", quick: 200_000, thorough: 2_000_000, run: method_then_path },
        Prop { name: "method with fallback", quick: 200_000, thorough: 2_000_000, run: with_fallbacks },
        Prop { name: "parts", quick: 200_000, thorough: 2_000_000, run: parts },
        Prop { name: "whole trees", quick: 200_000, thorough: 2_000_000, run: whole_trees },
        Prop { name: "nested parts", quick: 200_000, thorough: 2_000_000, run: nested_parts },
    ]);
}
