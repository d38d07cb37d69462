//! P03: every way of building the same routes gives the same router.
use pbt::build::*;
use pbt::routes::*;
use pbt::*;
use rustful::handler::tree_router::Builder;
use rustful::handler::{ApplyContext, BuilderContext, FromHandler, MethodRouter, TreeRouter, Variables};
use rustful::{DefaultRouter, Method};

#[derive(Clone, Copy)]
enum Kind {
    PathThenMethod,
    MethodThenPath,
    PathOnly,
}

fn compare<R: rustful::handler::HandleRequest>(router: &R, kind: Kind, routes: &[Route], method: &Method, path: &[u8], log: &[String]) -> Res {
    let segs = split(path);
    let (hits, back) = dispatch(router, method, path);
    let got: Vec<(u32, Vars)> = hits.iter().map(|h| (h.id, h.vars.clone())).collect();
    let (want, status) = match select(&effective(routes), method, &segs) {
        Outcome::Handled { id, vars } => (vec![(id, vars)], None),
        other => (vec![], Some(match kind {
            Kind::PathThenMethod if other == Outcome::WrongMethod || node_matches(routes, &segs) => 405u16,
            Kind::MethodThenPath if !routes.iter().any(|r| r.method == *method) => 405,
            _ => 404,
        })),
    };
    ensure!(got == want, "different router", "handlers and variables\n     got: {:?}\nexpected: {:?}\nbuilt by: {}", got, want, log.join(" "));
    ensure!(back == status, "status", "status of the returned request\n     got: {:?}\nexpected: {:?}\nbuilt by: {}", back, status, log.join(" "));
    Ok(())
}

fn requests(src: &mut Src, case: &mut Case, t: &Table, made: &Made, f: &mut dyn FnMut(&Method, &[u8]) -> Res) -> Res {
    let groups = made.log.iter().filter(|l| l.ends_with('{')).count();
    let lookups = made.log.iter().filter(|l| l.starts_with("get_path")).count();
    case.label_if(groups > 0, "nested group");
    case.label_if(lookups > 0, "lookup");
    case.label_if(made.log.iter().any(|l| l.starts_with("on_route")), "on_route");
    let eff = effective(&t.routes).len();
    case.label_if(eff < t.routes.len(), "replaced registration");
    let n = src.range(1, 4);
    for _ in 0..n {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let path = join(src, &segs);
        let method = request_method(src, &t.routes);
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        f(&method, &path)?;
    }
    case.nontrivial_if(t.routes.len() > 1 && (groups + lookups > 0 || eff < t.routes.len()));
    Ok(())
}

fn path_then_method(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 5, 14);
    shared_prefixes(src, &mut t);
    case.note(|| format!("routes: {}", t.describe()));
    let routes = t.routes.clone();
    let mut made = Made { log: vec![], done: vec![], nodes: vec![], all: &routes };
    // The beginning may be collected from an iterator.
    let first = if src.chance(1, 3) { src.range(0, routes.len()) } else { 0 };
    let mut router: DefaultRouter<Rec> = routes[..first].iter().map(|r| (r.method.clone(), r.pattern.clone(), Rec(r.id))).collect();
    made.log.push(format!("collect({})", first));
    made.done.extend_from_slice(&routes[..first]);
    case.label_if(first > 1, "collected");
    build(src, &mut router.build(), &mut made, &[], &routes[first..], &end_default, None)?;
    check_lookup(src, &t, &mut router.build(), made.all)?;
    requests(src, case, &t, &made, &mut |m, p| compare(&router, Kind::PathThenMethod, &routes, m, p, &made.log))
}

fn check_lookup<T>(src: &mut Src, t: &Table, b: &mut Builder<T>, routes: &[Route]) -> Res {
    let p = if src.chance(3, 4) {
        let mut p = src.pick(&t.patterns).clone();
        let n = src.range(0, p.len());
        p.truncate(n);
        p
    } else {
        pattern(src, &t.alpha, 2, 1, &mut vec![])
    };
    let text = pattern_text(src, &p);
    let p = parse_pattern(&text);
    ensure_eq!(b.get_path(&text).is_some(), node_exists(routes, &p), "lookup", "get_path({})", gen::show(&text));
    Ok(())
}

fn path_only(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 5, 14);
    shared_prefixes(src, &mut t);
    for r in &mut t.routes {
        r.method = Method::Get;
    }
    case.note(|| format!("routes: {}", t.describe()));
    let routes = t.routes.clone();
    let mut made = Made { log: vec![], done: vec![], nodes: vec![], all: &routes };
    let (mut router, first) = if routes[0].segs.is_empty() && src.flip() {
        made.log.push("with_handler(0)".into());
        made.done.push(routes[0].clone());
        let r = if src.flip() {
            ByPath::from_handler(BuilderContext::new(), Rec(routes[0].id))
        } else {
            TreeRouter::with_handler(Plain::from_handler(BuilderContext::new(), Rec(routes[0].id)))
        };
        (r, 1)
    } else {
        (ByPath::new(), 0)
    };
    build(src, &mut router.build(), &mut made, &[], &routes[first..], &end_plain, Some(&start_plain))?;
    check_lookup(src, &t, &mut router.build(), made.all)?;
    requests(src, case, &t, &made, &mut |_, p| compare(&router, Kind::PathOnly, &routes, &Method::Get, p, &made.log))
}

fn method_then_path(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 5, 14);
    shared_prefixes(src, &mut t);
    case.note(|| format!("routes: {}", t.describe()));
    let routes = t.routes.clone();
    let mut made = Made { log: vec![], done: vec![], nodes: vec![], all: &routes };
    let mut router = MethodRouter::<ByPath>::new();
    let mut known: Vec<Method> = vec![];
    let mut done: Vec<Route> = vec![];
    let mut nodes: Vec<(Method, Vec<Vec<Seg>>)> = vec![];
    let mut i = 0;
    while i < routes.len() {
        let m = routes[i].method.clone();
        let mut n = 1;
        while i + n < routes.len() && routes[i + n].method == m && src.chance(3, 4) {
            n += 1;
        }
        let regs = &routes[i..i + n];
        made.nodes = nodes.iter().find(|n| n.0 == m).map(|n| n.1.clone()).unwrap_or_default();
        made.done = done.iter().filter(|r| r.method == m).cloned().collect();
        let fresh = !known.contains(&m);
        if fresh {
            known.push(m.clone());
        }
        match src.weighted(&[4, 1, 1]) {
            1 if fresh => {
                made.log.push(format!("insert({}, ...)", m));
                let mut tree = ByPath::new();
                build(src, &mut tree.build(), &mut made, &[], regs, &end_plain, Some(&start_plain))?;
                router.insert(m.clone(), tree);
            }
            2 if fresh && regs[0].segs.is_empty() => {
                made.log.push(format!("on({}, {})", m, regs[0].id));
                on_tree(&mut router.build(), &regs[0]);
                made.done.push(regs[0].clone());
                let mut b = router.build();
                build(src, &mut b.method::<Rec>(m.clone()), &mut made, &[], &regs[1..], &end_plain, Some(&start_plain))?;
            }
            _ => {
                made.log.push(format!("method({})", m));
                let mut b = router.build();
                let mut b = match m {
                    Method::Get => b.get::<Rec>(),
                    Method::Post => b.post::<Rec>(),
                    Method::Patch => b.patch::<Rec>(),
                    Method::Put => b.put::<Rec>(),
                    Method::Delete => b.delete::<Rec>(),
                    Method::Options => b.options::<Rec>(),
                    Method::Head => b.head::<Rec>(),
                    Method::Connect => b.connect::<Rec>(),
                    ref m => b.method::<Rec>(m.clone()),
                };
                build(src, &mut b, &mut made, &[], regs, &end_plain, Some(&start_plain))?;
            }
        }
        nodes.retain(|n| n.0 != m);
        nodes.push((m, made.nodes.clone()));
        done.extend_from_slice(regs);
        i += n;
    }
    requests(src, case, &t, &made, &mut |m, p| compare(&router, Kind::MethodThenPath, &routes, m, p, &made.log))
}

/// A fallback for other methods at some of the nodes.
fn paired(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 5, 14);
    shared_prefixes(src, &mut t);
    for r in &mut t.routes {
        if src.chance(1, 3) {
            r.method = fallback_method();
        }
    }
    case.note(|| format!("routes: {}", t.describe()));
    let routes = t.routes.clone();
    let mut made = Made { log: vec![], done: vec![], nodes: vec![], all: &routes };
    let mut router = Paired::new();
    build(src, &mut router.build(), &mut made, &[], &routes, &end_paired, None)?;
    check_lookup(src, &t, &mut router.build(), made.all)?;
    let mut fell = false;
    requests(src, case, &t, &made, &mut |m, p| {
        let get = Method::Get;
        let m = if *m == fallback_method() { &get } else { m };
        let segs = split(p);
        let (hits, back) = dispatch(&router, m, p);
        let got: Vec<(u32, Vars)> = hits.iter().map(|h| (h.id, h.vars.clone())).collect();
        let (want, status) = match select_paired(&routes, m, &segs) {
            Outcome::Handled { id, vars } => (vec![(id, vars)], None),
            _ => (vec![], Some(if node_matches(&routes, &segs) { 405u16 } else { 404 })),
        };
        fell = fell || want.iter().any(|w| routes.iter().any(|r| r.id == w.0 && r.method == fallback_method()));
        ensure!(got == want, "different router", "handlers and variables\n     got: {:?}\nexpected: {:?}\nbuilt by: {}", got, want, made.log.join(" "));
        ensure!(back == status, "status", "status of the returned request\n     got: {:?}\nexpected: {:?}\nbuilt by: {}", back, status, made.log.join(" "));
        Ok(())
    })?;
    case.label_if(fell, "fallback for other methods");
    Ok(())
}

fn on_tree(b: &mut rustful::handler::method_router::Builder<ByPath>, r: &Route) {
    let h = Rec(r.id);
    match r.method {
        Method::Get => b.on_get(h),
        Method::Post => b.on_post(h),
        Method::Patch => b.on_patch(h),
        Method::Put => b.on_put(h),
        Method::Delete => b.on_delete(h),
        Method::Options => b.on_options(h),
        Method::Head => b.on_head(h),
        Method::Connect => b.on_connect(h),
        ref m => b.on(m.clone(), h),
    }
}

fn main() {
    runner::main("P03", "several registrations, built with nesting or lookups of existing nodes, or where one replaces another", &[
        Prop { name: "path then method", quick: 600_000, thorough: 6_000_000, run: path_then_method },
        Prop { name: "path only", quick: 600_000, thorough: 6_000_000, run: path_only },
        Prop { name: "method then path", quick: 400_000, thorough: 4_000_000, run: method_then_path },
        Prop { name: "method with fallback", quick: 400_000, thorough: 4_000_000, run: paired },
    ]);
}
