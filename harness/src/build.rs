//! The many ways of building one router: nested groups, lookups, builders that
//! are returned from registrations, ...

use rustful::handler::tree_router::Builder;
use rustful::handler::{ApplyContext, MethodRouter, TreeRouter, Variables};
use rustful::Method;

use crate::gen;
use crate::routes::*;
use crate::src::Src;
use crate::*;

pub type Plain = Option<Variables<Rec>>;
pub type ByPath = TreeRouter<Plain>;

/// A text for part of a pattern. `None` if there is none.
pub fn piece(src: &mut Src, segs: &[Seg]) -> Option<Vec<u8>> {
    let t = pattern_text(src, segs);
    if parse_pattern(&t) == segs {
        Some(t)
    } else {
        None
    }
}

/// Splits a pattern into texts for nested calls.
pub fn pieces(src: &mut Src, segs: &[Seg]) -> Option<Vec<Vec<u8>>> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        if src.chance(1, 8) {
            out.push(src.pick(&[&b""[..], b"/", b"//"]).to_vec());
        }
        if i == segs.len() {
            break;
        }
        let n = if src.flip() { segs.len() - i } else { 1 + src.idx(segs.len() - i) };
        out.push(piece(src, &segs[i..i + n])?);
        i += n;
    }
    if out.is_empty() {
        out.push(vec![]);
    }
    Some(out)
}

pub fn node_exists(done: &[Route], segs: &[Seg]) -> bool {
    segs.is_empty() || done.iter().any(|r| {
        r.segs.len() >= segs.len() && r.segs.iter().zip(segs).all(|(a, b)| a.shape() == b.shape())
    })
}

/// A step down the tree, through nested builders.
pub enum Step {
    Path(Vec<u8>),
    Lookup(Vec<u8>, bool),
}

pub fn descend<T: Default + ApplyContext>(b: &mut Builder<T>, steps: &[Step], f: &mut dyn FnMut(&mut Builder<T>)) -> Res {
    match steps.first() {
        None => {
            f(b);
            Ok(())
        }
        Some(&Step::Path(ref p)) => descend(&mut b.path(p), &steps[1..], f),
        Some(&Step::Lookup(ref p, expect)) => match b.get_path(p) {
            Some(mut b) => {
                ensure!(expect, "lookup", "get_path({}) found a node that was never registered", gen::show(p));
                descend(&mut b, &steps[1..], f)
            }
            None => {
                ensure!(!expect, "lookup", "get_path({}) did not find a registered node", gen::show(p));
                descend(&mut b.path(p), &steps[1..], f)
            }
        },
    }
}

pub struct Made<'a> {
    pub log: Vec<String>,
    pub done: Vec<Route>,
    /// Where earlier builder calls have been.
    pub nodes: Vec<Vec<Seg>>,
    pub all: &'a [Route],
}

pub fn steps(src: &mut Src, made: &mut Made, base: &[Seg], rest: &[Seg]) -> Vec<Step> {
    let parts = match pieces(src, rest) {
        Some(p) => p,
        None => match piece(src, rest) {
            Some(p) => vec![p],
            None => pattern_fallback(rest),
        },
    };
    let mut at = base.to_vec();
    parts.into_iter().map(|p| {
        at.extend(parse_pattern(&p));
        if src.chance(1, 4) {
            made.log.push(format!("get_path({})", gen::show(&p)));
            let exists = node_exists(&made.done, &at) || made.nodes.iter().any(|n| {
                n.len() >= at.len() && n.iter().zip(&at).all(|(a, b)| a.shape() == b.shape())
            });
            made.nodes.push(at.clone());
            Step::Lookup(p, exists)
        } else {
            made.log.push(format!("path({})", gen::show(&p)));
            made.nodes.push(at.clone());
            Step::Path(p)
        }
    }).collect()
}

/// Only for a remainder of one empty segment, which has no text of its own;
/// callers avoid that.
pub fn pattern_fallback(_: &[Seg]) -> Vec<Vec<u8>> {
    unreachable!("a lone empty segment")
}

pub fn expressible(segs: &[Seg]) -> bool {
    !(segs.len() == 1 && segs[0] == Seg::Static(vec![]))
}

pub type End<T> = dyn Fn(&mut Src, &mut Builder<T>, &mut Made, &[Seg], &[Route]) -> Res;

/// Registers a route and goes on with the builder that was returned.
pub type Start<T> = dyn Fn(&mut Src, &mut Builder<T>, &mut Made, &[u8], &Route, &mut dyn FnMut(&mut Src, &mut Builder<T>, &mut Made));

/// Registers `regs` in order, where `b` is at the node `base`, which is a
/// common prefix of them all.
pub fn build<T: Default + ApplyContext>(src: &mut Src, b: &mut Builder<T>, made: &mut Made, base: &[Seg], regs: &[Route], end: &End<T>, start: Option<&Start<T>>) -> Res {
    let mut i = 0;
    while i < regs.len() {
        // A group with a common prefix?
        if src.chance(1, 2) {
            let max = regs[i].segs.len();
            let c = if start.is_some() && src.chance(1, 3) { max } else { src.range(base.len(), max) };
            let prefix = &regs[i].segs[..c];
            let mut n = 1;
            while i + n < regs.len() && regs[i + n].segs.starts_with(prefix) && src.chance(4, 5) {
                n += 1;
            }
            let ok = expressible(&prefix[base.len()..]) && regs[i..i + n].iter().all(|r| expressible(&r.segs[c..]));
            if ok && made.log.len() < 200 && c == max && start.is_some() && src.flip() {
                if let Some(text) = piece(src, &prefix[base.len()..]) {
                    let mut res = Ok(());
                    start.unwrap()(src, b, made, &text, &regs[i], &mut |src, b, made| {
                        made.log.push("-> {".into());
                        made.done.push(regs[i].clone());
                        res = build(src, b, made, prefix, &regs[i + 1..i + n], end, start);
                        made.log.push("}".into());
                    });
                    res?;
                    i += n;
                    continue;
                }
            }
            if ok && made.log.len() < 200 {
                let s = steps(src, made, base, &prefix[base.len()..]);
                let many = src.flip();
                made.log.push(if many { "many{".into() } else { "{".into() });
                let mut res = Ok(());
                descend(b, &s, &mut |b| {
                    if many {
                        b.many(|b| res = build(src, b, made, prefix, &regs[i..i + n], end, start));
                    } else {
                        res = build(src, b, made, prefix, &regs[i..i + n], end, start);
                    }
                })?;
                res?;
                made.log.push("}".into());
                i += n;
                continue;
            }
        }
        let mut n = 1;
        while i + n < regs.len() && regs[i + n].segs == regs[i].segs && src.flip() {
            n += 1;
        }
        end(src, b, made, base, &regs[i..i + n])?;
        made.done.extend_from_slice(&regs[i..i + n]);
        i += n;
    }
    Ok(())
}

pub fn on(b: &mut rustful::handler::method_router::Builder<Variables<Rec>>, shortcut: bool, r: &Route) {
    let h = Rec(r.id);
    match r.method {
        Method::Get if shortcut => b.on_get(h),
        Method::Post if shortcut => b.on_post(h),
        Method::Patch if shortcut => b.on_patch(h),
        Method::Put if shortcut => b.on_put(h),
        Method::Delete if shortcut => b.on_delete(h),
        Method::Options if shortcut => b.on_options(h),
        Method::Head if shortcut => b.on_head(h),
        Method::Connect if shortcut => b.on_connect(h),
        ref m => b.on(m.clone(), h),
    }
}

pub fn end_default(src: &mut Src, b: &mut Builder<MethodRouter<Variables<Rec>>>, made: &mut Made, base: &[Seg], regs: &[Route]) -> Res {
    let s = steps(src, made, base, &regs[0].segs[base.len()..]);
    let shortcut = src.flip();
    let many = src.flip();
    for r in regs {
        made.log.push(format!("on({}, {})", r.method, r.id));
    }
    descend(b, &s, &mut |b| {
        if many {
            b.then().many(|m| for r in regs { on(m, shortcut, r) });
        } else {
            for r in regs {
                on(&mut b.then(), shortcut, r);
            }
        }
    })
}

/// Registration of method-less handlers.
pub fn end_plain(src: &mut Src, b: &mut Builder<Plain>, made: &mut Made, base: &[Seg], regs: &[Route]) -> Res {
    for r in regs {
        let rest = &r.segs[base.len()..];
        match src.weighted(&[3, 3, 3]) {
            0 => {
                let s = steps(src, made, base, rest);
                made.log.push(format!("handler({})", r.id));
                descend(b, &s, &mut |b| {
                    b.handler(Rec(r.id));
                })?;
            }
            1 => {
                // The last step carries the handler.
                let cut = src.range(0, rest.len());
                if !expressible(&rest[..cut]) || !expressible(&rest[cut..]) {
                    let t = pattern_text(src, rest);
                    made.log.push(format!("on_path({}, {})", gen::show(&t), r.id));
                    b.on_path(&t, Rec(r.id));
                    made.done.push(r.clone());
                    continue;
                }
                let mut at = base.to_vec();
                at.extend_from_slice(&rest[..cut]);
                let s = if cut > 0 { steps(src, made, base, &rest[..cut]) } else { vec![] };
                let t = pattern_text(src, &rest[cut..]);
                made.log.push(format!("on_path({}, {})", gen::show(&t), r.id));
                descend(b, &s, &mut |b| {
                    b.on_path(&t, Rec(r.id));
                })?;
            }
            _ => {
                let cut = rest.len().saturating_sub(1);
                if !expressible(&rest[..cut]) || !expressible(&rest[cut..]) {
                    let t = pattern_text(src, rest);
                    made.log.push(format!("on_path({}, {})", gen::show(&t), r.id));
                    b.on_path(&t, Rec(r.id));
                    made.done.push(r.clone());
                    continue;
                }
                let s = if cut > 0 { steps(src, made, base, &rest[..cut]) } else { vec![] };
                let t = pattern_text(src, &rest[cut..]);
                let further = src.chance(1, 6);
                made.log.push(format!("on_route({}, {})", gen::show(&t), r.id));
                descend(b, &s, &mut |b| {
                    if further {
                        // What it returns is at the new node.
                        b.on_route(&t, Rec(8888)).handler(Rec(r.id));
                    } else {
                        b.on_route(&t, Rec(r.id));
                    }
                })?;
            }
        }
        made.done.push(r.clone());
    }
    Ok(())
}

pub fn shared_prefixes(src: &mut Src, t: &mut Table) {
    // Nested building needs registrations that share named prefixes.
    let n = t.routes.len();
    for i in 1..n {
        if src.chance(1, 3) {
            let from = src.idx(i);
            let base = t.routes[from].segs.clone();
            let keep = if src.flip() { base.len() } else { src.range(0, base.len()) };
            let mut segs = base[..keep].to_vec();
            let mut used: Vec<Vec<u8>> = segs.iter().filter_map(|s| match *s {
                Seg::Static(_) => None,
                Seg::Var(ref n) | Seg::Seq(ref n) => Some(n.clone()),
            }).collect();
            let extra = src.idx(3);
            let alpha = t.alpha.clone();
            segs.extend(pattern(src, &alpha, extra, 1, &mut used));
            let text = pattern_text(src, &segs);
            t.routes[i].segs = parse_pattern(&text);
            t.routes[i].pattern = text;
            t.patterns[i] = t.routes[i].segs.clone();
        }
    }
}


pub fn start_plain(src: &mut Src, b: &mut Builder<Plain>, made: &mut Made, text: &[u8], r: &Route, f: &mut dyn FnMut(&mut Src, &mut Builder<Plain>, &mut Made)) {
    let h = Rec(r.id);
    match src.weighted(&[2, 2, 1]) {
        0 => {
            made.log.push(format!("on_path({}, {})", gen::show(text), r.id));
            f(src, &mut b.on_path(text, h), made)
        }
        2 if split(text).len() < 2 => {
            made.log.push(format!("on_route({}, {})", gen::show(text), r.id));
            f(src, &mut b.on_route(text, h), made)
        }
        _ => {
            made.log.push(format!("path({}).handler({})", gen::show(text), r.id));
            f(src, &mut b.path(text).handler(h), made)
        }
    }
}

/// A router of registered routes, built in some way.
pub fn some_default_router(src: &mut Src, routes: &[Route], hyperlinks: bool) -> Result<(rustful::DefaultRouter<Rec>, String), Fail> {
    let mut made = Made { log: vec![], done: vec![], nodes: vec![], all: routes };
    let first = if src.chance(1, 4) { src.range(0, routes.len()) } else { 0 };
    let mut router: rustful::DefaultRouter<Rec> = routes[..first].iter().map(|r| (r.method.clone(), r.pattern.clone(), Rec(r.id))).collect();
    made.log.push(format!("collect({})", first));
    made.done.extend_from_slice(&routes[..first]);
    build(src, &mut router.build(), &mut made, &[], &routes[first..], &end_default, None)?;
    router.find_hyperlinks = hyperlinks;
    Ok((router, made.log.join(" ")))
}

pub fn some_plain_router(src: &mut Src, routes: &[Route], hyperlinks: bool) -> Result<(ByPath, String), Fail> {
    let mut made = Made { log: vec![], done: vec![], nodes: vec![], all: routes };
    let mut router = ByPath::new();
    build(src, &mut router.build(), &mut made, &[], routes, &end_plain, Some(&start_plain))?;
    router.find_hyperlinks = hyperlinks;
    Ok((router, made.log.join(" ")))
}

/// A method router with a fallback for other methods at every node. The
/// registrations of `!405` are the fallbacks.
pub type Pair = rustful::OrElse<MethodRouter<Variables<Rec>>, rustful::StatusRouter<Variables<Rec>>>;
pub type Paired = TreeRouter<Pair>;

pub fn fallback_method() -> Method {
    Method::Extension("!405".into())
}

pub fn end_paired(src: &mut Src, b: &mut Builder<Pair>, made: &mut Made, base: &[Seg], regs: &[Route]) -> Res {
    let s = steps(src, made, base, &regs[0].segs[base.len()..]);
    let shortcut = src.flip();
    let many = src.flip();
    for r in regs {
        made.log.push(format!("on({}, {})", r.method, r.id));
    }
    descend(b, &s, &mut |b| {
        for r in regs {
            on_pair(b, many, shortcut, r);
        }
    })
}

pub fn on_pair(b: &mut Builder<Pair>, many: bool, shortcut: bool, r: &Route) {
    let fallback = r.method == fallback_method();
    let mut pair = b.then();
    if many {
        pair.many(|_| {});
    }
    if fallback {
        pair.secondary().on(rustful::StatusCode::MethodNotAllowed, Rec(r.id));
    } else {
        on(&mut pair.primary(), shortcut, r);
    }
}

/// What a node of a `Paired` tree does for a request.
pub fn select_paired(routes: &[Route], method: &Method, path: &[Vec<u8>]) -> Outcome {
    let eff = effective(routes);
    let fallback = fallback_method();
    let mut best: Option<(Match, bool, u32)> = None;
    let mut any = false;
    for r in &eff {
        if let Some(m) = match_route(&r.segs, path) {
            any = true;
            let second = r.method == fallback;
            if (second || r.method == *method) && best.as_ref().map(|b| (&m.decisions, second) < (&b.0.decisions, b.1)).unwrap_or(true) {
                best = Some((m, second, r.id));
            }
        }
    }
    match best {
        Some((m, _, id)) => Outcome::Handled { id, vars: m.vars },
        None if any => Outcome::WrongMethod,
        None => Outcome::NoRoute,
    }
}
