//! P01: route selection follows pattern precedence and registration.
use pbt::build::some_default_router;
use pbt::routes::*;
use pbt::*;
use rustful::Server;

fn count_matches(routes: &[Route], path: &[Vec<u8>]) -> usize {
    routes.iter().filter(|r| match_route(&r.segs, path).is_some()).count()
}

fn classify(case: &mut Case, routes: &[Route], path: &[Vec<u8>], want: &Outcome) {
    let n = count_matches(routes, path);
    case.label_if(n > 1, "several routes match");
    case.label_if(n == 0, "no route matches");
    case.label_if(path.len() > 8, "long path");
    case.label_if(path.len() > 256, "very long path");
    case.label_if(routes.len() > 100, "more than 100 routes");
    case.label_if(path.iter().any(|s| s.is_empty()), "empty segment");
    case.label_if(path.iter().any(|s| std::str::from_utf8(s).is_err()), "segment is not text");
    match *want {
        Outcome::Handled { .. } => case.label("handled"),
        Outcome::WrongMethod => case.label("only other methods"),
        Outcome::NoRoute if node_matches(routes, path) => case.label("only a prefix"),
        Outcome::NoRoute => {}
    }
    let seq = path.len() > 1 && routes.iter().any(|r| match_route(&r.segs, path).map(|m| m.decisions.contains(&3)).unwrap_or(false));
    case.label_if(seq, "extended sequence");
    case.nontrivial_if(n > 1 || seq || (n == 1 && *want == Outcome::WrongMethod));
}

fn check(want: &Outcome, ran: &[u32], status: u16, prefix: bool, at: &str) -> Res {
    match *want {
        Outcome::Handled { id, .. } => {
            ensure_eq!(ran, &[id][..], "wrong handler", "handlers that ran ({}, status {})", at, status);
            ensure_eq!(status, 200u16, "status", "status seen by the handler ({})", at);
        }
        Outcome::WrongMethod => {
            ensure_eq!(ran, &[][..], "wrong handler", "handlers that ran for another method ({})", at);
            ensure_eq!(status, 405u16, "status", "routes match for other methods only ({})", at);
        }
        Outcome::NoRoute => {
            ensure_eq!(ran, &[][..], "wrong handler", "handlers that ran without a matching route ({})", at);
            ensure_eq!(status, if prefix { 405u16 } else { 404 }, "status", "no route matches{} ({})", if prefix { ", only a prefix" } else { "" }, at);
        }
    }
    Ok(())
}

fn dispatch_direct(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 5, 24);
    t.alpha.long = src.chance(1, 30);
    dispatches(src, case, &t, request_segments)
}

fn dispatch_big(src: &mut Src, case: &mut Case) -> Res {
    let t = big_table(src);
    dispatches(src, case, &t, |src, _, _| big_request(src, &t))
}

fn dispatches<F: Fn(&mut Src, &Alphabet, &[Vec<Seg>]) -> Vec<Vec<u8>>>(src: &mut Src, case: &mut Case, t: &Table, request: F) -> Res {
    case.note(|| format!("routes: {}", t.describe()));
    // P03 looks into the different ways of building a router.
    let (quiet, how) = some_default_router(src, &t.routes, false)?;
    case.note(|| format!("built by: {}", how));
    let linked = default_router(&t.routes, true);
    let eff = effective(&t.routes);
    let mut n = 0;
    loop {
        let segs = request(src, &t.alpha, &t.patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = request_method(src, &t.routes);
        let want = select(&eff, &method, &segs);
        let prefix = node_matches(&t.routes, &segs);
        case.note(|| format!("request: {} {} -> {:?}", method, gen::show(&path), want));
        classify(case, &t.routes, &segs, &want);
        for &(router, at) in &[(&quiet, "without hyperlinks"), (&linked, "with hyperlinks")] {
            let (hits, back) = dispatch(router, &method, &path);
            let ran: Vec<u32> = hits.iter().map(|h| h.id).collect();
            ensure!(hits.is_empty() == back.is_some(), "accepted without handler", "{} handlers ran and the request was {} ({})", hits.len(), if back.is_some() { "rejected" } else { "accepted" }, at);
            let status = hits.first().map(|h| h.status).or(back).unwrap_or(0);
            check(&want, &ran, status, prefix, at)?;
        }
        n += 1;
        if !src.more(n, 2, 6) {
            return Ok(());
        }
    }
}

fn through_server(src: &mut Src, case: &mut Case) -> Res {
    let t = table(src, 4, 16);
    case.note(|| format!("routes: {}", t.describe()));
    let links = src.flip();
    let server = Server::new(some_default_router(src, &t.routes, links)?.0).build();
    let eff = effective(&t.routes);
    let mut data = vec![];
    let mut wants = vec![];
    let n = src.range(1, 3);
    for _ in 0..n {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let mut path = join(src, &segs);
        if path.first() != Some(&b'/') {
            path.insert(0, b'/');
        }
        let segs = split(&path);
        let mut method = request_method(src, &t.routes);
        if method == rustful::Method::Connect {
            // Its targets are of another kind; P23 covers them.
            method = rustful::Method::Get;
        }
        let target = gen::percent_encode(src, &path, |b| gen::unreserved(b) || b == b'/' || b == b':' || b == b'*' || b == b'+');
        // A slash is a separator whether encoded or not.
        let target = if target.starts_with('/') { target } else { format!("/{}", &target[3..]) };
        let absolute = src.chance(1, 4) && !segs.iter().any(|s| s == b"." || s == b"..");
        let target = if absolute { format!("http://localhost{}", target) } else { target };
        let want = select(&eff, &method, &segs);
        case.note(|| format!("request: {} {} -> {:?}", method, target, want));
        classify(case, &t.routes, &segs, &want);
        data.extend(wire::Req::new(&method.to_string(), &target).more(src).bytes());
        wants.push((want, node_matches(&t.routes, &segs)));
    }
    take_hits();
    let (out, talk) = wire::send(&server, data, true);
    let hits = take_hits();
    ensure_eq!(talk.requests, n, "requests", "requests that reached the server");
    let heads = wire::heads();
    let replies = match wire::parse_replies_to(&out, &heads) {
        Ok(r) => r,
        Err(e) => return fail("wire", format!("{}: {}", e, gen::show(&out))),
    };
    ensure_eq!(replies.len(), n, "replies", "number of responses");
    let mut hits = hits.into_iter();
    for (((want, prefix), reply), head) in wants.iter().zip(&replies).zip(heads) {
        let ran: Vec<u32> = match *want {
            Outcome::Handled { .. } => hits.next().map(|h| h.id).into_iter().collect(),
            _ => vec![],
        };
        check(want, &ran, reply.status, *prefix, "through the server")?;
        let body = match *want {
            Outcome::Handled { id, .. } => format!("handler {}", id),
            _ => String::new(),
        };
        if head {
            ensure_eq!(reply.header("Content-Length"), Some(body.len().to_string()), "body", "content length of a response without its body");
        } else {
            ensure_eq!(String::from_utf8_lossy(&reply.body), body, "body", "response body");
        }
    }
    ensure!(hits.next().is_none(), "wrong handler", "more handlers ran than expected");
    Ok(())
}

fn main() {
    runner::main("P01", "more than one registered route matches the requested path, or a variable sequence had to be extended, or the only matching route is for another method", &[
        Prop { name: "dispatch", quick: 480_000, thorough: 6_000_000, run: dispatch_direct },
        Prop { name: "big tables", quick: 6_000, thorough: 100_000, run: dispatch_big },
        Prop { name: "server", quick: 120_000, thorough: 1_500_000, run: through_server },
    ]);
}
