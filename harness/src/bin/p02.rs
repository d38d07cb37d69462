//! P02: path variables hold exactly the matched part of the path.
use pbt::build::{some_default_router, some_plain_router};
use pbt::routes::*;
use pbt::*;
use rustful::handler::{ApplyContext, BuilderContext, Environment, FromHandler, HandleRequest, Merge, MethodRouter, TreeRouter, Variables};
use rustful::{Method, OrElse, Server};

fn show(v: &Vars) -> String {
    let v: Vec<_> = v.iter().map(|(k, v)| format!("{}={}", gen::show(k), gen::show(v))).collect();
    format!("{{{}}}", v.join(", "))
}

fn same(got: &Vars, want: &Vars, at: &str) -> Res {
    ensure!(got == want, "variables", "variables ({})\n     got: {}\nexpected: {}", at, show(got), show(want));
    Ok(())
}

fn classify(case: &mut Case, routes: &[Route], path: &[Vec<u8>], vars: &Vars) {
    let joined = vars.values().any(|v| v.contains(&b'/'));
    let binary = vars.values().any(|v| std::str::from_utf8(v).is_err());
    let several = routes.iter().filter(|r| match_route(&r.segs, path).is_some()).count() > 1;
    case.label_if(joined, "joined sequence");
    case.label_if(binary, "value is not text");
    case.label_if(vars.values().any(|v| v.is_empty()), "empty value");
    case.label_if(vars.len() > 1, "several variables");
    case.label_if(vars.len() > 60, "more than 60 variables");
    case.label_if(several, "several routes match");
    case.nontrivial_if(joined || vars.len() > 1 || (vars.len() == 1 && several));
}

fn expect(hits: &[Hit], id: u32, vars: &Vars, at: &str) -> Res {
    ensure!(hits.len() == 1 && hits[0].id == id, "wrong handler", "handlers that ran ({}): {:?}, expected {}", at, hits.iter().map(|h| h.id).collect::<Vec<_>>(), id);
    same(&hits[0].vars, vars, at)
}

fn direct(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 4, 16);
    t.alpha.long = src.chance(1, 30);
    dispatches(src, case, &t, request_segments)
}

fn big(src: &mut Src, case: &mut Case) -> Res {
    let t = big_table(src);
    dispatches(src, case, &t, |src, _, _| big_request(src, &t))
}

fn dispatches<F: Fn(&mut Src, &Alphabet, &[Vec<Seg>]) -> Vec<Vec<u8>>>(src: &mut Src, case: &mut Case, t: &Table, request: F) -> Res {
    case.note(|| format!("routes: {}", t.describe()));
    let (quiet, how) = some_default_router(src, &t.routes, false)?;
    case.note(|| format!("built by: {}", how));
    let quiet = OrElse::new(quiet, Rec(9999));
    let linked = OrElse::new(default_router(&t.routes, true), Variables::<Rec>::from_handler2(9999));
    let eff = effective(&t.routes);
    let mut n = 0;
    loop {
        let segs = request(src, &t.alpha, &t.patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = request_method(src, &t.routes);
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        let (id, vars) = match select(&eff, &method, &segs) {
            Outcome::Handled { id, vars } => (id, vars),
            _ => (9999, Vars::new()),
        };
        case.note(|| format!("expect: handler {} {}", id, show(&vars)));
        case.label_if(id == 9999, "fallback");
        classify(case, &t.routes, &segs, &vars);
        expect(&dispatch(&quiet, &method, &path).0, id, &vars, "without hyperlinks")?;
        expect(&dispatch(&linked, &method, &path).0, id, &vars, "with hyperlinks")?;
        n += 1;
        if !src.more(n, 2, 6) {
            return Ok(());
        }
    }
}

/// The other places a `Variables` can be put in.
fn compositions(src: &mut Src, case: &mut Case) -> Res {
    let mut t = table(src, 4, 12);
    case.note(|| format!("routes: {}", t.describe()));
    let links = src.flip();

    let mut by_method = MethodRouter::<TreeRouter<Option<Variables<Rec>>>>::new();
    for r in &t.routes {
        by_method.build().method::<Rec>(r.method.clone()).on_path(&r.pattern, Rec(r.id));
    }
    // Names above the method choice.
    let (above, how) = some_plain_router(src, &t.routes, links)?;
    case.note(|| format!("without methods built by: {}", how));
    let eff_routes = t.routes.clone();
    let eff = effective(&eff_routes);
    let mut plain = t.routes.clone();
    for r in &mut plain {
        r.method = Method::Get;
    }
    let eff_plain = effective(&plain);
    t.routes.truncate(0);

    let n = src.range(1, 4);
    for _ in 0..n {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        let method = request_method(src, &eff_routes);
        case.note(|| format!("request: {} {}", method, gen::show(&path)));
        let hits = dispatch(&by_method, &method, &path).0;
        match select(&eff, &method, &segs) {
            Outcome::Handled { id, vars } => {
                classify(case, &eff_routes, &segs, &vars);
                expect(&hits, id, &vars, "method, then path")?;
            }
            _ => ensure!(hits.is_empty(), "wrong handler", "a handler ran (method, then path)"),
        }
        let hits = dispatch(&above, &method, &path).0;
        match select(&eff_plain, &Method::Get, &segs) {
            Outcome::Handled { id, vars } => {
                classify(case, &plain, &segs, &vars);
                expect(&hits, id, &vars, "path only")?;
            }
            _ => ensure!(hits.is_empty(), "wrong handler", "a handler ran (path only)"),
        }
    }
    Ok(())
}

fn through_server(src: &mut Src, case: &mut Case) -> Res {
    let t = table(src, 3, 10);
    case.note(|| format!("routes: {}", t.describe()));
    let links = src.flip();
    let server = Server::new(some_default_router(src, &t.routes, links)?.0).build();
    let eff = effective(&t.routes);
    let n = src.range(1, 3);
    let mut data = vec![];
    let mut wants = vec![];
    for _ in 0..n {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let mut path = join(src, &segs);
        if path.first() != Some(&b'/') {
            path.insert(0, b'/');
        }
        let segs = split(&path);
        let mut method = request_method(src, &t.routes);
        if method == Method::Connect {
            method = Method::Get;
        }
        let enc = gen::percent_encode(src, &path[1..], |b| gen::unreserved(b) || b == b'/' || b == b':' || b == b'*' || b == b'+' || b == b'&' || b == b'=');
        let query = if src.chance(1, 3) { "?a=shadow&name=shadow&x=" } else { "" };
        case.note(|| format!("request: {} /{}{}", method, enc, query));
        data.extend(wire::Req::new(&method.to_string(), &format!("/{}{}", enc, query)).more(src).bytes());
        if let Outcome::Handled { id, vars } = select(&eff, &method, &segs) {
            classify(case, &t.routes, &segs, &vars);
            wants.push((id, vars));
        }
    }
    take_hits();
    let (_, talk) = wire::send(&server, data, true);
    let hits = take_hits();
    ensure_eq!(talk.requests, n, "requests", "requests that reached the server");
    ensure_eq!(hits.iter().map(|h| h.id).collect::<Vec<_>>(), wants.iter().map(|w| w.0).collect::<Vec<_>>(), "wrong handler", "handlers that ran");
    for (hit, want) in hits.iter().zip(&wants) {
        same(&hit.vars, &want.1, "through the server")?;
    }
    Ok(())
}

/// A name that is used more than once in one pattern. Which of the values it
/// gets is open, but it is one of them.
fn repeated_names(src: &mut Src, case: &mut Case) -> Res {
    let alpha = Alphabet::draw(src);
    let names: Vec<Vec<u8>> = (0..src.range(1, 2)).map(|_| var_name(src, &mut vec![])).collect();
    let d = src.range(1, 6);
    let segs = pattern(src, &alpha, d, 2, &mut vec![]);
    let named: Vec<Seg> = segs.into_iter().map(|s| match s {
        Seg::Var(_) => Seg::Var(src.pick(&names).clone()),
        Seg::Seq(_) => Seg::Seq(src.pick(&names).clone()),
        s => s,
    }).collect();
    let text = pattern_text(src, &named);
    let named = parse_pattern(&text);
    // The same pattern with a name for each position.
    let unique: Vec<Seg> = named.iter().enumerate().map(|(i, s)| match *s {
        Seg::Var(_) => Seg::Var(vec![b'v', i as u8]),
        Seg::Seq(_) => Seg::Seq(vec![b'v', i as u8]),
        ref s => s.clone(),
    }).collect();
    case.note(|| format!("pattern: {}", gen::show(&text)));
    let route = Route { pattern: text, segs: named.clone(), method: Method::Get, id: 7 };
    let (router, _) = { let links = src.flip(); some_default_router(src, &[route], links) }?;
    let request = request_segments(src, &alpha, &[named.clone()]);
    let path = join(src, &request);
    case.note(|| format!("request: {}", gen::show(&path)));
    let (hits, _) = dispatch(&router, &Method::Get, &path);
    let m = match match_route(&unique, &split(&path)) {
        Some(m) => m,
        None => {
            ensure!(hits.is_empty(), "wrong handler", "a handler ran");
            return Ok(());
        }
    };
    ensure!(hits.len() == 1, "wrong handler", "{} handlers ran", hits.len());
    let mut want: std::collections::BTreeMap<Vec<u8>, Vec<Vec<u8>>> = Default::default();
    for (i, s) in named.iter().enumerate() {
        if let Seg::Var(ref n) | Seg::Seq(ref n) = *s {
            if !n.is_empty() {
                want.entry(n.clone()).or_default().push(m.vars[&vec![b'v', i as u8]].clone());
            }
        }
    }
    let got = &hits[0].vars;
    let mut got_names: Vec<_> = got.keys().cloned().collect();
    got_names.sort();
    ensure_eq!(got_names, want.keys().cloned().collect::<Vec<_>>(), "variables", "variable names");
    for (n, v) in got.iter() {
        ensure!(want[n].contains(v), "variables", "{} is {}, which is none of {:?}", gen::show(n), gen::show(v), want[n].iter().map(|v| gen::show(v)).collect::<Vec<_>>());
    }
    let repeated = want.values().any(|v| v.len() > 1);
    case.label_if(repeated, "repeated name");
    case.nontrivial_if(repeated);
    Ok(())
}

thread_local! {
    static OFFERS: std::cell::RefCell<Vec<(u32, Vars)>> = std::cell::RefCell::new(vec![]);
}

/// A router that is picky about the values of variables.
struct Picky {
    id: u32,
    modulus: u32,
}

impl Picky {
    fn accepts(&self, vars: &Vars) -> bool {
        let sum: u32 = vars.iter().map(|(_, v)| v.iter().map(|&b| b as u32).sum::<u32>() + v.len() as u32 + 1).sum();
        (sum + self.id) % self.modulus == 0
    }
}

impl HandleRequest for Picky {
    fn handle_request<'a, 'b, 'l, 'g>(&self, mut environment: Environment<'a, 'b, 'l, 'g>) -> Result<(), Environment<'a, 'b, 'l, 'g>> {
        let vars: Vars = (&environment.context.variables).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect();
        let accepts = self.accepts(&vars);
        OFFERS.with(|o| o.borrow_mut().push((self.id, vars)));
        if accepts {
            record(self.id, &environment.context, &environment.response);
            Ok(())
        } else {
            environment.response.set_status(rustful::StatusCode::Forbidden);
            Err(environment)
        }
    }

    fn hyperlinks<'a>(&'a self, base: rustful::context::hypermedia::Link<'a>) -> Vec<rustful::context::hypermedia::Link<'a>> {
        vec![base]
    }
}

impl FromHandler<Picky> for Picky {
    fn from_handler(_: BuilderContext, p: Picky) -> Picky {
        p
    }
}

impl ApplyContext for Picky {
    fn apply_context(&mut self, _: BuilderContext) {}
    fn prepend_context(&mut self, _: BuilderContext) {}
}

impl Merge for Picky {
    fn merge(&mut self, other: Picky) {
        *self = other;
    }
}

/// Matches that are refused by what is behind the names leave no variables to
/// those that are tried next, nor to fallbacks.
fn rejections(src: &mut Src, case: &mut Case) -> Res {
    let t = table(src, 3, 10);
    type Inner = OrElse<Variables<Picky>, Option<Rec>>;
    let mut made: Vec<(Route, u32, bool)> = vec![];
    for r in &t.routes {
        if !made.iter().any(|m| m.0.method == r.method && m.0.shape() == r.shape()) {
            made.push((r.clone(), 1 + src.below(3) as u32, src.chance(1, 5)));
        }
    }
    case.note(|| made.iter().map(|m| format!("{} {} -> {} mod {}{}", m.0.method, gen::show(&m.0.pattern), m.0.id, m.1, if m.2 { " else any" } else { "" })).collect::<Vec<_>>().join(", "));
    let links = src.flip();
    let mut tree = TreeRouter::<MethodRouter<Inner>>::new();
    tree.find_hyperlinks = links;
    for &(ref r, modulus, any) in &made {
        let picky = Picky { id: r.id, modulus };
        let mut at = MethodRouter::<Inner>::new();
        let inner = OrElse::new(Variables::from_handler(BuilderContext::new(), picky), if any { Some(Rec(r.id + 5000)) } else { None });
        at.insert(r.method.clone(), inner);
        tree.build().path(&r.pattern).then().merge(at);
    }
    let router = OrElse::new(tree, Rec(9999));
    let n = src.range(1, 4);
    for _ in 0..n {
        let segs = request_segments(src, &t.alpha, &t.patterns);
        let path = join(src, &segs);
        let segs = split(&path);
        if segs.len() > 12 {
            continue;
        }
        let method = request_method(src, &t.routes);
        case.note(|| format!("request: {} {} hyperlinks {}", method, gen::show(&path), links));
        let mut all: Vec<(Match, usize)> = vec![];
        for (i, m) in made.iter().enumerate() {
            if m.0.method == method {
                all.extend(readings(&m.0.segs, &segs).into_iter().map(|r| (r, i)));
            }
        }
        all.sort_by(|a, b| a.0.decisions.cmp(&b.0.decisions));
        let mut want = (9999, Vars::new());
        let mut refused = 0;
        for &(ref reading, i) in &all {
            let (ref r, modulus, any) = made[i];
            if (Picky { id: r.id, modulus }).accepts(&reading.vars) {
                want = (r.id, reading.vars.clone());
                break;
            }
            refused += 1;
            if any {
                want = (r.id + 5000, Vars::new());
                break;
            }
        }
        OFFERS.with(|o| o.borrow_mut().clear());
        let (hits, back) = dispatch(&router, &method, &path);
        ensure!(back.is_none(), "handed back", "the request was handed back, although there is a fallback for everything");
        let offers = OFFERS.with(|o| o.borrow().clone());
        for (id, vars) in offers {
            ensure!(all.iter().any(|a| made[a.1].0.id == id && a.0.vars == vars), "variables", "{} was offered the request with {}, which is no reading of its pattern", id, show(&vars));
        }
        expect(&hits, want.0, &want.1, "after refusals")?;
        case.label_if(refused > 0 && !want.1.is_empty(), "accepted after refusals");
        case.label_if(refused > 0 && want.1.is_empty(), "fallback after refusals");
        case.nontrivial_if(refused > 0 && all.iter().any(|a| !a.0.vars.is_empty()));
    }
    Ok(())
}

trait Make {
    fn from_handler2(id: u32) -> Self;
}

impl Make for Variables<Rec> {
    fn from_handler2(id: u32) -> Self {
        rustful::handler::FromHandler::from_handler(rustful::handler::BuilderContext::new(), Rec(id))
    }
}

fn main() {
    runner::main("P02", "the selected pattern names several variables or one with a joined sequence, or one while several routes match, or it repeats a name, or a match with variables was refused", &[
        Prop { name: "dispatch", quick: 480_000, thorough: 6_000_000, run: direct },
        Prop { name: "big tables", quick: 6_000, thorough: 100_000, run: big },
        Prop { name: "compositions", quick: 240_000, thorough: 3_000_000, run: compositions },
        Prop { name: "rejections", quick: 240_000, thorough: 3_000_000, run: rejections },
        Prop { name: "repeated names", quick: 120_000, thorough: 1_500_000, run: repeated_names },
        Prop { name: "server", quick: 160_000, thorough: 2_000_000, run: through_server },
    ]);
}
