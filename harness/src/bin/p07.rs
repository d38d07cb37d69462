//! P07: request targets are split and decoded the same in every form.
use std::cell::RefCell;

use pbt::*;
use rustful::context::UriPath;
use rustful::filter::{ContextAction, ContextFilter, FilterContext};
use rustful::header::Host;
use rustful::server::ServerInstance;
use rustful::{Context, Handler, Response, Server};

#[derive(Clone, Debug, PartialEq)]
struct Seen {
    by: &'static str,
    path: Option<Vec<u8>>,
    query: form::Map,
    fragment: Option<Vec<u8>>,
    host: Option<(String, Option<u16>)>,
    hosts: usize,
}

thread_local! {
    static SEEN: RefCell<Vec<Seen>> = RefCell::new(vec![]);
}

fn see(by: &'static str, c: &Context) {
    let s = Seen {
        by,
        path: match c.uri_path {
            UriPath::Path(ref p) => Some(p.as_bytes().to_vec()),
            UriPath::Asterisk => None,
        },
        query: (&c.query).into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect(),
        fragment: c.fragment.as_ref().map(|f| f.as_bytes().to_vec()),
        host: c.headers.get::<Host>().map(|h| (h.hostname.clone(), h.port)),
        hosts: c.headers.iter().filter(|h| h.name().eq_ignore_ascii_case("host")).count(),
    };
    SEEN.with(|v| v.borrow_mut().push(s));
}

struct Look;

impl Handler for Look {
    fn handle(&self, c: Context, r: Response) {
        see("handler", &c);
        r.send("seen");
    }
}

impl ContextFilter for Look {
    fn modify(&self, _: FilterContext, c: &mut Context) -> ContextAction {
        see("filter", c);
        ContextAction::Next
    }
}

fn server() -> ServerInstance<Look> {
    Server { context_filters: vec![Box::new(Look)], ..Server::new(Look) }.build()
}

fn ask(method: &str, target: &str, host: Option<&str>) -> Result<(Vec<Seen>, wire::Reply), Fail> {
    let mut req = wire::Req::new(method, target);
    if let Some(h) = host {
        req = req.header("Host", h);
    }
    SEEN.with(|v| v.borrow_mut().clear());
    let reply = match wire::one_reply(&server(), req.bytes()) {
        Ok(Some(r)) => r,
        Ok(None) => return fail("not parsed", format!("the request {:?} did not reach the server", target)),
        Err(e) => return fail("wire", e),
    };
    Ok((SEEN.with(|v| v.borrow().clone()), reply))
}

fn path_plain(b: u8) -> bool {
    gen::unreserved(b) || b"/!$&'()*+,;=:@".contains(&b)
}

fn fragment_plain(b: u8) -> bool {
    gen::unreserved(b) || b"/!$&'()*+,;=:@?".contains(&b)
}

fn path_bytes(src: &mut Src) -> Vec<u8> {
    let mut out = vec![b'/'];
    let mut n = 0;
    while src.more(n, 2, 8) {
        let mut part = match src.weighted(&[5, 2, 3, 3]) {
            0 => gen::ident(src).into_bytes(),
            1 => gen::string(src, 80).into_bytes(),
            2 => gen::bytes(src, 80),
            _ => {
                let n = src.range(1, 5);
                (0..n).map(|_| *src.pick(b"?#%/&=+ :*;@a2F\\.\xff\xc3\xa9\x00")).collect()
            }
        };
        out.append(&mut part);
        if src.flip() {
            out.push(b'/');
        }
        n += 1;
    }
    out
}

/// The URL standard gives segments of dots a meaning in absolute targets.
fn dots(path: &[u8]) -> bool {
    path.split(|&c| c == b'/').any(|s| s == b"." || s == b"..")
}

fn host(src: &mut Src) -> (String, String, Option<u16>) {
    let name = match src.weighted(&[4, 2, 1, 1]) {
        0 => "example.com".to_string(),
        1 => {
            let n = src.range(1, 3);
            let v: Vec<String> = (0..n).map(|_| format!("{}x", gen::ident(src).to_lowercase())).collect();
            v.join(".")
        }
        2 => format!("{}.{}.{}.{}", 1 + src.idx(255), src.idx(256), src.idx(256), src.idx(256)),
        _ => "[::1]".to_string(),
    };
    let name = if name.ends_with(|c: char| c.is_alphabetic()) && src.chance(1, 8) { name + "." } else { name };
    match src.weighted(&[2, 2]) {
        0 => (name.clone(), name, None),
        _ => {
            let port = match src.below(3) {
                0 => 8080,
                1 => 1 + src.below(65535) as u16,
                _ => 80,
            };
            (format!("{}:{}", name, port), name, Some(port))
        }
    }
}

struct Want {
    path: Vec<u8>,
    query: form::Map,
    fragment: Option<Vec<u8>>,
}

fn compare(seen: &[Seen], want: &Want, host: Option<(&str, Option<u16>)>, default_port: Option<u16>, at: &str) -> Res {
    ensure_eq!(seen.iter().map(|s| s.by).collect::<Vec<_>>(), vec!["filter", "handler"], "who saw it", "who saw the request ({})", at);
    for s in seen {
        ensure!(s.path.as_ref() == Some(&want.path), "path", "path in the {} ({})\n     got: {}\nexpected: {}", s.by, at, s.path.as_ref().map(|p| gen::show(p)).unwrap_or("*".into()), gen::show(&want.path));
        ensure!(s.query == want.query, "query", "query in the {} ({})\n     got: {}\nexpected: {}", s.by, at, show_map(&s.query), show_map(&want.query));
        ensure!(s.fragment == want.fragment, "fragment", "fragment in the {} ({})\n     got: {:?}\nexpected: {:?}", s.by, at, s.fragment.as_ref().map(|f| gen::show(f)), want.fragment.as_ref().map(|f| gen::show(f)));
        match host {
            None => ensure!(s.hosts == 0, "host", "Host header in the {} ({}): {:?}", s.by, at, s.host),
            Some((name, port)) => {
                ensure_eq!(s.hosts, 1, "host", "number of Host headers in the {} ({})", s.by, at);
                let (gn, gp) = s.host.clone().unwrap_or_default();
                let port_ok = gp == port || (gp.is_none() && port == default_port);
                ensure!(gn == name && port_ok, "host", "Host header in the {} ({})\n     got: {:?}\nexpected: {:?}", s.by, at, (gn, gp), (name, port));
            }
        }
    }
    Ok(())
}

fn show_map(m: &form::Map) -> String {
    let v: Vec<_> = m.iter().map(|(k, v)| format!("{}={}", gen::show(k), gen::show(v))).collect();
    format!("{{{}}}", v.join(", "))
}

fn targets(src: &mut Src, case: &mut Case) -> Res {
    // What is long is one or more of the parts.
    let long = if src.chance(1, 300) { src.range(1, 7) } else { 0 };
    let mut path = path_bytes(src);
    if long & 1 != 0 {
        let n = gen::size(src, 30_000);
        path.extend(gen::blob(src, n));
    }
    let query = if long & 2 != 0 {
        Some(form::form(src, 300, 1500))
    } else if src.chance(2, 3) {
        Some(form::form(src, 2, 6))
    } else {
        None
    };
    let fragment = if long & 4 != 0 {
        let n = gen::size(src, 30_000);
        Some(gen::blob(src, n))
    } else if src.chance(1, 2) {
        Some(match src.below(4) {
            0 => gen::ident(src).into_bytes(),
            1 => gen::bytes(src, 30),
            2 => vec![],
            _ => {
                let n = src.range(1, 5);
                (0..n).map(|_| *src.pick(b"?#%/&=+ a2F\xff")).collect()
            }
        })
    } else {
        None
    };

    // Only a literal slash may begin the target.
    let enc = gen::percent_encode(src, &path[1..], path_plain);
    let mut target = format!("/{}", enc);
    if let Some(ref q) = query {
        target.push('?');
        target.push_str(&q.text);
    }
    if let Some(ref f) = fragment {
        target.push('#');
        let raw_hash = src.flip();
        target.push_str(&gen::percent_encode(src, f, |b| fragment_plain(b) || (raw_hash && b == b'#')));
    }
    let tricky = enc.contains('%') || query.as_ref().map(|q| q.tricky).unwrap_or(false) || fragment.as_ref().map(|f| f.iter().any(|&b| !gen::unreserved(b))).unwrap_or(false);
    let want = Want { path, query: query.map(|q| q.map).unwrap_or_default(), fragment };
    let method = *src.pick(&["GET", "POST", "DELETE"]);
    let (sent, sent_name, sent_port) = host(src);
    let send_host = src.flip();
    case.label_if(long > 0, "long");
    case.note(|| format!("target: {} host: {}", target, if send_host { &sent } else { "" }));
    case.label_if(want.fragment.is_some(), "fragment");
    case.label_if(want.query.len() > 1, "several query variables");
    case.label_if(std::str::from_utf8(&want.path).is_err(), "path is not text");

    let sent_header = if send_host { Some(&sent[..]) } else { None };
    let (seen, reply) = ask(method, &target, sent_header)?;
    ensure_eq!(reply.status, 200, "status", "status");
    compare(&seen, &want, if send_host { Some((&sent_name, sent_port)) } else { None }, None, "origin form")?;

    if !dots(&want.path) {
        let (auth, name, port) = host(src);
        let (scheme, default) = *src.pick(&[("http", Some(80)), ("https", Some(443)), ("HTTP", Some(80)), ("foo", None)]);
        let user = if src.chance(1, 8) { "user:pass@" } else { "" };
        let absolute = format!("{}://{}{}{}", scheme, user, auth, target);
        case.note(|| format!("target: {}", absolute));
        let (seen, reply) = ask(method, &absolute, sent_header)?;
        ensure_eq!(reply.status, 200, "status", "status");
        compare(&seen, &want, Some((&name, port)), default, "absolute form")?;
        case.nontrivial_if(tricky);

        // The same target without a path.
        if let Some(rest) = target.find(|c| c == '?' || c == '#').map(|i| &target[i..]) {
            // (A target without any slash in it is not an absolute one.)
            let absolute = format!("{}://{}{}{}", scheme, user, auth, rest);
            case.note(|| format!("target: {}", absolute));
            let (seen, reply) = ask(method, &absolute, sent_header)?;
            ensure_eq!(reply.status, 200, "status", "status");
            let want = Want { path: b"/".to_vec(), ..want };
            compare(&seen, &want, Some((&name, port)), default, "absolute form without path")?;
        }
    }
    Ok(())
}

fn other_forms(src: &mut Src, case: &mut Case) -> Res {
    let method = *src.pick(&["GET", "POST", "OPTIONS", "FOO"]);
    let (auth, name, port) = host(src);
    let (target, want) = match src.below(2) {
        0 => ("*".to_string(), 200),
        _ => (auth.clone(), 400),
    };
    let (sent, sent_name, sent_port) = host(src);
    case.note(|| format!("{} {} host: {}", method, target, sent));
    let _ = (name, port);
    let (seen, reply) = ask(method, &target, Some(&sent))?;
    ensure_eq!(reply.status, want, "status", "status of {}", target);
    ensure!(reply.body.is_empty(), "body", "body of a response from no handler");
    if want == 200 {
        case.label("asterisk");
        ensure_eq!(seen.iter().map(|s| s.by).collect::<Vec<_>>(), vec!["filter"], "who saw it", "who saw the asterisk");
        let s = &seen[0];
        ensure!(s.path.is_none() && s.query.is_empty() && s.fragment.is_none(), "path", "what the filter saw of the asterisk: {:?}", s);
        ensure_eq!(s.host, Some((sent_name, sent_port)), "host", "Host header with the asterisk");
    } else {
        case.label("authority");
        ensure!(!seen.iter().any(|s| s.by == "handler"), "who saw it", "a handler saw {}", target);
    }
    case.nontrivial();
    Ok(())
}

fn main() {
    runner::main("P07", "a target with encoded or delimiter bytes that was sent in both forms; a target of another form", &[
        Prop { name: "targets", quick: 2_800_000, thorough: 21_000_000, run: targets },
        Prop { name: "other forms", quick: 240_000, thorough: 1_800_000, run: other_forms },
    ]);
}
