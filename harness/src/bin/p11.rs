//! P11: response filters form one ordered, lossless pipeline.
use std::cell::RefCell;
use std::collections::VecDeque;

use pbt::resp::*;
use pbt::*;
use rustful::filter::ResponseFilter;
use rustful::server::KeepAlive;
use rustful::{Context, Handler, Response, Server};

thread_local! {
    static SCRIPTS: RefCell<VecDeque<Script>> = RefCell::new(VecDeque::new());
    static DID: RefCell<Vec<(Vec<Did>, Log)>> = RefCell::new(vec![]);
}

struct Act;

impl Handler for Act {
    fn handle(&self, _: Context, r: Response) {
        let s = SCRIPTS.with(|s| s.borrow_mut().pop_front()).expect("more requests than scripts");
        let d = perform(&s, r);
        DID.with(|v| v.borrow_mut().push((d, take_log())));
    }
}

fn pipeline(src: &mut Src, case: &mut Case) -> Res {
    let filters = Filter::list(src, 5);
    let mut scripts = vec![];
    let n = src.range(1, 3);
    for _ in 0..n {
        let style = if src.chance(1, 12) { Style::Drop } else { style(src, true) };
        let mut headers = HOp::list(src, 1, 3);
        if src.chance(1, 8) {
            headers.push(HOp::Set((*src.pick(&["Content-Length", "content-length"])).into(), vec![(*src.pick(&["0", "5", "1000"])).into()]));
        }
        scripts.push(Script { status: if src.chance(1, 3) { status(src) } else { None }, headers, style });
    }
    case.note(|| format!("{:#?}\n{:?}", filters, scripts));
    SCRIPTS.with(|s| *s.borrow_mut() = scripts.iter().cloned().collect());
    DID.with(|v| v.borrow_mut().clear());
    take_log();
    let server = Server {
        keep_alive: Some(KeepAlive { timeout: std::time::Duration::from_secs(5), free_threads: 0 }),
        threads: Some(10),
        server: "test".into(),
        response_filters: filters.iter().map(|f| Box::new(Installed(f.clone())) as Box<dyn ResponseFilter>).collect(),
        ..Server::new(Act)
    }
    .build();
    let mut data = vec![];
    for i in 0..scripts.len() {
        data.extend(wire::Req::new("GET", &format!("/{}", i)).more(src).bytes());
    }
    let (out, talk) = wire::send(&server, data, true);
    ensure_eq!(talk.requests, scripts.len(), "requests", "requests that were handled");
    let did = DID.with(|v| v.borrow().clone());
    ensure_eq!(did.len(), scripts.len(), "requests", "requests that reached the handler");
    let mut pos = 0;
    for (i, s) in scripts.iter().enumerate() {
        let at = format!("response {} of {}", i + 1, scripts.len());
        let e = expect(&filters, s, &defaults("test", "text/html; charset=utf-8"));
        check_results(&did[i].0, &e, &at)?;
        let reply = match wire::parse_reply(&out, &mut pos) {
            Ok(r) => r,
            Err(m) => return fail("malformed", format!("{}: {}\noutput: {}", at, m, gen::show(&out[..out.len().min(3000)]))),
        };
        check(&reply, &e, &at)?;
        check_log(&did[i].1, &e, &at)?;
        case.label_if(e.silenced, "silenced");
        case.label_if(e.failed, "filter error");
        let raw = matches!(s.style, Style::Raw(..));
        case.label(match s.style {
            Style::Drop => "dropped",
            Style::Chunked(..) => "chunked",
            Style::Raw(..) => "declared length",
            _ => "sent",
        });
        case.nontrivial_if(filters.len() > 1 && !raw);
        if !e.failed && !raw {
            let adds = filters.iter().filter(|f| matches!(f.end, Add::Data(_))).count();
            case.label_if(adds > 1, "several end pieces");
        }
    }
    ensure!(pos == out.len(), "extra output", "{} bytes follow the last response: {}", out.len() - pos, gen::show(&out[pos..]));
    Ok(())
}

fn main() {
    runner::main("P11", "a response other than a declared-length stream, through at least two filters", &[
        Prop { name: "pipeline", quick: 3_200_000, thorough: 24_000_000, run: pipeline },
    ]);
}
