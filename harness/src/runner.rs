//! Runs the generated cases of one property, shrinks failures, and writes
//! the evidence and replay files.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::io::FromRawFd;
use std::panic::{self, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use crate::dict;
use crate::json::{self, J};
use crate::src::{hash_bytes, mix, shrink, Src};

#[derive(Clone, Debug)]
pub struct Fail {
    /// What kind of failure it is; shrinking keeps it, known findings name it.
    pub sig: String,
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(sig: &str, msg: String) -> Result<T, Fail> {
    Err(Fail { sig: sig.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($c: expr, $sig: expr, $($t: tt)*) => {
        if !$c {
            return $crate::runner::fail($sig, format!($($t)*));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($got: expr, $want: expr, $sig: expr, $($t: tt)*) => {{
        let (got, want) = (&$got, &$want);
        if !(*got == *want) {
            return $crate::runner::fail($sig, format!("{}\n     got: {}\nexpected: {}", format!($($t)*), $crate::runner::clip(&format!("{:?}", got), 3000), $crate::runner::clip(&format!("{:?}", want), 3000)));
        }
    }};
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}... ({} bytes)", &s[..i], s.len())
}

#[derive(Default)]
pub struct Case {
    verbose: bool,
    pub notes: Vec<String>,
    labels: Vec<&'static str>,
    nontrivial: bool,
}

impl Case {
    /// Describe a part of the case (only evaluated when it will be shown).
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            self.notes.push(f());
        }
    }

    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }

    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub struct Prop {
    pub name: &'static str,
    /// Number of generated cases in the quick tier.
    pub quick: u64,
    /// Number of generated cases in the thorough tier.
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Case) -> Res,
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn root() -> PathBuf {
    std::env::var_os("PBT_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")))
}

/// Runs one case; panics of the code under test are failures.
fn run_case(prop: &Prop, src: &mut Src, verbose: bool) -> (Case, Option<Fail>) {
    let mut case = Case { verbose, ..Case::default() };
    QUIET.with(|q| q.set(true));
    let result = panic::catch_unwind(AssertUnwindSafe(|| (prop.run)(src, &mut case)));
    QUIET.with(|q| q.set(false));
    let failure = match result {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            Some(Fail { sig: "panic".into(), msg: format!("panicked: {}", m) })
        }
    };
    (case, failure)
}

/// What the last panic of this thread said, and where it was.
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

struct Known {
    sig: String,
    what: String,
}

fn known_findings(id: &str) -> Vec<Known> {
    let text = fs::read_to_string(root().join("known-findings.json")).unwrap_or_default();
    let j = match J::parse(&text) {
        Some(j) => j,
        None => return vec![],
    };
    j.get("findings").map(|f| f.arr().to_vec()).unwrap_or_default().iter().filter_map(|f| {
        if f.get("property")?.str()? != id || f.get("status")?.str()? != "open" {
            return None;
        }
        Some(Known { sig: f.get("signature")?.str()?.to_string(), what: f.get("what")?.str()?.to_string() })
    }).collect()
}

/// How long a single case may take.
const STUCK_S: u64 = 90;

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    draws: u64,
}

fn fingerprint(name: &str, rec: &[u64]) -> u64 {
    let mut h = hash_bytes(name.as_bytes());
    for &r in rec {
        h = mix(h ^ r);
    }
    h
}

pub fn main(id: &'static str, rule: &'static str, props: &[Prop]) {
    // Whatever the library prints to stdout is kept apart. Merging routers must
    // not depend on whether something can be printed at all.
    let sink: &[u8] = if id == "P04" { b"/dev/full\0" } else { b"/dev/null\0" };
    let mut out = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(sink.as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        fs::File::from_raw_fd(fd)
    };

    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let msg = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC.with(|c| *c.borrow_mut() = format!("{} at {}", msg, loc));
        if !QUIET.with(|q| q.get()) && std::env::var_os("PBT_PANICS").is_some() {
            eprintln!("panic: {} at {}", msg, loc);
        }
    }));
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN); }

    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 3 && args[1] == "--replay" {
        std::process::exit(replay(&mut out, id, props, &args[2]));
    }

    let started = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("PBT_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("PBT_ONLY").ok();
    let threads: usize = std::env::var("PBT_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    dict::load();
    let known = known_findings(id);
    let known_hits: Mutex<HashSet<String>> = Mutex::new(HashSet::new());

    // A case takes micro- or milliseconds. One that does not end at all has
    // failed; it can't be shrunk, so its seed becomes the replay file. (Ticks
    // are counted instead of reading a clock, so that a paused process does
    // not count.)
    let ticks = Arc::new(AtomicU64::new(1));
    let heartbeat: Arc<Vec<[AtomicU64; 3]>> = Arc::new((0..threads + 1).map(|_| [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)]).collect());
    {
        let heartbeat = heartbeat.clone();
        let ticks = ticks.clone();
        let names: Vec<&'static str> = props.iter().map(|p| p.name).collect();
        let mut out = out.try_clone().expect("could not duplicate the output");
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = ticks.fetch_add(1, Ordering::Relaxed) + 1;
            for h in heartbeat.iter() {
                let t = h[0].load(Ordering::Relaxed);
                if t != 0 && now > t + STUCK_S {
                    let (pi, case_seed) = (h[1].load(Ordering::Relaxed) as usize, h[2].load(Ordering::Relaxed));
                    let dir = root().join("replays");
                    let _ = fs::create_dir_all(&dir);
                    let path = dir.join(format!("{}-{}.json", id, names[pi].replace(' ', "-")));
                    let j = json::obj(vec![
                        ("property", json::s(id)),
                        ("check", json::s(names[pi])),
                        ("signature", json::s("stuck")),
                        ("failure", json::s(format!("the case does not end within {} s", STUCK_S))),
                        ("case_seed", json::s(format!("{}", case_seed))),
                        ("dictionary", dict::to_json()),
                    ]);
                    let _ = fs::write(&path, j.text());
                    let _ = writeln!(out, "{}: check {}: a case does not end within {} s", id, names[pi], STUCK_S);
                    let _ = writeln!(out, "VIOLATION property={} replay={}", id, path.display());
                    std::process::exit(1);
                }
            }
        });
    }

    let mut total = Stats::default();
    let mut per_prop = vec![];
    let mut samples = vec![];
    let mut violation: Option<(usize, u64, Vec<u64>, Fail)> = None;

    for (pi, prop) in props.iter().enumerate() {
        if let Some(ref o) = only {
            if !prop.name.contains(&**o) {
                continue;
            }
        }
        let base = if thorough { prop.thorough } else { prop.quick };
        let count = ((base as f64 * scale) as u64).max(1);
        let prop_seed = mix(seed ^ hash_bytes(prop.name.as_bytes()));
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let found: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
        let all: Mutex<Stats> = Mutex::new(Stats::default());
        let sample_seeds: Mutex<Vec<(u64, u64)>> = Mutex::new(vec![]);
        let prop_start = Instant::now();

        std::thread::scope(|scope| {
            for w in 0..threads {
                let (next, stop, found, all, sample_seeds, known, known_hits) = (&next, &stop, &found, &all, &sample_seeds, &known, &known_hits);
                let heartbeat = heartbeat.clone();
                let ticks = ticks.clone();
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, move || {
                    let mut stats = Stats::default();
                    while !stop.load(Ordering::Relaxed) {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= count {
                            break;
                        }
                        let case_seed = mix(prop_seed.wrapping_add(mix(i)));
                        heartbeat[w][1].store(pi as u64, Ordering::Relaxed);
                        heartbeat[w][2].store(case_seed, Ordering::Relaxed);
                        heartbeat[w][0].store(ticks.load(Ordering::Relaxed), Ordering::Relaxed);
                        let mut src = Src::random(case_seed);
                        let (case, failure) = run_case(prop, &mut src, false);
                        stats.evaluations += 1;
                        stats.draws += src.rec.len() as u64;
                        for l in &case.labels {
                            *stats.labels.entry(l).or_insert(0) += 1;
                        }
                        if case.nontrivial {
                            stats.nontrivial += 1;
                            stats.distinct.insert(fingerprint(prop.name, &src.rec));
                            if i < 64 {
                                sample_seeds.lock().unwrap().push((i, case_seed));
                            }
                        }
                        if let Some(f) = failure {
                            if let Some(k) = known.iter().find(|k| k.sig == f.sig) {
                                known_hits.lock().unwrap().insert(k.what.clone());
                                continue;
                            }
                            stop.store(true, Ordering::Relaxed);
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map(|g| i < g.0).unwrap_or(true) {
                                *g = Some((i, src.rec, f));
                            }
                        }
                    }
                    heartbeat[w][0].store(0, Ordering::Relaxed);
                    let mut a = all.lock().unwrap();
                    a.evaluations += stats.evaluations;
                    a.nontrivial += stats.nontrivial;
                    a.draws += stats.draws;
                    a.distinct.extend(stats.distinct);
                    for (l, n) in stats.labels {
                        *a.labels.entry(l).or_insert(0) += n;
                    }
                }).expect("could not start a worker");
            }
        });

        let stats = all.into_inner().unwrap();
        let mut seeds = sample_seeds.into_inner().unwrap();
        seeds.sort();
        for &(_, s) in seeds.iter().take(2) {
            let mut src = Src::random(s);
            let (case, _) = run_case(prop, &mut src, true);
            samples.push(json::s(clip(&format!("[{}] {}", prop.name, case.notes.join("; ")), 1200)));
        }
        per_prop.push(json::obj(vec![
            ("name", json::s(prop.name)),
            ("evaluations", J::Int(stats.evaluations)),
            ("nontrivial", J::Int(stats.nontrivial)),
            ("distinct_nontrivial", J::Int(stats.distinct.len() as u64)),
            ("mean_draws", J::Num(stats.draws as f64 / stats.evaluations.max(1) as f64)),
            ("wall_s", J::Num(prop_start.elapsed().as_secs_f64())),
            ("classes", J::Obj(stats.labels.iter().map(|(k, v)| (k.to_string(), J::Int(*v))).collect())),
        ]));
        total.evaluations += stats.evaluations;
        total.distinct.extend(stats.distinct);
        if let Some((i, rec, f)) = found.into_inner().unwrap() {
            violation = Some((pi, i, rec, f));
            break;
        }
    }

    let mut status = 0;
    if let Some((pi, index, rec, first)) = violation {
        let prop = &props[pi];
        let mut execs = 0u64;
        let sig = first.sig.clone();
        let case_seed = mix(mix(seed ^ hash_bytes(prop.name.as_bytes())).wrapping_add(mix(index)));
        let beat = &heartbeat[threads];
        beat[1].store(pi as u64, Ordering::Relaxed);
        beat[2].store(case_seed, Ordering::Relaxed);
        let best = {
            let execs = &mut execs;
            let ticks = &ticks;
            let mut shrunk = Vec::new();
            let worker = std::thread::scope(|scope| {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(scope, || {
                    shrunk = shrink(rec.clone(), 6000, |c| {
                        *execs += 1;
                        beat[0].store(ticks.load(Ordering::Relaxed), Ordering::Relaxed);
                        let mut src = Src::replay(c.to_vec());
                        let (_, f) = run_case(prop, &mut src, false);
                        match f {
                            Some(ref f) if f.sig == sig => Some(src.rec),
                            _ => None,
                        }
                    });
                }).unwrap().join()
            });
            beat[0].store(0, Ordering::Relaxed);
            if worker.is_err() || shrunk.is_empty() { rec.clone() } else { shrunk }
        };
        let mut src = Src::replay(best.clone());
        let (case, f) = run_case(prop, &mut src, true);
        let (best, case, f) = match f {
            Some(f) => (best, case, f),
            None => {
                let mut src = Src::replay(rec.clone());
                let (case, f) = run_case(prop, &mut src, true);
                (rec.clone(), case, f.unwrap_or(first))
            }
        };
        let dir = root().join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", id, prop.name.replace(' ', "-")));
        let j = json::obj(vec![
            ("property", json::s(id)),
            ("check", json::s(prop.name)),
            ("seed", J::Int(seed)),
            ("case_index", J::Int(index)),
            ("signature", json::s(f.sig.clone())),
            ("failure", json::s(f.msg.clone())),
            ("case", J::Arr(case.notes.iter().map(|n| json::s(clip(n, 4000))).collect())),
            ("choices", J::Arr(best.iter().map(|&v| J::Int(v)).collect())),
            ("shrink_executions", J::Int(execs)),
            ("dictionary", dict::to_json()),
            ("rerun", json::s(format!("bash /verif/check.sh {} --replay {}", id, path.display()))),
        ]);
        let _ = fs::write(&path, j.text());
        let _ = writeln!(out, "{}: check {} failed (case {}, {} -> {} choices): {}", id, prop.name, index, rec.len(), best.len(), f.msg);
        for n in &case.notes {
            let _ = writeln!(out, "  {}", clip(n, 2000));
        }
        let _ = writeln!(out, "VIOLATION property={} replay={}", id, path.display());
        status = 1;
    }

    let hits = known_hits.into_inner().unwrap();
    for k in &known {
        if hits.contains(&k.what) {
            let _ = writeln!(out, "KNOWN-FINDING: property={} {}", id, k.what);
        }
    }

    let evidence = json::obj(vec![
        ("property", json::s(id)),
        ("tier", json::s(if thorough { "thorough" } else { "quick" })),
        ("seed", J::Int(seed)),
        ("level", json::s("exploration")),
        ("coverage", json::obj(vec![
            ("evaluations", J::Int(total.evaluations)),
            ("distinct_nontrivial", J::Int(total.distinct.len() as u64)),
            ("rule", json::s(rule)),
            ("samples", J::Arr(samples)),
            ("checks", J::Arr(per_prop)),
        ])),
        ("wall_s", J::Num(started.elapsed().as_secs_f64())),
        ("violations", J::Int(if status == 0 { 0 } else { 1 })),
    ]);
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", id)), evidence.text()) {
        eprintln!("error: could not write the evidence: {}", e);
        std::process::exit(3);
    }
    let _ = writeln!(out, "{}: {} cases, {} distinct non-trivial, {:.1} s, {}", id, total.evaluations, total.distinct.len(), started.elapsed().as_secs_f64(), if status == 0 { "held" } else { "VIOLATED" });
    std::process::exit(status);
}

fn replay(out: &mut fs::File, id: &str, props: &[Prop], path: &str) -> i32 {
    let text = match fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("error: {}: {}", path, e);
            return 3;
        }
    };
    let j = match J::parse(&text) {
        Some(j) => j,
        None => {
            eprintln!("error: {} is not a replay file", path);
            return 3;
        }
    };
    if let Some(d) = j.get("dictionary") {
        dict::from_json(d);
    }
    let name = j.get("check").and_then(|c| c.str()).unwrap_or("").to_string();
    let choices: Vec<u64> = j.get("choices").map(|c| c.arr().iter().filter_map(|v| v.int()).collect()).unwrap_or_default();
    for prop in props {
        if prop.name == name {
            let mut src = match j.get("case_seed").and_then(|c| c.str()).and_then(|c| c.parse().ok()) {
                Some(seed) => Src::random(seed),
                None => Src::replay(choices),
            };
            let (case, f) = run_case(prop, &mut src, true);
            for n in &case.notes {
                let _ = writeln!(out, "  {}", n);
            }
            return match f {
                Some(f) => {
                    let _ = writeln!(out, "{}", f.msg);
                    let _ = writeln!(out, "VIOLATION property={} replay={}", id, path);
                    1
                }
                None => {
                    let _ = writeln!(out, "{}: the replayed case passes", id);
                    0
                }
            };
        }
    }
    eprintln!("error: no check named {:?}", name);
    3
}
