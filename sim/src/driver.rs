//! Runs many cases over worker processes, judges the outcome, minimises and reports violations,
//! and writes the evidence. Nothing in here takes part in a simulated run.
use crate::checks::*;
use crate::gen;
use crate::rng::*;
use crate::scenario::*;
use crate::shrink;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

const CHUNK: u64 = 500;
/// A single run takes milliseconds, seconds for the largest; one silent for this long hangs.
const HANG: Duration = Duration::from_secs(90);

extern "C" {
    fn getrlimit(res: i32, lim: *mut [u64; 2]) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

fn limit_resources() {
    // Address space (a run away allocation must not take the machine along), no core files.
    unsafe {
        setrlimit(4, &[0, 0]);
    }
    address_space(12 << 30);
}

fn address_space(n: u64) {
    unsafe {
        let mut l = [u64::MAX; 2];
        getrlimit(9, &mut l);
        setrlimit(9, &[n.min(l[1]), l[1]]);
    }
}

/// A giant run needs more room; the limit is back afterwards.
fn with_room<T>(case: &Case, f: impl FnOnce() -> T) -> T {
    if case.giant.is_some() {
        address_space(64 << 30);
    }
    let r = f();
    address_space(12 << 30);
    r
}

/// The code is built twice: with overflow checks and debug assertions, and as users ship it.
/// Chunks of runs alternate between the builds.
fn build_of(run: u64) -> &'static str {
    if run / CHUNK % 2 == 0 { "release" } else { "shipped" }
}

/// The simulator as built in the given profile: target/<profile>/orcsim.
fn exe(build: &str) -> std::path::PathBuf {
    let me = std::env::current_exe().expect("current_exe");
    let p = me.parent().and_then(|p| p.parent()).map(|p| p.join(build).join("orcsim"));
    match p {
        Some(p) if p.is_file() => p,
        _ => {
            eprintln!("no {} build of the simulator; run build.sh", build);
            std::process::exit(3);
        }
    }
}

pub fn case_seed(prop: &str, vseed: u64, i: u64) -> u64 {
    let p = prop.bytes().fold(0u64, |a, b| a * 256 + b as u64);
    mix_all(&[vseed, p, i])
}

fn make(prop: &str, vseed: u64, i: u64, tier: &str) -> Case {
    gen::case_at(prop, case_seed(prop, vseed, i), i, tier == "thorough")
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Found {
    index: u64,
    class: String,
    detail: String,
    #[serde(default)]
    trace: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
struct Totals {
    stats: Stats,
    known: BTreeMap<String, (u64, u64, String)>,
}

/// Runs cases from..to. Protocol: "> i" before each case, "= i trace nontrivial" after it,
/// "F json" for a failure (and stop), "T json" at the end.
pub fn worker(prop: &str, vseed: u64, from: u64, to: u64, tier: &str) -> i32 {
    quiet_panics();
    limit_resources();
    let out = std::io::stdout();
    let mut out = out.lock();
    let mut t = Totals::default();
    for i in from..to {
        let _ = out.write_all(format!("> {}\n", i).as_bytes());
        let _ = out.flush();
        let case = make(prop, vseed, i, tier);
        let o = with_room(&case, || run_isolated(&case));
        t.stats.merge(&o.stats);
        for k in &o.known {
            let e = t.known.entry(k.class.clone()).or_insert((0, i, k.detail.clone()));
            e.0 += 1;
        }
        let _ = writeln!(out, "= {} {:016x} {:016x} {}", i, o.trace, o.shape, o.nontrivial as u8);
        if let Some(f) = o.fails.first() {
            let f = Found { index: i, class: f.class.clone(), detail: f.detail.clone(), trace: o.trace };
            let _ = writeln!(out, "F {}", serde_json::to_string(&f).unwrap());
            break;
        }
    }
    let _ = writeln!(out, "T {}", serde_json::to_string(&t).unwrap());
    let _ = out.flush();
    0
}

enum Line {
    Text(String),
    End,
}

#[derive(Default)]
struct ChunkResult {
    traces: Vec<(u64, u64, u64, bool)>,
    totals: Totals,
    found: Option<Found>,
    /// The case during which the worker died or went silent.
    lost: Option<(u64, String)>,
}

extern "C" {
    fn sched_setaffinity(pid: i32, size: usize, mask: *const u64) -> i32;
}

/// Another environment, locale, time zone, program name and number of processors.
fn elsewhere(c: &mut Command) {
    use std::os::unix::process::CommandExt;
    c.env_clear().env("TZ", "Pacific/Auckland").env("LANG", "tr_TR.UTF-8").env("HOME", "/nonexistent").env("PADDING", "x".repeat(3000));
    c.arg0("somewhere-else");
    unsafe {
        c.pre_exec(|| {
            // Not allowed here? Then all of them.
            for cpu in 0..16u64 {
                if sched_setaffinity(0, 8, &(1 << ((cpu + std::process::id() as u64) % 16))) == 0 {
                    break;
                }
            }
            Ok(())
        });
    }
}

fn run_worker(prop: &str, vseed: u64, from: u64, to: u64, tier: &str, other_env: bool, stop: &AtomicBool) -> ChunkResult {
    let mut c = Command::new(exe(build_of(from)));
    c.args(["worker", prop, &vseed.to_string(), &from.to_string(), &to.to_string(), tier]);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    if other_env {
        elsewhere(&mut c);
        c.current_dir("/");
    }
    let mut child = c.spawn().expect("spawn worker");
    let so = child.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let reader = std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Line::Text(l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Line::End);
    });
    let mut r = ChunkResult::default();
    let mut current = None;
    let mut complete = false;
    let mut silent = Duration::ZERO;
    loop {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Line::Text(l)) => {
                silent = Duration::ZERO;
                if let Some(x) = l.strip_prefix("> ") {
                    current = x.parse().ok();
                } else if let Some(x) = l.strip_prefix("= ") {
                    let p: Vec<&str> = x.split(' ').collect();
                    if let [i, t, s, n] = p[..] {
                        let hex = |x| u64::from_str_radix(x, 16).unwrap_or(0);
                        r.traces.push((i.parse().unwrap_or(0), hex(t), hex(s), n == "1"));
                    }
                    current = None;
                } else if let Some(x) = l.strip_prefix("F ") {
                    r.found = serde_json::from_str(x).ok();
                } else if let Some(x) = l.strip_prefix("T ") {
                    if let Ok(t) = serde_json::from_str(x) {
                        r.totals = t;
                        complete = true;
                    }
                }
            }
            Ok(Line::End) | Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                silent += Duration::from_millis(500);
                if stop.load(Ordering::Relaxed) {
                    let _ = child.kill();
                    let _ = child.wait();
                    let _ = reader.join();
                    return r;
                }
                if silent >= if current.map_or(false, crate::gen::may_be_giant) { 4 * HANG } else { HANG } {
                    let _ = child.kill();
                    r.lost = Some((current.unwrap_or(from), "hang".into()));
                    break;
                }
            }
        }
    }
    let st = child.wait();
    let _ = reader.join();
    if !complete && r.lost.is_none() {
        let how = st.map(|s| format!("{}", s)).unwrap_or_else(|e| e.to_string());
        r.lost = Some((current.unwrap_or(from), how));
    }
    r
}

fn default_build() -> String {
    "release".into()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Replay {
    pub property: String,
    /// The violation: its class and what was observed.
    pub class: String,
    pub detail: String,
    /// Where it was found: VERIF_SEED, run number, the run's own seed.
    pub verif_seed: u64,
    pub run: u64,
    pub run_seed: u64,
    /// Hash of the event log (calls, results, accepted bytes) of the case below.
    pub trace: String,
    pub minimised: bool,
    #[serde(default)]
    pub executions_to_minimise: u32,
    /// Which build of the code: "release" (with overflow checks) or "shipped" (without).
    #[serde(default = "default_build")]
    pub build: String,
    /// Replay in two processes and compare their event logs.
    #[serde(default)]
    pub two_processes: bool,
    pub case: Case,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct OneResult {
    fails: Vec<(String, String)>,
    known: Vec<(String, String)>,
    trace: String,
}

/// Executes the case of a replay file once and prints the result as JSON.
pub fn one(file: &str) -> i32 {
    quiet_panics();
    limit_resources();
    let r: Replay = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 3;
        }
    };
    let o = with_room(&r.case, || run_isolated(&r.case));
    let res = OneResult {
        fails: o.fails.iter().map(|f| (f.class.clone(), f.detail.clone())).collect(),
        known: o.known.iter().map(|f| (f.class.clone(), f.detail.clone())).collect(),
        trace: format!("{:016x}", o.trace),
    };
    println!("{}", serde_json::to_string(&res).unwrap());
    !o.fails.is_empty() as i32
}

enum Fresh {
    Done(OneResult),
    Died(String),
}

/// Executes the case of a replay file in a process of its own.
fn fresh(build: &str, file: &std::path::Path, other_env: bool, limit: Duration) -> Fresh {
    let mut c = Command::new(exe(build));
    c.arg("one").arg(file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    if other_env {
        elsewhere(&mut c);
    }
    let mut child = c.spawn().expect("spawn");
    let mut so = child.stdout.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = std::io::Read::read_to_string(&mut so, &mut s);
        s
    });
    let t0 = Instant::now();
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if t0.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    let s = h.join().unwrap_or_default();
    match (st, serde_json::from_str::<OneResult>(s.trim())) {
        (Some(_), Ok(r)) => Fresh::Done(r),
        (None, _) => Fresh::Died("hang".into()),
        (Some(st), _) => Fresh::Died(format!("{}", st)),
    }
}

/// Whether the replay file shows its violation again; with the trace.
/// Giants take long, and longer on a busy machine.
fn patience(r: &Replay) -> Duration {
    if r.case.giant.is_some() { 4 * HANG } else { HANG }
}

fn reproduces(r: &Replay, file: &std::path::Path) -> Result<String, String> {
    if r.two_processes {
        return match (fresh(&r.build, file, false, patience(r)), fresh(&r.build, file, true, patience(r))) {
            (Fresh::Done(a), Fresh::Done(b)) if a.trace != b.trace => Ok(format!("event logs {} and {}", a.trace, b.trace)),
            (Fresh::Done(a), Fresh::Done(_)) => Err(format!("both processes: event log {}", a.trace)),
            _ => Ok("a process died".into()),
        };
    }
    match fresh(&r.build, file, false, patience(r)) {
        Fresh::Done(o) => match o.fails.iter().chain(&o.known).find(|f| f.0 == r.class) {
            Some(f) => Ok(format!("{} [{}]", f.1, o.trace)),
            None => Err(format!("event log {}; {}", o.trace, o.fails.iter().map(|f| format!("{}: {}", f.0, f.1)).collect::<Vec<_>>().join("; "))),
        },
        Fresh::Died(how) if r.class.ends_with("/died") => Ok(how),
        Fresh::Died(how) => Err(format!("the process died: {}", how)),
    }
}

pub fn replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str(&s).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 3;
        }
    };
    println!("property {}  class {}  (VERIF_SEED {}, run {}, {} build)", r.property, r.class, r.verif_seed, r.run, r.build);
    println!("recorded: {} [{}]", r.detail, r.trace);
    match reproduces(&r, std::path::Path::new(file)) {
        Ok(x) => {
            println!("observed: {}", x);
            println!("VIOLATION property={} replay={}", r.property, file);
            1
        }
        Err(x) => {
            println!("observed: no such violation ({})", x);
            0
        }
    }
}

/// Minimises in this process (the parent guards against a crash or hang of it).
pub fn shrink_file(file: &str, out: &str) -> i32 {
    quiet_panics();
    limit_resources();
    let mut r: Replay = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let t0 = Instant::now();
    let class = r.class.clone();
    let (best, tried) = shrink::shrink(&r.case, 20_000, &mut |c| {
        t0.elapsed() < Duration::from_secs(25) && with_room(c, || run_isolated(c)).fails.iter().any(|f| f.class == class)
    });
    let o = with_room(&best, || run_isolated(&best));
    let Some(f) = o.fails.iter().find(|f| f.class == class) else { return 1 };
    r.detail = f.detail.clone();
    r.trace = format!("{:016x}", o.trace);
    r.case = best;
    r.minimised = true;
    r.executions_to_minimise = tried;
    std::fs::write(out, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    0
}

/// (property, class) pairs on record; the text after them.
fn read_known(dir: &std::path::Path) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(dir.join("known_findings.txt")) {
        for l in s.lines() {
            if let Some(x) = l.strip_prefix("known: property=") {
                let mut it = x.splitn(3, ' ');
                let (p, c, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                v.push((p.to_string(), c.trim_start_matches("class=").to_string(), t.to_string()));
            }
        }
    }
    v
}

/// Confirms, minimises and stores a violation; returns the path of the replay file.
fn report(dir: &std::path::Path, prop: &str, vseed: u64, tier: &str, f: &Found, two: bool, log: &mut Vec<String>) -> std::path::PathBuf {
    let d = dir.join("replays");
    let _ = std::fs::create_dir_all(&d);
    let raw = d.join(format!("{}-{}-{}.full.json", prop, vseed, f.index));
    let min = d.join(format!("{}-{}-{}.json", prop, vseed, f.index));
    let r = Replay {
        property: prop.into(),
        class: f.class.clone(),
        detail: f.detail.clone(),
        verif_seed: vseed,
        run: f.index,
        run_seed: case_seed(prop, vseed, f.index),
        trace: format!("{:016x}", f.trace),
        minimised: false,
        executions_to_minimise: 0,
        build: build_of(f.index).into(),
        two_processes: two,
        case: make(prop, vseed, f.index, tier),
    };
    std::fs::write(&raw, serde_json::to_string_pretty(&r).unwrap()).unwrap();
    let _ = std::fs::remove_file(&min);
    if f.class.ends_with("/died") || two {
        // Each attempt needs a process of its own.
        let t0 = Instant::now();
        let tmp = d.join(format!("{}-{}-{}.tmp.json", prop, vseed, f.index));
        let (best, tried) = shrink::shrink(&r.case, 400, &mut |c| {
            if t0.elapsed() > Duration::from_secs(60) {
                return false;
            }
            let mut q = r.clone();
            q.case = c.clone();
            std::fs::write(&tmp, serde_json::to_string(&q).unwrap()).unwrap();
            if two {
                reproduces(&q, &tmp).is_ok()
            } else {
                matches!(fresh(&r.build, &tmp, false, Duration::from_secs(10)), Fresh::Died(_))
            }
        });
        let _ = std::fs::remove_file(&tmp);
        let mut q = r.clone();
        q.case = best;
        q.minimised = true;
        q.executions_to_minimise = tried;
        std::fs::write(&min, serde_json::to_string_pretty(&q).unwrap()).unwrap();
    } else {
        let c = Command::new(exe(&r.build)).arg("shrink").arg(&raw).arg(&min).stdin(Stdio::null()).stderr(Stdio::null()).spawn();
        if let Ok(mut c) = c {
            let t0 = Instant::now();
            loop {
                match c.try_wait() {
                    Ok(None) if t0.elapsed() < Duration::from_secs(90) => std::thread::sleep(Duration::from_millis(10)),
                    Ok(None) => {
                        let _ = c.kill();
                        let _ = c.wait();
                        break;
                    }
                    _ => break,
                }
            }
        }
    }
    for p in [&min, &raw] {
        let Ok(s) = std::fs::read_to_string(p) else { continue };
        let Ok(q) = serde_json::from_str::<Replay>(&s) else { continue };
        match reproduces(&q, p) {
            Ok(x) => {
                log.push(format!("{}: {}", q.class, q.detail));
                log.push(format!("  replayed in a fresh process: {}", x));
                log.push(format!("  minimised: {} ({} executions); seed {} run {}", q.minimised, q.executions_to_minimise, vseed, f.index));
                return p.clone();
            }
            Err(x) => log.push(format!("  {} did not reproduce: {}", p.display(), x)),
        }
    }
    // The run itself is deterministic; what does not repeat is the code under test.
    log.push(format!("{}: {}", f.class, f.detail));
    log.push("  the code behaved differently when the same run was repeated".into());
    raw
}

struct Plan {
    runs: u64,
    wall: Duration,
}

fn plan(prop: &str, tier: &str) -> Plan {
    let quick = match prop {
        "C12" => 40_000,
        "C13" => 40_000,
        "C04" => 80_000,
        "C02" | "C03" | "C14" => 120_000,
        "C15" => 100_000,
        "C16" => 60_000,
        _ => 150_000,
    };
    if tier == "thorough" {
        Plan { runs: quick * 15, wall: Duration::from_secs(3600) }
    } else {
        Plan { runs: quick, wall: Duration::from_secs(150) }
    }
}

const RULE: &str = "A case is one seed: schema, value streams, null patterns, configuration, batch sizes, fill order, sink behaviour and faults, client reactions, interleaving are all drawn from it, each run enabling its own subset (swarm). ";

fn nontrivial_rule(prop: &str) -> &'static str {
    match prop {
        "C01" | "C07" | "C08" => "Non-trivial: the file was acknowledged, holds at least one row and was judged.",
        "C05" | "C06" => "Non-trivial: the file was acknowledged and judged (empty files included).",
        "C09" => "Non-trivial: at least one compressed chunk was judged.",
        "C10" => "Non-trivial: at least one row was committed.",
        "C02" => "Non-trivial: at least one short write or interruption actually struck.",
        "C03" => "Non-trivial: at least one sink failure actually struck a call.",
        "C04" => "Non-trivial: the run ended in an acknowledged file, in a crash, or with an abandoned writer.",
        "C11" => "Non-trivial: the misuse was real on this data and reached the writer (or, without misuse, rows were committed).",
        "C14" => "Non-trivial: the client looked around at least once while the writer lived.",
        "C16" => "Non-trivial: a request beyond the limits was made, or rows were written at the limits.",
        "C15" => "Non-trivial: the file was acknowledged and its metadata judged (empty files included).",
        "C12" => "Non-trivial: at least one row, compared over all schedule variants.",
        _ => "Non-trivial: at least two writers were in progress at once.",
    }
}

pub fn check(prop: &str, tier: &str, rest: &[&str]) -> i32 {
    let t0 = Instant::now();
    let vseed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let mut dir = std::env::current_dir().unwrap();
    let mut p = plan(prop, tier);
    let mut it = rest.iter();
    while let Some(k) = it.next() {
        match (*k, it.next()) {
            ("--runs", Some(n)) => p.runs = n.parse().unwrap(),
            ("--dir", Some(d)) => dir = d.into(),
            _ => {
                eprintln!("bad arguments");
                return 3;
            }
        }
    }
    println!("orcsim {} {}: VERIF_SEED={} runs={}", prop, tier, vseed, p.runs);
    let known = read_known(&dir);
    let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(2, 16);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    struct Agg {
        traces: BTreeMap<u64, u64>,
        distinct: BTreeSet<u64>,
        shapes: BTreeSet<u64>,
        totals: Totals,
        found: Vec<Found>,
        lost: Vec<(u64, String)>,
    }
    let agg = Arc::new(Mutex::new(Agg { traces: BTreeMap::new(), distinct: BTreeSet::new(), shapes: BTreeSet::new(), totals: Totals::default(), found: vec![], lost: vec![] }));
    // Runs whose event log is compared with that of a second process.
    let twice = CHUNK - 200..CHUNK + 200;
    let mut hs = vec![];
    for _ in 0..jobs {
        let (next, stop, agg) = (next.clone(), stop.clone(), agg.clone());
        let (prop, tier, runs, wall) = (prop.to_string(), tier.to_string(), p.runs, p.wall);
        hs.push(std::thread::spawn(move || loop {
            if stop.load(Ordering::Relaxed) || t0.elapsed() > wall {
                return;
            }
            let a = next.fetch_add(CHUNK, Ordering::Relaxed);
            if a >= runs {
                return;
            }
            let b = (a + CHUNK).min(runs);
            let mut from = a;
            while from < b && !stop.load(Ordering::Relaxed) {
                let r = run_worker(&prop, vseed, from, b, &tier, false, &stop);
                let mut g = agg.lock().unwrap();
                for &(i, t, sh, n) in &r.traces {
                    g.traces.insert(i, t);
                    g.shapes.insert(sh);
                    if n {
                        g.distinct.insert(t);
                    }
                }
                g.totals.stats.merge(&r.totals.stats);
                for (k, v) in r.totals.known {
                    let e = g.totals.known.entry(k).or_insert((0, v.1, v.2.clone()));
                    e.0 += v.0;
                    if v.1 < e.1 {
                        e.1 = v.1;
                        e.2 = v.2;
                    }
                }
                from = b;
                if let Some(f) = r.found {
                    g.found.push(f);
                    stop.store(true, Ordering::Relaxed);
                }
                if let Some((i, how)) = r.lost {
                    if !stop.load(Ordering::Relaxed) {
                        g.lost.push((i, how));
                        from = i + 1;
                        if g.lost.len() >= 3 {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            }
        }));
    }
    for h in hs {
        h.join().expect("driver thread");
    }
    let mut g = Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap();
    let mut log = vec![];
    let mut violations: Vec<(Found, std::path::PathBuf)> = vec![];
    g.found.sort_by_key(|f| f.index);
    if let Some(f) = g.found.first() {
        let path = report(&dir, prop, vseed, tier, f, false, &mut log);
        violations.push((f.clone(), path));
    }
    // A worker that died: the code took the process along (abort, stack, memory) or hangs.
    g.lost.sort();
    let mut harness_errors = vec![];
    for (i, how) in g.lost.iter().take(3) {
        if !violations.is_empty() {
            break;
        }
        let d = dir.join("replays");
        let _ = std::fs::create_dir_all(&d);
        let f = d.join(format!("{}-{}-{}.died.json", prop, vseed, i));
        let r = Replay { property: prop.into(), class: format!("{}/died", prop), detail: how.clone(), verif_seed: vseed, run: *i, run_seed: case_seed(prop, vseed, *i), trace: String::new(), minimised: false, executions_to_minimise: 0, build: build_of(*i).into(), two_processes: false, case: make(prop, vseed, *i, tier) };
        std::fs::write(&f, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        let again = fresh(&r.build, &f, false, patience(&r));
        let _ = std::fs::remove_file(&f);
        match again {
            Fresh::Died(how) => {
                let f = Found { index: *i, class: format!("{}/died", prop), detail: format!("the process running the writer ended with: {}", how), trace: 0 };
                let path = report(&dir, prop, vseed, tier, &f, false, &mut log);
                violations.push((f, path));
            }
            Fresh::Done(o) if !o.fails.is_empty() => {
                let f = Found { index: *i, class: o.fails[0].0.clone(), detail: o.fails[0].1.clone(), trace: 0 };
                let path = report(&dir, prop, vseed, tier, &f, false, &mut log);
                violations.push((f, path));
            }
            Fresh::Done(_) => harness_errors.push(format!("run {}: worker ended with {}, but the run passes alone", i, how)),
        }
    }
    // Known findings, and classes of that kind nobody has recorded.
    let mut known_lines = vec![];
    for (class, v) in &g.totals.known {
        match known.iter().find(|k| k.0 == prop && &k.1 == class) {
            Some(k) => known_lines.push(format!("KNOWN-FINDING: property={} {} [{} occurrences; first in run {}: {}]", prop, k.2, v.0, v.1, v.2)),
            None if violations.is_empty() => {
                let f = Found { index: v.1, class: class.clone(), detail: v.2.clone(), trace: 0 };
                let path = report(&dir, prop, vseed, tier, &f, false, &mut log);
                violations.push((f, path));
            }
            None => {}
        }
    }
    // The same runs in other processes, under another environment.
    let mut compared = 0u64;
    let mut diverged: Vec<u64> = vec![];
    if violations.is_empty() {
        let hs: Vec<_> = (0..8u64)
            .map(|k| {
                let (prop, tier) = (prop.to_string(), tier.to_string());
                let (a, b) = (twice.start + 400 * k / 8, twice.start + 400 * (k + 1) / 8);
                std::thread::spawn(move || run_worker(&prop, vseed, a, b, &tier, true, &AtomicBool::new(false)))
            })
            .collect();
        for h in hs {
            let r = h.join().expect("driver thread");
            for (i, t, _, _) in r.traces {
                if let Some(t0) = g.traces.get(&i) {
                    compared += 1;
                    if *t0 != t {
                        diverged.push(i);
                    }
                }
            }
        }
        diverged.sort();
        if let (Some(&i), "C12") = (diverged.first(), prop) {
            let f = Found { index: i, class: "C12/process".into(), detail: "the same history left different event logs in two processes".into(), trace: 0 };
            let path = report(&dir, prop, vseed, tier, &f, true, &mut log);
            violations.push((f, path));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let evals = g.traces.len() as u64;
    let samples: Vec<Value> = (0..3u64)
        .map(|k| {
            let c = make(prop, vseed, k, tier);
            json!({"run": k, "run_seed": case_seed(prop, vseed, k), "event_log_hash": g.traces.get(&k).map(|t| format!("{:016x}", t)), "case": c})
        })
        .collect();
    let st = &g.totals.stats;
    let pick = |pre: &str| -> BTreeMap<String, u64> { st.n.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| (k[pre.len()..].to_string(), *v)).collect() };
    let mut reach: BTreeMap<String, u64> = st.n.clone();
    reach.retain(|k, _| !k.starts_with("fault.") && !k.starts_with("misuse.") && k != "simulated_ms");
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": g.distinct.len(),
            "rule": format!("{}{} Distinct: by the hash of the case and its whole event log (every API call and result, every sink operation and the bytes it accepted).", RULE, nontrivial_rule(prop)),
            "samples": samples,
            "simulated_runs_per_hour": (evals as f64 / wall * 3600.0) as u64,
            "writer_executions": st.get("executions"),
            "simulated_time_s": st.get("simulated_ms") / 1000,
            "simulated_time_note": "clock time the simulated host let pass at API calls and sink operations; the code reads no clock (see clock_reads_by_the_code, absent when zero), so logical steps are the better measure",
            "logical_steps": st.get("api_calls") + st.get("sink_writes") + st.get("sink_flushes"),
            "faults_injected": pick("fault."),
            "client_misuse_injected": pick("misuse."),
            "reached": reach,
            "distinct_interleavings": g.shapes.len(),
            "distinct_interleavings_measure": "distinct sequences of API calls, their results, sink operations, faults and context switches, regardless of the data and of sizes",
            "determinism_self_test": {"runs_repeated_in_other_processes": compared, "event_logs_that_differed": diverged.len()},
            "worker_processes": jobs,
            "builds": {"with_overflow_checks_and_debug_assertions": g.traces.keys().filter(|&&i| build_of(i) == "release").count(), "as_shipped": g.traces.keys().filter(|&&i| build_of(i) == "shipped").count()},
            "known_findings_observed": g.totals.known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "components": {
                "real": ["orc-format writer (all of src/writer, schema, buffer)", "protobuf encoder", "snap and zstd compressors", "Rust standard library"],
                "simulated": ["sink (std::io::Write): acceptance, interruptions, failures, durability", "clients and their call schedule", "scheduler of writers and threads", "clock and entropy of the host", "independent ORC reader as oracle"]
            }
        },
        "assumptions": [
            "the sink is reached through std::io::Write only and honours its contract (accepted bytes stay accepted in order)",
            "an allocation failure aborts a Rust process, so it is covered as a crash at the same point",
            "values are legal ones: decimals within precision 38, timestamps of years 1 to 9999, utf-8 strings; block size at least 1"
        ],
        "wall_s": wall,
        "violations": violations.len(),
        "violations_found": violations.iter().map(|(f, p)| json!({"class": f.class, "detail": f.detail, "run": f.index, "replay": p.display().to_string()})).collect::<Vec<_>>(),
    });
    let evd = dir.join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(evd.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("evidence: {}", e);
        return 3;
    }
    for l in &log {
        println!("{}", l);
    }
    println!("{} runs ({} distinct non-trivial) in {:.1} s, {} writer executions, {} repeated in other processes ({} differed)", evals, g.distinct.len(), wall, st.get("executions"), compared, diverged.len());
    for l in &known_lines {
        println!("{}", l);
    }
    for e in &harness_errors {
        println!("note: {}", e);
    }
    if let Some((_, path)) = violations.first() {
        println!("VIOLATION property={} replay={}", prop, path.display());
        return 1;
    }
    if evals == 0 || g.distinct.is_empty() {
        println!("error: nothing was explored");
        return 2;
    }
    0
}

pub fn show(prop: &str, vseed: u64, i: u64) -> i32 {
    println!("{}", serde_json::to_string_pretty(&make(prop, vseed, i, "quick")).unwrap());
    0
}

/// Bring-up: runs seeds in this process and prints every class of failure.
pub fn bench(prop: &str, n: u64, tier: &str) -> i32 {
    quiet_panics();
    let t0 = Instant::now();
    let mut by: BTreeMap<String, (u64, u64, String)> = Default::default();
    let mut nt = 0;
    let mut slow: Vec<(f64, u64)> = vec![];
    let mut st = Stats::default();
    for i in 0..n {
        let t1 = Instant::now();
        let c = make(prop, 1, i, tier);
        let o = with_room(&c, || run_isolated(&c));
        slow.push((t1.elapsed().as_secs_f64(), i));
        nt += o.nontrivial as u64;
        st.merge(&o.stats);
        for f in o.fails.iter().chain(&o.known) {
            let e = by.entry(f.class.clone()).or_insert((0, i, f.detail.clone()));
            e.0 += 1;
        }
    }
    slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    slow.truncate(5);
    println!("{} runs {:.1}s nontrivial {} slowest {:?}", n, t0.elapsed().as_secs_f64(), nt, slow);
    for (k, v) in by {
        println!("  {} x{} first run {}: {}", k, v.0, v.1, v.2);
    }
    println!("{:?}", st.n);
    0
}
