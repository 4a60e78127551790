//! Executes one case (a seed's scenario) and judges it for its property.
use crate::exec::*;
use crate::host;
use crate::model::*;
use crate::oracle::*;
use crate::orc::*;
use crate::rng::*;
use crate::scenario::*;
use crate::sink::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// Counters of one run, summed into the evidence.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
}

impl Stats {
    pub fn add(&mut self, k: &str, v: u64) {
        if v > 0 {
            *self.n.entry(k.to_string()).or_insert(0) += v;
        }
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.n {
            *self.n.entry(k.clone()).or_insert(0) += v;
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.n.get(k).copied().unwrap_or(0)
    }
}

pub struct Outcome {
    pub fails: Vec<Fail>,
    pub known: Vec<Fail>,
    pub stats: Stats,
    /// Hash of everything that happened: calls, results, bytes accepted.
    pub trace: u64,
    /// Hash of the order of calls, results, faults and context switches, without the data.
    pub shape: u64,
    pub nontrivial: bool,
}

struct Ctx {
    o: Outcome,
    t: Trace,
    shape: Trace,
}

impl Ctx {
    fn run(&mut self, sc: &Scenario, m: &Rc<Model>) -> RunOut {
        let r = run(sc, m);
        self.note(&r);
        r
    }
    fn note(&mut self, r: &RunOut) {
        self.t.add(r.trace);
        self.shape.add(r.shape);
        self.t.add(r.finish_ok as u64);
        let s = &mut self.o.stats;
        s.add("executions", 1);
        s.add("api_calls", r.calls.len() as u64);
        s.add("sink_writes", r.counts.writes);
        s.add("sink_flushes", r.counts.flushes);
        s.add("bytes", r.bytes.len() as u64);
        s.add("fault.short_write", r.counts.short_writes);
        s.add("fault.interrupted_write", r.counts.interrupts);
        s.add("fault.write_error", r.counts.write_errors);
        s.add("fault.zero_write", r.counts.zero_writes);
        s.add("fault.flush_error", r.counts.flush_errors);
        s.add("fault.sink_panic", r.counts.sink_panics);
    }
    fn fail(&mut self, f: Fail) {
        self.o.fails.push(f);
    }
    fn check(&mut self, c: Check) {
        if let Err(f) = c {
            self.fail(f);
        }
    }
    fn reader<T>(&mut self, c: Result<T, Fail>) -> Option<T> {
        match c {
            Ok(x) => Some(x),
            Err(f) => {
                self.fail(f);
                None
            }
        }
    }
}

fn show_call(i: usize, c: &Call) -> String {
    format!("call {} {:?} -> {:?} (sink {}..{} bytes, sink failure in this call: {:?})", i, c.op, c.res, c.before, c.after, c.hard)
}

/// Every call succeeded and finish returned the sink.
fn all_ok(p: &str, r: &RunOut) -> Check {
    for (i, c) in r.calls.iter().enumerate() {
        if c.res != Res::Ok {
            return Err(fail(&format!("{}/call-failed", p), show_call(i, c)));
        }
    }
    if !r.finish_ok {
        return Err(fail(&format!("{}/call-failed", p), "finish was not reached".into()));
    }
    Ok(())
}

fn is_prefix(p: &[u8], full: &[u8]) -> Result<(), String> {
    if p.len() > full.len() {
        return Err(format!("{} bytes accepted, the fault-free file has {}", p.len(), full.len()));
    }
    match (0..p.len()).find(|&i| p[i] != full[i]) {
        None => Ok(()),
        Some(i) => Err(format!("byte {} of {} differs from the fault-free file ({} bytes)", i, p.len(), full.len())),
    }
}

/// After a failure or rejection: if finish returned Ok anyway, the file has to be complete and
/// correct. Batches whose own commit failed may or may not be in it.
fn acked_file_ok(class: &str, r: &RunOut, m: &Model, sc: &Scenario) -> Check {
    let mut in_doubt: Vec<usize> = vec![];
    for c in &r.calls {
        if let (Op::Commit(b) | Op::Recommit(b), true) = (c.op, c.res != Res::Ok) {
            if !in_doubt.contains(&(b as usize)) && !r.committed.contains(&(b as usize)) {
                in_doubt.push(b as usize);
            }
        }
    }
    let mut last = Ok(());
    for mask in 0..1u32 << in_doubt.len().min(4) {
        let mut sel = r.committed.clone();
        for (i, b) in in_doubt.iter().enumerate().take(4) {
            if mask & (1 << i) != 0 {
                sel.push(*b);
            }
        }
        sel.sort();
        let mm = m.select(&sel);
        let c = c01(&r.bytes, &mm).and_then(|_| c05(&r.bytes, &mm, &sc.cfg));
        if c.is_ok() {
            return Ok(());
        }
        if mask == 0 {
            last = c;
        }
    }
    last.map_err(|f| fail(class, format!("finish returned Ok but the file is not complete and correct: {}: {}", f.class, f.detail)))
}

pub const STACK: usize = 16 << 20;

/// Executes a case on a simulated host of its own (a fresh thread), so that nothing an earlier
/// run left in thread-locals reaches it. A panic outside the code under test counts as a failure
/// to read what it produced.
pub fn run_isolated(case: &Case) -> Outcome {
    let case = Arc::new(case.clone());
    let c2 = case.clone();
    let r = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            host::enter(mix_all(&[c2.sched, 0x4057]));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_case(&c2)));
            let (ns, clock, entropy, jumps) = host::leave();
            r.map(|mut o| {
                o.stats.add("simulated_ms", ns / 1_000_000);
                o.stats.add("clock_reads_by_the_code", clock);
                o.stats.add("entropy_reads_by_the_code", entropy);
                o.stats.add("fault.clock_jump", jumps);
                o
            })
        })
        .expect("harness: cannot spawn")
        .join();
    match r {
        Ok(Ok(o)) => o,
        Ok(Err(p)) | Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Outcome { fails: vec![fail(&format!("{}/unreadable", case.property), format!("the reader gave up: {}", msg))], known: vec![], stats: Stats::default(), trace: 0, shape: 0, nontrivial: false }
        }
    }
}

pub fn run_case(case: &Case) -> Outcome {
    if let Some(g) = &case.giant {
        return crate::giant::run(&case.property, g);
    }
    let mut x = Ctx {
        o: Outcome { fails: vec![], known: vec![], stats: Stats::default(), trace: 0, shape: 0, nontrivial: false },
        t: Trace::new(),
        shape: Trace::new(),
    };
    let sc = &case.main;
    // What the log does not show (values, faults that never struck) makes runs distinct, too.
    x.t.bytes(&serde_json::to_vec(case).unwrap());
    let m = Rc::new(Model::build(&sc.root, &sc.batches));
    x.o.stats.add("rows", m.rows as u64);
    x.o.stats.add("cells", m.total_cells());
    x.o.stats.add("columns", m.cols.len() as u64);
    x.o.stats.add("batches", sc.batches.len() as u64);
    match case.property.as_str() {
        "C01" | "C05" | "C06" | "C07" | "C08" | "C09" => file_case(&mut x, case, &m),
        "C10" => c10_case(&mut x, case, &m),
        "C02" => c02_case(&mut x, case, &m),
        "C03" => c03_case(&mut x, case, &m),
        "C04" => c04_case(&mut x, case, &m),
        "C11" => c11_case(&mut x, case, &m),
        "C12" => c12_case(&mut x, case, &m),
        "C13" => c13_case(&mut x, case, &m),
        "C14" => c14_case(&mut x, case, &m),
        "C15" => c15_case(&mut x, case, &m),
        "C16" => c16_case(&mut x, case, &m),
        p => panic!("unknown property {}", p),
    }
    x.o.trace = x.t.0;
    x.o.shape = x.shape.0;
    x.o
}

fn count_stripes(x: &mut Ctx, r: &RunOut) -> usize {
    let n = tail(&r.bytes).map(|t| t.stripes.len()).unwrap_or(0);
    x.o.stats.add("stripes", n as u64);
    if n > 1 {
        x.o.stats.add("multi_stripe_files", 1);
    }
    n
}

fn file_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let sc = &case.main;
    let r = x.run(sc, m);
    // The sink never fails here, so every call has to succeed and leave a file to judge.
    if let Err(f) = all_ok(&case.property, &r) {
        x.fail(f);
        return;
    }
    count_stripes(x, &r);
    x.o.nontrivial = m.rows > 0;
    match case.property.as_str() {
        "C01" => x.check(c01(&r.bytes, m)),
        "C05" => {
            x.o.nontrivial = true;
            x.check(c05(&r.bytes, m, &sc.cfg))
        }
        "C06" => {
            x.o.nontrivial = true;
            x.check(c06(&r.bytes, m))
        }
        "C07" => x.check(c07(&r.bytes, m)),
        "C08" => {
            let mut known = vec![];
            if let Some(n) = x.reader(c08(&r.bytes, m, &sc.cfg, &mut known)) {
                x.o.stats.add("index_entries_followed", n);
            }
            x.o.known = known;
        }
        _ => {
            if let Some((n, o)) = x.reader(c09(&r.bytes, &sc.cfg)) {
                x.o.stats.add("chunks", n);
                x.o.stats.add("original_chunks", o);
                x.o.nontrivial = n > 0;
            }
        }
    }
}

fn c10_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let sc = &case.main;
    let r = x.run(sc, m);
    if let Err(f) = all_ok("C10", &r) {
        x.fail(f);
        return;
    }
    x.o.nontrivial = m.rows > 0;
    let n = count_stripes(x, &r);
    match c10(&r.bytes, m, &sc.cfg, &r.calls) {
        Err(f) => return x.fail(f),
        Ok(j) => x.o.stats.add("batch_boundaries_judged", j),
    }
    x.check(memory_bounded(&r, m));
    // Each stripe starts from a clean state: alone, it is the same.
    if n > 1 {
        let t = tail(&r.bytes).unwrap();
        let mut rr = Rng::new(case.sched);
        let picks: Vec<usize> = if n <= 4 { (1..n).collect() } else { vec![1, n - 1, rr.idx(n), rr.idx(n)] };
        let mut at = 0usize;
        let mut ranges = vec![];
        for s in &t.stripes {
            ranges.push(at..at + s.rows as usize);
            at += s.rows as usize;
        }
        for i in picks {
            let rows = &ranges[i];
            let sel: Vec<usize> = (0..sc.batches.len()).filter(|&b| m.batch_start[b] >= rows.start && m.batch_start[b + 1] <= rows.end && m.batch_start[b + 1] > m.batch_start[b]).collect();
            let mm = Rc::new(m.select(&sel));
            let mut s2 = sc.clone();
            s2.batches = sel.iter().map(|&b| sc.batches[b]).collect();
            s2.sink = SinkPlan::clean();
            let r2 = x.run(&s2, &mm);
            x.o.stats.add("solo_stripes", 1);
            let d = &t.stripes[i];
            let want = &r.bytes[d.offset as usize..d.end() as usize];
            let ok = r2.finish_ok
                && match tail(&r2.bytes) {
                    Ok(t2) => t2.stripes.len() == 1 && &r2.bytes[t2.stripes[0].offset as usize..(t2.stripes[0].end() as usize).min(r2.bytes.len())] == want,
                    Err(_) => false,
                };
            if !ok {
                return x.fail(fail("C10/stripe-state", format!("stripe {} (rows {}..{}) differs from the same rows written alone", i, rows.start, rows.end)));
            }
        }
    }
}

/// Once a stripe is out, the writer lets go of it: what it holds afterwards does not grow with
/// the stripes written, beyond the few words and bounds recorded about each.
fn memory_bounded(r: &RunOut, m: &Model) -> Check {
    let longest: i64 = m.cols.iter().map(|c| c.vals.longest() as i64).sum();
    let per_stripe = 1024 * m.cols.len() as i64 + 8 * longest;
    let base = r.held[0];
    let (mut peak, mut after, mut stripes) = (0i64, base, 0i64);
    for (c, &h) in r.calls.iter().zip(&r.held) {
        peak = peak.max(h - after);
        if let (Op::Commit(_), true) = (c.op, c.after > c.before) {
            stripes += 1;
            after = h;
            let bound = base + 4 * peak + stripes * per_stripe + (1 << 16);
            if h > bound {
                return Err(fail("C10/memory", format!("after {} stripes, none of which took more than {} bytes while buffered, the writer still holds {} bytes", stripes, peak, h - base)));
            }
        }
    }
    Ok(())
}

fn c02_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let sc = &case.main;
    let reference = run_reference(sc, m);
    x.note(&reference);
    if let Err(f) = all_ok(&case.property, &reference) {
        x.fail(f);
        return;
    }
    let r = x.run(sc, m);
    x.o.nontrivial = r.counts.short_writes + r.counts.interrupts > 0;
    if let Err(f) = all_ok("C02", &r) {
        return x.fail(f);
    }
    if r.bytes != reference.bytes {
        let e = is_prefix(&r.bytes, &reference.bytes).err().unwrap_or_else(|| format!("{} bytes, the fault-free file has {}", r.bytes.len(), reference.bytes.len()));
        return x.fail(fail("C02/bytes", e));
    }
    // Bounded work: an extra sink operation for each short write or interruption, no more.
    let bound = reference.counts.writes + r.counts.short_writes + r.counts.interrupts;
    if r.counts.writes > bound * 2 + 100 {
        return x.fail(fail("C02/work", format!("{} sink writes, {} without faults, {} short writes and {} interruptions", r.counts.writes, reference.counts.writes, r.counts.short_writes, r.counts.interrupts)));
    }
}

fn c03_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let sc = &case.main;
    let reference = run_reference(sc, m);
    x.note(&reference);
    if let Err(f) = all_ok(&case.property, &reference) {
        x.fail(f);
        return;
    }
    let r = x.run(sc, m);
    let mut failed = false;
    let mut sink_panicked = false;
    for (i, c) in r.calls.iter().enumerate() {
        match (c.hard, &c.res) {
            (_, Res::WorkBound) => return x.fail(fail("C03/unbounded", show_call(i, c))),
            (Some(Act::Panic), Res::SinkPanic) | (Some(_), Res::Err(_)) => {}
            // An interrupted flush that was repeated until it succeeded.
            (Some(Act::Interrupted), Res::Ok) if r.durable == r.bytes.len() => {}
            (Some(_), Res::Ok) => return x.fail(fail("C03/swallowed", show_call(i, c))),
            (Some(_), Res::Panic(_)) => return x.fail(fail("C03/panic", show_call(i, c))),
            (Some(_), _) => return x.fail(fail("C03/panic", show_call(i, c))),
            (None, Res::Ok) => {}
            (None, _) if !failed => return x.fail(fail("C03/spurious", show_call(i, c))),
            (None, Res::Panic(_)) if !sink_panicked => return x.fail(fail("C03/panic-later", show_call(i, c))),
            (None, _) => {}
        }
        if c.hard.is_some() {
            failed = true;
            sink_panicked |= c.hard == Some(Act::Panic);
            x.o.stats.add(
                match c.op {
                    Op::New => "struck.new",
                    Op::Commit(_) => "struck.write_batch",
                    Op::Finish => "struck.finish",
                    _ => "struck.later",
                },
                1,
            );
        }
    }
    x.o.nontrivial = failed;
    if failed {
        x.o.stats.add("calls_after_failure", (r.calls.len() - r.first_failure.unwrap_or(0) - 1) as u64);
    }
    if let Err(e) = is_prefix(&r.bytes, &reference.bytes) {
        // An acknowledged file that dropped in-doubt rows would be another legal outcome.
        if !(r.finish_ok && acked_file_ok("C03/acked", &r, m, sc).is_ok()) {
            return x.fail(fail("C03/not-a-prefix", e));
        }
    }
    if failed && r.finish_ok {
        x.check(acked_file_ok("C03/acked", &r, m, sc));
    }
}

/// A strict reader's verdict on a crash remnant.
fn looks_complete(b: &[u8]) -> bool {
    match tail(b) {
        Err(_) => false,
        Ok(t) => {
            let mut at = 3u64;
            for s in &t.stripes {
                if s.offset != at {
                    return false;
                }
                at = s.end();
            }
            at == t.meta_start as u64
        }
    }
}

fn c04_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let sc = &case.main;
    let reference = run_reference(sc, m);
    x.note(&reference);
    if let Err(f) = all_ok(&case.property, &reference) {
        x.fail(f);
        return;
    }
    let r = x.run(sc, m);
    if r.finish_ok {
        if r.durable != r.bytes.len() {
            return x.fail(fail(
                "C04/not-durable",
                format!("finish returned Ok with {} of {} bytes durable: {}", r.durable, r.bytes.len(), if r.counts.flushes == 0 { "the sink was never flushed" } else { "bytes were written after the last flush, or it failed" }),
            ));
        }
        if r.counts.write_errors + r.counts.flush_errors + r.counts.zero_writes + r.counts.sink_panics == 0 {
            let c = c01(&r.bytes, m).and_then(|_| c05(&r.bytes, m, &sc.cfg)).map_err(|f| fail("C04/incomplete", format!("{}: {}", f.class, f.detail)));
            if c.is_err() {
                return x.check(c);
            }
        }
        x.o.stats.add("acknowledged_durable", 1);
        x.o.nontrivial = true;
    } else {
        // The process or device died, or the client gave up: what is left is a prefix.
        x.o.nontrivial = r.counts.write_errors + r.counts.flush_errors > 0 || sc.abandon_after.is_some();
        x.o.stats.add(if sc.abandon_after.is_some() { "fault.abandoned_writer" } else { "fault.crash_at_byte" }, 1);
        if let Err(e) = is_prefix(&r.bytes, &reference.bytes) {
            return x.fail(fail("C04/crash-remnant", e));
        }
        if r.bytes.len() < reference.bytes.len() && looks_complete(&r.bytes) {
            return x.fail(fail("C04/crash-remnant", format!("the first {} of {} bytes pass for a complete file", r.bytes.len(), reference.bytes.len())));
        }
        if sc.abandon_after.is_some() && r.bytes.len() == reference.bytes.len() {
            return x.fail(fail("C04/crash-remnant", "an abandoned writer left a complete file".into()));
        }
    }
    // Every crash point of the complete file.
    let full = &reference.bytes;
    let n = full.len();
    let mut rr = Rng::new(case.sched);
    let pts: Vec<usize> = if n <= 3000 { (0..n).collect() } else { (0..1000).chain((0..1000).map(|_| rr.idx(n))).chain(n - 1000..n).collect() };
    x.o.stats.add("fault.crash_point_prefix", pts.len() as u64);
    for p in pts {
        if looks_complete(&full[..p]) {
            return x.fail(fail("C04/crash-remnant", format!("the first {} of {} bytes pass for a complete file", p, n)));
        }
    }
}

fn c11_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let sc = &case.main;
    let r = x.run(sc, m);
    let mis = match sc.misuse {
        Some(m) => m,
        None => {
            x.o.nontrivial = m.rows > 0;
            return x.check(all_ok("C11", &r));
        }
    };
    // Is the misuse one, on this data?
    let batch_cells = |b: u32, c: u32| m.cells(c as usize, m.batch_start[b as usize]..m.batch_start[b as usize + 1]).len();
    let real = match mis {
        Misuse::Missing { batch, col } => batch_cells(batch, col) > 0,
        Misuse::Extra { n, .. } => n > 0,
        Misuse::Declare { batch, delta } => (sc.batches[batch as usize] as i64 + delta).max(0) != sc.batches[batch as usize] as i64,
        Misuse::Uncommitted { .. } => m.cols.iter().any(|c| batch_cells(sc.batches.len() as u32 - 1, c.id as u32) > 0),
        Misuse::BadTag { .. } => true,
        Misuse::Swap { less, more, .. } => less != more,
        Misuse::Huge { batch, col, by } => !huge_cells(m, batch as usize, col, by).is_empty(),
    };
    if !real {
        x.o.stats.add("misuse.void", 1);
        return x.check(all_ok("C11", &r));
    }
    let mut rejected = false;
    for (i, c) in r.calls.iter().enumerate() {
        if c.res == Res::WorkBound {
            return x.fail(fail("C11/unbounded", show_call(i, c)));
        }
        let bad = match (mis, c.op) {
            (Misuse::Missing { batch, .. } | Misuse::Extra { batch, .. } | Misuse::Declare { batch, .. } | Misuse::Swap { batch, .. }, Op::Commit(b)) => batch == b,
            (Misuse::Uncommitted { .. }, Op::Finish) => true,
            (Misuse::BadTag { .. }, Op::BadTag(_)) => true,
            // May be noticed while the lengths are written, has to be at commit.
            (Misuse::Huge { batch, .. }, Op::Fill(b)) => batch == b && c.res != Res::Ok,
            (Misuse::Huge { batch, .. }, Op::Commit(b)) => batch == b,
            _ => false,
        };
        if bad && !rejected {
            if c.res == Res::Ok {
                return x.fail(fail("C11/accepted", format!("{:?}: {}", mis, show_call(i, c))));
            }
            rejected = true;
            x.o.stats.add(&format!("misuse.{}", format!("{:?}", mis).split(' ').next().unwrap()), 1);
        } else if !rejected && c.res != Res::Ok {
            return x.fail(fail("C11/spurious", show_call(i, c)));
        } else if let (Misuse::BadTag { .. }, false) = (mis, c.res == Res::Ok) {
            return x.fail(fail("C11/after-bad-tag", show_call(i, c)));
        }
    }
    x.o.nontrivial = rejected;
    if r.finish_ok {
        x.check(acked_file_ok("C11/acked", &r, m, sc));
        if let Misuse::BadTag { .. } = mis {
            x.check(c07(&r.bytes, m).map_err(|f| fail("C11/after-bad-tag", f.detail)));
        }
    }
}

fn stripe_cut_rows(b: &[u8]) -> Option<Vec<u64>> {
    tail(b).ok().map(|t| t.stripes.iter().map(|s| s.rows).collect())
}

fn c12_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let mut base_sc = case.main.clone();
    base_sc.sink = SinkPlan::clean();
    let base = x.run(&base_sc, m);
    if let Err(f) = all_ok(&case.property, &base) {
        x.fail(f);
        return;
    }
    x.o.nontrivial = m.rows > 0;
    count_stripes(x, &base);
    let mut rr = Rng::new(case.sched);
    let differs = |a: &RunOut, what: String| -> Check {
        if !a.finish_ok {
            let c = a.calls.iter().position(|c| c.res != Res::Ok);
            return Err(fail("C12/call-failed", format!("{}: {}", what, c.map_or("finish not reached".into(), |i| show_call(i, &a.calls[i])))));
        }
        if a.bytes != base.bytes {
            return Err(fail("C12/bytes", format!("{}: {}", what, is_prefix(&a.bytes, &base.bytes).err().unwrap_or_else(|| "shorter".into()))));
        }
        Ok(())
    };
    // Same history again.
    let r = x.run(&base_sc, m);
    x.o.stats.add("variant.repeat", 1);
    if let Err(f) = differs(&r, "the same history repeated".into()) {
        return x.fail(f);
    }
    // And once more on another simulated host: another day, another clock, other entropy.
    let (sc2, seed2) = (base_sc.clone(), mix_all(&[case.sched, 0xD1FF]));
    let (bytes, finish_ok, calls) = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            host::enter(seed2);
            let mm = Rc::new(Model::build(&sc2.root, &sc2.batches));
            let r = run(&sc2, &mm);
            host::leave();
            (r.bytes, r.finish_ok, r.calls)
        })
        .unwrap()
        .join()
        .expect("harness: host thread died");
    x.o.stats.add("variant.other_host_and_time", 1);
    let r = RunOut { calls, bytes, durable: 0, finish_ok, committed: vec![], trace: 0, shape: 0, counts: Default::default(), first_failure: None, held: vec![], looked: Default::default(), looks: 0 };
    if let Err(f) = differs(&r, "the same history on another host at another time".into()) {
        return x.fail(f);
    }
    // Other fill orders.
    for _ in 0..2 {
        let mut s = base_sc.clone();
        s.fill = match rr.below(5) {
            0 => Fill::PreOrder,
            1 => Fill::PostOrder,
            2 => Fill::Shuffled(rr.u64()),
            3 => Fill::RowMajor,
            _ => Fill::Interleaved(rr.u64()),
        };
        let r = x.run(&s, m);
        x.o.stats.add("variant.fill_order", 1);
        if let Err(f) = differs(&r, format!("filled {:?} instead of {:?}", s.fill, base_sc.fill)) {
            return x.fail(f);
        }
    }
    // Batches merged inside each stripe, with empty batches thrown in.
    let cut_rows: Vec<usize> = {
        let mut a = 0usize;
        base.calls
            .iter()
            .filter_map(|c| match c.op {
                Op::Commit(b) if c.after > c.before => Some(m.batch_start[b as usize + 1]),
                _ => None,
            })
            .filter(|&r| {
                let n = r > a;
                a = r;
                n
            })
            .collect()
    };
    let with_batches = |batches: Vec<u32>| -> (Scenario, Rc<Model>) {
        let mut s = base_sc.clone();
        let mut mm = (**m).clone();
        mm.batch_start = vec![0];
        for &b in &batches {
            mm.batch_start.push(mm.batch_start.last().unwrap() + b as usize);
        }
        s.batches = batches;
        (s, Rc::new(mm))
    };
    let mut merged: Vec<u32> = vec![];
    let mut acc = 0u32;
    for (i, &b) in base_sc.batches.iter().enumerate() {
        acc += b;
        if cut_rows.contains(&m.batch_start[i + 1]) || rr.chance(1, 4) || i + 1 == base_sc.batches.len() {
            merged.push(acc);
            acc = 0;
            if rr.chance(1, 4) {
                merged.push(0);
            }
        }
    }
    let (s, mm) = with_batches(merged);
    let r = x.run(&s, &mm);
    x.o.stats.add("variant.merged_batches", 1);
    if let Err(f) = differs(&r, format!("batches {:?} instead of {:?}", short(&s.batches), short(&base_sc.batches))) {
        return x.fail(f);
    }
    // Batches split further; comparable when the stripes come out the same.
    let mut split: Vec<u32> = vec![];
    for &b in &base_sc.batches {
        let mut left = b;
        for _ in 0..rr.below(4) {
            let k = rr.below(left as u64 + 1) as u32;
            split.push(k);
            left -= k;
        }
        split.push(left);
    }
    let (s, mm) = with_batches(split);
    let r = x.run(&s, &mm);
    if !r.finish_ok || stripe_cut_rows(&r.bytes) == stripe_cut_rows(&base.bytes) {
        x.o.stats.add("variant.split_batches", 1);
        if let Err(f) = differs(&r, format!("batches {:?} instead of {:?}", short(&s.batches), short(&base_sc.batches))) {
            return x.fail(f);
        }
    } else {
        x.o.stats.add("variant.split_moved_stripes", 1);
    }
}

fn c14_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let sc = &case.main;
    let mut plain = sc.clone();
    plain.probe = 0;
    let base = x.run(&plain, m);
    // In small steps, so that the client also looks around while a batch is half filled.
    let quantum = *Rng::new(case.sched).pick(&[1usize, 10, 100, 1000]);
    let r = run_with(sc, m, quantum);
    x.note(&r);
    x.o.stats.add("looks", r.looks);
    x.o.stats.add("handles_checked", r.looked.handles);
    x.o.stats.add("requests_turned_down", r.looked.rejected);
    x.o.nontrivial = r.looks > 0;
    if let Some(w) = &r.looked.wrong {
        return x.fail(fail("C14/handle", w.clone()));
    }
    if let Some((i, c)) = r.calls.iter().enumerate().find(|(_, c)| c.op == Op::Probe && (c.res != Res::Ok || c.after != c.before)) {
        return x.fail(fail("C14/looking-failed", show_call(i, c)));
    }
    let visible = |r: &RunOut| -> Vec<Call> { r.calls.iter().filter(|c| !matches!((c.op, &c.res), (Op::Probe, _) | (Op::Fill(_), Res::Ok))).cloned().collect() };
    let (a, b) = (visible(&base), visible(&r));
    if let Some(i) = (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)) {
        return x.fail(fail("C14/effect", format!("without looking around: {}; with: {}", a.get(i).map_or("nothing".into(), |c| show_call(i, c)), b.get(i).map_or("nothing".into(), |c| show_call(i, c)))));
    }
    if r.bytes != base.bytes || r.finish_ok != base.finish_ok || r.durable != base.durable {
        return x.fail(fail("C14/effect", format!("looking around changed the file: {}", is_prefix(&r.bytes, &base.bytes).err().unwrap_or_else(|| "shorter, or not acknowledged".into()))));
    }
}

fn c15_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let r = x.run(&case.main, m);
    if let Err(f) = all_ok("C15", &r) {
        return x.fail(f);
    }
    x.o.nontrivial = true;
    if let Some(n) = x.reader(crate::meta::c15(&r.bytes, case.sched)) {
        x.o.stats.add("metadata_messages", n.messages);
        x.o.stats.add("fault.torn_metadata", n.cuts);
        x.o.stats.add("torn_metadata_refused", n.cuts_refused);
    }
}

fn c16_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let quantum = *Rng::new(case.sched).pick(&[10usize, 100, 1 << 20]);
    let (r, j) = crate::limits::run_among(&case.main, m, quantum, &case.attempts);
    x.note(&r);
    x.o.stats.add("requests_refused", j.refused);
    x.o.stats.add("requests_accepted", j.accepted);
    x.o.nontrivial = j.refused > 0 || m.rows > 0;
    x.check(j.fault);
    if let Err(f) = all_ok("C16", &r) {
        return x.fail(f);
    }
    let wrong = |f: Fail| fail("C16/wrong-file", format!("{}: {}", f.class, f.detail));
    x.check(c01(&r.bytes, m).map_err(wrong));
    x.check(c05(&r.bytes, m, &case.main.cfg).map_err(wrong));
    x.check(c06(&r.bytes, m).map_err(wrong));
    if case.main.cfg.codec != Codec::None {
        x.check(c09(&r.bytes, &case.main.cfg).map(|_| ()).map_err(wrong));
    }
}

fn short(v: &[u32]) -> Vec<u32> {
    v[..v.len().min(20)].to_vec()
}

// ---------------------------------------------------------------- C13

struct Baton {
    st: Mutex<BatonState>,
    cv: Condvar,
}

struct BatonState {
    current: usize,
    /// The current thread has noticed that it is.
    running: bool,
    tids: Vec<i32>,
    alive: Vec<bool>,
    rng: Rng,
    switches: u64,
    trace: Trace,
    /// The code under test blocks on something another thread holds: from here on the threads
    /// run as the kernel likes.
    free: bool,
}

extern "C" {
    fn gettid() -> i32;
}

/// Whether a thread of this process sleeps.
fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).map_or(false, |s| s.rsplit(')').next().map_or(false, |r| r.trim_start().starts_with('S')))
}

impl Baton {
    fn wait(&self, me: usize) {
        let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
        let mut seen = (0, 0);
        while s.current != me && !s.free {
            let (g, late) = host::really(|| self.cv.wait_timeout(s, Duration::from_millis(20)).unwrap_or_else(|e| e.into_inner()));
            s = g;
            if !late.timed_out() || !s.running || s.current == me {
                continue;
            }
            // A thread preempted at an allocation may hold a lock the current one waits for.
            if !asleep(s.tids[s.current]) {
                seen = (0, 0);
            } else if seen.0 == s.switches && seen.1 > 0 {
                seen.1 += 1;
            } else {
                seen = (s.switches, 1);
            }
            if seen.1 > 10 {
                s.free = true;
                self.cv.notify_all();
            }
        }
        s.running = true;
    }
    fn enter(&self, me: usize) {
        self.st.lock().unwrap_or_else(|e| e.into_inner()).tids[me] = unsafe { gettid() };
        self.wait(me);
    }
    /// Lets the scheduler choose who runs next.
    fn pass(&self, me: usize, leaving: bool) {
        {
            let mut s = self.st.lock().unwrap_or_else(|e| e.into_inner());
            if leaving {
                s.alive[me] = false;
            }
            let live: Vec<usize> = (0..s.alive.len()).filter(|&i| s.alive[i]).collect();
            if live.is_empty() || s.free {
                return;
            }
            let k = s.rng.idx(live.len());
            let next = live[k];
            if next != s.current {
                s.switches += 1;
            }
            s.trace.add(next as u64);
            s.current = next;
            if next != me {
                s.running = false;
                self.cv.notify_all();
            }
        }
        if !leaving {
            self.wait(me);
        }
    }
}

/// The writers interleaved in one thread.
struct Crew {
    clients: Vec<Option<Client>>,
    outs: Vec<Option<RunOut>>,
    live: Vec<usize>,
    rng: Rng,
    depth: u32,
    nested: u64,
    trace: Trace,
}

thread_local! {
    static CREW: std::cell::RefCell<Option<Crew>> = const { std::cell::RefCell::new(None) };
}

/// One step of writer `i`, which is not in the middle of a call.
fn drive(i: usize) {
    let mut c = CREW.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut().unwrap();
        c.trace.add(i as u64);
        c.depth += 1;
        c.clients[i].take().unwrap()
    });
    let more = c.step();
    CREW.with(|cr| {
        let mut cr = cr.borrow_mut();
        let cr = cr.as_mut().unwrap();
        cr.depth -= 1;
        cr.trace.add(0xE4D);
        if more {
            cr.clients[i] = Some(c);
        } else {
            cr.live.retain(|&j| j != i);
            cr.outs[i] = Some(c.into_out());
        }
    });
}

/// In a sink operation of one writer: perhaps a call of another.
fn nest() {
    if std::thread::panicking() {
        return;
    }
    let i = CREW.with(|c| {
        let mut c = c.borrow_mut();
        let c = c.as_mut()?;
        if c.depth >= 4 || !c.rng.chance(1, 3) {
            return None;
        }
        let idle: Vec<usize> = c.live.iter().copied().filter(|&j| c.clients[j].is_some()).collect();
        if idle.is_empty() {
            return None;
        }
        c.nested += 1;
        Some(idle[c.rng.idx(idle.len())])
    });
    if let Some(i) = i {
        drive(i);
    }
}

fn c13_case(x: &mut Ctx, case: &Case, m: &Rc<Model>) {
    let mut scs: Vec<Scenario> = vec![case.main.clone()];
    scs.extend(case.others.iter().cloned());
    let models: Vec<Rc<Model>> = scs.iter().enumerate().map(|(i, s)| if i == 0 { m.clone() } else { Rc::new(Model::build(&s.root, &s.batches)) }).collect();
    let quantum = |i: usize| 1 + (mix_all(&[case.sched, i as u64]) % 60) as usize;
    // Each alone, in a thread nothing ran in before.
    let mut solo = vec![];
    for i in 0..scs.len() {
        let (sc, q, sched) = (scs[i].clone(), quantum(i), case.sched);
        let h = std::thread::Builder::new().stack_size(STACK).spawn(move || {
            host::enter(mix_all(&[sched, i as u64, 0x5010]));
            let r = run_with(&sc, &Rc::new(Model::build(&sc.root, &sc.batches)), q);
            host::leave();
            r
        });
        let r = match h.expect("harness: cannot spawn").join() {
            Ok(r) => r,
            Err(p) => std::panic::resume_unwind(p),
        };
        x.note(&r);
        // What all runs share, a writer alone in a used process included, must not show either:
        // an undisturbed writer succeeds and leaves the right file.
        let s = &scs[i].sink;
        if s.faults.iter().all(|f| !f.act.is_hard() && !matches!(f.at, Place::Flush(_))) {
            let mut c = match r.calls.iter().position(|c| c.res != Res::Ok) {
                Some(k) => Err(fail("C13/call-failed", format!("writer {} of {}, alone: {}", i, scs.len(), show_call(k, &r.calls[k])))),
                None => Ok(()),
            };
            if c.is_ok() && r.finish_ok {
                c = c01(&r.bytes, &models[i]).map_err(|f| fail("C13/alone", format!("writer {} of {}, alone, after others have run: {}", i, scs.len(), f.detail)));
            }
            if let Err(f) = c {
                x.fail(f);
                return;
            }
        }
        solo.push(r);
    }
    let judge = |x: &mut Ctx, i: usize, r: &RunOut, how: &str| -> bool {
        let s = &solo[i];
        if r.calls != s.calls {
            let k = (0..r.calls.len().min(s.calls.len())).find(|&k| r.calls[k] != s.calls[k]);
            x.fail(fail(
                "C13/calls",
                match k {
                    Some(k) => format!("writer {} of {} ({}): {}; alone: {}", i, scs.len(), how, show_call(k, &r.calls[k]), show_call(k, &s.calls[k])),
                    None => format!("writer {} of {} ({}): {} calls, alone {}", i, scs.len(), how, r.calls.len(), s.calls.len()),
                },
            ));
            return false;
        }
        if r.bytes != s.bytes || r.durable != s.durable {
            let e = is_prefix(&r.bytes, &s.bytes).err().unwrap_or_else(|| "shorter or less durable".into());
            x.fail(fail("C13/bytes", format!("writer {} of {} ({}): {}", i, scs.len(), how, e)));
            return false;
        }
        true
    };
    // Interleaved in one thread.
    let mut rr = Rng::new(case.sched);
    let mut clients: Vec<Option<Client>> = vec![];
    let mut shared: Vec<(Cfg, orc_format::writer::Config)> = vec![];
    for i in 0..scs.len() {
        let mut c = Client::new(Rc::new(scs[i].clone()), models[i].clone(), SimSink::new(&scs[i].sink), quantum(i));
        // Writers of the same configuration are given clones of one Config.
        let k = shared.iter().position(|(k, _)| *k == scs[i].cfg);
        let k = k.unwrap_or_else(|| {
            shared.push((scs[i].cfg, config_of(&scs[i].cfg)));
            shared.len() - 1
        });
        c.shared_cfg = Some(shared[k].1.clone());
        clients.push(Some(c));
    }
    // In half of the cases also inside one another's sink operations: a sink may well be fed by
    // another writer, or drive one.
    let nested = scs.len() > 1 && mix_all(&[case.sched, 0x4E57]) & 1 == 0;
    if nested {
        for c in clients.iter_mut().flatten() {
            c.sink.yielder = Some(Arc::new(nest));
        }
    }
    let n = scs.len();
    CREW.with(|c| *c.borrow_mut() = Some(Crew { clients, outs: (0..n).map(|_| None).collect(), live: (0..n).collect(), rng: Rng::new(mix_all(&[case.sched, 0xC4E3])), depth: 0, nested: 0, trace: Trace::new() }));
    loop {
        let i = CREW.with(|c| {
            let c = c.borrow();
            let live = &c.as_ref().unwrap().live;
            if live.is_empty() { None } else { Some(live[rr.idx(live.len())]) }
        });
        let Some(i) = i else { break };
        x.o.stats.add("schedule_steps", 1);
        drive(i);
    }
    let crew = CREW.with(|c| c.borrow_mut().take()).unwrap();
    let (mut outs, tr) = (crew.outs, crew.trace);
    x.o.stats.add("nested_calls", crew.nested);
    x.t.add(tr.0);
    x.shape.add(tr.0);
    for i in 0..scs.len() {
        let r = outs[i].take().unwrap();
        x.note(&r);
        if !judge(x, i, &r, "one thread") {
            return;
        }
    }
    x.o.nontrivial = scs.len() > 1;
    // Spread over threads; the scheduler switches at every API step and sink operation.
    if case.threads > 0 {
        let nt = (case.threads as usize).min(scs.len());
        let baton = Arc::new(Baton {
            st: Mutex::new(BatonState { current: 0, alive: vec![true; nt], running: false, tids: vec![0; nt], free: false, rng: Rng::new(case.sched ^ 0x7ead), switches: 0, trace: Trace::new() }),
            cv: Condvar::new(),
        });
        let results: Arc<Mutex<Vec<Option<(Vec<Call>, Vec<u8>, usize, bool)>>>> = Arc::new(Mutex::new((0..scs.len()).map(|_| None).collect()));
        let all = Arc::new(scs.clone());
        let mut hs = vec![];
        for t in 0..nt {
            let (baton, results, all) = (baton.clone(), results.clone(), all.clone());
            let sched = case.sched;
            hs.push(std::thread::spawn(move || {
                let mine: Vec<usize> = (0..all.len()).filter(|i| i % nt == t).collect();
                let models: Vec<Rc<Model>> = mine.iter().map(|&i| Rc::new(Model::build(&all[i].root, &all[i].batches))).collect();
                baton.enter(t);
                host::enter(mix_all(&[sched, t as u64, 0x7ead]));
                let b = baton.clone();
                host::preempt_with(Arc::new(move || b.pass(t, false)), mix_all(&[sched, t as u64, 0xA110C]));
                let mut clients: Vec<(usize, Client)> = mine
                    .iter()
                    .enumerate()
                    .map(|(k, &i)| {
                        let mut sink = SimSink::new(&all[i].sink);
                        let b = baton.clone();
                        sink.yielder = Some(Arc::new(move || b.pass(t, false)));
                        let q = 1 + (mix_all(&[sched, i as u64]) % 60) as usize;
                        (i, Client::new(Rc::new(all[i].clone()), models[k].clone(), sink, q))
                    })
                    .collect();
                let mut rr = Rng::new(sched ^ t as u64);
                while !clients.is_empty() {
                    let k = rr.idx(clients.len());
                    let more = clients[k].1.step();
                    if !more {
                        let (i, c) = clients.swap_remove(k);
                        let o = c.into_out();
                        results.lock().unwrap()[i] = Some((o.calls, o.bytes, o.durable, o.finish_ok));
                    }
                    baton.pass(t, false);
                }
                host::preempt_off();
                host::leave();
                baton.pass(t, true);
            }));
        }
        for h in hs {
            if h.join().is_err() {
                // Let the others go; a dead harness thread is a bug of the simulator.
                panic!("harness thread died");
            }
        }
        let s = baton.st.lock().unwrap();
        x.o.stats.add("thread_switches", s.switches);
        x.o.stats.add("threaded_executions", 1);
        if s.free {
            x.o.stats.add("threaded_executions_let_go", 1);
        } else {
            x.t.add(s.trace.0);
            x.shape.add(s.trace.0);
        }
        drop(s);
        let res = results.lock().unwrap();
        for i in 0..scs.len() {
            let (calls, bytes, durable, finish_ok) = res[i].clone().unwrap();
            let r = RunOut { calls, bytes, durable, finish_ok, committed: vec![], trace: 0, shape: 0, counts: Default::default(), first_failure: None, held: vec![], looked: Default::default(), looks: 0 };
            if !judge(x, i, &r, "several threads") {
                return;
            }
        }
    }
    // Writers that fail or are abandoned count as faults here.
    for r in &solo {
        if !r.finish_ok {
            x.o.stats.add("fault.writer_failed_or_abandoned", 1);
        }
    }
}
