//! The simulated client: drives the real writer through its public API, one step at a time,
//! against the simulated sink, and records the outcome of every call.
use crate::host;
use crate::model::*;
use crate::probe::{look_around, Looked};
use crate::rng::Rng;
use crate::scenario::*;
use crate::sink::*;
use orc_format::schema::{Field, Schema};
use orc_format::writer::compression::{NoCompression, SnappyCompression, ZstdCompression};
use orc_format::writer::data::{Data, GenericData};
use orc_format::writer::{Config, Writer};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    New,
    Fill(u32),
    BadTag(u32),
    Commit(u32),
    RetryEmpty(u32),
    Recommit(u32),
    Finish,
    Drop,
    /// Looking around (C14).
    Probe,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Ok,
    Err(std::io::ErrorKind),
    Panic(String),
    SinkPanic,
    WorkBound,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Call {
    pub op: Op,
    pub res: Res,
    pub before: usize,
    pub after: usize,
    pub hard: Option<Act>,
}

pub struct RunOut {
    pub calls: Vec<Call>,
    pub finish_ok: bool,
    pub bytes: Vec<u8>,
    /// Durable length when finish returned Ok.
    pub durable: usize,
    /// Batches whose commit returned Ok, in order.
    pub committed: Vec<usize>,
    pub trace: u64,
    pub shape: u64,
    pub counts: FaultCounts,
    pub first_failure: Option<usize>,
    /// Heap bytes the writer held after each call.
    pub held: Vec<i64>,
    /// What looking around found out, in total.
    pub looked: Looked,
    pub looks: u64,
}

pub fn schema_of(n: &Node) -> Schema {
    match n.kind {
        Kind::Boolean => Schema::Boolean,
        Kind::Short => Schema::Short,
        Kind::Int => Schema::Int,
        Kind::Long => Schema::Long,
        Kind::Date => Schema::Date,
        Kind::Float => Schema::Float,
        Kind::Double => Schema::Double,
        Kind::Timestamp => Schema::Timestamp,
        Kind::Decimal(p, s) => Schema::Decimal(p, s),
        Kind::Str => Schema::String,
        Kind::Binary => Schema::Binary,
        Kind::Char(k) => Schema::Char(k),
        Kind::VarChar(k) => Schema::VarChar(k),
        Kind::Struct => Schema::Struct(n.children.iter().map(|c| Field(c.name.clone(), schema_of(c))).collect()),
        Kind::List => Schema::List(Box::new(schema_of(&n.children[0]))),
        Kind::Map => Schema::Map(Box::new(schema_of(&n.children[0])), Box::new(schema_of(&n.children[1]))),
        Kind::Union => Schema::Union(n.children.iter().map(schema_of).collect()),
    }
}

pub fn config_of(c: &Cfg) -> Config {
    let mut k = Config::new();
    // The settings are independent of one another, in whatever order they are made.
    let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    let h = (c.stride.unwrap_or(0) as u64 + c.block.unwrap_or(0) as u64).wrapping_add(c.stripe.unwrap_or(0));
    for step in order[(h % 6) as usize] {
        k = match step {
            0 => match c.codec {
                // The default of a configuration.
                Codec::None if c.block.is_none() => k,
                Codec::None => k.with_compression(NoCompression::new().build()),
                Codec::Snappy => {
                    let mut s = SnappyCompression::new();
                    if let Some(b) = c.block {
                        s = s.with_block_size(b as usize);
                    }
                    k.with_compression(s.build())
                }
                Codec::Zstd => {
                    let mut s = ZstdCompression::new();
                    if let (Some(l), true) = (c.level, h % 2 == 0) {
                        s = s.with_compression_level(l);
                    }
                    if let Some(b) = c.block {
                        s = s.with_block_size(b as usize);
                    }
                    if let (Some(l), true) = (c.level, h % 2 == 1) {
                        s = s.with_compression_level(l);
                    }
                    k.with_compression(s.build())
                }
            },
            1 => match c.stride {
                Some(s) => k.with_row_index_stride(s),
                None => k,
            },
            _ => match c.stripe {
                Some(s) => k.with_stripe_size(s as usize),
                None => k,
            },
        };
    }
    k
}

fn navigate<'a>(d: &'a mut Data, path: &[usize], alt: bool) -> &'a mut Data {
    let mut d = d;
    for &i in path {
        d = match d {
            Data::Struct(s) => if alt { s.child(i) } else { &mut s.children()[i] },
            Data::Union(u) => if alt { u.child(i) } else { &mut u.children()[i] },
            Data::List(l) => l.child(),
            Data::Map(m) => {
                if alt {
                    let (k, v) = m.children();
                    if i == 0 { k } else { v }
                } else if i == 0 {
                    m.keys()
                } else {
                    m.values()
                }
            }
            _ => panic!("harness: path into a leaf"),
        };
    }
    d
}

fn write_cells(d: &mut Data, c: &Col, from: usize, to: usize, alt: bool, huge: &[(usize, u64)]) {
    let more = |i: usize| huge.iter().find(|h| h.0 == i).map_or(0, |h| h.1);
    for i in from..to {
        if !c.present[i] {
            if alt {
                d.write_null();
            } else {
                match d {
                    Data::Boolean(x) => x.write_null(),
                    Data::Long(x) => x.write_null(),
                    Data::Float(x) => x.write_null(),
                    Data::Double(x) => x.write_null(),
                    Data::Timestamp(x) => x.write_null(),
                    Data::Decimal(x) => x.write_null(),
                    Data::String(x) => x.write_null(),
                    Data::Binary(x) => x.write_null(),
                    Data::Struct(x) => x.write_null(),
                    Data::List(x) => x.write_null(),
                    Data::Map(x) => x.write_null(),
                    Data::Union(x) => x.write_null(),
                }
            }
            continue;
        }
        let k = c.nn[i] as usize;
        match &c.vals {
            Vals::Bool(v) => d.unwrap_boolean().write(v[k]),
            Vals::Int(v) => d.unwrap_long().write(v[k]),
            Vals::F32(v) => d.unwrap_float().write(f32::from_bits(v[k])),
            Vals::F64(v) => d.unwrap_double().write(f64::from_bits(v[k])),
            Vals::Ts(v) => {
                let (s, n, epoch) = v[k];
                let t = d.unwrap_timestamp();
                if epoch {
                    t.write_nanos_epoch(s + ORC_EPOCH, n)
                } else {
                    t.write_nanos(s, n)
                }
            }
            Vals::Dec(v) => {
                let (x, small) = v[k];
                let t = d.unwrap_decimal();
                if small {
                    t.write_i64(x as i64)
                } else {
                    t.write_i128(x)
                }
            }
            Vals::Bytes(v) => match d {
                Data::String(s) => s.write(std::str::from_utf8(&v[k]).expect("harness: utf8")),
                _ => d.unwrap_binary().write(&v[k]),
            },
            Vals::Unit => d.unwrap_struct().write(),
            Vals::Len(v) => match d {
                Data::List(l) => l.write(v[k].wrapping_add(more(i))),
                _ => d.unwrap_map().write(v[k].wrapping_add(more(i))),
            },
            Vals::Tag(v) => d.unwrap_union().write(v[k] as usize),
        }
    }
}

fn write_extra(d: &mut Data, null: bool) {
    if null {
        d.write_null();
        return;
    }
    match d {
        Data::Boolean(x) => x.write(true),
        Data::Long(x) => x.write(1),
        Data::Float(x) => x.write(1.0),
        Data::Double(x) => x.write(1.0),
        Data::Timestamp(x) => x.write_nanos(1, 1),
        Data::Decimal(x) => x.write_i64(1),
        Data::String(x) => x.write("x"),
        Data::Binary(x) => x.write(b"x"),
        Data::Struct(x) => x.write(),
        Data::List(x) => x.write(0),
        Data::Map(x) => x.write(0),
        Data::Union(x) => if x.children().is_empty() { x.write_null() } else { x.write(0) },
    }
}

/// The two cells Misuse::Huge strikes; none if the column has no two lengths in the batch.
pub fn huge_cells(m: &Model, batch: usize, col: u32, by: u64) -> Vec<(usize, u64)> {
    let c = &m.cols[col as usize];
    if !matches!(c.vals, Vals::Len(_)) {
        return vec![];
    }
    let r = m.cells(col as usize, m.batch_start[batch]..m.batch_start[batch + 1]);
    let (n, by) = if by == 0 { (2, 1 << 63) } else { (1, by) };
    let v: Vec<(usize, u64)> = r.filter(|&i| c.present[i]).take(n).map(|i| (i, by)).collect();
    if v.len() == n { v } else { vec![] }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    New,
    Fill(usize),
    Commit(usize),
    Retry(usize, u32),
    Finish,
    Done,
}

pub struct Client {
    pub sc: Rc<Scenario>,
    pub model: Rc<Model>,
    schema: Schema,
    pub sink: SimSink,
    /// Configuration shared with other writers (cloned), if any.
    pub shared_cfg: Option<Config>,
    writer: Option<Writer<SimSink>>,
    state: St,
    plan: Vec<(u32, u32, u32)>,
    plan_at: usize,
    plan_for: usize,
    refilled: bool,
    /// Cells per step while filling (a step is one scheduling quantum).
    quantum: usize,
    probes: Rng,
    out: RunOut,
}

fn outcome(r: std::thread::Result<std::io::Result<()>>) -> Res {
    match r {
        Ok(Ok(())) => Res::Ok,
        Ok(Err(e)) => Res::Err(e.kind()),
        Err(p) => {
            if p.is::<SinkPanic>() {
                Res::SinkPanic
            } else if p.is::<WorkBound>() {
                Res::WorkBound
            } else if let Some(s) = p.downcast_ref::<String>() {
                Res::Panic(s.clone())
            } else if let Some(s) = p.downcast_ref::<&str>() {
                Res::Panic(s.to_string())
            } else {
                Res::Panic("?".into())
            }
        }
    }
}

impl Client {
    pub fn new(sc: Rc<Scenario>, model: Rc<Model>, sink: SimSink, quantum: usize) -> Client {
        Client {
            schema: schema_of(&sc.root),
            probes: Rng::new(sc.probe),
            sc,
            model,
            sink,
            shared_cfg: None,
            writer: None,
            state: St::New,
            plan: vec![],
            plan_at: 0,
            plan_for: usize::MAX,
            refilled: false,
            quantum,
            out: RunOut {
                calls: vec![],
                finish_ok: false,
                bytes: vec![],
                durable: 0,
                committed: vec![],
                trace: 0,
                shape: 0,
                counts: FaultCounts::default(),
                first_failure: None,
                held: vec![],
                looked: Looked::default(),
                looks: 0,
            },
        }
    }

    pub fn done(&self) -> bool {
        self.state == St::Done
    }

    fn call<F: FnOnce(&mut Option<Writer<SimSink>>) -> std::io::Result<()>>(&mut self, op: Op, f: F) -> Res {
        host::tick();
        let (before, sink0) = {
            let mut s = self.sink.lock();
            s.begin_call(op_tag(op));
            (s.bytes.len(), s.alloc)
        };
        let w = &mut self.writer;
        let live0 = host::live();
        host::arm();
        let res = catch_unwind(AssertUnwindSafe(|| f(w)));
        host::disarm();
        let live1 = host::live();
        let res = outcome(res);
        let mut s = self.sink.lock();
        self.out.held.push(self.out.held.last().unwrap_or(&0) + (live1 - live0) - (s.alloc - sink0));
        let code = match &res {
            Res::Ok => 1,
            Res::Err(_) => 2,
            Res::Panic(_) => 3,
            Res::SinkPanic => 4,
            Res::WorkBound => 5,
        };
        s.trace.add(code);
        s.shape.add(code);
        let c = Call { op, res: res.clone(), before, after: s.bytes.len(), hard: s.hard };
        if res != Res::Ok && self.out.first_failure.is_none() && !matches!(op, Op::BadTag(_) | Op::Probe) {
            self.out.first_failure = Some(self.out.calls.len());
        }
        self.out.calls.push(c);
        res
    }

    fn make_plan(&mut self, b: usize) {
        let m = &self.model;
        let rows = m.batch_start[b]..m.batch_start[b + 1];
        let cells: Vec<(u32, u32)> = (0..m.cols.len())
            .map(|c| {
                let r = m.cells(c, rows.clone());
                (r.start as u32, r.end as u32)
            })
            .collect();
        let mut plan: Vec<(u32, u32, u32)> = Vec::new();
        let n = cells.len();
        match self.sc.fill {
            Fill::PreOrder => {
                for c in 0..n {
                    plan.push((c as u32, cells[c].0, cells[c].1));
                }
            }
            Fill::PostOrder => {
                for c in (0..n).rev() {
                    plan.push((c as u32, cells[c].0, cells[c].1));
                }
            }
            Fill::Shuffled(seed) => {
                let mut r = Rng::new(seed ^ (b as u64) << 32);
                let mut order: Vec<usize> = (0..n).collect();
                for i in (1..n).rev() {
                    order.swap(i, r.idx(i + 1));
                }
                for c in order {
                    plan.push((c as u32, cells[c].0, cells[c].1));
                }
            }
            Fill::Interleaved(seed) => {
                let mut r = Rng::new(seed ^ (b as u64) << 32);
                let mut at: Vec<u32> = cells.iter().map(|c| c.0).collect();
                let mut live: Vec<usize> = (0..n).filter(|&c| cells[c].0 < cells[c].1).collect();
                while !live.is_empty() {
                    let k = r.idx(live.len());
                    let c = live[k];
                    let left = cells[c].1 - at[c];
                    let take = match r.below(4) {
                        0 => 1,
                        1 => left.min(r.range(1, 20) as u32),
                        2 => left.min(r.range(1, 300) as u32),
                        _ => left,
                    };
                    plan.push((c as u32, at[c], at[c] + take));
                    at[c] += take;
                    if at[c] == cells[c].1 {
                        live.swap_remove(k);
                    }
                }
            }
            Fill::RowMajor => {
                for row in rows.clone() {
                    for c in 0..n {
                        let r = m.cells(c, row..row + 1);
                        if !r.is_empty() {
                            plan.push((c as u32, r.start as u32, r.end as u32));
                        }
                    }
                }
            }
        }
        let drop_one = |plan: &mut Vec<(u32, u32, u32)>, col: u32| {
            for e in plan.iter_mut().rev() {
                if e.0 == col && e.1 < e.2 {
                    e.2 -= 1;
                    return;
                }
            }
        };
        match self.sc.misuse {
            Some(Misuse::Missing { batch, col }) if batch as usize == b => drop_one(&mut plan, col),
            Some(Misuse::Swap { batch, less, .. }) if batch as usize == b => drop_one(&mut plan, less),
            _ => {}
        }
        self.plan = plan;
        self.plan_at = 0;
        self.plan_for = b;
    }

    fn after_last(&self) -> St {
        St::Finish
    }

    fn next_batch(&self, b: usize) -> St {
        if let Some(k) = self.sc.abandon_after {
            if b as u32 >= k {
                return St::Done;
            }
        }
        if b < self.sc.batches.len() {
            St::Fill(b)
        } else {
            self.after_last()
        }
    }

    /// Executes one step; returns false when the client is done.
    pub fn step(&mut self) -> bool {
        if self.sc.probe != 0 && self.writer.is_some() && self.out.looks < 200 && self.probes.chance(1, 2) {
            self.look();
        }
        match self.state {
            St::New => {
                let schema = self.schema.clone();
                let cfg = self.shared_cfg.clone().unwrap_or_else(|| config_of(&self.sc.cfg));
                let sink = self.sink.clone();
                let r = self.call(Op::New, |w| {
                    *w = Some(Writer::new(sink, &schema, cfg)?);
                    Ok(())
                });
                self.state = if r == Res::Ok { self.next_batch(0) } else { St::Done };
                if self.state == St::Done {
                    self.drop_writer();
                }
            }
            St::Fill(b) => {
                if self.plan_for != b {
                    self.make_plan(b);
                    if let Some(Misuse::BadTag { batch, col, tag }) = self.sc.misuse {
                        if batch as usize == b && !self.refilled {
                            let path = self.model.cols[col as usize].path.clone();
                            self.call(Op::BadTag(b as u32), |w| {
                                navigate(w.as_mut().unwrap().data(), &path, true).unwrap_union().write(tag as usize);
                                Ok(())
                            });
                        }
                    }
                }
                let model = self.model.clone();
                let from = self.plan_at;
                let mut to = from;
                let mut cells = 0usize;
                while to < self.plan.len() && cells < self.quantum {
                    cells += (self.plan[to].2 - self.plan[to].1) as usize;
                    to += 1;
                }
                let part: Vec<(u32, u32, u32)> = self.plan[from..to].to_vec();
                self.plan_at = to;
                let last = to == self.plan.len();
                let extra = match self.sc.misuse {
                    Some(Misuse::Extra { batch, col, n, null }) if last && batch as usize == b => Some((col, n, null)),
                    Some(Misuse::Swap { batch, more, .. }) if last && batch as usize == b => Some((more, 1, false)),
                    _ => None,
                };
                let huge = match self.sc.misuse {
                    Some(Misuse::Huge { batch, col, by }) if batch as usize == b => Some((col, huge_cells(&model, b, col, by))),
                    _ => None,
                };
                let r = self.call(Op::Fill(b as u32), |w| {
                    let data = w.as_mut().unwrap().data();
                    for &(c, f, t) in &part {
                        let col = &model.cols[c as usize];
                        let alt = (f ^ c) & 1 == 0;
                        let d = navigate(data, &col.path, alt);
                        let h: &[(usize, u64)] = match &huge {
                            Some((x, h)) if *x == c => h,
                            _ => &[],
                        };
                        write_cells(d, col, f as usize, t as usize, alt, h);
                    }
                    if let Some((c, n, null)) = extra {
                        let d = navigate(data, &model.cols[c as usize].path, true);
                        for _ in 0..n {
                            write_extra(d, null);
                        }
                    }
                    Ok(())
                });
                if r != Res::Ok {
                    self.state = St::Done;
                    self.drop_writer();
                } else if last {
                    self.plan_for = usize::MAX;
                    let uncommitted = matches!(self.sc.misuse, Some(Misuse::Uncommitted { .. }));
                    self.state = if uncommitted && b + 1 == self.sc.batches.len() { St::Finish } else { St::Commit(b) };
                }
            }
            St::Commit(b) => {
                let mut n = self.sc.batches[b] as u64;
                if let Some(Misuse::Declare { batch, delta }) = self.sc.misuse {
                    if batch as usize == b {
                        n = (n as i64 + delta).max(0) as u64;
                    }
                }
                let op = if self.refilled { Op::Recommit(b as u32) } else { Op::Commit(b as u32) };
                let r = self.call(op, move |w| w.as_mut().unwrap().write_batch(n));
                if r == Res::Ok {
                    self.out.committed.push(b);
                    self.refilled = false;
                    self.state = self.next_batch(b + 1);
                } else {
                    self.state = match self.sc.reaction {
                        Reaction::Abandon => St::Done,
                        Reaction::Finish => St::Finish,
                        Reaction::Continue => self.next_batch(b + 1),
                        Reaction::RetryEmpty => St::Retry(b, 0),
                        Reaction::Refill => {
                            if self.refilled {
                                self.refilled = false;
                                self.next_batch(b + 1)
                            } else {
                                self.refilled = true;
                                St::Fill(b)
                            }
                        }
                    };
                    if r == Res::WorkBound {
                        self.state = St::Done;
                    }
                }
                if self.state == St::Done {
                    self.drop_writer();
                }
            }
            St::Retry(b, k) => {
                let r = self.call(Op::RetryEmpty(b as u32), |w| w.as_mut().unwrap().write_batch(0));
                self.state = if r != Res::Ok && k < 2 { St::Retry(b, k + 1) } else { self.next_batch(b + 1) };
                if self.state == St::Done {
                    self.drop_writer();
                }
            }
            St::Finish => {
                let mut returned = false;
                let r = {
                    let rr = &mut returned;
                    let expect = self.sink.st.clone();
                    self.call(Op::Finish, |w| {
                        let inner = w.take().unwrap().finish()?;
                        *rr = std::sync::Arc::ptr_eq(&inner.st, &expect);
                        Ok(())
                    })
                };
                if r == Res::Ok {
                    self.out.finish_ok = true;
                    self.out.durable = self.sink.lock().durable;
                    if !returned {
                        self.out.calls.last_mut().unwrap().res = Res::Panic("finish returned another sink".into());
                    }
                }
                self.state = St::Done;
            }
            St::Done => {}
        }
        !self.done()
    }

    fn look(&mut self) {
        let seed = self.probes.u64();
        let sc = self.sc.clone();
        let expect = self.sink.st.clone();
        let mut found = Looked::default();
        {
            let f = &mut found;
            self.call(Op::Probe, |w| {
                let w = w.as_mut().unwrap();
                *f = look_around(w.data(), &sc.root, &mut Rng::new(seed));
                if f.wrong.is_none() && !std::sync::Arc::ptr_eq(&w.inner().st, &expect) {
                    f.wrong = Some("inner() is not the caller's sink".into());
                }
                Ok(())
            });
        }
        self.out.looks += 1;
        let l = &mut self.out.looked;
        l.handles += found.handles;
        l.rejected += found.rejected;
        if l.wrong.is_none() {
            l.wrong = found.wrong;
        }
    }

    fn drop_writer(&mut self) {
        if self.writer.is_some() {
            self.call(Op::Drop, |w| {
                w.take();
                Ok(())
            });
        }
    }

    pub fn into_out(mut self) -> RunOut {
        let s = self.sink.lock();
        self.out.bytes = s.bytes.clone();
        self.out.trace = s.trace.0;
        self.out.shape = s.shape.0;
        self.out.counts = s.counts.clone();
        drop(s);
        self.out
    }
}

fn op_tag(op: Op) -> u64 {
    match op {
        Op::New => 1,
        Op::Fill(b) => 2 | (b as u64) << 8,
        Op::BadTag(b) => 3 | (b as u64) << 8,
        Op::Commit(b) => 4 | (b as u64) << 8,
        Op::RetryEmpty(b) => 5 | (b as u64) << 8,
        Op::Recommit(b) => 6 | (b as u64) << 8,
        Op::Finish => 7,
        Op::Drop => 8,
        Op::Probe => 9,
    }
}

/// Runs one scenario alone.
pub fn run(sc: &Scenario, model: &Rc<Model>) -> RunOut {
    run_with(sc, model, usize::MAX)
}

pub fn run_with(sc: &Scenario, model: &Rc<Model>, quantum: usize) -> RunOut {
    let sink = SimSink::new(&sc.sink);
    let mut c = Client::new(Rc::new(sc.clone()), model.clone(), sink, quantum);
    while c.step() {}
    c.into_out()
}

/// The same scenario on a sink that accepts everything, with a well-behaved client.
pub fn run_reference(sc: &Scenario, model: &Rc<Model>) -> RunOut {
    let mut s = sc.clone();
    s.sink = SinkPlan::clean();
    s.misuse = None;
    s.abandon_after = None;
    s.probe = 0;
    run(&s, model)
}
