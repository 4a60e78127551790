//! C16: requests at and beyond the limits of the format, made between the calls of a writer's
//! history.
use crate::exec::*;
use crate::model::Model;
use crate::oracle::{fail, Check};
use crate::rng::*;
use crate::scenario::*;
use crate::sink::SimSink;
use orc_format::schema::{Field, Schema};
use orc_format::writer::compression::{SnappyCompression, ZstdCompression};
use orc_format::writer::{Config, Writer};
use serde::{Deserialize, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Limit {
    /// A compression block size (of zstd or snappy).
    Block { zstd: bool, size: u64 },
    /// A zstd level; the block size, if any, is set before or after it.
    Level { level: i64, block: Option<u32>, first: bool },
    /// A union of so many variants, below these columns (0 list, 1 key, 2 value, 3 struct field,
    /// 4 later struct field, 5 union).
    Union { variants: u32, below: Vec<u8>, wide: bool },
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Attempt {
    /// Made before this step of the main client (one beyond its steps: after it).
    pub step: u32,
    pub what: Limit,
}

pub fn legal(l: &Limit) -> bool {
    match l {
        Limit::Block { size, .. } => *size <= MAX_BLOCK as u64,
        Limit::Level { level, .. } => (1..=22).contains(level),
        Limit::Union { variants, .. } => *variants <= 256,
    }
}

fn block(r: &mut Rng) -> u64 {
    let m = MAX_BLOCK as u64;
    match r.below(5) {
        0 => *r.pick(&[m, m - 1, 1, 2, 1 << 22, 1 << 16]),
        1 | 2 => *r.pick(&[m + 1, m + 1, m + 2, 1 << 24, (1 << 24) - 1, (1 << 24) + 1]),
        3 => *r.pick(&[1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + m, 1 << 63, u64::MAX, u64::MAX - m, (1 << 63) + m]),
        _ => {
            let bits = r.range(1, 40);
            m + 1 + r.below(1 << bits)
        }
    }
}

fn attempt(r: &mut Rng) -> Limit {
    match r.below(5) {
        0 | 1 => Limit::Block { zstd: r.chance(1, 2), size: block(r) },
        2 | 3 => Limit::Level {
            level: match r.below(4) {
                0 => *r.pick(&[1, 2, 3, 19, 20, 21, 22]),
                1 => *r.pick(&[0, -1, 23, 24, 25, 100]),
                2 => *r.pick(&[i32::MIN as i64, i32::MAX as i64, 256 + 3, 65536 + 22, -255, 128, -7, -22]),
                _ => r.below(64) as i64 - 20,
            },
            block: if r.chance(1, 2) { Some(*r.pick(&[1u32, 64, 512, 4096])) } else { None },
            first: r.chance(1, 2),
        },
        _ => Limit::Union {
            variants: match r.below(3) {
                0 => *r.pick(&[0u32, 1, 128, 255, 256]),
                1 => *r.pick(&[257u32, 257, 258, 259, 300]),
                _ => *r.pick(&[511u32, 512, 513, 1000, 4096, 65_535, 65_536, 65_537, 65_792]),
            },
            below: (0..r.below(4)).map(|_| r.below(6) as u8).collect(),
            wide: r.chance(1, 3),
        },
    }
}

pub fn attempts(r: &mut Rng, steps: u32) -> Vec<Attempt> {
    (0..r.range(1, 6)).map(|_| Attempt { step: r.below(steps as u64 + 2) as u32, what: attempt(r) }).collect()
}

fn union(variants: u32, below: &[u8], wide: bool) -> Schema {
    let kinds = [Schema::Boolean, Schema::Long, Schema::String, Schema::Struct(vec![])];
    let mut s = Schema::Union((0..variants as usize).map(|i| if wide { kinds[i % 4].clone() } else { Schema::Boolean }).collect());
    for w in below {
        s = match w {
            0 => Schema::List(Box::new(s)),
            1 => Schema::Map(Box::new(s), Box::new(Schema::Long)),
            2 => Schema::Map(Box::new(Schema::Long), Box::new(s)),
            3 => Schema::Struct(vec![Field("u".into(), s), Field("x".into(), Schema::Long)]),
            4 => Schema::Struct(vec![Field("x".into(), Schema::Double), Field("u".into(), s)]),
            _ => Schema::Union(vec![Schema::Long, s, Schema::String]),
        };
    }
    s
}

/// Makes the request on a sink of its own, as far as starting a writer and finishing it with no
/// row. What came of it, and how many bytes and calls reached the sink.
fn make(l: &Limit) -> (Result<(), String>, usize, u64) {
    let sink = SimSink::new(&SinkPlan::clean());
    let s2 = sink.clone();
    let r = catch_unwind(AssertUnwindSafe(|| -> std::io::Result<bool> {
        let (schema, cfg) = match l {
            Limit::Block { zstd: true, size } => (Schema::Long, Config::new().with_compression(ZstdCompression::new().with_block_size(*size as usize).build())),
            Limit::Block { size, .. } => (Schema::Long, Config::new().with_compression(SnappyCompression::new().with_block_size(*size as usize).build())),
            Limit::Level { level, block, first } => {
                let mut z = ZstdCompression::new();
                if let (Some(b), true) = (block, first) {
                    z = z.with_block_size(*b as usize);
                }
                z = z.with_compression_level(*level as i32);
                if let (Some(b), false) = (block, first) {
                    z = z.with_block_size(*b as usize);
                }
                (Schema::Long, Config::new().with_compression(z.build()))
            }
            Limit::Union { variants, below, wide } => (union(*variants, below, *wide), Config::new()),
        };
        let w = Writer::new(s2, &schema, cfg)?;
        Ok(w.finish().is_ok())
    }));
    let st = sink.lock();
    let res = match r {
        Ok(Ok(true)) => Ok(()),
        Ok(Ok(false)) => Err("finish failed".into()),
        Ok(Err(e)) => Err(e.to_string()),
        Err(p) => Err(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    (res, st.bytes.len(), st.calls)
}

pub struct Judged {
    pub refused: u64,
    pub accepted: u64,
    pub fault: Check,
}

/// Runs the scenario with the attempts made in between.
pub fn run_among(sc: &Scenario, m: &Rc<Model>, quantum: usize, list: &[Attempt]) -> (RunOut, Judged) {
    let sink = SimSink::new(&sc.sink);
    let mut c = Client::new(Rc::new(sc.clone()), m.clone(), sink, quantum);
    let mut j = Judged { refused: 0, accepted: 0, fault: Ok(()) };
    let mut judge = |a: &Attempt| {
        let (res, bytes, writes) = make(&a.what);
        let bad = match (&res, legal(&a.what)) {
            (Err(e), true) => Some(("refused", format!("{:?} is within the limits, but: {}", a.what, e))),
            (Ok(()), false) => Some(("accepted", format!("{:?} is beyond the limits, and a file of {} bytes was written", a.what, bytes))),
            (Err(_), false) if bytes > 0 || writes > 0 => Some(("late", format!("{:?} was refused after {} bytes reached the sink", a.what, bytes))),
            _ => None,
        };
        if res.is_ok() {
            j.accepted += 1;
        } else {
            j.refused += 1;
        }
        if let (Some((k, d)), true) = (bad, j.fault.is_ok()) {
            j.fault = Err(fail(&format!("C16/{}", k), d));
        }
    };
    let mut step = 0u32;
    loop {
        for a in list.iter().filter(|a| a.step == step) {
            judge(a);
        }
        step += 1;
        if !c.step() {
            break;
        }
    }
    for a in list.iter().filter(|a| a.step >= step) {
        judge(a);
    }
    (c.into_out(), j)
}
