//! Sizes beyond 32 bits: values, streams, stripes and files of more than 4 GiB. The bytes are
//! almost all zero, so the simulated sink keeps them in a sparse mapping and the simulation stays
//! small; a marker at both ends of every value shows whether it sits where it belongs.
use crate::checks::{Outcome, Stats};
use crate::oracle::{fail, Check, Fail};
use crate::orc::*;
use crate::rng::*;
use crate::scenario::*;
use orc_format::schema::{Field, Schema};
use orc_format::writer::Writer;
use serde::{Deserialize, Serialize};
use std::io::{self, Write};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Giant {
    pub cfg: Cfg,
    /// Length of each value of the one binary column.
    pub lens: Vec<u64>,
    pub per_batch: u32,
    /// The sink takes at most this much of a write.
    pub accept: u64,
    /// The values are of noise that does not compress, instead of zeros.
    #[serde(default)]
    pub noise: bool,
    /// The column is a string column.
    #[serde(default)]
    pub text: bool,
    /// Instead of long values, this many rows of one boolean column, in one batch ...
    #[serde(default)]
    pub rows: u64,
    /// ... or list elements, in two rows.
    #[serde(default)]
    pub list: bool,
    /// Or a file for each of these, with a column of so many numbers (0 double, 1 float, 2 bigint,
    /// 3 decimal, 4 timestamp).
    #[serde(default)]
    pub numbers: Vec<(u8, u64)>,
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

/// An area of zeros of which only what is written to takes memory.
struct Zeros {
    base: *mut u8,
    cap: usize,
}

impl Zeros {
    fn new(cap: usize) -> Zeros {
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let base = unsafe { mmap(std::ptr::null_mut(), cap, 3, 0x4022, -1, 0) };
        assert!(base as isize != -1, "harness: no address space for {} bytes", cap);
        Zeros { base, cap }
    }
    fn all(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.cap) }
    }
    fn put(&mut self, at: usize, b: &[u8]) {
        assert!(at + b.len() <= self.cap);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(at), b.len()) }
    }
}

impl Drop for Zeros {
    fn drop(&mut self) {
        unsafe { munmap(self.base, self.cap) };
    }
}

pub fn is_zero(b: &[u8]) -> bool {
    b.chunks(4096).all(|c| c.iter().fold(0u8, |a, &x| a | x) == 0)
}

struct Sparse {
    area: Zeros,
    len: usize,
    accept: usize,
    ops: u64,
    short: u64,
    trace: Trace,
    /// Of longer writes only the ends are kept.
    keep: usize,
}

impl Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.ops += 1;
        let n = buf.len().min(self.accept);
        self.short += (n < buf.len()) as u64;
        if self.len + n > self.area.cap {
            return Err(io::Error::new(io::ErrorKind::Other, "far more bytes than the values have"));
        }
        let mut at = 0;
        while at < n {
            // Up to the next page of the area.
            let k = (4096 - (self.len + at) % 4096).min(n - at);
            let part = &buf[at..at + k];
            if at >= self.keep && n - at > self.keep {
                // Not looked at later.
            } else if !is_zero(part) {
                self.area.put(self.len + at, part);
                self.trace.add((self.len + at) as u64);
                self.trace.bytes(part);
            }
            at += k;
        }
        self.len += n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.trace.add(self.len as u64);
        Ok(())
    }
}

/// Byte at both ends of value i; one that may stand in a text.
fn marker(i: usize) -> u8 {
    1 + (i * 7 % 120) as u8
}

/// The n-th giant case of a property, if it has one.
pub fn of(property: &str, nth: u64) -> Option<Giant> {
    let many: Vec<u64> = (0..41u64).map(|i| (112 << 20) + i * i * 997).collect();
    let cfg = |codec, stride, stripe| Cfg { codec, block: None, level: None, stride: Some(stride), stripe: Some(stripe) };
    let base = Giant { cfg: cfg(Codec::None, 1000, 1 << 20), lens: vec![], per_batch: 1, accept: u64::MAX, noise: false, text: false, rows: 0, list: false, numbers: vec![] };
    // More than 4 GiB over many stripes.
    let file = Giant { cfg: cfg(Codec::None, 1000, 1 << 20), lens: many, accept: 0x7fff_f000, ..base.clone() };
    // A single value, and so a row group's total, beyond 32 bits.
    let value = Giant { cfg: cfg(Codec::Snappy, 1, 1 << 30), lens: vec![5, (1 << 32) + 9, 3], per_batch: 3, ..base.clone() };
    // A stream and a stripe beyond 32 bits, cut when it passes 2^32 + 64.
    let stream = Giant { cfg: cfg(Codec::None, 1, (1 << 32) + 64), lens: vec![(1 << 31) + 11, (1 << 31) + 11, 200, 7], accept: 0x7fff_f000, ..base.clone() };
    // A compressed stream beyond 32 bits.
    let noise = Giant { cfg: cfg(Codec::Snappy, 1, 1 << 33), lens: (0..66u64).map(|i| if i == 65 { 17 } else { (64 << 20) + 13 * i }).collect(), per_batch: 11, accept: 0x7fff_f000, noise: true, ..base.clone() };
    // Texts that add up to more than 4 GiB, in stripes of more than 256 MiB.
    let texts = Giant { cfg: cfg(Codec::None, 300, 1 << 28), lens: (0..4100u64).map(|i| (1 << 20) + i * 37 % 1009).collect(), per_batch: 50, text: true, ..base.clone() };
    // More rows, and more list elements, than 32 bits count.
    let rows = Giant { cfg: cfg(Codec::None, 1 << 30, 1 << 30), rows: (1 << 32) + (1 << 21) + 11, per_batch: 19, ..base.clone() };
    let list = Giant { list: true, per_batch: 1, ..rows.clone() };
    // Blocks of the greatest size, which do not compress and so need all bits of a chunk's header.
    let blocks = Giant { cfg: Cfg { block: Some(MAX_BLOCK), ..cfg(Codec::Snappy, 2, 1 << 30) }, lens: vec![9 << 20, 100, MAX_BLOCK as u64, (17 << 20) + 1], per_batch: 2, noise: true, ..base.clone() };
    match (property, nth) {
        ("C16", 0) => Some(blocks),
        ("C16", 1) => Some(Giant { cfg: Cfg { codec: Codec::Zstd, level: Some(1), ..blocks.cfg }, ..blocks }),
        ("C08", 1) => Some(noise),
        ("C01", 0) | ("C07", 1) | ("C09", 0) | ("C15", 1) => Some(value),
        // Against the default stripe size.
        ("C10", 1) => Some(Giant { cfg: Cfg { stripe: None, ..cfg(Codec::None, 1000, 0) }, lens: vec![(1 << 26) - 70, 70, 1, (1 << 25) + 3, (1 << 25) - 200, 250, 9], ..base }),
        ("C02", 0) => Some(Giant { accept: (1 << 32) + 3, ..stream }),
        ("C01", 1) | ("C05", 1) | ("C08", 0) | ("C10", 0) | ("C15", 0) => Some(stream),
        ("C05", 0) | ("C07", 0) => Some(file),
        ("C07", 2) | ("C01", 2) => Some(texts),
        ("C07", 3) | ("C05", 2) | ("C10", 2) => Some(rows),
        ("C01", 3) | ("C11", 0) => Some(list),
        ("C05", 3) => Some(Giant { cfg: cfg(Codec::None, 1 << 28, 1 << 34), numbers: vec![(0, (1 << 29) + 1001), (2, 459_000_000), (3, 238_000_000)], ..base }),
        ("C05", 4) => Some(Giant { cfg: cfg(Codec::None, 1 << 28, 1 << 34), numbers: vec![(1, (1 << 30) + 1001), (4, 880_000_000)], ..base }),
        _ => None,
    }
}

fn free_memory() -> Option<u64> {
    let s = std::fs::read_to_string("/proc/meminfo").ok()?;
    let l = s.lines().find(|l| l.starts_with("MemAvailable:"))?;
    l.split_whitespace().nth(1)?.parse::<u64>().ok().map(|k| k << 10)
}

pub fn run(property: &str, g: &Giant) -> Outcome {
    // One at a time: they are large.
    let turn = std::env::current_exe().ok().and_then(|p| std::fs::File::open(p.parent()?.parent()?).ok());
    let _ = turn.as_ref().map(|f| f.lock());
    let mut o = Outcome { fails: vec![], known: vec![], stats: Stats::default(), trace: 0, shape: 0, nontrivial: true };
    // Where there is not the memory, the case says nothing.
    let mut patience = 100;
    while free_memory().map_or(false, |m| m < 14 << 30) {
        patience -= 1;
        if patience == 0 {
            o.nontrivial = false;
            o.stats.add("giant_runs_without_memory", 1);
            return o;
        }
        std::thread::sleep(std::time::Duration::from_millis(200));
    }
    if g.rows > 0 {
        many_rows(property, g, &mut o);
        return o;
    }
    if !g.numbers.is_empty() {
        for &(kind, n) in &g.numbers {
            many_numbers(property, g, kind, n, &mut o);
        }
        return o;
    }
    let total: u64 = g.lens.iter().sum();
    let longest = g.lens.iter().copied().max().unwrap_or(0);
    let mut value = Zeros::new(longest as usize + 1);
    if g.noise {
        let mut r = Rng::new(longest);
        let base: Vec<u8> = (0..(1 << 17) + 5).flat_map(|_| r.u64().to_le_bytes()).collect();
        let mut at = 0;
        while at < longest as usize {
            let n = base.len().min(longest as usize - at);
            value.put(at, &base[..n]);
            at += n;
        }
    }
    let sink = Sparse { area: Zeros::new(total as usize + (64 << 20)), len: 0, accept: g.accept.min(usize::MAX as u64) as usize, ops: 0, short: 0, trace: Trace::new(), keep: usize::MAX };
    let schema = Schema::Struct(vec![Field("b".into(), if g.text { Schema::String } else { Schema::Binary })]);
    let class = |k: &str| format!("{}/giant-{}", property, k);
    let mut cuts = vec![];
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Sparse, String> {
        let mut w = Writer::new(sink, &schema, crate::exec::config_of(&g.cfg)).map_err(|e| e.to_string())?;
        let mut at = 0;
        let mut before = w.inner().len;
        while at < g.lens.len() {
            let n = (g.per_batch as usize).min(g.lens.len() - at);
            for i in at..at + n {
                let len = g.lens[i] as usize;
                let ends = (value.all()[0], value.all()[len - 1]);
                value.put(0, &[marker(i)]);
                value.put(len - 1, &[marker(i)]);
                let root = w.data().unwrap_struct();
                root.write();
                if g.text {
                    root.child(0).unwrap_string().write(std::str::from_utf8(&value.all()[..len]).unwrap());
                } else {
                    root.child(0).unwrap_binary().write(&value.all()[..len]);
                }
                value.put(len - 1, &[ends.1]);
                value.put(0, &[ends.0]);
            }
            w.write_batch(n as u64).map_err(|e| e.to_string())?;
            at += n;
            if w.inner().len > before {
                before = w.inner().len;
                cuts.push(at);
            }
        }
        if cuts.last() != Some(&g.lens.len()) {
            cuts.push(g.lens.len());
        }
        w.finish().map_err(|e| e.to_string())
    }));
    o.stats.add("executions", 1);
    o.stats.add("giant_runs", 1);
    let s = match res {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => {
            o.fails.push(fail(&class("call-failed"), e));
            return o;
        }
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            o.fails.push(fail(&class("call-failed"), format!("panic: {}", msg)));
            return o;
        }
    };
    o.stats.add("sink_writes", s.ops);
    o.stats.add("bytes", s.len as u64);
    o.stats.add("fault.short_write", s.short);
    o.stats.add("rows", g.lens.len() as u64);
    o.stats.add("stripes", cuts.len() as u64);
    let mut t = s.trace;
    t.add(s.len as u64);
    o.trace = t.0;
    o.shape = mix_all(&[s.ops, s.len as u64]);
    if let Err(f) = judge(property, g, &cuts, &s.area.all()[..s.len], value.all(), &class) {
        o.fails.push(f);
    }
    o
}

fn judge(property: &str, g: &Giant, cuts: &[usize], b: &[u8], value: &[u8], class: &dyn Fn(&str) -> String) -> Check {
    let bad = |k: &str, d: String| -> Fail { fail(&class(k), d) };
    let t = tail(b).map_err(|e| bad("tail", e))?;
    // Where the writer cut is where it had to (the estimate may lag by what a length run holds back).
    if property == "C10" {
        let mut held = 0u64;
        let mut first = 0;
        for (i, &len) in g.lens.iter().enumerate() {
            held += len;
            let cut = cuts.contains(&(i + 1)) && i + 1 < g.lens.len();
            let must = held > g.cfg.stripe_value();
            let may = held + 64 * (i + 1 - first) as u64 > g.cfg.stripe_value();
            if must && !cut && i + 1 < g.lens.len() || cut && !may {
                return Err(bad("cut", format!("{} bytes of values buffered after row {}, stripe size {}: cut {}", held, i, g.cfg.stripe_value(), cut)));
            }
            if cut {
                held = 0;
                first = i + 1;
            }
        }
    }
    if t.stripes.len() != cuts.len() || t.rows != Some(g.lens.len() as u64) {
        return Err(bad("tail", format!("{} stripes and {:?} rows recorded, {} stripes and {} rows written", t.stripes.len(), t.rows, cuts.len(), g.lens.len())));
    }
    let mut at = 3u64;
    let mut row = 0;
    for (i, d) in t.stripes.iter().enumerate() {
        let rows = row..cuts[i];
        row = cuts[i];
        if d.offset != at || d.rows != rows.len() as u64 {
            return Err(bad("stripe", format!("stripe {}: offset {} and {} rows recorded, offset {} and {} rows written", i, d.offset, d.rows, at, rows.len())));
        }
        at = d.end();
        let s = stripe(b, &t, i).map_err(|e| bad("stripe", e))?;
        let sum: usize = s.streams.iter().map(|x| x.len).sum();
        if sum as u64 != d.index_len + d.data_len {
            return Err(bad("stripe", format!("stripe {}: streams of {} bytes in areas of {} + {}", i, sum, d.index_len, d.data_len)));
        }
        let num = |k: u64| -> Result<Section, Fail> { s.section(b, &t, 1, k).map_err(|e| bad("stream", e))?.ok_or_else(|| bad("stream", format!("stripe {}: no stream of kind {}", i, k))) };
        // LENGTH
        let sec = num(2)?;
        let (lens, _) = ints_exact(&sec.plain, rows.len(), false).map_err(|e| bad("lengths", e))?;
        if lens.iter().map(|&x| x as u64).ne(g.lens[rows.clone()].iter().copied()) {
            return Err(bad("lengths", format!("stripe {}: lengths {:?} stored, {:?} written", i, lens, &g.lens[rows.clone()])));
        }
        // DATA
        let ds = s.by_key.get(&(1, 1)).copied().ok_or_else(|| bad("stream", format!("stripe {}: no data stream", i)))?;
        let entries = row_index(&num(6)?).map_err(|e| bad("index", e))?;
        let pos = walk(&b[ds.at..ds.at + ds.len], t.comp, t.block.unwrap_or(0), g, value, rows.clone()).map_err(|e| bad("data", format!("stripe {}: {}", i, e)))?;
        if g.cfg.stride_value() == 1 && property == "C08" {
            if entries.len() != rows.len() {
                return Err(bad("index", format!("stripe {}: {} entries for {} row groups", i, entries.len(), rows.len())));
            }
            for (e, r) in entries.iter().zip(rows.clone()) {
                let is = &pos[r - rows.start];
                if !is.iter().any(|w| e.positions.starts_with(w)) {
                    return Err(bad("index", format!("row {}: positions {:?}, its data starts at {:?}", r, e.positions, is)));
                }
                if let Some(Some(Some(x))) = e.stats.as_ref().map(|s| s.binary) {
                    if x as u64 != g.lens[r] {
                        return Err(bad("index", format!("row {}: total length {} recorded, {} written", r, x, g.lens[r])));
                    }
                }
            }
        }
        if let Some(s) = t.stripe_stats.get(i).and_then(|s| s.get(1)) {
            totals(g, s, rows.clone()).map_err(|e| bad("statistics", format!("stripe {}: {}", i, e)))?;
        }
    }
    if at != t.meta_start as u64 || t.content_len.map_or(false, |c| c != at && c != at - 3) {
        return Err(bad("tail", format!("stripes end at {}, metadata starts at {}, content length {:?}", at, t.meta_start, t.content_len)));
    }
    if let Some(s) = t.stats.get(1) {
        totals(g, s, 0..g.lens.len()).map_err(|e| bad("statistics", format!("file: {}", e)))?;
    }
    if property == "C15" {
        crate::meta::c15(b, 1)?;
    }
    Ok(())
}

/// The statistics of the values of some rows.
fn totals(g: &Giant, s: &ColStats, rows: std::ops::Range<usize>) -> R<()> {
    let want: u64 = g.lens[rows.clone()].iter().sum();
    let sum = if g.text { s.string.as_ref().and_then(|x| x.2) } else { s.binary.flatten() };
    if sum.map_or(false, |x| x as u64 != want) {
        return Err(format!("total length {:?} recorded, {} written", sum, want));
    }
    if s.count != Some(rows.len() as u64) {
        return Err(format!("{:?} values recorded, {} written", s.count, rows.len()));
    }
    if let Some((min, max, _)) = &s.string {
        // Zeros between the markers: order goes by marker, then by length (the shorter is a
        // prefix up to its end marker, which is greater than the other's zero there).
        let key = |i: usize| (marker(i), std::cmp::Reverse(g.lens[i]));
        for (b, i, what) in [(min, rows.clone().min_by_key(|&i| key(i)), "minimum"), (max, rows.clone().max_by_key(|&i| key(i)), "maximum")] {
            let i = i.unwrap();
            if let Some(b) = b {
                if b.len() as u64 != g.lens[i] || b[0] != marker(i) || b[b.len() - 1] != marker(i) || !is_zero(&b[1..b.len() - 1]) {
                    return Err(format!("the {} of {} bytes starting with {} is not row {}: {} bytes, {}", what, b.len(), b[0], i, g.lens[i], marker(i)));
                }
            }
        }
    }
    Ok(())
}

/// One boolean column of more cells than 32 bits count: null at 7, false at 9 modulo 2^20.
const PERIOD: u64 = 1 << 20;

fn many_rows(property: &str, g: &Giant, o: &mut Outcome) {
    let class = |k: &str| format!("{}/giant-{}", property, k);
    let schema = if g.list { Schema::List(Box::new(Schema::Boolean)) } else { Schema::Boolean };
    let sink = Sparse { area: Zeros::new(256 << 20), len: 0, accept: g.accept.min(usize::MAX as u64) as usize, ops: 0, short: 0, trace: Trace::new(), keep: usize::MAX };
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Sparse, String> {
        let mut w = Writer::new(sink, &schema, crate::exec::config_of(&g.cfg)).map_err(|e| e.to_string())?;
        if g.list {
            let l = w.data().unwrap_list();
            l.write(5);
            l.write(g.rows - 5);
        }
        let b = match w.data() {
            orc_format::writer::data::Data::List(l) => l.child(),
            b => b,
        }
        .unwrap_boolean();
        let portion = g.rows / g.per_batch as u64;
        let mut done = 0;
        let mut b = b;
        for i in 0..g.rows {
            if i - done == portion && g.rows - i >= portion && !g.list {
                w.write_batch(portion).map_err(|e| e.to_string())?;
                if w.inner().len > 3 {
                    return Err(format!("{} bytes went out with {} rows buffered, far below the stripe size", w.inner().len, i));
                }
                done = i;
                b = w.data().unwrap_boolean();
            }
            use orc_format::writer::data::GenericData;
            match i % PERIOD {
                7 => b.write_null(),
                k => b.write(k != 9),
            }
        }
        w.write_batch(if g.list { 2 } else { g.rows - done }).map_err(|e| e.to_string())?;
        w.finish().map_err(|e| e.to_string())
    }));
    o.stats.add("executions", 1);
    o.stats.add("giant_runs", 1);
    let s = match res {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return o.fails.push(fail(&class("call-failed"), e)),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return o.fails.push(fail(&class("call-failed"), format!("panic: {}", msg)));
        }
    };
    o.stats.add("sink_writes", s.ops);
    o.stats.add("bytes", s.len as u64);
    o.stats.add("rows", g.rows);
    o.stats.add("stripes", 1);
    o.trace = s.trace.0;
    o.shape = mix_all(&[s.ops, s.len as u64]);
    if let Err(e) = judge_rows(g, &s.area.all()[..s.len]) {
        o.fails.push(fail(&class("many"), e));
    }
}

fn varint(x: u128) -> u64 {
    ((128 - (x | 1).leading_zeros() as u64) + 6) / 7
}

/// Streams of numbers, of more than 4 GiB each.
fn many_numbers(property: &str, g: &Giant, kind: u8, n: u64, o: &mut Outcome) {
    let class = |k: &str| format!("{}/giant-{}", property, k);
    let schema = [Schema::Double, Schema::Float, Schema::Long, Schema::Decimal(38, 3), Schema::Timestamp][kind as usize].clone();
    let mut sink = Sparse { area: Zeros::new(12 << 30), len: 0, accept: g.accept.min(usize::MAX as u64) as usize, ops: 0, short: 0, trace: Trace::new(), keep: usize::MAX };
    if kind >= 2 {
        sink.keep = 1 << 20;
    }
    // What the values take, where the format says.
    let mut least = 0u64;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<Sparse, String> {
        let mut w = Writer::new(sink, &schema, crate::exec::config_of(&g.cfg)).map_err(|e| e.to_string())?;
        let mut r = Rng::new(n);
        use orc_format::writer::data::Data;
        match w.data() {
            Data::Double(d) => {
                (0..n).for_each(|i| d.write(if i == 0 || i + 1 == n { 1.5 } else { 0.0 }));
                least = 8 * n;
            }
            Data::Float(d) => {
                (0..n).for_each(|i| d.write(if i == 0 || i + 1 == n { 1.5 } else { 0.0 }));
                least = 4 * n;
            }
            Data::Long(d) => (0..n).for_each(|_| {
                let x = r.u64() as i64;
                least += varint(((x << 1) ^ (x >> 63)) as u64 as u128);
                d.write(x)
            }),
            Data::Decimal(d) => (0..n).for_each(|_| {
                // Below 10^38.
                let x = (((r.u64() as u128) << 64 | r.u64() as u128) >> 2) as i128 - (1i128 << 125);
                least += varint(((x << 1) ^ (x >> 127)) as u128);
                d.write_i128(x)
            }),
            Data::Timestamp(d) => (0..n).for_each(|_| {
                // Five bytes each.
                d.write_nanos_epoch(1 << 30, (r.u64() & 0x0fff_ffff) as u32 + 700_000_001);
                least += 4;
            }),
            _ => unreachable!(),
        }
        w.write_batch(n).map_err(|e| e.to_string())?;
        w.finish().map_err(|e| e.to_string())
    }));
    o.stats.add("executions", 1);
    o.stats.add("giant_runs", 1);
    let s = match res {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return o.fails.push(fail(&class("call-failed"), e)),
        Err(p) => {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return o.fails.push(fail(&class("call-failed"), format!("panic: {}", msg)));
        }
    };
    o.stats.add("sink_writes", s.ops);
    o.stats.add("bytes", s.len as u64);
    o.stats.add("rows", n);
    o.stats.add("stripes", 1);
    o.trace = mix_all(&[o.trace, s.trace.0]);
    o.shape = mix_all(&[o.shape, s.ops, s.len as u64]);
    if let Err(e) = judge_numbers(&s.area.all()[..s.len], kind, n, least) {
        o.fails.push(fail(&class("numbers"), format!("column of {} numbers of kind {}: {}", n, kind, e)));
    }
}

fn judge_numbers(b: &[u8], kind: u8, n: u64, least: u64) -> R<()> {
    let t = tail(b)?;
    if t.stripes.len() != 1 || t.rows != Some(n) || t.stripes[0].rows != n {
        return Err(format!("{:?} rows recorded, {:?} in stripes", t.rows, t.stripes.iter().map(|s| s.rows).collect::<Vec<_>>()));
    }
    let d = &t.stripes[0];
    if d.offset != 3 || d.end() != t.meta_start as u64 {
        return Err(format!("the stripe lies at {} to {}, the metadata starts at {}", d.offset, d.end(), t.meta_start));
    }
    let s = stripe(b, &t, 0)?;
    let sum: usize = s.streams.iter().map(|x| x.len).sum();
    if sum as u64 != d.index_len + d.data_len {
        return Err(format!("streams of {} bytes in areas of {} + {}", sum, d.index_len, d.data_len));
    }
    {
        let k = if kind == 4 { 5 } else { 1 };
        let x = s.by_key.get(&(0, k)).ok_or_else(|| format!("no stream of kind {}", k))?;
        let exact = kind < 2 || kind == 3;
        let got = x.len as u64;
        if got < least || exact && got != least {
            return Err(format!("a stream of {} bytes for values of {} bytes", got, least));
        }
        if kind < 2 {
            let one: &[u8] = if kind == 0 { &[0, 0, 0, 0, 0, 0, 0xf8, 0x3f] } else { &[0, 0, 0xc0, 0x3f] };
            let v = &b[x.at..x.at + x.len];
            let w = one.len();
            if &v[..w] != one || &v[v.len() - w..] != one || !is_zero(&v[w..v.len() - w]) {
                return Err("the values are not those written".into());
            }
        }
    }
    Ok(())
}

fn judge_rows(g: &Giant, b: &[u8]) -> R<()> {
    let t = tail(b)?;
    let rows = if g.list { 2 } else { g.rows };
    if t.stripes.len() != 1 || t.rows != Some(rows) || t.stripes[0].rows != rows {
        return Err(format!("{:?} rows recorded, {:?} in stripes; {} written", t.rows, t.stripes.iter().map(|s| s.rows).collect::<Vec<_>>(), rows));
    }
    let col = g.list as usize;
    // How many i below n are k modulo p.
    let at = |n: u64, p: u64, k: u64| n / p + (n % p > k) as u64;
    let nulls = |n: u64| at(n, PERIOD, 7);
    let stat = |s: Option<&ColStats>, from: u64, to: u64| -> R<()> {
        let s = s.ok_or("no statistics")?;
        let count = (to - from) - (nulls(to) - nulls(from));
        let trues = count - (at(to, PERIOD, 9) - at(from, PERIOD, 9));
        if s.count != Some(count) || s.has_null == Some(false) || s.bucket.as_ref().map_or(false, |x| x.first() != Some(&trues) || x.get(1).map_or(false, |&f| f != count - trues)) {
            return Err(format!("{:?} values, nulls {:?}, true {:?} recorded for cells {} to {}; {} values, {} true written", s.count, s.has_null, s.bucket, from, to, count, trues));
        }
        Ok(())
    };
    stat(t.stats.get(col), 0, g.rows)?;
    stat(t.stripe_stats.get(0).and_then(|s| s.get(col)), 0, g.rows)?;
    let s = stripe(b, &t, 0)?;
    let sec = |k: u64| -> R<Section> { s.section(b, &t, col, k)?.ok_or_else(|| format!("no stream of kind {}", k)) };
    let entries = row_index(&sec(6)?)?;
    let stride = g.cfg.stride_value();
    // Elements do not start row groups by rows: one group holds both rows (but see C08).
    if !g.list {
        if entries.len() as u64 != (g.rows + stride - 1) / stride {
            return Err(format!("{} row groups indexed", entries.len()));
        }
    }
    if g.list {
        let (lens, _) = ints_exact(&s.section(b, &t, 0, 2)?.ok_or("no lengths")?.plain, 2, false)?;
        if lens[0] != 5 || lens[1] as u64 != g.rows - 5 {
            return Err(format!("list lengths {:?}", lens));
        }
    }
    bits(&sec(0)?.plain, g.rows, PERIOD, 7).map_err(|e| format!("present stream: {}", e))?;
    bits(&sec(1)?.plain, g.rows - nulls(g.rows), PERIOD - 1, 8).map_err(|e| format!("data stream: {}", e))
}

/// A bit stream of n bits that are all set but those that are k modulo p.
fn bits(b: &[u8], n: u64, p: u64, k: u64) -> R<()> {
    let mut at = 0u64;
    let mut i = 0;
    let mut group = |byte: u8, times: u64| -> R<()> {
        let end = at + 8 * times;
        if end >= n + 8 {
            return Err(format!("more than {} bits", n));
        }
        // The next clear bit at or after `at`.
        let clear = if at % p <= k { at - at % p + k } else { at - at % p + p + k };
        if byte == 0xff && clear >= end && end <= n {
            at = end;
            return Ok(());
        }
        for x in at..end.min(n) {
            let bit = byte >> (7 - (x - at) % 8) & 1 == 1;
            if bit == (x % p == k) {
                return Err(format!("bit {} is {}", x, bit));
            }
        }
        at = end;
        Ok(())
    };
    while i < b.len() {
        let c = b[i];
        if c < 128 {
            group(*b.get(i + 1).ok_or("truncated run")?, c as u64 + 3)?;
            i += 2;
        } else {
            let m = 256 - c as usize;
            for &x in b.get(i + 1..i + 1 + m).ok_or("truncated literals")? {
                group(x, 1)?;
            }
            i += 1 + m;
        }
    }
    if at < n {
        return Err(format!("{} bits of {}", at, n));
    }
    Ok(())
}

/// Follows a data stream and compares it with the values; returns the positions that name the
/// start of each value (two of them where it falls between two chunks).
fn walk(b: &[u8], comp: Comp, block: u64, g: &Giant, value: &[u8], rows: std::ops::Range<usize>) -> R<Vec<Vec<Vec<u64>>>> {
    let total: u64 = g.lens[rows.clone()].iter().sum();
    let mut starts: Vec<Vec<Vec<u64>>> = vec![];
    let mut row = rows.start;
    let mut into = 0usize; // bytes of row `row` already compared
    let mut plain = 0u64;
    let mut chunk = |p: &[u8], at: u64| -> R<()> {
        let mut i = 0;
        loop {
            if into == 0 && row < rows.end {
                let here = if comp == Comp::None { vec![i as u64] } else { vec![at, i as u64] };
                if starts.len() == row - rows.start {
                    starts.push(vec![here]);
                } else {
                    starts.last_mut().unwrap().push(here);
                }
            }
            if i == p.len() {
                return Ok(());
            }
            if row == rows.end {
                return Err(format!("more than the {} bytes written", total));
            }
            let len = g.lens[row] as usize;
            let n = (len - into).min(p.len() - i);
            let (mut lo, mut hi) = (0, n);
            let m = marker(row);
            let ok = |k: usize| p[i + k] == m;
            if into == 0 {
                lo = 1;
            }
            if into + n == len {
                hi = n - 1;
            }
            let good = (lo == 0 || ok(0)) && (hi == n || ok(n - 1)) && (lo >= hi || p[i + lo..i + hi] == value[into + lo..into + hi]);
            if !good {
                return Err(format!("the bytes of row {} from {} on are not those written", row, into));
            }
            i += n;
            into += n;
            plain += n as u64;
            if into == len {
                into = 0;
                row += 1;
            }
        }
    };
    if comp == Comp::None {
        chunk(b, 0)?;
    } else {
        let mut p = 0;
        while p < b.len() {
            let h = b.get(p..p + 3).ok_or("truncated chunk header")?;
            let n = (h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16) >> 1;
            let c = b.get(p..p + 3 + n).ok_or("truncated chunk")?;
            let s = section(c, comp)?;
            s.conforms(block)?;
            chunk(&s.plain, p as u64)?;
            p += 3 + n;
        }
    }
    if plain != total {
        return Err(format!("{} bytes stored, {} written", plain, total));
    }
    Ok(starts)
}
