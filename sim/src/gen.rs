//! Derives a case from (property, seed): swarm-style, every run enabling its own random subset
//! of types, shapes, boundaries and faults.
use crate::exec::*;
use crate::model::*;
use crate::rng::*;
use crate::scenario::*;
use std::rc::Rc;

struct Swarm {
    leaves: Vec<Kind>,
    nesting: u32,
    null_modes: Vec<u8>,
    mask: u32,
    max_cols: usize,
    scale: u32,
    max_depth: u32,
}

const LEAVES: u32 = 13;

fn leaf(r: &mut Rng, k: u32) -> Kind {
    match k {
        0 => Kind::Boolean,
        1 => Kind::Short,
        2 => Kind::Int,
        3 => Kind::Long,
        4 => Kind::Date,
        5 => Kind::Float,
        6 => Kind::Double,
        7 => Kind::Timestamp,
        8 => {
            let p = if r.chance(1, 4) { r.range(1, 38) as u32 } else { *r.pick(&[1u32, 2, 5, 9, 10, 15, 17, 18, 19, 20, 27, 36, 37, 38]) };
            let s = match r.below(4) {
                0 => 0,
                1 => p,
                _ => r.below(p as u64 + 1) as u32,
            };
            Kind::Decimal(p, s)
        }
        9 => Kind::Str,
        10 => Kind::Binary,
        11 if r.chance(1, 6) => Kind::Char(r.magic_in(1, 70_000) as u32),
        11 => Kind::Char(*r.pick(&[1, 2, 10, 255, 70000, u32::MAX])),
        _ if r.chance(1, 6) => Kind::VarChar(r.magic_in(1, 0x7fff_ffff) as u32),
        _ => Kind::VarChar(*r.pick(&[1, 3, 16, 65535, 0x7fffffff, u32::MAX])),
    }
}

fn nulls(r: &mut Rng, sw: &Swarm, rows: u64) -> Nulls {
    match *r.pick(&sw.null_modes) {
        0 => Nulls::None,
        1 => Nulls::All,
        2 => Nulls::Random(*r.pick(&[1u8, 3, 30, 128, 200, 253])),
        3 => Nulls::Segments,
        4 => Nulls::Single(r.below(rows + 1) as u32),
        _ => Nulls::From(r.below(rows + 1) as u32),
    }
}

fn name(r: &mut Rng, i: usize) -> String {
    match r.below(40) {
        10 if !TEXTS.is_empty() => r.pick(TEXTS).to_string(),
        0 => String::new(),
        1 => "名前🦀".into(),
        2 => {
            let n = if r.chance(1, 2) { r.range(100, 400) } else if r.chance(1, 10) { *r.pick(&[16_383, 16_384, 65_535, 65_536, 70_000, 300_000]) } else { r.magic_in(20, 5000) } as usize;
            let mut s = "n".repeat(n);
            // Told apart by their last letter only.
            s.push_str(&i.to_string());
            s
        }
        3 | 6 => "same".into(),
        4 => "a.b c`\"".into(),
        // Names that some folding of names would make equal.
        5 | 7 => (*r.pick(&["Same", "SAME", " same", "same ", "sam\u{65}\u{301}", "sam\u{e9}", "sa\0me", "_same", "same_", "0", "1", "_col0", "key", "value"])).into(),
        8 => format!("{}{}", (b'A' + (i % 26) as u8) as char, i / 2),
        9 => format!("{}{}", (b'a' + (i % 26) as u8) as char, i / 2),
        _ => format!("{}{}", (b'a' + (i % 26) as u8) as char, i),
    }
}

fn magic(r: &mut Rng) -> Vec<i64> {
    if !r.chance(1, 6) {
        return vec![];
    }
    (0..r.range(1, 3)).map(|_| r.magic()).collect()
}

fn no_long_bytes(n: &mut Node, max: u64) {
    if matches!(n.kind, Kind::Str | Kind::Binary | Kind::Char(_) | Kind::VarChar(_)) {
        n.magic.retain(|m| m.unsigned_abs() <= max);
    }
    n.children.iter_mut().for_each(|c| no_long_bytes(c, max));
}

fn texts(r: &mut Rng) -> Vec<String> {
    if TEXTS.is_empty() || !r.chance(1, 12) {
        return vec![];
    }
    (0..r.range(1, 2)).map(|_| r.pick(TEXTS).to_string()).collect()
}

fn tree(r: &mut Rng, sw: &Swarm, budget: &mut usize, depth: u32, rows: u64, top: bool) -> Node {
    *budget = budget.saturating_sub(1);
    let nest = depth < sw.max_depth && *budget > 0 && (top && !r.chance(1, 12) || r.below(100) < sw.nesting as u64);
    let mask = sw.mask & r.u64() as u32 | 1 << r.below(9);
    let mask = if r.chance(1, 25) { 0 } else { mask };
    let mut n = Node { kind: Kind::Boolean, name: String::new(), nulls: nulls(r, sw, rows), seed: r.u64(), mask, scale: sw.scale, magic: magic(r), texts: texts(r), children: vec![] };
    if !nest {
        n.kind = *r.pick(&sw.leaves);
        return n;
    }
    let which = if top && r.chance(9, 10) { 0 } else { r.below(5) };
    match which {
        0 | 1 => {
            n.kind = Kind::Struct;
            if top && r.chance(3, 4) {
                n.nulls = Nulls::None;
            }
            let k = if r.chance(1, 40) { 0 } else if top { r.range(1, sw.max_cols as u64) } else { r.range(1, 4) };
            for i in 0..k {
                if *budget == 0 && i > 0 {
                    break;
                }
                let mut c = tree(r, sw, budget, depth + 1, rows, false);
                c.name = name(r, i as usize);
                n.children.push(c);
            }
        }
        2 => {
            n.kind = Kind::List;
            n.scale = *r.pick(&[1, 1, 2, 3, 5, 12, 40]);
            n.children.push(tree(r, sw, budget, depth + 1, rows, false));
        }
        3 => {
            n.kind = Kind::Map;
            n.scale = *r.pick(&[1, 1, 2, 3, 5, 12]);
            n.children.push(tree(r, sw, budget, depth + 1, rows, false));
            n.children.push(tree(r, sw, budget, depth + 1, rows, false));
        }
        _ => {
            n.kind = Kind::Union;
            let k = match r.below(30) {
                0 => 0,
                1 => *r.pick(&[127usize, 128, 129, 130, 255, 256]),
                _ => r.range(1, 5) as usize,
            };
            let k = if k > 20 && sw.max_cols < 6 { 3 } else { k };
            for i in 0..k {
                if k > 20 {
                    let mut c = Node { kind: *r.pick(&sw.leaves), name: String::new(), nulls: nulls(r, sw, rows), seed: r.u64(), mask, scale: sw.scale.min(5), magic: magic(r), texts: texts(r), children: vec![] };
                    if i % 7 == 3 {
                        c.nulls = Nulls::Random(60);
                    }
                    n.children.push(c);
                } else {
                    n.children.push(tree(r, sw, budget, depth + 1, rows, false));
                }
            }
            if k > 20 {
                *budget = 0;
            }
            if k == 0 {
                // No tag is legal: only nulls.
                n.nulls = Nulls::All;
            }
        }
    }
    n
}

fn pick_rows(r: &mut Rng) -> u64 {
    match r.below(20) {
        0 => 0,
        1 | 2 => r.range(1, 4),
        3..=6 => r.range(1, 40),
        7..=12 => r.range(20, 400),
        13..=16 => r.range(100, 1500),
        17 if r.chance(1, 2) => r.magic_in(1, 5000),
        17 => *r.pick(&[127u64, 128, 129, 130, 131, 256, 512, 513, 1024, 1040, 1041, 2000]),
        18 => r.range(1000, 4000),
        _ => r.range(2000, 12000),
    }
}

fn partition(r: &mut Rng, rows: u64) -> Vec<u32> {
    if rows == 0 {
        return match r.below(3) {
            0 => vec![],
            1 => vec![0],
            _ => vec![0, 0],
        };
    }
    let mut v = vec![];
    let mut left = rows;
    let mode = r.below(6);
    let fixed = match r.below(6) {
        0 => 1.max(rows / 200),
        1 => r.range(1, 10).max(rows / 300),
        2 => rows,
        3 => r.magic_in(1, rows),
        _ => r.range(1, rows),
    };
    while left > 0 {
        let k = match mode {
            0 => left,
            1 => fixed,
            2 => r.range(1, (rows / 3).max(1)),
            3 => r.range(0, (rows / 20).max(2)),
            4 => *r.pick(&[1u64, 2, 7, 64, 100, 128, 500]),
            _ => if r.chance(1, 3) { r.range(0, 3) } else { r.range(1, (rows / 2).max(1)) },
        }
        .min(left);
        v.push(k as u32);
        left -= k;
        if v.len() > 400 {
            v.push(left as u32);
            break;
        }
    }
    if r.chance(1, 8) {
        v.push(0);
    }
    v
}

fn pick_cfg(r: &mut Rng, rows: u64) -> Cfg {
    let codec = *r.pick(&[Codec::None, Codec::None, Codec::Snappy, Codec::Snappy, Codec::Zstd]);
    let block = match r.below(12) {
        10 => Some(r.magic_in(1, 2000) as u32),
        11 => Some(r.magic_in(1, MAX_BLOCK as u64) as u32),
        0 => None,
        1 => Some(*r.pick(&[1u32, 2, 3, 4, 5, 7])),
        2 | 3 => Some(*r.pick(&[8, 10, 16, 31, 32, 33, 48, 63])),
        4 | 5 => Some(*r.pick(&[64, 100, 127, 128, 129, 200])),
        6 | 7 => Some(*r.pick(&[256, 257, 400, 512, 1000, 1024])),
        8 => Some(*r.pick(&[4096, 10000, 16384, 65535, 65536])),
        _ => Some(*r.pick(&[262143, 262144, 1 << 20, MAX_BLOCK])),
    };
    // One zstd call per block is slow; keep tiny blocks to small files.
    let block = match (codec, block) {
        (Codec::Zstd, Some(b)) if (b < 32 && rows > 60) || (b < 200 && rows > 600) => Some(b + 200),
        (Codec::Snappy, Some(b)) if b < 8 && rows > 500 => Some(b + 30),
        (_, b) => b,
    };
    let level = if r.chance(1, 3) { Some(*r.pick(&[1, 2, 3, 4, 6, 9])) } else { None };
    let level = if rows < 30 && r.chance(1, 60) { Some(*r.pick(&[13, 19, 22])) } else { level };
    let stride = match r.below(10) {
        8 => Some(r.magic_in(1, rows.max(1)) as u32),
        9 if r.chance(1, 6) => Some(0),
        9 => Some(r.magic_in(1, u32::MAX as u64) as u32),
        0 => None,
        1 => Some(*r.pick(&[1u32, 2, 3, 5])),
        2 => Some(*r.pick(&[7, 8, 9, 10, 16])),
        3 => Some(*r.pick(&[100, 127, 128, 129, 130, 131])),
        4 => Some(r.range(1, rows.max(1)) as u32),
        5 => Some(*r.pick(&[256, 1000, 1024, 1040])),
        6 => Some(rows.max(1) as u32),
        _ => Some(r.range(1, 60) as u32),
    };
    // One index entry per row and column is slow on large files.
    let stride = match stride {
        Some(s) if s > 0 && (s as u64) < rows / 300 => Some((rows / 300) as u32 + s),
        s => s,
    };
    let stripe = match r.below(10) {
        8 => Some(r.magic_in(0, 20 * rows)),
        9 => Some(r.magic_in(0, 1 << 40)),
        0 | 1 => None,
        2 => Some(r.below(40)),
        3 => Some(r.below(1000)),
        4 | 5 => Some(r.below(1 + rows * 12)),
        6 => Some(r.below(1 + rows * 60)),
        _ => Some(*r.pick(&[0u64, 1, 64, 100, 1000, 4096, 65536, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX])),
    };
    Cfg { codec, block, level, stride, stripe }
}

fn pick_fill(r: &mut Rng) -> Fill {
    match r.below(5) {
        0 => Fill::PreOrder,
        1 => Fill::PostOrder,
        2 => Fill::Shuffled(r.u64()),
        3 => Fill::Interleaved(r.u64()),
        _ => Fill::RowMajor,
    }
}

fn pick_accept(r: &mut Rng) -> Accept {
    match r.below(5) {
        0 => Accept::AtMost(*r.pick(&[1u32, 2, 3, 7, 100])),
        1 => Accept::AllButOne,
        2 => Accept::Whole,
        _ => Accept::Random(r.u64()),
    }
}

/// Short writes and interruptions only.
fn transparent(r: &mut Rng) -> SinkPlan {
    let mut p = SinkPlan::clean();
    p.accept = pick_accept(r);
    if r.chance(2, 3) {
        p.interrupts = Some((r.u64(), *r.pick(&[5u8, 40, 128, 255]), *r.pick(&[1u8, 2, 5, 40])));
    }
    p
}

pub struct Opt {
    pub max_rows: u64,
    pub rows: Option<u64>,
    pub max_cols: Option<usize>,
    pub tiny: bool,
}

pub fn scenario(r: &mut Rng, opt: &Opt) -> Scenario {
    let mut rows = opt.rows.unwrap_or_else(|| pick_rows(r)).min(opt.max_rows);
    if opt.tiny {
        rows = rows.min(r.range(0, 30));
    }
    let mut cfg = pick_cfg(r, rows);
    // Default-size stripes and row groups are only reached by larger files.
    let many = r.below(40);
    let max_cols = match opt.max_cols {
        Some(k) => k,
        None => {
            if rows > 3000 {
                *r.pick(&[1usize, 2, 3])
            } else if rows > 800 {
                *r.pick(&[1usize, 2, 4, 6])
            } else if many == 0 && rows < 60 {
                *r.pick(&[64usize, 126, 127, 128, 129, 150, 200])
            } else {
                *r.pick(&[1usize, 2, 3, 5, 8, 14])
            }
        }
    };
    let n_leaf = if r.chance(1, 3) { 1 } else { r.range(1, LEAVES as u64) };
    let mut leaves = vec![];
    for _ in 0..n_leaf {
        let k = r.below(LEAVES as u64) as u32;
        leaves.push(leaf(r, k));
    }
    let mut null_modes = vec![];
    for k in 0..6u8 {
        if r.chance(if k == 0 { 3 } else { 1 }, 4) {
            null_modes.push(k);
        }
    }
    if null_modes.is_empty() {
        null_modes.push(if r.chance(1, 2) { 0 } else { 2 });
    }
    let block = cfg.block_size().max(1);
    let scale = match r.below(8) {
        0 => 1,
        1 => 200,
        2 if block < 70000 => block as u32,
        3 if block < 3000 => (block * 3) as u32,
        4 => r.range(1, 60) as u32,
        6 => r.magic_in(1, if rows < 100 { 3000 } else { 300 }) as u32,
        5 if rows < 20 && max_cols < 4 => 20000,
        _ => 8,
    };
    // A compressor call per block of a byte or two takes its time.
    let scale = if block > 1 && block < 64 { scale.min(1000) } else if cfg.codec != Codec::None && block == 1 { scale.min(100) } else { scale };
    let sw = Swarm {
        leaves,
        nesting: *r.pick(&[0, 10, 30, 60]),
        null_modes,
        mask: if r.chance(1, 3) { 1 << r.below(9) | 1 << r.below(9) } else { r.u64() as u32 },
        max_cols,
        scale,
        max_depth: *r.pick(&[1, 2, 3, 4, 6]),
    };
    let mut budget = (max_cols * 2 + 2).min(260);
    let mut root = tree(r, &sw, &mut budget, 0, rows, true);
    if cfg.codec != Codec::None && block < 256 {
        no_long_bytes(&mut root, block as u64 * 20);
    }
    // Every stream of every column reserves a block.
    if root.count() > 12 {
        cfg.block = cfg.block.map(|b| b.min(1 << 20));
    }
    let batches = partition(r, rows);
    // A stripe size near one the data can just reach.
    if r.chance(1, 4) && cfg.stripe.is_some() {
        cfg.stripe = Some(rows * r.below(9) * root.count() as u64 / (1 + r.below(6)));
    }
    let sink = SinkPlan::clean();
    Scenario { root, batches, cfg, fill: pick_fill(r), sink, reaction: Reaction::Finish, abandon_after: None, misuse: None, probe: 0 }
}

/// A large file of few columns under the default configuration.
fn default_sized(r: &mut Rng) -> Scenario {
    let rows = *r.pick(&[9_999u64, 10_000, 10_001, 19_999, 20_000, 20_001, 25_000]);
    let mut s = scenario(r, &Opt { max_rows: rows, rows: Some(rows), max_cols: Some(2), tiny: false });
    s.cfg.stride = None;
    s.cfg.block = None;
    s.cfg.level = None;
    if r.chance(1, 2) {
        s.cfg.stripe = None;
    }
    s
}

/// Values of exactly known encoded size against stripe sizes at exactly the boundary.
fn exact_size(r: &mut Rng) -> Scenario {
    let rows = r.range(1, 1000);
    let mut s = scenario(r, &Opt { max_rows: rows, rows: Some(rows), max_cols: Some(3), tiny: false });
    let mut width = 0u64;
    let mut kids = vec![];
    for i in 0..r.range(1, 4) {
        let (kind, w) = match r.below(3) {
            0 => (Kind::Float, 4),
            1 => (Kind::Double, 8),
            _ => (Kind::Decimal(18, 0), 1),
        };
        width += w;
        kids.push(Node { kind, name: format!("c{}", i), nulls: Nulls::None, seed: r.u64(), mask: if w == 1 { 0 } else { 2 }, scale: 1, magic: vec![], texts: vec![], children: vec![] });
    }
    s.root = Node { kind: Kind::Struct, name: String::new(), nulls: Nulls::None, seed: 0, mask: 0, scale: 0, magic: vec![], texts: vec![], children: kids };
    s.cfg = Cfg { codec: Codec::None, block: None, level: None, stride: Some(100), stripe: None };
    // The total at one of the batch ends.
    let mut at = 0u64;
    let ends: Vec<u64> = s.batches.iter().map(|&b| { at += b as u64; at }).collect();
    let e = *r.pick(&ends) * width;
    s.cfg.stripe = Some((e as i64 + r.below(3) as i64 - 1).max(0) as u64);
    s
}

/// Many stripes, each much larger than what has to be remembered about it.
fn many_stripes(r: &mut Rng) -> Scenario {
    let n = r.range(20, 60);
    let per = r.range(300, 900);
    let rows = n * per;
    let mut s = scenario(r, &Opt { max_rows: rows, rows: Some(rows), max_cols: Some(2), tiny: false });
    for k in 0..r.range(1, 3) {
        if s.root.kind == Kind::Struct {
            let kind = *r.pick(&[Kind::Double, Kind::Binary, Kind::Long, Kind::Str]);
            s.root.children.push(Node { kind, name: format!("m{}", k), nulls: Nulls::None, seed: r.u64(), mask: u32::MAX, scale: 20, magic: vec![], texts: vec![], children: vec![] });
        }
    }
    s.cfg.block = Some(1000);
    s.cfg.stride = Some(*r.pick(&[100u32, 1000, 10000]));
    s.cfg.stripe = Some(r.below(per * 4));
    s.batches = (0..n).map(|_| per as u32).collect();
    s
}

fn plain(kind: Kind, nulls: Nulls, seed: u64, mask: u32, scale: u32, children: Vec<Node>) -> Node {
    Node { kind, name: String::new(), nulls, seed, mask, scale, magic: vec![], texts: vec![], children }
}

/// A struct of few fields, so that the ids of its siblings are not consecutive.
fn variant(r: &mut Rng) -> Node {
    let n = r.below(3);
    in_struct((0..n).map(|_| plain(*r.pick(&[Kind::Boolean, Kind::Long]), Nulls::None, r.u64(), u32::MAX, 2, vec![])).collect())
}

fn in_struct(mut kids: Vec<Node>) -> Node {
    for (i, k) in kids.iter_mut().enumerate() {
        k.name = format!("f{}", i);
    }
    plain(Kind::Struct, Nulls::None, 0, 0, 0, kids)
}

/// The rare sizes: counts and lengths beyond one and two bytes, beyond the block size, beyond
/// the default stride and stripe.
fn heavy(r: &mut Rng, deep: bool) -> Scenario {
    let mut s = scenario(r, &Opt { max_rows: 50, rows: None, max_cols: Some(2), tiny: true });
    let some_nulls = |r: &mut Rng| match r.below(4) {
        0 | 1 => Nulls::None,
        2 => Nulls::Random(60),
        _ => Nulls::Segments,
    };
    let any_leaf = |r: &mut Rng| {
        let k = r.below(LEAVES as u64) as u32;
        leaf(r, k)
    };
    s.cfg.stripe = None;
    match r.below(6) {
        0 => {
            // Very many rows.
            let rows = if deep { r.range(60_000, 600_000) } else { *r.pick(&[65_535u64, 65_536, 65_537, 70_001, 100_000, 131_072, 131_073]) };
            let mut kids = vec![];
            for _ in 0..r.range(1, 2) {
                let kind = any_leaf(r);
                kids.push(plain(kind, some_nulls(r), r.u64(), r.u64() as u32, 6, vec![]));
            }
            s.root = in_struct(kids);
            s.batches = if r.chance(1, 2) { vec![rows as u32] } else { partition(r, rows) };
            s.cfg.stride = Some(*r.pick(&[10_000u32, 1000, 65_536, 100_000, u32::MAX]));
            s.cfg.block = s.cfg.block.map(|b| b.max(1000));
            if r.chance(1, 3) {
                s.cfg.stripe = Some(r.below(rows * 4));
            }
        }
        1 => {
            // Very long values.
            let scale = *r.pick(&[66_000u32, 200_000, 300_000, 2_200_000]);
            let kind = *r.pick(&[Kind::Str, Kind::Binary, Kind::VarChar(0x7fff_ffff)]);
            let n = r.range(1, 6) as u32;
            s.root = in_struct(vec![plain(kind, some_nulls(r), r.u64(), u32::MAX, scale, vec![])]);
            s.batches = vec![n, r.range(0, 3) as u32];
            s.cfg.block = *r.pick(&[None, Some(65_536), Some(65_535), Some(5000), Some(MAX_BLOCK)]);
            s.cfg.level = None;
        }
        2 => {
            // Very many stripes; metadata and footer beyond any block size.
            let n = if deep { 3000 } else { r.range(260, 700) };
            s.batches = (0..n).map(|_| r.range(0, 2) as u32).collect();
            s.cfg.stripe = Some(r.below(3));
        }
        3 => {
            // Very many columns.
            let n = if deep { 3000 } else { r.range(257, 700) };
            let mut kids = vec![];
            for _ in 0..n {
                let kind = any_leaf(r);
                kids.push(plain(kind, some_nulls(r), r.u64(), r.u64() as u32, 4, vec![]));
            }
            s.root = in_struct(kids);
            s.batches = vec![r.range(1, 5) as u32, r.range(0, 5) as u32];
            s.cfg.block = s.cfg.block.map(|b| b.min(4096));
            if s.cfg.codec == Codec::Zstd || s.cfg.block.is_none() {
                s.cfg.codec = Codec::None;
            }
        }
        4 => {
            // Deep nesting.
            let kind = any_leaf(r);
            let mut node = plain(kind, some_nulls(r), r.u64(), u32::MAX, 4, vec![]);
            for _ in 0..r.range(10, 40) {
                let k = *r.pick(&[Kind::List, Kind::Struct, Kind::Union, Kind::Map]);
                let nu = if r.chance(3, 4) { Nulls::None } else { Nulls::Random(30) };
                let mut kids = vec![node];
                if k == Kind::Map {
                    kids.insert(0, plain(Kind::Long, Nulls::None, r.u64(), 1, 1, vec![]));
                }
                node = if k == Kind::Struct { in_struct(kids) } else { plain(k, nu, r.u64(), u32::MAX, 2, kids) };
                if k == Kind::Struct {
                    node.nulls = nu;
                }
            }
            s.root = in_struct(vec![node]);
            s.batches = vec![r.range(1, 6) as u32, r.range(0, 6) as u32];
            s.cfg.block = s.cfg.block.map(|b| b.min(4096));
        }
        _ => {
            // A few enormous lists or maps.
            let kind = any_leaf(r);
            let child = plain(kind, some_nulls(r), r.u64(), u32::MAX, 3, vec![]);
            let scale = *r.pick(&[300u32, 20_000, 70_000]);
            let node = if r.chance(1, 2) {
                plain(Kind::List, some_nulls(r), r.u64(), u32::MAX, scale, vec![child])
            } else {
                plain(Kind::Map, some_nulls(r), r.u64(), u32::MAX, scale, vec![plain(Kind::Int, Nulls::None, r.u64(), 7, 1, vec![]), child])
            };
            s.root = in_struct(vec![node]);
            s.batches = vec![r.range(1, 3) as u32, r.range(0, 2) as u32];
            s.cfg.block = s.cfg.block.map(|b| b.max(300));
            s.cfg.stride = Some(*r.pick(&[1u32, 1000, 10_000]));
        }
    }
    s
}

fn pick_reaction(r: &mut Rng) -> Reaction {
    *r.pick(&[Reaction::Finish, Reaction::Continue, Reaction::Continue, Reaction::RetryEmpty, Reaction::Refill, Reaction::Abandon])
}

/// Byte offsets where something ends or begins in the fault-free run.
fn boundaries(reference: &RunOut) -> Vec<u64> {
    let mut v = vec![0u64, 1, 2, 3, 4];
    let n = reference.bytes.len() as u64;
    for k in 0..5 {
        v.push(n.saturating_sub(k));
    }
    for c in &reference.calls {
        for d in 0..3u64 {
            v.push((c.before as u64 + d).saturating_sub(1));
            v.push((c.after as u64 + d).saturating_sub(1));
        }
    }
    if let Ok(t) = crate::orc::tail(&reference.bytes) {
        for p in [t.meta_start, t.footer_start, t.ps_start] {
            for d in 0..3u64 {
                v.push((p as u64 + d).saturating_sub(1));
            }
        }
        for s in &t.stripes {
            for p in [s.offset, s.offset + s.index_len, s.offset + s.index_len + s.data_len, s.end()] {
                for d in 0..3u64 {
                    v.push((p + d).saturating_sub(1));
                }
            }
        }
    }
    v.retain(|&x| x < n);
    v
}

fn hard_act(r: &mut Rng) -> Act {
    match r.below(4) {
        0 => Act::Kind(r.below(KINDS.len() as u64) as u8),
        1 => Act::Os(*r.pick(&OS_ERRORS)),
        _ => *r.pick(&[Act::Other, Act::NoSpace, Act::BrokenPipe, Act::Zero, Act::WouldBlock, Act::TimedOut, Act::UnexpectedEof]),
    }
}

fn hard_fault(r: &mut Rng, reference: &RunOut, panics: bool) -> Fault {
    let n = reference.bytes.len().max(1) as u64;
    let at = match r.below(10) {
        0 => Place::Flush(0),
        1 => Place::Call(r.below(reference.counts.writes.max(1))),
        2 | 3 => Place::Byte(r.below(n)),
        4 => Place::Byte(n - 1 - r.below(n.min(60))),
        5 => {
            // In the middle of the finishing, where the last stripe is cut and the tail written.
            let c = reference.calls.last().unwrap();
            Place::Byte(c.before as u64 + r.below((c.after - c.before).max(1) as u64))
        }
        6 => {
            let cs: Vec<&Call> = reference.calls.iter().filter(|c| c.after > c.before).collect();
            let c = cs[r.idx(cs.len())];
            Place::Byte(c.before as u64 + r.below((c.after - c.before) as u64))
        }
        _ => Place::Byte(*r.pick(&boundaries(reference))),
    };
    let act = if panics && r.chance(1, 10) && !matches!(at, Place::Flush(_)) { Act::Panic } else { hard_act(r) };
    let act = if let (Place::Flush(_), Act::Zero) = (at, act) { Act::Other } else { act };
    if at == Place::Flush(0) && r.chance(1, 8) {
        // An interrupted flush: retrying and giving up are both legal.
        return Fault { at, act: Act::Interrupted, times: r.range(1, 4) as u32 };
    }
    Fault { at, act, times: *r.pick(&[0u32, 1, 1, 1, 2, 3]) }
}

pub fn may_be_giant(i: u64) -> bool {
    matches!(i, 250 | 750 | 1250 | 1750 | 2250)
}

/// Run number i of a check.
pub fn case_at(property: &str, seed: u64, i: u64, deep: bool) -> Case {
    let giant = match i {
        250 => crate::giant::of(property, 0),
        750 => crate::giant::of(property, 1),
        1250 => crate::giant::of(property, 2),
        1750 => crate::giant::of(property, 3),
        2250 => crate::giant::of(property, 4),
        _ => None,
    };
    if giant.is_some() {
        return Case { giant, ..empty_case(property) };
    }
    let mut c = case(property, seed, deep);
    if i % 100 == 51 && (200..3000).contains(&i) {
        extreme(property, i / 100 % 7, &mut Rng::new(mix(seed)), &mut c.main);
    }
    c
}

/// Counts beyond 16 bits, and very deep trees: a few runs of each check.
fn extreme(property: &str, what: u64, r: &mut Rng, s: &mut Scenario) {
    if property == "C13" || (property == "C16" && what != 5) {
        return;
    }
    s.cfg = Cfg { codec: Codec::None, block: None, level: None, stride: Some(1000), stripe: None };
    if property == "C09" || r.chance(1, 4) {
        s.cfg.codec = Codec::Snappy;
        s.cfg.block = Some(*r.pick(&[7u32, 100, 1000]));
    }
    if property != "C02" {
        s.sink = SinkPlan::clean();
    }
    s.sink.faults.clear();
    s.misuse = None;
    s.abandon_after = None;
    s.fill = Fill::PreOrder;
    match what {
        0 => {
            // Columns.
            let mut kids: Vec<Node> = (0..66_000u32).map(|k| plain(if k % 3 == 0 { Kind::Boolean } else { Kind::Double }, if k % 5 == 0 { Nulls::Random(128) } else { Nulls::None }, r.u64(), 1, 1, vec![])).collect();
            if property == "C06" || r.chance(2, 3) {
                for _ in 0..4 {
                    let k = r.idx(kids.len());
                    kids[k] = variant(r);
                }
                let n = *r.pick(&[129usize, 255, 256, 256, 256]);
                let variants = (0..n).map(|_| if r.chance(1, 8) { variant(r) } else { plain(Kind::Boolean, Nulls::None, r.u64(), 1, 1, vec![]) }).collect();
                let k = r.idx(kids.len());
                kids[k] = plain(Kind::Union, Nulls::None, r.u64(), u32::MAX, 3, variants);
            }
            s.root = in_struct(kids);
            s.batches = vec![1, 2];
        }
        1 => {
            // Stripes.
            s.root = in_struct(vec![plain(Kind::Double, Nulls::None, r.u64(), u32::MAX, 1, vec![])]);
            s.batches = vec![1; 66_000];
            s.cfg.stripe = Some(0);
        }
        2 => {
            // Row groups of one stripe.
            s.root = in_struct(vec![plain(Kind::Long, Nulls::Random(40), r.u64(), u32::MAX, 1, vec![])]);
            s.batches = vec![66_000];
            s.cfg.stride = Some(1);
        }
        3 => {
            // Levels.
            let mut node = plain(Kind::Long, Nulls::Random(20), r.u64(), u32::MAX, 4, vec![]);
            for k in 0..300 {
                let kind = if k % 40 == 7 { *r.pick(&[Kind::List, Kind::Map]) } else { *r.pick(&[Kind::Struct, Kind::Union]) };
                let nu = if r.chance(1, 60) { Nulls::Random(30) } else { Nulls::None };
                let mut kids = vec![node];
                if kind == Kind::Map {
                    kids.insert(0, plain(Kind::Long, Nulls::None, r.u64(), 1, 1, vec![]));
                }
                node = if kind == Kind::Struct { in_struct(kids) } else { plain(kind, nu, r.u64(), u32::MAX, 2, kids) };
                if kind == Kind::Struct {
                    node.nulls = nu;
                }
            }
            s.root = in_struct(vec![node]);
            s.batches = vec![4, 3];
        }
        5 => {
            // Bytes of one chunk: blocks of 4 MiB and more, of which some do not compress.
            s.cfg.codec = *r.pick(&[Codec::Snappy, Codec::Zstd]);
            s.cfg.block = Some(*r.pick(&[MAX_BLOCK, MAX_BLOCK, MAX_BLOCK - 1, 7_000_001, (4 << 20) + 1, 4 << 20, (4 << 20) - 1]));
            s.cfg.stride = Some(400_000);
            let mut kids = vec![plain(Kind::Double, Nulls::None, r.u64(), 1 << 3, 1, vec![])];
            if r.chance(1, 2) {
                kids.push(plain(Kind::Float, Nulls::Random(2), r.u64(), 1 << *r.pick(&[0, 3]), 1, vec![]));
            }
            s.root = in_struct(kids);
            s.batches = vec![r.range(600_000, 1_000_000) as u32, r.range(600_000, 1_000_000) as u32];
        }
        6 => {
            // Values of every kind in one stripe.
            let rows = *r.pick(&[65_537u32, 70_000, 140_000]);
            let nu = |r: &mut Rng| *r.pick(&[Nulls::None, Nulls::Random(30)]);
            let leaf = |r: &mut Rng| {
                let k = *r.pick(&[Kind::Boolean, Kind::Short, Kind::Int, Kind::Long, Kind::Date, Kind::Float, Kind::Double, Kind::Timestamp, Kind::Decimal(38, 10), Kind::Str, Kind::Binary, Kind::Char(3), Kind::VarChar(5)]);
                let nulls = *r.pick(&[Nulls::None, Nulls::Random(30)]);
                plain(k, nulls, r.u64(), u32::MAX, 2, vec![])
            };
            let mut kids = vec![];
            for k in [Kind::List, Kind::Map, Kind::Union, Kind::Union, Kind::Struct] {
                let n = match k {
                    Kind::List => 1,
                    Kind::Map => 2,
                    _ => r.range(1, 2),
                };
                let mut node = in_struct((0..n).map(|_| leaf(r)).collect());
                node.kind = k;
                node.nulls = nu(r);
                node.seed = r.u64();
                node.mask = u32::MAX;
                node.scale = 2;
                kids.push(node);
            }
            for _ in 0..3 {
                kids.push(leaf(r));
            }
            s.root = in_struct(kids);
            s.batches = if r.chance(1, 2) { vec![rows, 3] } else { vec![rows / 2, rows - rows / 2] };
            s.cfg.stride = *r.pick(&[None, Some(70_000), Some(65_536), Some(1000)]);
        }
        _ => {
            // Rows of a column without data of its own, and tiny batches.
            s.root = in_struct(vec![plain(Kind::Boolean, Nulls::Random(100), r.u64(), u32::MAX, 1, vec![])]);
            s.batches = vec![3; 66_000];
        }
    }
    match property {
        "C02" => s.sink.faults.push(Fault { at: Place::Byte(r.below(300)), act: Act::Interrupted, times: 3_000_000 }),
        // A sink that stops in the middle of one very long write.
        "C03" | "C04" if what == 5 && r.chance(2, 3) => {
            let act = *r.pick(&[Act::Zero, Act::Zero, Act::Other, Act::WouldBlock]);
            s.reaction = pick_reaction(r);
            s.sink.faults.push(Fault { at: Place::Byte(r.range(1000, 3_000_000)), act, times: *r.pick(&[0, 1, 3]) });
        }
        "C03" | "C04" => failing(property, r, s),
        "C11" => misused(r, s),
        _ => {}
    }
}

/// Settings and schemas at the edges of what is legal.
fn at_limits(r: &mut Rng, s: &mut Scenario) {
    let rows: u64 = s.batches.iter().map(|&b| b as u64).sum();
    if r.chance(1, 2) {
        s.cfg.codec = *r.pick(&[Codec::Snappy, Codec::Zstd]);
        s.cfg.block = match r.below(4) {
            0 if rows < 40 => Some(1),
            1 => Some(MAX_BLOCK - 1),
            2 => Some(MAX_BLOCK),
            _ => s.cfg.block,
        };
        if s.cfg.codec == Codec::Zstd && r.chance(1, 2) {
            s.cfg.level = Some(if rows < 40 { r.range(1, 22) as i32 } else { r.range(1, 9) as i32 });
        }
    }
    if r.chance(1, 3) {
        s.cfg.stride = Some(*r.pick(&[0u32, 1, u32::MAX, u32::MAX - 1]));
    }
    if r.chance(1, 3) {
        s.cfg.stripe = Some(*r.pick(&[0u64, 1, u64::MAX, u64::MAX - 1, 1 << 63]));
    }
    // Hundreds of columns with buffers of 8 MiB each would be another test.
    if r.chance(1, 3) && s.cfg.block.map_or(true, |b| b < 100_000) {
        let n = *r.pick(&[0usize, 1, 127, 128, 129, 255, 255, 256, 256]);
        let kids: Vec<Node> = (0..n)
            .map(|i| {
                let k = if i % 7 == 3 { Kind::Str } else { *r.pick(&[Kind::Boolean, Kind::Long, Kind::Struct]) };
                if k == Kind::Struct {
                    return variant(r);
                }
                plain(k, Nulls::None, r.u64(), u32::MAX, 3, vec![])
            })
            .collect();
        let nu = *r.pick(&[Nulls::None, Nulls::Random(40)]);
        let u = plain(Kind::Union, if n == 0 { Nulls::All } else { nu }, r.u64(), u32::MAX, 3, kids);
        s.root = match r.below(4) {
            0 if n > 0 => u,
            1 => in_struct(vec![u, plain(Kind::Long, Nulls::None, r.u64(), u32::MAX, 2, vec![])]),
            2 => in_struct(vec![plain(Kind::List, Nulls::None, r.u64(), u32::MAX, 3, vec![u])]),
            _ => in_struct(vec![u]),
        };
    }
}

fn empty_case(property: &str) -> Case {
    Case { property: property.into(), main: Scenario { root: plain(Kind::Long, Nulls::None, 0, 0, 0, vec![]), batches: vec![], cfg: Cfg { codec: Codec::None, block: None, level: None, stride: None, stripe: None }, fill: Fill::PreOrder, sink: SinkPlan::clean(), reaction: Reaction::Finish, abandon_after: None, misuse: None, probe: 0 }, others: vec![], sched: 0, threads: 0, giant: None, attempts: vec![] }
}

/// The faults of C03 and C04.
fn failing(property: &str, r: &mut Rng, s: &mut Scenario) {
    s.reaction = pick_reaction(r);
    if r.chance(1, 2) {
        s.sink = transparent(r);
    }
    s.sink.writeback = *r.pick(&[0u32, 0, 1, 7, 100, 4096]);
    let m = Rc::new(Model::build(&s.root, &s.batches));
    let reference = run_reference(s, &m);
    if property == "C03" {
        let k = *r.pick(&[1, 1, 1, 2, 3]);
        for _ in 0..k {
            s.sink.faults.push(hard_fault(r, &reference, true));
        }
    } else {
        match r.below(4) {
            0 => {
                // Device or process dies at a byte, for good.
                let mut f = hard_fault(r, &reference, false);
                f.times = 0;
                if !f.act.is_hard() || r.chance(1, 2) {
                    f.act = Act::Other;
                }
                s.sink.faults.push(f);
                s.reaction = *r.pick(&[Reaction::Abandon, Reaction::Finish]);
            }
            1 => s.abandon_after = Some(r.below(s.batches.len() as u64 + 1) as u32),
            2 => {
                // The final flush fails, once or for good.
                let act = match hard_act(r) {
                    Act::Zero => Act::Interrupted,
                    a => a,
                };
                s.sink.faults.push(Fault { at: Place::Flush(0), act, times: if act.is_hard() { *r.pick(&[0, 1]) } else { 1 } });
            }
            _ => {}
        }
    }
}

/// The misuse of C11.
fn misused(r: &mut Rng, s: &mut Scenario) {
    s.reaction = pick_reaction(r);
    let m = Model::build(&s.root, &s.batches);
    let nb = s.batches.len() as u64;
    if nb > 0 && !r.chance(1, 12) {
        // Prefer columns that have cells in the batch; favour deep ones.
        let batch = r.below(nb) as u32;
        let rows = m.batch_start[batch as usize]..m.batch_start[batch as usize + 1];
        let mut cand: Vec<u32> = vec![];
        for col in &m.cols {
            if !m.cells(col.id, rows.clone()).is_empty() {
                for _ in 0..1 + col.depth * 2 {
                    cand.push(col.id as u32);
                }
            }
        }
        let anycol = r.below(m.cols.len() as u64) as u32;
        let col = if cand.is_empty() { anycol } else { *r.pick(&cand) };
        let unions: Vec<u32> = m.cols.iter().filter(|c| c.kind == Kind::Union).map(|c| c.id as u32).collect();
        let by = if r.chance(1, 2) { 0 } else { *r.pick(&[1u64, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 32, 1 << 33, 1 << 63, (1 << 63) - 1]) };
        let lens: Vec<u32> = m.cols.iter().filter(|c| !huge_cells(&m, batch as usize, c.id as u32, by).is_empty()).map(|c| c.id as u32).collect();
        s.misuse = Some(match r.below(9) {
            8 if !lens.is_empty() => Misuse::Huge { batch, col: *r.pick(&lens), by },
            0 | 1 => Misuse::Missing { batch, col },
            2 => Misuse::Extra { batch, col: anycol, n: *r.pick(&[1u32, 1, 2, 3, 200, 256, 65_536]), null: r.chance(1, 2) },
            3 => Misuse::Extra { batch, col, n: 1, null: r.chance(1, 2) },
            4 => {
                let have = s.batches[batch as usize] as i64;
                Misuse::Declare { batch, delta: *r.pick(&[1i64, -1, 2, -2, 100, -have, 256, 1 << 16, 1 << 32, 1 << 32, -(1 << 32) - have, 1 << 33, i64::MAX - (1 << 40)]) }
            }
            5 => Misuse::Uncommitted { rows: 0 },
            6 => {
                // A sibling for the exchange.
                let p = m.cols[col as usize].parent;
                let sib: Vec<u32> = m.cols.iter().filter(|x| x.parent == p && x.id as u32 != col).map(|x| x.id as u32).collect();
                let less = if cand.contains(&col) { col } else { anycol };
                let more = if sib.is_empty() { anycol } else { *r.pick(&sib) };
                if cand.contains(&less) && less != more {
                    Misuse::Swap { batch, less, more }
                } else {
                    Misuse::Extra { batch, col, n: 1, null: true }
                }
            }
            _ => {
                if unions.is_empty() {
                    Misuse::Missing { batch, col }
                } else {
                    let u = *r.pick(&unions);
                    let k = m.cols[u as usize].children.len() as u64;
                    Misuse::BadTag { batch, col: u, tag: *r.pick(&[k, k, k + 1, 256, 255.max(k), 257, 256 + k, 1 << 16, 1 << 20, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX].map(|t| t.max(k))) }
                }
            }
        });
    }
}

pub fn case(property: &str, seed: u64, deep: bool) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let std = Opt { max_rows: 12_000, rows: None, max_cols: None, tiny: false };
    let small = Opt { max_rows: 600, rows: None, max_cols: None, tiny: false };
    let mut c = Case { sched: r.u64(), ..empty_case(property) };
    match property {
        "C01" | "C05" | "C06" | "C07" | "C08" | "C09" => {
            c.main = if r.chance(1, if deep { 60 } else { 1500 }) {
                heavy(r, deep)
            } else if r.chance(1, 150) && property != "C06" {
                default_sized(r)
            } else {
                scenario(r, &std)
            };
            if property == "C09" && c.main.cfg.codec == Codec::None && r.chance(9, 10) {
                c.main.cfg.codec = Codec::Snappy;
                c.main.cfg.block = c.main.cfg.block.map(|b| b.max(4));
            }
            if property == "C06" && r.chance(1, 2) {
                c.main.batches = c.main.batches.iter().map(|&b| b.min(3)).take(6).collect();
            }
            // The file must come out right on an imperfect sink, too.
            if r.chance(1, 2) {
                c.main.sink = transparent(r);
            }
        }
        "C10" => {
            if r.chance(1, 60) {
                c.main = many_stripes(r);
                return c;
            }
            c.main = if r.chance(1, 3) { exact_size(r) } else { scenario(r, &std) };
            if c.main.cfg.stripe.is_none() && r.chance(3, 4) {
                let rows: u64 = c.main.batches.iter().map(|&b| b as u64).sum();
                c.main.cfg.stripe = Some(r.below(1 + rows * 10));
            }
        }
        "C02" => {
            c.main = scenario(r, &small);
            c.main.sink = transparent(r);
            if c.main.sink.accept == Accept::Whole && c.main.sink.interrupts.is_none() {
                c.main.sink.accept = Accept::Random(r.u64());
            }
            // Interruptions and cuts at the places where something begins or ends.
            if r.chance(1, 2) {
                let m = Rc::new(Model::build(&c.main.root, &c.main.batches));
                let reference = run_reference(&c.main, &m);
                let b = boundaries(&reference);
                if !b.is_empty() {
                    for _ in 0..r.range(1, 6) {
                        c.main.sink.faults.push(Fault { at: Place::Byte(*r.pick(&b)), act: Act::Interrupted, times: if r.chance(1, 40) { *r.pick(&[1_001u32, 11_000, 70_000]) } else { *r.pick(&[1u32, 2, 10, 300]) } });
                    }
                }
                if r.chance(1, 3) {
                    c.main.sink.accept = Accept::Whole;
                    c.main.sink.interrupts = None;
                }
            }
        }
        "C03" | "C04" => {
            c.main = scenario(r, &small);
            failing(property, r, &mut c.main);
        }
        "C11" => {
            c.main = scenario(r, &Opt { max_rows: 300, rows: None, max_cols: None, tiny: false });
            misused(r, &mut c.main);
        }
        "C12" => {
            c.main = scenario(r, &Opt { max_rows: 1500, rows: None, max_cols: None, tiny: false });
        }
        "C13" => {
            let many = r.chance(1, 100);
            let o = if many { Opt { max_rows: 20, rows: None, max_cols: Some(1), tiny: true } } else { Opt { max_rows: 200, rows: None, max_cols: Some(*r.pick(&[1usize, 2, 4])), tiny: r.chance(1, 2) } };
            c.main = scenario(r, &o);
            let n = if many { *r.pick(&[8u64, 16, 33, 65, 129, 257, 300]) } else { r.range(1, 4) };
            for _ in 0..n {
                let mut s = scenario(r, &o);
                if r.chance(1, 2) {
                    s.cfg = c.main.cfg;
                }
                if r.chance(1, 4) {
                    s.root = c.main.root.clone();
                }
                c.others.push(s);
            }
            let all = n as usize + 1;
            for i in 0..all {
                let s = if i == 0 { &mut c.main } else { &mut c.others[i - 1] };
                if r.chance(1, 3) {
                    s.sink = transparent(r);
                }
                s.reaction = pick_reaction(r);
                match r.below(6) {
                    0 => {
                        let m = Rc::new(Model::build(&s.root, &s.batches));
                        let reference = run_reference(s, &m);
                        let f = hard_fault(r, &reference, true);
                        s.sink.faults.push(f);
                    }
                    1 => s.abandon_after = Some(r.below(s.batches.len() as u64 + 1) as u32),
                    _ => {}
                }
            }
            if r.chance(1, 3) {
                c.threads = r.range(2, (all as u64).min(6)) as u32;
            }
        }
        "C14" => {
            c.main = scenario(r, &small);
            c.main.probe = r.u64() | 1;
            c.main.reaction = pick_reaction(r);
            if r.chance(1, 3) {
                c.main.sink = transparent(r);
            }
            if r.chance(1, 4) {
                let m = Rc::new(Model::build(&c.main.root, &c.main.batches));
                let reference = run_reference(&c.main, &m);
                let f = hard_fault(r, &reference, true);
                c.main.sink.faults.push(f);
            }
        }
        "C15" => {
            c.main = scenario(r, &std);
            if r.chance(1, 4) {
                c.main.sink = transparent(r);
            }
        }
        "C16" => {
            let tiny = r.chance(1, 2);
            c.main = scenario(r, &Opt { max_rows: 300, rows: None, max_cols: Some(3), tiny });
            at_limits(r, &mut c.main);
            if r.chance(1, 4) {
                c.main.sink = transparent(r);
            }
            c.attempts = crate::limits::attempts(r, 2 * c.main.batches.len() as u32 + 4);
        }
        p => panic!("unknown property {}", p),
    }
    c
}
