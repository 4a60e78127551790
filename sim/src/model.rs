//! The reference model of a file's contents: the cells of every column, expanded from the
//! generators of a scenario. It knows nothing of encodings, stripes or compression.
use crate::rng::Rng;
use crate::scenario::*;

#[derive(Clone, Debug)]
pub enum Vals {
    Bool(Vec<bool>),
    Int(Vec<i64>),
    F32(Vec<u32>),
    F64(Vec<u64>),
    /// Seconds since 2015-01-01T00:00:00Z, nanoseconds, written through the epoch call.
    Ts(Vec<(i64, u32, bool)>),
    /// Unscaled value, written through the 64-bit call.
    Dec(Vec<(i128, bool)>),
    Bytes(Vec<Vec<u8>>),
    Unit,
    Len(Vec<u64>),
    Tag(Vec<u8>),
}

impl Vals {
    /// Length of the longest byte string.
    pub fn longest(&self) -> usize {
        match self {
            Vals::Bytes(v) => v.iter().map(|x| x.len()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn like(&self) -> Vals {
        match self {
            Vals::Bool(_) => Vals::Bool(vec![]),
            Vals::Int(_) => Vals::Int(vec![]),
            Vals::F32(_) => Vals::F32(vec![]),
            Vals::F64(_) => Vals::F64(vec![]),
            Vals::Ts(_) => Vals::Ts(vec![]),
            Vals::Dec(_) => Vals::Dec(vec![]),
            Vals::Bytes(_) => Vals::Bytes(vec![]),
            Vals::Unit => Vals::Unit,
            Vals::Len(_) => Vals::Len(vec![]),
            Vals::Tag(_) => Vals::Tag(vec![]),
        }
    }
    pub fn append(&mut self, o: &Vals, r: std::ops::Range<usize>) {
        match (self, o) {
            (Vals::Bool(a), Vals::Bool(b)) => a.extend_from_slice(&b[r]),
            (Vals::Int(a), Vals::Int(b)) => a.extend_from_slice(&b[r]),
            (Vals::F32(a), Vals::F32(b)) => a.extend_from_slice(&b[r]),
            (Vals::F64(a), Vals::F64(b)) => a.extend_from_slice(&b[r]),
            (Vals::Ts(a), Vals::Ts(b)) => a.extend_from_slice(&b[r]),
            (Vals::Dec(a), Vals::Dec(b)) => a.extend_from_slice(&b[r]),
            (Vals::Bytes(a), Vals::Bytes(b)) => a.extend_from_slice(&b[r]),
            (Vals::Unit, Vals::Unit) => {}
            (Vals::Len(a), Vals::Len(b)) => a.extend_from_slice(&b[r]),
            (Vals::Tag(a), Vals::Tag(b)) => a.extend_from_slice(&b[r]),
            _ => unreachable!(),
        }
    }
}

impl Col {
    fn clone_shape(&self) -> Col {
        Col {
            id: self.id,
            kind: self.kind,
            name: self.name.clone(),
            path: self.path.clone(),
            depth: self.depth,
            parent: self.parent,
            children: self.children.clone(),
            present: vec![],
            nn: vec![],
            vals: self.vals.like(),
            row_start: vec![],
            one_per_row: false,
        }
    }
}

pub const ORC_EPOCH: i64 = 1420070400;

#[derive(Clone, Debug)]
pub struct Col {
    pub id: usize,
    pub kind: Kind,
    pub name: String,
    /// Child indices from the root.
    pub path: Vec<usize>,
    pub depth: usize,
    pub parent: Option<usize>,
    pub children: Vec<usize>,
    pub present: Vec<bool>,
    /// nn[i] = number of non-null cells before cell i.
    pub nn: Vec<u32>,
    /// Values of the non-null cells.
    pub vals: Vals,
    /// row_start[r] = index of the first cell belonging to root row r (length rows+1).
    pub row_start: Vec<u32>,
    /// One cell per root row, whatever the data: never below a list, map, union or null struct.
    pub one_per_row: bool,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub cols: Vec<Col>,
    pub rows: usize,
    /// First row of each batch, plus the total at the end.
    pub batch_start: Vec<usize>,
}

pub const MAX_CELLS: u64 = 80_000;
pub const MAX_BYTES: usize = 3_000_000;

impl Model {
    pub fn build(root: &Node, batches: &[u32]) -> Model {
        let mut batch_start = vec![0usize];
        for &b in batches {
            batch_start.push(batch_start.last().unwrap() + b as usize);
        }
        let rows = *batch_start.last().unwrap();
        let mut cols = Vec::new();
        let row_start: Vec<u32> = (0..=rows as u32).collect();
        build(root, None, vec![], row_start, &mut cols);
        Model { cols, rows, batch_start }
    }
    pub fn cells(&self, col: usize, rows: std::ops::Range<usize>) -> std::ops::Range<usize> {
        let c = &self.cols[col];
        c.row_start[rows.start] as usize..c.row_start[rows.end] as usize
    }
    /// The model of the file that holds only these batches, in this order.
    pub fn select(&self, batches: &[usize]) -> Model {
        let mut batch_start = vec![0usize];
        let mut ranges = vec![];
        for &b in batches {
            let r = self.batch_start[b]..self.batch_start[b + 1];
            batch_start.push(batch_start.last().unwrap() + r.len());
            ranges.push(r);
        }
        let rows = *batch_start.last().unwrap();
        let mut cols = vec![];
        for c in &self.cols {
            let mut d = Col { present: vec![], nn: vec![0], row_start: vec![0], vals: c.vals.like(), ..c.clone_shape() };
            for r in &ranges {
                let cells = c.row_start[r.start] as usize..c.row_start[r.end] as usize;
                for &p in &c.present[cells.clone()] {
                    d.present.push(p);
                    d.nn.push(d.nn.last().unwrap() + p as u32);
                }
                d.vals.append(&c.vals, c.nn[cells.start] as usize..c.nn[cells.end] as usize);
                let base = *d.row_start.last().unwrap();
                for i in r.start..r.end {
                    d.row_start.push(base + c.row_start[i + 1] - c.row_start[r.start]);
                }
            }
            d.one_per_row = d.row_start.iter().enumerate().all(|(i, &s)| i == s as usize);
            cols.push(d);
        }
        Model { cols, rows, batch_start }
    }
    pub fn total_cells(&self) -> u64 {
        self.cols.iter().map(|c| c.present.len() as u64).sum()
    }
}

fn build(node: &Node, parent: Option<usize>, path: Vec<usize>, row_start: Vec<u32>, cols: &mut Vec<Col>) -> usize {
    let id = cols.len();
    let n = *row_start.last().unwrap() as usize;
    let present = gen_present(n, node.nulls, node.seed, &node.magic);
    let mut nn = Vec::with_capacity(n + 1);
    let mut acc = 0u32;
    for &p in &present {
        nn.push(acc);
        acc += p as u32;
    }
    nn.push(acc);
    let vals = gen_vals(node, acc as usize);
    let one_per_row = row_start.iter().enumerate().all(|(i, &s)| i == s as usize);
    let depth = path.len();
    cols.push(Col {
        id,
        kind: node.kind,
        name: node.name.clone(),
        path: path.clone(),
        depth,
        parent,
        children: vec![],
        present,
        nn,
        vals,
        row_start,
        one_per_row,
    });
    for (i, child) in node.children.iter().enumerate() {
        let rs: Vec<u32> = {
            let c = &cols[id];
            match (&c.kind, &c.vals) {
                (Kind::Struct, _) => c.row_start.iter().map(|&x| c.nn[x as usize]).collect(),
                (Kind::List, Vals::Len(l)) | (Kind::Map, Vals::Len(l)) => {
                    let mut pre = Vec::with_capacity(l.len() + 1);
                    let mut s = 0u32;
                    pre.push(0);
                    for &x in l {
                        s += x as u32;
                        pre.push(s);
                    }
                    c.row_start.iter().map(|&x| pre[c.nn[x as usize] as usize]).collect()
                }
                (Kind::Union, Vals::Tag(t)) => {
                    let mut pre = Vec::with_capacity(t.len() + 1);
                    let mut s = 0u32;
                    pre.push(0);
                    for &x in t {
                        s += (x as usize == i) as u32;
                        pre.push(s);
                    }
                    c.row_start.iter().map(|&x| pre[c.nn[x as usize] as usize]).collect()
                }
                _ => unreachable!(),
            }
        };
        let mut p = path.clone();
        p.push(i);
        let cid = build(child, Some(id), p, rs, cols);
        cols[id].children.push(cid);
    }
    id
}

fn seg_len(r: &mut Rng) -> usize {
    if !r.favoured.is_empty() && r.chance(1, 4) {
        let n = *r.pick(&r.favoured.clone());
        if n > 0 && n < 6000 {
            return n as usize;
        }
    }
    match r.below(10) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => r.range(4, 9) as usize,
        4 => r.range(126, 133) as usize,
        5 => r.range(254, 263) as usize,
        6 => r.range(1, 40) as usize,
        7 => r.range(1, 400) as usize,
        8 => 8 * r.range(1, 20) as usize,
        _ => r.range(5, 1100) as usize,
    }
}

fn gen_present(n: usize, nulls: Nulls, seed: u64, magic: &[i64]) -> Vec<bool> {
    let mut r = Rng::new(seed ^ 0xA11_0C);
    r.favoured = magic.to_vec();
    match nulls {
        Nulls::None => vec![true; n],
        Nulls::All => vec![false; n],
        Nulls::Random(p) => (0..n).map(|_| r.below(256) >= p as u64).collect(),
        Nulls::Single(k) => (0..n).map(|i| i % 4096 != k as usize % 4096).collect(),
        Nulls::From(k) => (0..n).map(|i| i < k as usize).collect(),
        Nulls::Segments => {
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let l = seg_len(&mut r);
                let mode = r.below(4);
                for i in 0..l {
                    if v.len() == n {
                        break;
                    }
                    v.push(match mode {
                        0 => true,
                        1 => false,
                        2 => i % 2 == 0,
                        _ => r.chance(1, 2),
                    });
                }
            }
            v
        }
    }
}

fn bounds(k: Kind) -> (i64, i64) {
    match k {
        Kind::Short => (i16::MIN as i64, i16::MAX as i64),
        Kind::Int | Kind::Date => (i32::MIN as i64, i32::MAX as i64),
        _ => (i64::MIN, i64::MAX),
    }
}

fn pick_seg(r: &mut Rng, mask: u32, n: u32) -> u32 {
    let avail: Vec<u32> = (0..n).filter(|b| mask & (1 << b) != 0).collect();
    if avail.is_empty() {
        return 0;
    }
    *r.pick(&avail)
}

fn full_i64(r: &mut Rng) -> i64 {
    // Uniform over bit lengths, so that every varint length is common.
    let bits = r.below(65);
    let v = if bits == 0 { 0 } else { r.u64() >> (64 - bits) };
    if r.chance(1, 2) { v as i64 } else { (v as i64).wrapping_neg() }
}

/// Values with a meaning of their own, on which a change may hang a special case: dates at the ends
/// of the calendar and of the epochs in use, powers of ten, limits of the narrower types.
const DATES: [i64; 14] = [
    2932896, -719162, -719528, 16436, -141428, -141427, 0, 10957, 24855, -24856, 11016, 47541, 25567, -25567,
];
const MAGIC: [i64; 20] = [
    i8::MIN as i64, i8::MAX as i64, u8::MAX as i64, i16::MIN as i64, i16::MAX as i64, u16::MAX as i64,
    i32::MIN as i64, i32::MAX as i64, u32::MAX as i64, 1 << 24, 1 << 53, -(1 << 53), i64::MIN, i64::MAX,
    999_999_999, 1_000_000_000, 999_999_999_999_999_999, 1_000_000_000_000_000_000, 9999, 100,
];

fn magic(r: &mut Rng, kind: Kind) -> i128 {
    let m = if matches!(kind, Kind::Date) { *r.pick(&DATES) } else { *r.pick(&MAGIC) } as i128;
    m + if r.chance(1, 2) { 0 } else { r.below(3) as i128 - 1 }
}

pub fn gen_ints(n: usize, kind: Kind, seed: u64, mask: u32) -> Vec<i64> {
    let (lo, hi) = bounds(kind);
    if mask == 0 {
        return vec![0; n];
    }
    let mut r = Rng::new(seed);
    let clamp = |x: i128| -> i64 {
        let (l, h) = (lo as i128, hi as i128);
        let span = h - l + 1;
        (l + (x - l).rem_euclid(span)) as i64
    };
    let mut v: Vec<i64> = Vec::with_capacity(n);
    while v.len() < n {
        let l = seg_len(&mut r);
        let seg = pick_seg(&mut r, mask, 10);
        if seg == 9 {
            // Values whose sum so far comes to lie on or next to a limit.
            let mut sum: i128 = v.iter().map(|&x| x as i128).sum();
            let mut target = *r.pick(&[i64::MIN as i128, i64::MAX as i128, 1 << 31, -1 << 31, 1 << 32, 1 << 15, -1 << 15, 1 << 53, 0]);
            target += r.below(3) as i128 - 1;
            for _ in 0..l.min(n - v.len()).min(12) {
                let x = (target - sum).clamp(lo as i128, hi as i128);
                sum += x;
                v.push(x as i64);
            }
            continue;
        }
        let base = match r.below(6) {
            0 => r.below(200) as i128 - 100,
            1 => *r.pick(&[lo, hi, 0, -1, 1, lo + 1, hi - 1, 127, 128, -128, -129]) as i128,
            2 => v.last().copied().unwrap_or(0) as i128,
            3 => magic(&mut r, kind),
            _ => full_i64(&mut r) as i128,
        };
        let own = r.chance(1, 2);
        let delta: i128 = match seg {
            1 => *r.pick(&[-128i128, -127, -2, -1, 1, 2, 3, 100, 126, 127]),
            2 => *r.pick(&[-129i128, 128, 129, 255, 256, -256, 1000, -70000, 1 << 33]),
            _ => 0,
        };
        let other = full_i64(&mut r) as i128;
        for i in 0..l {
            if v.len() == n {
                break;
            }
            let x = match seg {
                0 | 1 | 2 => base + delta * i as i128,
                3 => r.below(201) as i128 - 100,
                4 => full_i64(&mut r) as i128,
                5 if own => magic(&mut r, kind),
                5 => *r.pick(&[lo, hi, 0, -1, 1, lo + 1, hi - 1]) as i128,
                6 => if i % 2 == 0 { base } else { other },
                7 => base + (i / 2) as i128 * 5,
                _ => {
                    let s = (1i128 << r.below(63)) + r.below(3) as i128 - 1;
                    if r.chance(1, 2) { s } else { -s }
                }
            };
            v.push(clamp(x));
        }
    }
    v
}

pub fn gen_bools(n: usize, seed: u64, mask: u32) -> Vec<bool> {
    if mask == 0 {
        return vec![false; n];
    }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let l = seg_len(&mut r) * if r.chance(1, 4) { 8 } else { 1 };
        let seg = pick_seg(&mut r, mask, 4);
        let c = r.chance(1, 2);
        let pat = r.u64();
        for i in 0..l {
            if v.len() == n {
                break;
            }
            v.push(match seg {
                0 => c,
                1 => r.chance(1, 2),
                2 => i % 2 == 0,
                _ => (pat >> (i % 8)) & 1 == 1,
            });
        }
    }
    v
}

fn gen_f64(r: &mut Rng, seg: u32, i: usize, base: u64) -> u64 {
    match seg {
        0 => base,
        1 => (r.below(2001) as f64 - 1000.0).to_bits(),
        2 => ((i as f64) * 0.25 - 3.0).to_bits(),
        3 => {
            // Random finite value.
            let b = r.u64();
            if f64::from_bits(b).is_finite() { b } else { b & !(1 << 62) }
        }
        4 => *r.pick(&[
            0.0f64.to_bits(), (-0.0f64).to_bits(), f64::MAX.to_bits(), f64::MIN.to_bits(),
            f64::MIN_POSITIVE.to_bits(), 1, 1 << 63 | 1, 1.0f64.to_bits(), (-1.0f64).to_bits(),
            9007199254740992.0f64.to_bits(), 9223372036854775807.0f64.to_bits(),
            (f32::MAX as f64).to_bits(), (f32::MAX as f64 * 2.0).to_bits(), (f32::MIN_POSITIVE as f64).to_bits(),
            f64::MIN_POSITIVE.to_bits() - 1, f64::EPSILON.to_bits(), 0.1f64.to_bits(), 1e15f64.to_bits(), 1e16f64.to_bits(),
        ]),
        5 => *r.pick(&[f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), 2.5f64.to_bits()]),
        _ => *r.pick(&[f64::NAN.to_bits(), 0xfff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 7.0f64.to_bits()]),
    }
}

fn gen_f32(r: &mut Rng, seg: u32, i: usize, base: u32) -> u32 {
    match seg {
        0 => base,
        1 => (r.below(2001) as f32 - 1000.0).to_bits(),
        2 => ((i as f32) * 0.25 - 3.0).to_bits(),
        3 => {
            let b = r.u64() as u32;
            if f32::from_bits(b).is_finite() { b } else { b & !(1 << 30) }
        }
        4 => *r.pick(&[
            0.0f32.to_bits(), (-0.0f32).to_bits(), f32::MAX.to_bits(), f32::MIN.to_bits(),
            f32::MIN_POSITIVE.to_bits(), 1, 1 << 31 | 1, 1.0f32.to_bits(), (-1.0f32).to_bits(),
            16777216.0f32.to_bits(), 16777217.0f32.to_bits(), 2147483648.0f32.to_bits(), 9.223372e18f32.to_bits(),
            f32::MIN_POSITIVE.to_bits() - 1, f32::EPSILON.to_bits(), 0.1f32.to_bits(), 1e7f32.to_bits(), 65504.0f32.to_bits(),
        ]),
        5 => *r.pick(&[f32::INFINITY.to_bits(), f32::NEG_INFINITY.to_bits(), 2.5f32.to_bits()]),
        _ => *r.pick(&[f32::NAN.to_bits(), 0xffc0_0001, 7.0f32.to_bits()]),
    }
}

fn char_utf8(r: &mut Rng, flavour: u64) -> char {
    match flavour {
        0 => (b'a' + r.below(3) as u8) as char,
        1 => (b' ' + r.below(95) as u8) as char,
        2 => *r.pick(&['é', 'ß', 'Ж', '中', '🦀', '\u{0}', '\u{7f}', '\u{80}', '\u{10ffff}', '\u{ffff}', '\u{e000}', '\u{feff}', '\u{200b}', '\u{a0}', '\u{301}', '\t', '\n', '\r', '\\', '"']),
        _ => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
    }
}

/// Differences around the limits of a run's delta (one signed byte).
const EDGE_STEPS: [i64; 12] = [-130, -129, -128, -127, -1, 1, 126, 127, 128, 129, 130, 256];

fn gen_strings(n: usize, seed: u64, mask: u32, scale: u32, max_chars: Option<u32>, utf8: bool) -> Vec<Vec<u8>> {
    if mask == 0 {
        return vec![vec![]; n];
    }
    let mut r = Rng::new(seed);
    let mut v: Vec<Vec<u8>> = Vec::with_capacity(n);
    let mut total = 0usize;
    let scale = scale.max(1) as u64;
    while v.len() < n {
        let l = seg_len(&mut r);
        let seg = pick_seg(&mut r, mask, 9);
        let flavour = r.below(4);
        let step = *r.pick(&EDGE_STEPS);
        let (l, first) = if seg == 8 { (l.min(8), if step < 0 { -7 * step } else { 0 } + r.below(9) as i64) } else { (l, 0) };
        let cst = mk_string(&mut r, 3, flavour, utf8, max_chars);
        let fixed_len = r.below(scale * 2 + 1) as usize;
        let near = *r.pick(&[scale.saturating_sub(1), scale, scale + 1, 2 * scale, 2 * scale + 1, 3 * scale + 7, scale / 2]) as usize;
        for i in 0..l {
            if v.len() == n {
                break;
            }
            let budget_left = MAX_BYTES.saturating_sub(total);
            let want = |x: usize| x.min(budget_left / 8 + 4);
            let s = match seg {
                0 => cst.clone(),
                1 => {
                    let k = want(r.below(12) as usize);
                    mk_string(&mut r, k, flavour, utf8, max_chars)
                }
                2 => mk_string(&mut r, want(fixed_len), flavour, utf8, max_chars),
                3 => vec![],
                4 => {
                    let mut s = b"prefix-".to_vec();
                    s.extend(format!("{}", i / 3).bytes());
                    if let Some(m) = max_chars { s.truncate(m as usize) }
                    s
                }
                5 => mk_string(&mut r, want(near), flavour, utf8, max_chars),
                6 => {
                    // Long value, relative to the scale (which follows the block size).
                    let k = want((scale * r.range(1, 9)) as usize + r.below(3) as usize);
                    if r.chance(1, 8) { mk_string(&mut r, k, flavour, utf8, max_chars) } else { cst.clone() }
                }
                8 => {
                    // Lengths rising or falling by steps around what fits a run's delta.
                    let k = want((first + step * i as i64) as usize);
                    let k = max_chars.map_or(k, |m| k.min(m as usize));
                    vec![b'x'; k]
                }
                _ => {
                    let k = want(r.below(scale + 2) as usize);
                    let k = if r.chance(1, 4) { want(max_chars.filter(|&m| m < 3000).map_or(k, |m| m as usize)) } else { k };
                    let c = char_utf8(&mut r, flavour);
                    let s: String = std::iter::repeat(c).take(max_chars.map_or(k, |m| k.min(m as usize))).collect();
                    s.into_bytes()
                }
            };
            total += s.len();
            v.push(s);
        }
    }
    v
}

fn mk_string(r: &mut Rng, k: usize, flavour: u64, utf8: bool, max_chars: Option<u32>) -> Vec<u8> {
    if !utf8 {
        return (0..k).map(|_| if flavour == 0 { r.below(3) as u8 } else { r.u64() as u8 }).collect();
    }
    // k is a target length in bytes; hit it exactly for ASCII, within 3 bytes otherwise.
    let mut s = String::new();
    let mut chars = 0u32;
    while s.len() < k && max_chars.map_or(true, |m| chars < m) {
        s.push(char_utf8(r, flavour));
        chars += 1;
    }
    s.into_bytes()
}

fn gen_nanos(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0,
        1 => r.below(1_000_000_000) as u32,
        2 => {
            let p = 10u64.pow(r.below(9) as u32);
            ((r.below(1_000_000_000 / p + 1) * p) % 1_000_000_000) as u32
        }
        3 => 10u32.pow(r.below(9) as u32) * r.range(1, 9) as u32,
        4 => *r.pick(&[999_999_999, 999_999_900, 999_000_000, 536_870_911, 536_870_912, 536_870_913, 999_999, 1_000_000, 100, 10, 1, 99, 101]),
        5 => (r.below(1000) * 1_000_000) as u32,
        6 => (r.below(1_000_000) * 1000) as u32,
        _ => (r.below(10_000_000) * 100) as u32,
    }
}

fn gen_ts(n: usize, seed: u64, mask: u32) -> Vec<(i64, u32, bool)> {
    if mask == 0 {
        return vec![(0, 0, false); n];
    }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n);
    // Moments with a meaning of their own, as seconds since 1970: the epochs in use, the ends of
    // 32-bit clocks and of the years 9999, 2099 and 1900, the Gregorian reform, days' first and last seconds.
    const MOMENTS: [i64; 16] = [
        0, -1, 946_684_800, 1_420_070_400, 1_420_070_399, i32::MAX as i64, i32::MIN as i64, u32::MAX as i64,
        253_402_300_799, 253_402_300_800, 4_102_444_799, -2_208_988_800, -12_219_292_800, 86_399, 86_400, -86_400,
    ];
    let any = |r: &mut Rng| match r.below(7) {
        6 => (*r.pick(&MOMENTS) + if r.chance(1, 2) { 0 } else { r.below(3) as i64 - 1 }).clamp(YEAR1, YEAR10000) - ORC_EPOCH,
        0 => r.below(100) as i64 - 50,
        1 => r.below(100) as i64 - 50 - ORC_EPOCH,
        2 => YEAR1 - ORC_EPOCH + r.below((YEAR10000 - YEAR1) as u64) as i64,
        3 => *r.pick(&[YEAR1 - ORC_EPOCH, YEAR10000 - ORC_EPOCH, 0, -1, -ORC_EPOCH, -ORC_EPOCH - 1]),
        _ => r.below(2_000_000_000) as i64 - 1_000_000_000,
    };
    while v.len() < n {
        let l = seg_len(&mut r);
        let seg = pick_seg(&mut r, mask, 5);
        let nstep = *r.pick(&[-17i64, -16, -15, -1, 1, 15, 16, 17, 32]);
        let base = any(&mut r);
        let step = r.below(300) as i64 - 100;
        let bn = gen_nanos(&mut r);
        let epoch = r.chance(1, 2);
        for i in 0..l {
            if v.len() == n {
                break;
            }
            v.push(match seg {
                0 => (base, bn, epoch),
                1 => {
                    let s = (base + step * i as i64).clamp(YEAR1 - ORC_EPOCH, YEAR10000 - ORC_EPOCH);
                    (s, gen_nanos(&mut r), epoch)
                }
                2 => (any(&mut r), gen_nanos(&mut r), r.chance(1, 2)),
                // Nanoseconds in arithmetic progression, also as encoded.
                3 => (base, (bn as i64 + nstep * i as i64).rem_euclid(1_000_000_000) as u32, epoch),
                _ => (base, gen_nanos(&mut r), epoch),
            });
        }
    }
    for (s, n, _) in v.iter_mut() {
        // The last second before 1970 with more than 999,999 ns is not representable in ORC v1
        // (ORC-763).
        if *s + ORC_EPOCH == -1 && *n > 999_999 {
            *n %= 1_000_000;
        }
    }
    v
}

pub fn pow10(p: u32) -> i128 {
    10i128.pow(p)
}

fn gen_dec(n: usize, seed: u64, mask: u32, precision: u32) -> Vec<(i128, bool)> {
    if mask == 0 {
        return vec![(0, false); n];
    }
    let lim = pow10(precision.min(38)); // exclusive bound on |x|
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n);
    let any = |r: &mut Rng| -> i128 {
        let bits = r.below(128) as u32;
        let m = if bits == 0 { 0 } else { (r.u128() >> (128 - bits)) as i128 };
        let m = m % lim;
        if r.chance(1, 2) { m } else { -m }
    };
    while v.len() < n {
        let l = seg_len(&mut r);
        let seg = pick_seg(&mut r, mask, 6);
        let base = any(&mut r);
        if seg == 5 {
            let mut sum: i128 = v.iter().fold(0i128, |a, x: &(i128, bool)| a.wrapping_add(x.0));
            let target = match r.below(6) {
                0 | 1 => i128::MIN,
                2 => i128::MAX,
                3 => i64::MIN as i128,
                4 => i64::MAX as i128,
                _ => if r.chance(1, 2) { lim } else { -lim },
            };
            let target = target.saturating_add(r.below(3) as i128 - 1);
            for _ in 0..l.min(n - v.len()).min(6) {
                let x = target.saturating_sub(sum).clamp(1 - lim, lim - 1);
                sum = sum.wrapping_add(x);
                v.push((x, x >= i64::MIN as i128 && x <= i64::MAX as i128 && r.chance(1, 2)));
            }
            continue;
        }
        for i in 0..l {
            if v.len() == n {
                break;
            }
            let x = match seg {
                0 => base,
                1 => ((r.below(20001) as i128) - 10000) % lim,
                2 => any(&mut r),
                3 => {
                    let x = pow10(r.below(precision.min(38) as u64 + 1) as u32) + r.below(3) as i128 - 1;
                    let x = if x >= lim { lim - 1 } else { x };
                    if r.chance(1, 2) { x } else { -x }
                }
                _ => {
                    let x = base.saturating_add(i as i128 * 7);
                    if x.abs() >= lim { base } else { x }
                }
            };
            let fits = x >= i64::MIN as i128 && x <= i64::MAX as i128;
            let use64 = fits && r.chance(1, 2);
            v.push((x, use64));
        }
    }
    v
}

fn gen_lens(n: usize, seed: u64, mask: u32, scale: u32) -> Vec<u64> {
    if mask == 0 {
        return vec![1; n];
    }
    let mut r = Rng::new(seed);
    let mut v: Vec<u64> = Vec::with_capacity(n);
    let mut total = 0u64;
    while v.len() < n {
        let l = seg_len(&mut r);
        let seg = pick_seg(&mut r, mask, 7);
        let c = r.below(scale as u64 + 1);
        let step = *r.pick(&EDGE_STEPS);
        let (l, first) = if seg == 6 { (l.min(4), if step < 0 { -3 * step } else { 0 } + r.below(3) as i64) } else { (l, 0) };
        for i in 0..l {
            if v.len() == n {
                break;
            }
            let x = match seg {
                0 => c,
                1 => r.below(scale as u64 + 1),
                2 => 0,
                3 => (i as u64) % 7,
                4 => if r.chance(1, 60) { r.below(300) } else { 0 },
                6 => (first + step * i as i64) as u64,
                _ => if i % 2 == 0 { c } else { 0 },
            };
            let x = if total + x > MAX_CELLS / 4 { 0 } else { x };
            total += x;
            v.push(x);
        }
    }
    v
}

fn gen_tags(n: usize, seed: u64, mask: u32, variants: usize) -> Vec<u8> {
    if mask == 0 || variants <= 1 {
        return vec![0; n];
    }
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n);
    while v.len() < n {
        let l = seg_len(&mut r);
        let seg = pick_seg(&mut r, mask, 5);
        let c = r.idx(variants) as u8;
        for i in 0..l {
            if v.len() == n {
                break;
            }
            v.push(match seg {
                0 => c,
                1 => r.idx(variants) as u8,
                2 => (i % variants) as u8,
                3 => (variants - 1) as u8,
                _ => ((i / 2) % variants) as u8,
            });
        }
    }
    v
}

fn gen_vals(node: &Node, n: usize) -> Vals {
    let mut v = usual_vals(node, n);
    if node.mask != 0 && n > 0 && !(node.magic.is_empty() && node.texts.is_empty()) {
        overlay(node, n, &mut v);
    }
    v
}

/// Puts the particular numbers and texts of a column among its usual values.
fn overlay(node: &Node, n: usize, v: &mut Vals) {
    let mut r = Rng::new(node.seed ^ 0x0FE7_1A7);
    r.favoured = node.magic.clone();
    let r = &mut r;
    for _ in 0..r.range(1, 4) {
        let l = if r.chance(1, 2) { r.range(1, 3) as usize } else { seg_len(r) };
        let at = r.idx(n);
        let at = if r.chance(1, 3) { 0 } else { at };
        let cells = at..(at + l).min(n);
        let x = match node.magic.is_empty() {
            true => 1,
            false => *r.pick(&node.magic),
        };
        let x = if r.chance(1, 3) { x.wrapping_neg() } else { x };
        let step = *r.pick(&[0i64, 0, 0, 1, -1]);
        match v {
            Vals::Bool(_) | Vals::Unit | Vals::Tag(_) => return,
            Vals::Int(v) => {
                let (lo, hi) = bounds(node.kind);
                for (i, c) in v[cells].iter_mut().enumerate() {
                    *c = x.saturating_add(step * i as i64).clamp(lo, hi);
                }
            }
            Vals::F32(v) => v[cells].iter_mut().enumerate().for_each(|(i, c)| *c = (x.saturating_add(step * i as i64) as f32).to_bits()),
            Vals::F64(v) => v[cells].iter_mut().enumerate().for_each(|(i, c)| *c = (x.saturating_add(step * i as i64) as f64).to_bits()),
            Vals::Ts(v) => {
                let kind = r.below(4);
                for c in &mut v[cells] {
                    let (mut s, mut ns) = (c.0, c.1);
                    if kind < 3 {
                        s = if kind == 1 { x.saturating_sub(ORC_EPOCH) } else { x };
                    }
                    if kind != 1 {
                        ns = (x.unsigned_abs() % 1_000_000_000) as u32;
                    }
                    let known = s.checked_add(ORC_EPOCH).map_or(false, |e| (YEAR1..=YEAR10000).contains(&e) && (e != -1 || ns <= 999_999));
                    if known {
                        (c.0, c.1) = (s, ns);
                    }
                }
            }
            Vals::Dec(v) => {
                let Kind::Decimal(p, _) = node.kind else { unreachable!() };
                let lim = pow10(p.min(38));
                let shift = pow10(r.below(20) as u32 * r.below(2) as u32);
                for (i, c) in v[cells].iter_mut().enumerate() {
                    let y = (x as i128 + step as i128 * i as i128) * shift;
                    if y.abs() < lim {
                        let fits = y >= i64::MIN as i128 && y <= i64::MAX as i128;
                        *c = (y, fits && c.1);
                    }
                }
            }
            Vals::Bytes(v) => {
                let max = match node.kind {
                    Kind::Char(k) | Kind::VarChar(k) => Some(k as usize),
                    _ => None,
                };
                let text = r.chance(1, 2) && !node.texts.is_empty();
                let mut new: Vec<u8> = if text {
                    r.pick(&node.texts).as_bytes().to_vec()
                } else {
                    let len = x.unsigned_abs().min(100_000) as usize;
                    let b = b'a' + r.below(26) as u8;
                    (0..len).map(|i| if i % 7 == 0 { b } else { b'a' + (i * i % 23) as u8 }).collect()
                };
                if max.map_or(false, |m| String::from_utf8_lossy(&new).chars().count() > m) {
                    let cut: String = String::from_utf8_lossy(&new).chars().take(max.unwrap()).collect();
                    new = cut.into_bytes();
                }
                let held: usize = v.iter().map(|b| b.len()).sum();
                if held + new.len() * cells.len() <= MAX_BYTES.max(held + 200_000) {
                    for c in &mut v[cells] {
                        *c = new.clone();
                    }
                }
            }
            Vals::Len(v) => {
                let held: u64 = v.iter().sum();
                let len = x.unsigned_abs();
                if len <= 20_000 && held + len * cells.len() as u64 <= MAX_CELLS / 4 {
                    for c in &mut v[cells] {
                        *c = len;
                    }
                }
            }
        }
    }
}

const YEAR1: i64 = -62135596800;
const YEAR10000: i64 = 253402300799;

fn usual_vals(node: &Node, n: usize) -> Vals {
    let (s, m) = (node.seed, node.mask);
    match node.kind {
        Kind::Boolean => Vals::Bool(gen_bools(n, s, m)),
        Kind::Short | Kind::Int | Kind::Long | Kind::Date => Vals::Int(gen_ints(n, node.kind, s, m)),
        Kind::Float => {
            let mut r = Rng::new(s);
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let l = seg_len(&mut r);
                let seg = if m == 0 { 0 } else { pick_seg(&mut r, m, 7) };
                let base = if m == 0 { 0 } else { gen_f32(&mut r, seg.max(1), 0, 0) };
                for i in 0..l.min(n - v.len()) {
                    v.push(gen_f32(&mut r, seg, i, base));
                }
            }
            Vals::F32(v)
        }
        Kind::Double => {
            let mut r = Rng::new(s);
            let mut v = Vec::with_capacity(n);
            while v.len() < n {
                let l = seg_len(&mut r);
                let seg = if m == 0 { 0 } else { pick_seg(&mut r, m, 7) };
                let base = if m == 0 { 0 } else { gen_f64(&mut r, seg.max(1), 0, 0) };
                for i in 0..l.min(n - v.len()) {
                    v.push(gen_f64(&mut r, seg, i, base));
                }
            }
            Vals::F64(v)
        }
        Kind::Timestamp => Vals::Ts(gen_ts(n, s, m)),
        Kind::Decimal(p, _) => Vals::Dec(gen_dec(n, s, m, p)),
        Kind::Str => Vals::Bytes(gen_strings(n, s, m, node.scale, None, true)),
        Kind::Binary => Vals::Bytes(gen_strings(n, s, m, node.scale, None, false)),
        Kind::Char(k) | Kind::VarChar(k) => Vals::Bytes(gen_strings(n, s, m, node.scale, Some(k), true)),
        Kind::Struct => Vals::Unit,
        Kind::List | Kind::Map => Vals::Len(gen_lens(n, s, m, node.scale)),
        Kind::Union => Vals::Tag(gen_tags(n, s, m, node.children.len())),
    }
}
