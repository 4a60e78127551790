//! The oracles: what a file (and the history that produced it) has to satisfy, property by
//! property. They compare the independent reader's view with the reference model.
use crate::exec::{Call, Op, Res};
use crate::model::*;
use crate::orc::*;
use crate::scenario::*;
use std::collections::BTreeMap;
use std::ops::Range;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fail {
    pub class: String,
    pub detail: String,
}

pub fn fail(class: &str, detail: String) -> Fail {
    Fail { class: class.to_string(), detail }
}

pub type Check = Result<(), Fail>;

pub fn as_fail<T>(class: &str, r: R<T>) -> Result<T, Fail> {
    r.map_err(|e| fail(class, e))
}

// ---------------------------------------------------------------- decoding a column of a stripe

pub struct Streams {
    pub present: Option<Section>,
    pub data: Option<Section>,
    pub length: Option<Section>,
    pub secondary: Option<Section>,
}

pub fn load(b: &[u8], t: &Tail, s: &Stripe, col: usize) -> R<Streams> {
    Ok(Streams {
        present: s.section(b, t, col, PRESENT)?,
        data: s.section(b, t, col, DATA)?,
        length: s.section(b, t, col, LENGTH)?,
        secondary: s.section(b, t, col, SECONDARY)?,
    })
}

pub struct Decoded {
    pub present: Vec<bool>,
    pub vals: Vals,
    /// Run starts of the streams (whole-stream decoding only): (stream kind, groups).
    pub groups: Vec<(u64, Groups)>,
}

fn nanos_of(raw: u64) -> R<u32> {
    let z = raw & 7;
    let mut n = raw >> 3;
    if z != 0 {
        for _ in 0..z + 1 {
            n = n.checked_mul(10).ok_or("nanoseconds overflow")?;
        }
    }
    if n > 999_999_999 {
        return Err(format!("nanoseconds decode to {}", n));
    }
    Ok(n as u32)
}

fn need<'a>(s: &'a Option<Section>, what: &str) -> R<&'a Section> {
    s.as_ref().ok_or_else(|| format!("no {} stream", what))
}

fn scales_ok(v: &[i64], scale: u32) -> R<()> {
    match v.iter().find(|&&x| x != scale as i64) {
        Some(x) => Err(format!("scale {} recorded in a decimal column of scale {}", x, scale)),
        None => Ok(()),
    }
}

fn ts_vals(sec: &[i64], nanos: &[i64]) -> R<Vals> {
    let mut v = Vec::with_capacity(sec.len());
    for i in 0..sec.len() {
        let n = nanos_of(nanos[i] as u64)?;
        let mut unix = sec[i].wrapping_add(ORC_EPOCH);
        // ORC-763: before the epoch, values with more than 999,999 ns read one second less.
        if unix < 0 && n > 999_999 {
            unix -= 1;
        }
        v.push((unix.wrapping_sub(ORC_EPOCH), n, false));
    }
    Ok(Vals::Ts(v))
}

/// Decodes the whole column: every stream must hold exactly the expected number of values.
pub fn decode_all(s: &Streams, kind: Kind, cells: usize) -> R<Decoded> {
    let mut groups = vec![];
    let present = match &s.present {
        None => vec![true; cells],
        Some(p) => {
            let (v, g) = bits_exact(&p.plain, cells).map_err(|e| format!("PRESENT: {}", e))?;
            groups.push((PRESENT, g));
            v
        }
    };
    let n = present.iter().filter(|&&p| p).count();
    let none = |x: &Option<Section>, what: &str| -> R<()> {
        if x.is_some() { Err(format!("unexpected {} stream", what)) } else { Ok(()) }
    };
    let vals = match kind {
        Kind::Boolean => {
            let d = need(&s.data, "DATA")?;
            let (v, g) = bits_exact(&d.plain, n).map_err(|e| format!("DATA: {}", e))?;
            groups.push((DATA, g));
            Vals::Bool(v)
        }
        Kind::Short | Kind::Int | Kind::Long | Kind::Date => {
            let d = need(&s.data, "DATA")?;
            let (v, g) = ints_exact(&d.plain, n, true).map_err(|e| format!("DATA: {}", e))?;
            groups.push((DATA, g));
            Vals::Int(v)
        }
        Kind::Float => {
            let d = &need(&s.data, "DATA")?.plain;
            if d.len() != 4 * n {
                return Err(format!("DATA: {} bytes for {} floats", d.len(), n));
            }
            Vals::F32(d.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
        }
        Kind::Double => {
            let d = &need(&s.data, "DATA")?.plain;
            if d.len() != 8 * n {
                return Err(format!("DATA: {} bytes for {} doubles", d.len(), n));
            }
            Vals::F64(d.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        }
        Kind::Timestamp => {
            let (sec, g) = ints_exact(&need(&s.data, "DATA")?.plain, n, true).map_err(|e| format!("DATA: {}", e))?;
            groups.push((DATA, g));
            let (nanos, g) = ints_exact(&need(&s.secondary, "SECONDARY")?.plain, n, false).map_err(|e| format!("SECONDARY: {}", e))?;
            groups.push((SECONDARY, g));
            ts_vals(&sec, &nanos)?
        }
        Kind::Decimal(_, scale) => {
            let d = &need(&s.data, "DATA")?.plain;
            let (v, end) = dec_from(d, 0, n).map_err(|e| format!("DATA: {}", e))?;
            if end != d.len() {
                return Err(format!("DATA: {} bytes left after {} decimals", d.len() - end, n));
            }
            let (sc, g) = ints_exact(&need(&s.secondary, "SECONDARY")?.plain, n, true).map_err(|e| format!("SECONDARY: {}", e))?;
            groups.push((SECONDARY, g));
            scales_ok(&sc, scale)?;
            Vals::Dec(v.into_iter().map(|x| (x, false)).collect())
        }
        Kind::Str | Kind::Binary | Kind::Char(_) | Kind::VarChar(_) => {
            let (l, g) = ints_exact(&need(&s.length, "LENGTH")?.plain, n, false).map_err(|e| format!("LENGTH: {}", e))?;
            groups.push((LENGTH, g));
            let d = &need(&s.data, "DATA")?.plain;
            let mut p = 0usize;
            let mut v = Vec::with_capacity(n);
            for &x in &l {
                let e = p.checked_add(x as usize).ok_or("length overflow")?;
                v.push(d.get(p..e).ok_or("DATA: stream too short for the lengths")?.to_vec());
                p = e;
            }
            if p != d.len() {
                return Err(format!("DATA: {} bytes beyond the lengths", d.len() - p));
            }
            Vals::Bytes(v)
        }
        Kind::Struct => Vals::Unit,
        Kind::List | Kind::Map => {
            let (l, g) = ints_exact(&need(&s.length, "LENGTH")?.plain, n, false).map_err(|e| format!("LENGTH: {}", e))?;
            groups.push((LENGTH, g));
            Vals::Len(l.into_iter().map(|x| x as u64).collect())
        }
        Kind::Union => {
            let (v, g) = bytes_exact(&need(&s.data, "DATA")?.plain, n).map_err(|e| format!("DATA: {}", e))?;
            groups.push((DATA, g));
            Vals::Tag(v)
        }
    };
    match kind {
        Kind::Struct => {
            none(&s.data, "DATA")?;
            none(&s.length, "LENGTH")?;
            none(&s.secondary, "SECONDARY")?;
        }
        Kind::List | Kind::Map => {
            none(&s.data, "DATA")?;
            none(&s.secondary, "SECONDARY")?;
        }
        Kind::Timestamp | Kind::Decimal(..) => none(&s.length, "LENGTH")?,
        Kind::Str | Kind::Binary | Kind::Char(_) | Kind::VarChar(_) => none(&s.secondary, "SECONDARY")?,
        _ => {
            none(&s.length, "LENGTH")?;
            none(&s.secondary, "SECONDARY")?;
        }
    }
    Ok(Decoded { present, vals, groups })
}

/// Decodes `cells` cells of a column starting at a row index entry's positions.
pub fn decode_at(s: &Streams, kind: Kind, cells: usize, positions: &[u64]) -> R<Decoded> {
    let mut it = positions.iter();
    let next = |it: &mut std::slice::Iter<u64>| -> R<usize> { Ok(*it.next().ok_or("too few positions")? as usize) };
    let present = match &s.present {
        None => vec![true; cells],
        Some(p) => {
            let at = p.seek(&mut it).map_err(|e| format!("PRESENT: {}", e))?;
            let (sb, bits) = (next(&mut it)?, next(&mut it)?);
            bits_from(&p.plain, at, sb, bits, cells).map_err(|e| format!("PRESENT from ({}, {}, {}): {}", at, sb, bits, e))?
        }
    };
    let n = present.iter().filter(|&&p| p).count();
    let ints = |sec: &Option<Section>, it: &mut std::slice::Iter<u64>, signed: bool, what: &str| -> R<Vec<i64>> {
        let sec = need(sec, what)?;
        let at = sec.seek(it).map_err(|e| format!("{}: {}", what, e))?;
        let skip = *it.next().ok_or("too few positions")? as usize;
        ints_from(&sec.plain, at, skip, n, signed).map_err(|e| format!("{} from ({}, {}): {}", what, at, skip, e))
    };
    let vals = match kind {
        Kind::Boolean => {
            let d = need(&s.data, "DATA")?;
            let at = d.seek(&mut it)?;
            let (sb, bits) = (next(&mut it)?, next(&mut it)?);
            Vals::Bool(bits_from(&d.plain, at, sb, bits, n)?)
        }
        Kind::Short | Kind::Int | Kind::Long | Kind::Date => Vals::Int(ints(&s.data, &mut it, true, "DATA")?),
        Kind::Float => {
            let d = need(&s.data, "DATA")?;
            let at = d.seek(&mut it)?;
            let b = d.plain.get(at..at + 4 * n).ok_or("DATA: not enough floats after the position")?;
            Vals::F32(b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
        }
        Kind::Double => {
            let d = need(&s.data, "DATA")?;
            let at = d.seek(&mut it)?;
            let b = d.plain.get(at..at + 8 * n).ok_or("DATA: not enough doubles after the position")?;
            Vals::F64(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        }
        Kind::Timestamp => {
            let sec = ints(&s.data, &mut it, true, "DATA")?;
            let nanos = ints(&s.secondary, &mut it, false, "SECONDARY")?;
            ts_vals(&sec, &nanos)?
        }
        Kind::Decimal(_, scale) => {
            let d = need(&s.data, "DATA")?;
            let at = d.seek(&mut it)?;
            let (v, _) = dec_from(&d.plain, at, n)?;
            let sc = ints(&s.secondary, &mut it, true, "SECONDARY")?;
            scales_ok(&sc, scale)?;
            Vals::Dec(v.into_iter().map(|x| (x, false)).collect())
        }
        Kind::Str | Kind::Binary | Kind::Char(_) | Kind::VarChar(_) => {
            let d = need(&s.data, "DATA")?;
            let at = d.seek(&mut it)?;
            let l = ints(&s.length, &mut it, false, "LENGTH")?;
            let mut p = at;
            let mut v = Vec::with_capacity(n);
            for &x in &l {
                let e = p.checked_add(x as usize).ok_or("length overflow")?;
                v.push(d.plain.get(p..e).ok_or("DATA: not enough bytes after the position")?.to_vec());
                p = e;
            }
            Vals::Bytes(v)
        }
        Kind::Struct => Vals::Unit,
        Kind::List | Kind::Map => Vals::Len(ints(&s.length, &mut it, false, "LENGTH")?.into_iter().map(|x| x as u64).collect()),
        Kind::Union => {
            let d = need(&s.data, "DATA")?;
            let at = d.seek(&mut it)?;
            let skip = next(&mut it)?;
            Vals::Tag(bytes_from(&d.plain, at, skip, n)?)
        }
    };
    if it.next().is_some() {
        return Err(format!("{} positions recorded, {} used", positions.len(), positions.len() - it.as_slice().len() - 1));
    }
    Ok(Decoded { present, vals, groups: vec![] })
}

fn diff<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> Option<String> {
    if a.len() != b.len() {
        return Some(format!("{} values read, {} written", a.len(), b.len()));
    }
    (0..a.len()).find(|&i| a[i] != b[i]).map(|i| {
        let f = |x: &T| {
            let s = format!("{:?}", x);
            if s.len() > 80 { format!("{}… ({} chars)", s.chars().take(80).collect::<String>(), s.len()) } else { s }
        };
        format!("value {}: read {}, written {}", i, f(&a[i]), f(&b[i]))
    })
}

/// Compares decoded cells with the model's.
pub fn compare(c: &Col, cells: Range<usize>, d: &Decoded) -> R<()> {
    if let Some(e) = diff(&d.present, &c.present[cells.clone()]) {
        return Err(format!("present flags: {}", e));
    }
    let r = c.nn[cells.start] as usize..c.nn[cells.end] as usize;
    let e = match (&d.vals, &c.vals) {
        (Vals::Bool(a), Vals::Bool(b)) => diff(a, &b[r]),
        (Vals::Int(a), Vals::Int(b)) => diff(a, &b[r]),
        (Vals::F32(a), Vals::F32(b)) => diff(a, &b[r]),
        (Vals::F64(a), Vals::F64(b)) => diff(a, &b[r]),
        (Vals::Ts(a), Vals::Ts(b)) => diff(
            &a.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(),
            &b[r].iter().map(|x| (x.0, x.1)).collect::<Vec<_>>(),
        ),
        (Vals::Dec(a), Vals::Dec(b)) => diff(
            &a.iter().map(|x| x.0).collect::<Vec<_>>(),
            &b[r].iter().map(|x| x.0).collect::<Vec<_>>(),
        ),
        (Vals::Bytes(a), Vals::Bytes(b)) => diff(a, &b[r]),
        (Vals::Unit, Vals::Unit) => None,
        (Vals::Len(a), Vals::Len(b)) => diff(a, &b[r]),
        (Vals::Tag(a), Vals::Tag(b)) => diff(a, &b[r]),
        _ => Some("type".into()),
    };
    match e {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Row ranges of the stripes, as the file declares them.
fn stripe_rows(t: &Tail, rows: usize) -> R<Vec<Range<usize>>> {
    let mut v = vec![];
    let mut at = 0usize;
    for s in &t.stripes {
        let e = at.checked_add(s.rows as usize).ok_or("row count overflow")?;
        if e > rows {
            return Err(format!("stripes hold at least {} rows, {} were committed", e, rows));
        }
        v.push(at..e);
        at = e;
    }
    if at != rows {
        return Err(format!("stripes hold {} rows, {} were committed", at, rows));
    }
    Ok(v)
}

// ---------------------------------------------------------------- C01

pub fn c01(b: &[u8], m: &Model) -> Check {
    let t = as_fail("C01/unreadable", tail(b))?;
    let rows = as_fail("C01/row-count", stripe_rows(&t, m.rows))?;
    if t.rows != Some(m.rows as u64) {
        return Err(fail("C01/row-count", format!("the footer says {:?} rows, {} were committed", t.rows, m.rows)));
    }
    for (i, r) in rows.iter().enumerate() {
        let s = as_fail("C01/unreadable", stripe(b, &t, i))?;
        for c in &m.cols {
            let cells = m.cells(c.id, r.clone());
            let what = |e: String| format!("stripe {} (rows {}..{}), column {} ({:?}): {}", i, r.start, r.end, c.id, c.kind, e);
            match s.encodings.get(c.id) {
                Some(0) => {}
                e => return Err(fail("C01/unreadable", what(format!("encoding {:?}", e)))),
            }
            let st = load(b, &t, &s, c.id).map_err(|e| fail("C01/unreadable", what(e)))?;
            let d = decode_all(&st, c.kind, cells.len()).map_err(|e| fail("C01/decode", what(e)))?;
            compare(c, cells, &d).map_err(|e| fail("C01/values", what(e)))?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn c05(b: &[u8], m: &Model, cfg: &Cfg) -> Check {
    let f = |s: String| Err(fail("C05/layout", s));
    let t = as_fail("C05/unreadable", tail(b))?;
    let mut at = 3u64;
    let ncols = m.cols.len() as u64;
    for (i, d) in t.stripes.iter().enumerate() {
        if d.offset != at {
            return f(format!("stripe {} at offset {}, the previous one ended at {}", i, d.offset, at));
        }
        if d.rows == 0 {
            return f(format!("stripe {} has no rows", i));
        }
        at = d.end();
        let s = as_fail("C05/unreadable", stripe(b, &t, i))?;
        let mut in_index = true;
        let (mut il, mut dl) = (0u64, 0u64);
        for x in &s.streams {
            if x.col >= ncols {
                return f(format!("stripe {}: a stream of column {}", i, x.col));
            }
            if x.kind == ROW_INDEX {
                if !in_index {
                    return f(format!("stripe {}: index stream of column {} among the data streams", i, x.col));
                }
                il += x.len as u64;
            } else {
                in_index = false;
                dl += x.len as u64;
            }
        }
        if il != d.index_len || dl != d.data_len {
            return f(format!("stripe {}: index streams have {} bytes, index length is {}; data streams have {}, data length is {}", i, il, d.index_len, dl, d.data_len));
        }
        for c in 0..ncols {
            if !s.by_key.contains_key(&(c, ROW_INDEX)) {
                return f(format!("stripe {}: no row index for column {}", i, c));
            }
        }
        if s.encodings.len() as u64 != ncols {
            return f(format!("stripe {}: {} encodings for {} columns", i, s.encodings.len(), ncols));
        }
    }
    if at != t.meta_start as u64 {
        return f(format!("stripes end at {}, metadata starts at {}", at, t.meta_start));
    }
    if t.stripe_stats.len() != t.stripes.len() {
        return f(format!("{} stripe statistics for {} stripes", t.stripe_stats.len(), t.stripes.len()));
    }
    let sum: u64 = t.stripes.iter().map(|s| s.rows).sum();
    if sum != m.rows as u64 || t.rows != Some(sum) {
        return f(format!("stripes hold {} rows, the footer says {:?}, {} were committed", sum, t.rows, m.rows));
    }
    if t.header_len != Some(3) {
        return f(format!("header length {:?}", t.header_len));
    }
    let body = at - 3;
    if t.content_len != Some(body) && t.content_len != Some(body + 3) {
        return f(format!("content length {:?}, the stripes take {} bytes", t.content_len, body));
    }
    let want = match cfg.codec {
        Codec::None => Comp::None,
        Codec::Snappy => Comp::Snappy,
        Codec::Zstd => Comp::Zstd,
    };
    if t.comp != want {
        return f(format!("compression {:?} recorded, {:?} configured", t.comp, want));
    }
    if want != Comp::None && t.block != Some(cfg.block_size()) {
        return f(format!("block size {:?} recorded, {} configured", t.block, cfg.block_size()));
    }
    if t.stride != Some(cfg.stride_value()) {
        return f(format!("row index stride {:?} recorded, {} configured", t.stride, cfg.stride_value()));
    }
    if t.version != [0, 12] {
        return f(format!("version {:?}", t.version));
    }
    // Below 6 (ORC-135) readers take the statistics of timestamps and strings for unreliable.
    if t.writer_version.map_or(true, |v| v < 6) {
        return f(format!("writer version {:?}", t.writer_version));
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06(b: &[u8], m: &Model) -> Check {
    let f = |s: String| Err(fail("C06/types", s));
    let t = as_fail("C06/unreadable", tail(b))?;
    if t.types.len() != m.cols.len() {
        return f(format!("{} types for {} columns", t.types.len(), m.cols.len()));
    }
    for c in &m.cols {
        let y = &t.types[c.id];
        let kind = match c.kind {
            Kind::Boolean => 0,
            Kind::Short => 2,
            Kind::Int => 3,
            Kind::Long => 4,
            Kind::Float => 5,
            Kind::Double => 6,
            Kind::Str => 7,
            Kind::Binary => 8,
            Kind::Timestamp => 9,
            Kind::List => 10,
            Kind::Map => 11,
            Kind::Struct => 12,
            Kind::Union => 13,
            Kind::Decimal(..) => 14,
            Kind::Date => 15,
            Kind::VarChar(_) => 16,
            Kind::Char(_) => 17,
        };
        if y.kind != kind {
            return f(format!("column {}: type kind {} for {:?}", c.id, y.kind, c.kind));
        }
        if y.subtypes != c.children.iter().map(|&x| x as u64).collect::<Vec<_>>() {
            return f(format!("column {}: subtypes {:?}, children are {:?}", c.id, y.subtypes, c.children));
        }
        let names: Vec<Vec<u8>> = match c.kind {
            Kind::Struct => c.children.iter().map(|&x| m.cols[x].name.as_bytes().to_vec()).collect(),
            _ => vec![],
        };
        if y.names != names {
            return f(format!("column {}: field names {:?}", c.id, y.names.iter().map(|n| String::from_utf8_lossy(n).into_owned()).collect::<Vec<_>>()));
        }
        match c.kind {
            Kind::Char(n) | Kind::VarChar(n) if y.max_len != Some(n as u64) => return f(format!("column {}: maximum length {:?} for {:?}", c.id, y.max_len, c.kind)),
            Kind::Decimal(p, s) if y.precision != Some(p as u64) || y.scale != Some(s as u64) => {
                return f(format!("column {}: precision {:?}, scale {:?} for {:?}", c.id, y.precision, y.scale, c.kind))
            }
            _ => {}
        }
    }
    if t.stats.len() != m.cols.len() {
        return f(format!("{} file statistics for {} columns", t.stats.len(), m.cols.len()));
    }
    for (i, s) in t.stripe_stats.iter().enumerate() {
        if s.len() != m.cols.len() {
            return f(format!("stripe {}: {} statistics for {} columns", i, s.len(), m.cols.len()));
        }
    }
    // The per-column lists must use the same ids: each column's streams fit its type and its
    // statistics are of its type's kind.
    for i in 0..t.stripes.len() {
        let s = as_fail("C06/unreadable", stripe(b, &t, i))?;
        if s.encodings.len() != m.cols.len() {
            return f(format!("stripe {}: {} encodings for {} columns", i, s.encodings.len(), m.cols.len()));
        }
        for c in &m.cols {
            let kinds: Vec<u64> = s.by_key.range((c.id as u64, 0)..(c.id as u64 + 1, 0)).map(|x| x.1.kind).filter(|&k| k != PRESENT).collect();
            let want: &[u64] = match c.kind {
                Kind::Struct => &[ROW_INDEX],
                Kind::List | Kind::Map => &[ROW_INDEX, LENGTH],
                Kind::Timestamp | Kind::Decimal(..) => &[ROW_INDEX, DATA, SECONDARY],
                Kind::Str | Kind::Binary | Kind::Char(_) | Kind::VarChar(_) => &[ROW_INDEX, DATA, LENGTH],
                _ => &[ROW_INDEX, DATA],
            };
            let mut k = kinds.clone();
            k.sort();
            let mut w = want.to_vec();
            w.sort();
            if k != w {
                return f(format!("stripe {}: column {} ({:?}) has streams of kinds {:?}", i, c.id, c.kind, kinds));
            }
            if t.stripe_stats.len() > i {
                stats_kind(c.kind, &t.stripe_stats[i][c.id]).or_else(|e| f(format!("stripe {}: column {} ({:?}): {}", i, c.id, c.kind, e)))?;
            }
        }
    }
    for c in &m.cols {
        stats_kind(c.kind, &t.stats[c.id]).or_else(|e| f(format!("file statistics: column {} ({:?}): {}", c.id, c.kind, e)))?;
    }
    Ok(())
}

/// Statistics may only be of the kind of the column's type.
fn stats_kind(kind: Kind, s: &ColStats) -> R<()> {
    let have = [
        ("int", s.int.is_some()),
        ("double", s.double.is_some()),
        ("string", s.string.is_some()),
        ("bucket", s.bucket.is_some()),
        ("decimal", s.decimal.is_some()),
        ("date", s.date.is_some()),
        ("binary", s.binary.is_some()),
        ("timestamp", s.ts.is_some()),
    ];
    let ok: &[&str] = match kind {
        Kind::Boolean => &["bucket"],
        Kind::Short | Kind::Int | Kind::Long => &["int"],
        Kind::Date => &["int", "date"],
        Kind::Float | Kind::Double => &["double"],
        Kind::Timestamp => &["timestamp"],
        Kind::Decimal(..) => &["decimal"],
        Kind::Str | Kind::Char(_) | Kind::VarChar(_) => &["string"],
        Kind::Binary => &["binary"],
        _ => &[],
    };
    match have.iter().find(|(n, h)| *h && !ok.contains(n)) {
        Some((n, _)) => Err(format!("{} statistics", n)),
        None => Ok(()),
    }
}

// ---------------------------------------------------------------- statistics (C07, C08)

fn minmax<T: PartialOrd + Copy + std::fmt::Debug>(what: &str, it: impl Iterator<Item = T>, min: Option<T>, max: Option<T>) -> R<()> {
    let (mut lo, mut hi): (Option<T>, Option<T>) = (None, None);
    for x in it {
        if lo.map_or(true, |l| x < l) {
            lo = Some(x);
        }
        if hi.map_or(true, |h| x > h) {
            hi = Some(x);
        }
    }
    if min != lo {
        return Err(format!("{} minimum {:?}, true minimum {:?}", what, min, lo));
    }
    if max != hi {
        return Err(format!("{} maximum {:?}, true maximum {:?}", what, max, hi));
    }
    Ok(())
}

/// Parses a decimal string into a value of the given scale.
pub fn parse_decimal(b: &[u8], scale: u32) -> R<i128> {
    let s = std::str::from_utf8(b).map_err(|_| "decimal: not UTF-8")?;
    let bad = || format!("decimal: cannot read {:?} at scale {}", s, scale);
    let (neg, s2) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let (i, f) = match s2.split_once('.') {
        Some((i, f)) => (i, f),
        None => (s2, ""),
    };
    if i.is_empty() && f.is_empty() || !i.bytes().chain(f.bytes()).all(|c| c.is_ascii_digit()) {
        return Err(bad());
    }
    let f = f.trim_end_matches('0');
    if f.len() > scale as usize {
        return Err(bad());
    }
    let mut x: i128 = 0;
    for c in i.bytes().chain(f.bytes()).chain(std::iter::repeat(b'0').take(scale as usize - f.len())) {
        let d = (c - b'0') as i128;
        x = x.checked_mul(10).and_then(|x| x.checked_add(if neg { -d } else { d })).ok_or_else(bad)?;
    }
    Ok(x)
}

pub fn check_stats(c: &Col, cells: Range<usize>, s: &ColStats) -> R<()> {
    let r = c.nn[cells.start] as usize..c.nn[cells.end] as usize;
    let n = r.len();
    let nulls = cells.len() - n;
    if s.count.unwrap_or(0) != n as u64 || (s.count.is_none() && n > 0) {
        return Err(format!("count {:?}, {} non-null values", s.count, n));
    }
    if s.has_null.unwrap_or(true) != (nulls > 0) {
        return Err(format!("hasNull {:?}, {} nulls", s.has_null, nulls));
    }
    stats_kind(c.kind, s)?;
    match &c.vals {
        Vals::Unit | Vals::Len(_) | Vals::Tag(_) => {}
        Vals::Bool(v) => {
            let t = v[r].iter().filter(|&&x| x).count() as u64;
            let b = s.bucket.clone().unwrap_or_default();
            let ok = match b.len() {
                0 => n == 0,
                1 => b[0] == t,
                2 => b[0] == t && b[1] == n as u64 - t,
                _ => false,
            };
            if !ok {
                return Err(format!("bucket counts {:?}, {} true and {} false", b, t, n as u64 - t));
            }
        }
        Vals::Int(v) => {
            let v = &v[r];
            if c.kind == Kind::Date {
                if let Some((a, b)) = s.date {
                    return minmax("date", v.iter().copied(), a, b);
                }
            }
            let (a, b, sum) = s.int.unwrap_or((None, None, None));
            minmax("integer", v.iter().copied(), a, b)?;
            let t: i128 = v.iter().map(|&x| x as i128).sum();
            let pos: i128 = v.iter().filter(|&&x| x > 0).map(|&x| x as i128).sum();
            let neg: i128 = v.iter().filter(|&&x| x < 0).map(|&x| x as i128).sum();
            match sum {
                Some(x) if x as i128 != t => return Err(format!("sum {}, true sum {}", x, t)),
                None if n > 0 && c.kind != Kind::Date && pos <= i64::MAX as i128 && neg >= i64::MIN as i128 => {
                    return Err(format!("no sum, true sum {}", t))
                }
                _ => {}
            }
        }
        Vals::F32(_) | Vals::F64(_) => {
            let v: Vec<f64> = match &c.vals {
                Vals::F32(v) => v[r].iter().map(|&x| f32::from_bits(x) as f64).collect(),
                Vals::F64(v) => v[r].iter().map(|&x| f64::from_bits(x)).collect(),
                _ => unreachable!(),
            };
            let (a, b, sum) = s.double.unwrap_or((None, None, None));
            let mut numbers = v.iter().copied().filter(|x| !x.is_nan()).peekable();
            if numbers.peek().is_some() {
                minmax("double", numbers, a, b)?;
            } else if a.map_or(false, |a| !a.is_nan()) || b.map_or(false, |b| !b.is_nan()) {
                return Err(format!("minimum {:?} and maximum {:?} of no numbers", a, b));
            }
            if v.iter().any(|x| x.is_nan()) {
                // Whatever a sum with NaN is.
            } else if v.iter().any(|x| x.is_infinite()) {
                let t: f64 = v.iter().filter(|x| x.is_infinite()).sum();
                if !sum.map_or(false, |x| x == t || x.is_nan() && t.is_nan()) && v.iter().all(|x| x.is_infinite() || x.abs() < 1e290) {
                    return Err(format!("sum {:?}, true sum {}", sum, t));
                }
            } else if n > 0 {
                let t: f64 = v.iter().sum();
                let abs: f64 = v.iter().map(|x| x.abs()).sum();
                if abs < 1e300 {
                    match sum {
                        Some(x) if (x - t).abs() <= abs * 1e-9 => {}
                        _ => return Err(format!("sum {:?}, true sum {}", sum, t)),
                    }
                }
            }
        }
        Vals::Ts(v) => {
            let ms: Vec<i64> = v[r].iter().map(|&(s, n, _)| (s + ORC_EPOCH) * 1000 + (n / 1_000_000) as i64).collect();
            let (a, b, au, bu) = s.ts.unwrap_or((None, None, None, None));
            if au.is_some() || bu.is_some() {
                minmax("timestamp (UTC)", ms.iter().copied(), au, bu)?;
            }
            if a.is_some() || b.is_some() || (au.is_none() && bu.is_none()) {
                minmax("timestamp", ms.iter().copied(), a, b)?;
            }
        }
        Vals::Dec(v) => {
            let scale = match c.kind {
                Kind::Decimal(_, s) => s,
                _ => unreachable!(),
            };
            let (a, b, sum) = s.decimal.clone().unwrap_or((None, None, None));
            let p = |x: Option<Vec<u8>>| -> R<Option<i128>> {
                match x {
                    None => Ok(None),
                    Some(b) => Ok(Some(parse_decimal(&b, scale)?)),
                }
            };
            let v = &v[r];
            minmax("decimal", v.iter().map(|x| x.0), p(a)?, p(b)?)?;
            let add = |pred: &dyn Fn(i128) -> bool| v.iter().filter(|x| pred(x.0)).try_fold(0i128, |s, x| s.checked_add(x.0));
            let (pos, neg) = (add(&|x| x > 0), add(&|x| x < 0));
            // In two halves, which cannot overflow.
            let low = v.iter().map(|x| x.0 as u64 as i128).sum::<i128>();
            let high = v.iter().map(|x| x.0 >> 64).sum::<i128>() + (low >> 64);
            match (p(sum)?, pos, neg) {
                (Some(x), _, _) if x >> 64 != high || x as u64 != low as u64 => return Err(format!("sum {}, true sum {} * 2^64 + {}", x, high, low as u64)),
                (None, Some(p), Some(q)) if n > 0 => return Err(format!("no sum, true sum {}", p + q)),
                _ => {}
            }
        }
        Vals::Bytes(v) => {
            let v = &v[r];
            let len: i64 = v.iter().map(|x| x.len() as i64).sum();
            if c.kind == Kind::Binary {
                let sum = s.binary.flatten();
                if sum.unwrap_or(0) != len {
                    return Err(format!("total length {:?}, true total {}", sum, len));
                }
            } else {
                let (a, b, sum) = s.string.clone().unwrap_or((None, None, None));
                if sum.unwrap_or(0) != len {
                    return Err(format!("total length {:?}, true total {}", sum, len));
                }
                let show = |x: Option<&Vec<u8>>| x.map(|b| String::from_utf8_lossy(&b[..b.len().min(60)]).into_owned());
                let (lo, hi) = (v.iter().min(), v.iter().max());
                if a.as_ref() != lo {
                    return Err(format!("string minimum {:?}, true minimum {:?}", show(a.as_ref()), show(lo)));
                }
                if b.as_ref() != hi {
                    return Err(format!("string maximum {:?}, true maximum {:?}", show(b.as_ref()), show(hi)));
                }
            }
        }
    }
    Ok(())
}

pub fn c07(b: &[u8], m: &Model) -> Check {
    let t = as_fail("C07/unreadable", tail(b))?;
    let rows = as_fail("C07/row-count", stripe_rows(&t, m.rows))?;
    if t.stripe_stats.len() != rows.len() {
        return Err(fail("C07/stripe", format!("{} stripe statistics for {} stripes", t.stripe_stats.len(), rows.len())));
    }
    for (i, r) in rows.iter().enumerate() {
        for c in &m.cols {
            let e = match t.stripe_stats[i].get(c.id) {
                Some(s) => check_stats(c, m.cells(c.id, r.clone()), s),
                None => Err("missing".into()),
            };
            e.map_err(|e| fail("C07/stripe", format!("stripe {} (rows {}..{}), column {} ({:?}): {}", i, r.start, r.end, c.id, c.kind, e)))?;
        }
    }
    for c in &m.cols {
        let e = match t.stats.get(c.id) {
            Some(s) => check_stats(c, m.cells(c.id, 0..m.rows), s),
            None => Err("missing".into()),
        };
        e.map_err(|e| fail("C07/file", format!("file statistics, column {} ({:?}): {}", c.id, c.kind, e)))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

pub const NESTED_GROUPS: &str = "C08/nested-column-groups-count-own-values";

fn check_groups(c: &Col, entries: &[IndexEntry], st: &Streams, groups: &[Range<usize>]) -> R<()> {
    if entries.len() != groups.len() {
        return Err(format!("{} row index entries for {} row groups", entries.len(), groups.len()));
    }
    for (k, g) in groups.iter().enumerate() {
        let d = decode_at(st, c.kind, g.len(), &entries[k].positions).map_err(|e| format!("entry {} {:?}: {}", k, entries[k].positions, e))?;
        compare(c, g.clone(), &d).map_err(|e| format!("entry {} {:?}: {}", k, entries[k].positions, e))?;
        let s = entries[k].stats.as_ref().ok_or_else(|| format!("entry {} has no statistics", k))?;
        check_stats(c, g.clone(), s).map_err(|e| format!("entry {} statistics: {}", k, e))?;
    }
    Ok(())
}

/// Returns the number of index entries that were followed.
pub fn c08(b: &[u8], m: &Model, cfg: &Cfg, known: &mut Vec<Fail>) -> Result<u64, Fail> {
    let t = as_fail("C08/unreadable", tail(b))?;
    let rows = as_fail("C08/row-count", stripe_rows(&t, m.rows))?;
    // Without a stride there are no row groups to lead to.
    if cfg.stride_value() == 0 {
        return Ok(0);
    }
    let stride = cfg.stride_value() as usize;
    let mut followed = 0;
    for (i, r) in rows.iter().enumerate() {
        let s = as_fail("C08/unreadable", stripe(b, &t, i))?;
        for c in &m.cols {
            let what = |e: String| format!("stripe {} (rows {}..{}), column {} ({:?}): {}", i, r.start, r.end, c.id, c.kind, e);
            let st = load(b, &t, &s, c.id).map_err(|e| fail("C08/unreadable", what(e)))?;
            let ix = s.section(b, &t, c.id, ROW_INDEX).map_err(|e| fail("C08/unreadable", what(e)))?;
            let ix = ix.ok_or_else(|| fail("C08/entries", what("no row index".into())))?;
            let entries = row_index(&ix).map_err(|e| fail("C08/unreadable", what(e)))?;
            let mut groups = vec![];
            let mut a = r.start;
            while a < r.end {
                let e = (a + stride).min(r.end);
                groups.push(m.cells(c.id, a..e));
                a = e;
            }
            followed += entries.len() as u64;
            let strict = check_groups(c, &entries, &st, &groups);
            if let Err(e) = strict {
                let cells = m.cells(c.id, r.clone());
                if !c.one_per_row {
                    // The known finding: groups of `stride` of the column's own values.
                    let mut own = vec![];
                    let mut a = cells.start;
                    while a < cells.end {
                        let e = (a + stride).min(cells.end);
                        own.push(a..e);
                        a = e;
                    }
                    match check_groups(c, &entries, &st, &own) {
                        Ok(()) => {
                            known.push(fail(NESTED_GROUPS, what(e)));
                            continue;
                        }
                        Err(e2) => return Err(fail("C08/nested", what(format!("{}; by the column's own values: {}", e, e2)))),
                    }
                }
                return Err(fail("C08/entries", what(e)));
            }
        }
    }
    Ok(followed)
}

// ---------------------------------------------------------------- C09

/// Returns (chunks, originals) seen.
pub fn c09(b: &[u8], cfg: &Cfg) -> Result<(u64, u64), Fail> {
    let t = as_fail("C09/unreadable", tail(b))?;
    let want = match cfg.codec {
        Codec::None => Comp::None,
        Codec::Snappy => Comp::Snappy,
        Codec::Zstd => Comp::Zstd,
    };
    if t.comp != want {
        return Err(fail("C09/kind", format!("compression {:?} recorded, {:?} configured", t.comp, want)));
    }
    let block = if want == Comp::None { 0 } else { t.block.unwrap_or(0) };
    if want != Comp::None && block != cfg.block_size() {
        return Err(fail("C09/kind", format!("block size {} recorded, {} configured", block, cfg.block_size())));
    }
    let (mut n, mut o) = (0, 0);
    let mut one = |s: &Section, what: &str| -> Check {
        n += s.chunks.len() as u64;
        o += s.chunks.iter().filter(|c| c.original).count() as u64;
        s.conforms(block).map_err(|e| fail("C09/chunk", format!("{}: {}", what, e)))
    };
    one(&t.footer_sec, "footer")?;
    one(&t.meta_sec, "metadata")?;
    for i in 0..t.stripes.len() {
        let s = as_fail("C09/unreadable", stripe(b, &t, i))?;
        one(&s.footer_sec, &format!("stripe {} footer", i))?;
        for x in &s.streams {
            let sec = as_fail("C09/chunk", section(&b[x.at..x.at + x.len], t.comp).map_err(|e| format!("stripe {} column {} stream kind {}: {}", i, x.col, x.kind, e)))?;
            one(&sec, &format!("stripe {} column {} stream kind {}", i, x.col, x.kind))?;
            if x.kind == ROW_INDEX {
                as_fail("C09/chunk", row_index(&sec).map_err(|e| format!("stripe {} column {} row index: {}", i, x.col, e)))?;
            }
        }
    }
    Ok((n, o))
}

// ---------------------------------------------------------------- C10

/// Bounds on the encoded size buffered at the batch boundaries inside one stripe.
struct Bounds {
    /// Per batch boundary (cells from the stripe's start): at least this much was buffered.
    lower: Vec<u64>,
    /// At the end of the stripe: at most this much was buffered.
    upper: u64,
}

fn emitted_floor(groups: &Groups, written: usize) -> usize {
    // Values still pending in the run-length encoder are not yet encoded bytes. The encoder may
    // hold the run of the last value and move up to two earlier values into it later.
    if written == 0 || groups.is_empty() {
        return 0;
    }
    let idx = written.saturating_sub(3);
    let k = groups.partition_point(|g| g.1 <= idx);
    groups[k - 1].0
}

fn stream_bounds(sec: &Section, emitted: &[usize], floor_at_end: usize) -> Bounds {
    let low = |e: usize| -> u64 {
        if !sec.compressed {
            return e as u64;
        }
        let mut t = 0u64;
        for c in &sec.chunks {
            if c.plain + c.raw <= e {
                t += c.stored as u64;
            } else if c.plain < e {
                // The block being filled counts with its plain bytes; but more than `e` may have been
                // emitted, up to and beyond the end of the block, which then counts compressed.
                t += (c.stored as u64).min((e - c.plain) as u64);
            }
        }
        t
    };
    let upper = if !sec.compressed {
        sec.plain.len() as u64
    } else {
        sec.chunks.iter().map(|c| 3 + if c.plain + c.raw < floor_at_end { c.stored } else { c.raw } as u64).sum()
    };
    Bounds { lower: emitted.iter().map(|&e| low(e)).collect(), upper }
}

pub fn c10(b: &[u8], m: &Model, cfg: &Cfg, calls: &[Call]) -> Result<u64, Fail> {
    let t = as_fail("C10/unreadable", tail(b))?;
    let rows = as_fail("C10/row-count", stripe_rows(&t, m.rows))?;
    let limit = cfg.stripe_value();
    // Whole batches.
    for (i, r) in rows.iter().enumerate() {
        if !m.batch_start.contains(&r.end) {
            return Err(fail("C10/whole-batches", format!("stripe {} ends at row {}, inside a batch", i, r.end)));
        }
    }
    // What each call sent.
    let mut done = 0usize; // complete stripes so far
    let mut cut_at_commit = vec![false; rows.len()];
    for c in calls {
        match c.op {
            Op::Commit(j) if c.res == Res::Ok => {
                if c.after == c.before {
                    continue;
                }
                let end_row = m.batch_start[j as usize + 1];
                if done >= rows.len() || rows[done].end != end_row || t.stripes[done].end() != c.after as u64 || t.stripes[done].offset != c.before as u64 {
                    return Err(fail(
                        "C10/partial-stripe",
                        format!("write_batch {} (rows up to {}) took the sink from {} to {} bytes, which is not one complete stripe ending with it", j, end_row, c.before, c.after),
                    ));
                }
                cut_at_commit[done] = true;
                done += 1;
            }
            Op::Finish | Op::New => {}
            _ => {
                if c.after != c.before {
                    return Err(fail("C10/partial-stripe", format!("{:?} sent {} bytes to the sink", c.op, c.after - c.before)));
                }
            }
        }
    }
    if done + 1 < rows.len() {
        return Err(fail("C10/buffered", format!("finish wrote {} stripes at once", rows.len() - done)));
    }
    // Against the limit.
    let mut judged = 0;
    for (i, r) in rows.iter().enumerate() {
        let s = as_fail("C10/unreadable", stripe(b, &t, i))?;
        let cut = cut_at_commit[i];
        let ends: Vec<usize> = {
            let mut v: Vec<usize> = m.batch_start.iter().copied().filter(|&x| x > r.start && x <= r.end).collect();
            v.dedup();
            v
        };
        let mut lower = vec![0u64; ends.len()];
        let mut upper = 0u64;
        for c in &m.cols {
            let what = |e: String| format!("stripe {} column {} ({:?}): {}", i, c.id, c.kind, e);
            let st = load(b, &t, &s, c.id).map_err(|e| fail("C10/unreadable", what(e)))?;
            let cells = m.cells(c.id, r.clone());
            let d = decode_all(&st, c.kind, cells.len()).map_err(|e| fail("C10/unreadable", what(e)))?;
            let g: BTreeMap<u64, &Groups> = d.groups.iter().map(|(k, g)| (*k, g)).collect();
            // (cells, non-null values) from the stripe's start at each batch end.
            let at: Vec<(usize, usize)> = ends
                .iter()
                .map(|&e| {
                    let x = m.cells(c.id, r.start..e);
                    (x.len(), (c.nn[x.end] - c.nn[x.start]) as usize)
                })
                .collect();
            if st.present.is_none() {
                // Buffered all the same: runs of 130 bytes of ones.
                upper += 2 * (cells.len() as u64 / 8 / 130);
            }
            let mut add = |sec: &Section, emitted: Vec<usize>| {
                let fl = *emitted.last().unwrap();
                let bd = stream_bounds(sec, &emitted, fl);
                for (l, x) in lower.iter_mut().zip(&bd.lower) {
                    *l += x;
                }
                upper += bd.upper;
            };
            if let Some(p) = &st.present {
                add(p, at.iter().map(|x| emitted_floor(g[&PRESENT], x.0 / 8)).collect());
            }
            match c.kind {
                Kind::Boolean => add(st.data.as_ref().unwrap(), at.iter().map(|x| emitted_floor(g[&DATA], x.1 / 8)).collect()),
                Kind::Short | Kind::Int | Kind::Long | Kind::Date | Kind::Union => {
                    add(st.data.as_ref().unwrap(), at.iter().map(|x| emitted_floor(g[&DATA], x.1)).collect())
                }
                Kind::Float => add(st.data.as_ref().unwrap(), at.iter().map(|x| 4 * x.1).collect()),
                Kind::Double => add(st.data.as_ref().unwrap(), at.iter().map(|x| 8 * x.1).collect()),
                Kind::Timestamp => {
                    add(st.data.as_ref().unwrap(), at.iter().map(|x| emitted_floor(g[&DATA], x.1)).collect());
                    add(st.secondary.as_ref().unwrap(), at.iter().map(|x| emitted_floor(g[&SECONDARY], x.1)).collect());
                }
                Kind::Decimal(..) => {
                    let data = st.data.as_ref().unwrap();
                    let mut e = vec![];
                    for x in &at {
                        e.push(dec_from(&data.plain, 0, x.1).map_err(|e| fail("C10/unreadable", what(e)))?.1);
                    }
                    add(data, e);
                    add(st.secondary.as_ref().unwrap(), at.iter().map(|x| emitted_floor(g[&SECONDARY], x.1)).collect());
                }
                Kind::Str | Kind::Binary | Kind::Char(_) | Kind::VarChar(_) => {
                    let v = match &d.vals {
                        Vals::Bytes(v) => v,
                        _ => unreachable!(),
                    };
                    add(st.data.as_ref().unwrap(), at.iter().map(|x| v[..x.1].iter().map(|b| b.len()).sum()).collect());
                    add(st.length.as_ref().unwrap(), at.iter().map(|x| emitted_floor(g[&LENGTH], x.1)).collect());
                }
                Kind::List | Kind::Map => add(st.length.as_ref().unwrap(), at.iter().map(|x| emitted_floor(g[&LENGTH], x.1)).collect()),
                Kind::Struct => {}
            }
        }
        judged += ends.len() as u64;
        if cut && upper <= limit {
            return Err(fail("C10/cut-early", format!("stripe {} (rows {}..{}) was cut with at most {} encoded bytes buffered, the stripe size is {}", i, r.start, r.end, upper, limit)));
        }
        let uncut = if cut { ends.len() - 1 } else { ends.len() };
        for k in 0..uncut {
            if lower[k] > limit {
                return Err(fail(
                    "C10/not-cut",
                    format!("stripe {}: after row {} at least {} encoded bytes were buffered, the stripe size is {}, and no stripe was written", i, ends[k], lower[k], limit),
                ));
            }
        }
    }
    Ok(judged)
}
