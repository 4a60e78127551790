//! C15: the published metadata types read back what a file records.
use crate::oracle::{fail, Check, Fail};
use crate::orc::*;
use crate::rng::Rng;
use orc_format::protos::orc_proto as p;
use protobuf::{parse_from_bytes, Message, ProtobufEnum};

#[derive(Default)]
pub struct Read {
    pub messages: u64,
    pub cuts: u64,
    pub cuts_refused: u64,
}

fn bad(what: &str, detail: String) -> Fail {
    fail("C15/misread", format!("{}: {}", what, detail))
}

/// Parses a section, checks that it encodes to the same bytes, and that reading a part of it
/// comes to an end.
fn parse<M: Message>(what: &str, b: &[u8], r: &mut Rng, n: &mut Read) -> Result<M, Fail> {
    let m: M = parse_from_bytes(b).map_err(|e| fail("C15/unreadable", format!("{} of {} bytes: {}", what, b.len(), e)))?;
    let again = m.write_to_bytes().map_err(|e| fail("C15/unwritable", format!("{}: {}", what, e)))?;
    if again != b {
        return Err(fail("C15/re-encoded", format!("{} of {} bytes encodes to {} other bytes", what, b.len(), again.len())));
    }
    if m.compute_size() as usize != b.len() {
        return Err(fail("C15/re-encoded", format!("{} of {} bytes claims a size of {}", what, b.len(), m.compute_size())));
    }
    n.messages += 1;
    // What a crash may leave of it.
    let cuts: Vec<usize> = if b.len() <= 24 { (0..b.len()).collect() } else { (0..16).map(|_| r.idx(b.len())).collect() };
    for c in cuts {
        n.cuts += 1;
        match parse_from_bytes::<M>(&b[..c]) {
            Err(_) => n.cuts_refused += 1,
            // The parser lets a cut packed or nested field pass; what it read cannot be more than
            // what was there.
            Ok(m) => {
                let again = m.write_to_bytes().map_err(|e| fail("C15/unwritable", format!("{} cut at {}: {}", what, c, e)))?;
                if again.len() > c {
                    return Err(fail("C15/torn", format!("{}: the first {} of {} bytes read as something of {} bytes", what, c, b.len(), again.len())));
                }
            }
        }
    }
    Ok(m)
}

macro_rules! same {
    ($what:expr, $field:expr, $got:expr, $want:expr) => {{
        let (got, want) = ($got, $want);
        if got != want {
            return Err(bad($what, format!("{} reads {:?}, the bytes say {:?}", $field, got, want)));
        }
    }};
}

fn opt<T>(has: bool, x: T) -> Option<T> {
    if has { Some(x) } else { None }
}

fn stats(what: &str, g: &p::ColumnStatistics, w: &ColStats) -> Check {
    same!(what, "number of values", opt(g.has_numberOfValues(), g.get_numberOfValues()), w.count);
    same!(what, "has null", opt(g.has_hasNull(), g.get_hasNull()), w.has_null);
    let i = g.get_intStatistics();
    same!(what, "integer statistics", opt(g.has_intStatistics(), (opt(i.has_minimum(), i.get_minimum()), opt(i.has_maximum(), i.get_maximum()), opt(i.has_sum(), i.get_sum()))), w.int);
    let d = g.get_doubleStatistics();
    let bits = |x: Option<f64>| x.map(f64::to_bits);
    same!(
        what,
        "double statistics",
        opt(g.has_doubleStatistics(), (opt(d.has_minimum(), d.get_minimum().to_bits()), opt(d.has_maximum(), d.get_maximum().to_bits()), opt(d.has_sum(), d.get_sum().to_bits()))),
        w.double.map(|(a, b, c)| (bits(a), bits(b), bits(c)))
    );
    let s = g.get_stringStatistics();
    let text = |has: bool, x: &str| opt(has, x.as_bytes().to_vec());
    same!(what, "string statistics", opt(g.has_stringStatistics(), (text(s.has_minimum(), s.get_minimum()), text(s.has_maximum(), s.get_maximum()), opt(s.has_sum(), s.get_sum()))), w.string.clone());
    same!(what, "bucket statistics", opt(g.has_bucketStatistics(), g.get_bucketStatistics().get_count().to_vec()), w.bucket.clone());
    let d = g.get_decimalStatistics();
    same!(what, "decimal statistics", opt(g.has_decimalStatistics(), (text(d.has_minimum(), d.get_minimum()), text(d.has_maximum(), d.get_maximum()), text(d.has_sum(), d.get_sum()))), w.decimal.clone());
    let d = g.get_dateStatistics();
    same!(what, "date statistics", opt(g.has_dateStatistics(), (opt(d.has_minimum(), d.get_minimum() as i64), opt(d.has_maximum(), d.get_maximum() as i64))), w.date);
    let b = g.get_binaryStatistics();
    same!(what, "binary statistics", opt(g.has_binaryStatistics(), opt(b.has_sum(), b.get_sum())), w.binary);
    let t = g.get_timestampStatistics();
    same!(
        what,
        "timestamp statistics",
        opt(g.has_timestampStatistics(), (opt(t.has_minimum(), t.get_minimum()), opt(t.has_maximum(), t.get_maximum()), opt(t.has_minimumUtc(), t.get_minimumUtc()), opt(t.has_maximumUtc(), t.get_maximumUtc()))),
        w.ts
    );
    Ok(())
}

pub fn c15(b: &[u8], seed: u64) -> Result<Read, Fail> {
    let mut rr = Rng::new(seed);
    let r = &mut rr;
    let mut n = Read::default();
    let un = |e: String| fail("C15/unreadable", e);
    let t = tail(b).map_err(un)?;
    let ps: p::PostScript = parse("postscript", &b[t.ps_start..b.len() - 1], r, &mut n)?;
    let w = "postscript";
    let raw = Msg::parse(&b[t.ps_start..b.len() - 1]).map_err(un)?;
    same!(w, "footer length", opt(ps.has_footerLength(), ps.get_footerLength()), raw.int(1).map_err(un)?);
    same!(w, "metadata length", opt(ps.has_metadataLength(), ps.get_metadataLength()), raw.int(5).map_err(un)?);
    same!(w, "compression", ps.get_compression().value(), match t.comp {
        Comp::None => 0,
        Comp::Snappy => 2,
        Comp::Zstd => 5,
    });
    same!(w, "block size", opt(ps.has_compressionBlockSize(), ps.get_compressionBlockSize()), t.block);
    same!(w, "version", ps.get_version().iter().map(|&x| x as u64).collect::<Vec<_>>(), t.version.clone());
    same!(w, "writer version", opt(ps.has_writerVersion(), ps.get_writerVersion() as u64), t.writer_version);
    same!(w, "magic", ps.get_magic(), "ORC");

    let f: p::Footer = parse("footer", &t.footer_sec.plain, r, &mut n)?;
    let w = "footer";
    same!(w, "header length", opt(f.has_headerLength(), f.get_headerLength()), t.header_len);
    same!(w, "content length", opt(f.has_contentLength(), f.get_contentLength()), t.content_len);
    same!(w, "rows", opt(f.has_numberOfRows(), f.get_numberOfRows()), t.rows);
    same!(w, "stride", opt(f.has_rowIndexStride(), f.get_rowIndexStride() as u64), t.stride);
    same!(w, "stripes", f.get_stripes().len(), t.stripes.len());
    for (g, s) in f.get_stripes().iter().zip(&t.stripes) {
        same!(w, "stripe", (g.get_offset(), g.get_indexLength(), g.get_dataLength(), g.get_footerLength(), g.get_numberOfRows()), (s.offset, s.index_len, s.data_len, s.footer_len, s.rows));
    }
    same!(w, "types", f.get_types().len(), t.types.len());
    for (g, x) in f.get_types().iter().zip(&t.types) {
        same!(w, "type kind", g.get_kind().value() as u64, x.kind);
        same!(w, "subtypes", g.get_subtypes().iter().map(|&x| x as u64).collect::<Vec<_>>(), x.subtypes.clone());
        same!(w, "field names", g.get_fieldNames().iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>(), x.names.clone());
        same!(w, "maximum length", opt(g.has_maximumLength(), g.get_maximumLength() as u64), x.max_len);
        same!(w, "precision", opt(g.has_precision(), g.get_precision() as u64), x.precision);
        same!(w, "scale", opt(g.has_scale(), g.get_scale() as u64), x.scale);
    }
    same!(w, "statistics", f.get_statistics().len(), t.stats.len());
    for (g, x) in f.get_statistics().iter().zip(&t.stats) {
        stats(w, g, x)?;
    }

    let m: p::Metadata = parse("metadata", &t.meta_sec.plain, r, &mut n)?;
    let w = "metadata";
    same!(w, "stripes", m.get_stripeStats().len(), t.stripe_stats.len());
    for (g, x) in m.get_stripeStats().iter().zip(&t.stripe_stats) {
        same!(w, "columns", g.get_colStats().len(), x.len());
        for (g, x) in g.get_colStats().iter().zip(x) {
            stats(w, g, x)?;
        }
    }

    let picks: Vec<usize> = if t.stripes.len() <= 4 { (0..t.stripes.len()).collect() } else { (0..4).map(|_| r.idx(t.stripes.len())).collect() };
    for i in picks {
        let s = stripe(b, &t, i).map_err(un)?;
        let g: p::StripeFooter = parse("stripe footer", &s.footer_sec.plain, r, &mut n)?;
        let w = "stripe footer";
        same!(w, "streams", g.get_streams().len(), s.streams.len());
        for (g, x) in g.get_streams().iter().zip(&s.streams) {
            same!(w, "stream", (g.get_kind().value() as u64, g.get_column() as u64, g.get_length()), (x.kind, x.col, x.len as u64));
        }
        same!(w, "encodings", g.get_columns().iter().map(|c| c.get_kind().value() as u64).collect::<Vec<_>>(), s.encodings.clone());
        for x in s.streams.iter().filter(|x| x.kind == ROW_INDEX) {
            if s.encodings.len() > 20 && !r.chance(20, s.encodings.len() as u64) {
                continue;
            }
            let sec = section(&b[x.at..x.at + x.len], t.comp).map_err(un)?;
            let want = row_index(&sec).map_err(un)?;
            let g: p::RowIndex = parse("row index", &sec.plain, r, &mut n)?;
            let w = "row index";
            same!(w, "entries", g.get_entry().len(), want.len());
            for (g, x) in g.get_entry().iter().zip(&want) {
                same!(w, "positions", g.get_positions(), &x.positions[..]);
                same!(w, "statistics", g.has_statistics(), x.stats.is_some());
                if let Some(x) = &x.stats {
                    stats(w, g.get_statistics(), x)?;
                }
            }
        }
    }
    Ok(n)
}
