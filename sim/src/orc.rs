//! An independent reader of ORC v1 files, written from the format specification and sharing no
//! code with the writer under test: its own protobuf wire parser, chunk parser and run-length
//! decoders. It is strict: whatever is not exactly accounted for is an error.
use std::cell::RefCell;
use std::collections::BTreeMap;

pub type R<T> = Result<T, String>;

// ---------------------------------------------------------------- protobuf wire format

#[derive(Clone, Copy, Debug)]
pub enum Val<'a> {
    Int(u64),
    F64(u64),
    F32(u32),
    Buf(&'a [u8]),
}

fn varint(b: &[u8], p: &mut usize) -> R<u64> {
    let mut x = 0u64;
    let mut sh = 0;
    loop {
        let c = *b.get(*p).ok_or("protobuf: truncated varint")?;
        *p += 1;
        if sh == 63 && c > 1 || sh > 63 {
            return Err("protobuf: varint too long".into());
        }
        x |= ((c & 0x7f) as u64) << sh;
        if c < 0x80 {
            return Ok(x);
        }
        sh += 7;
    }
}

pub struct Msg<'a>(pub Vec<(u32, Val<'a>)>);

impl<'a> Msg<'a> {
    pub fn parse(b: &'a [u8]) -> R<Msg<'a>> {
        let mut p = 0;
        let mut out = vec![];
        while p < b.len() {
            let key = varint(b, &mut p)?;
            let f = key >> 3;
            if f == 0 || f > 0x1fff_ffff {
                return Err("protobuf: bad field number".into());
            }
            let v = match key & 7 {
                0 => Val::Int(varint(b, &mut p)?),
                1 => {
                    let s = b.get(p..p + 8).ok_or("protobuf: truncated fixed64")?;
                    p += 8;
                    Val::F64(u64::from_le_bytes(s.try_into().unwrap()))
                }
                2 => {
                    let n = varint(b, &mut p)? as usize;
                    let end = p.checked_add(n).ok_or("protobuf: bad length")?;
                    let s = b.get(p..end).ok_or("protobuf: truncated field")?;
                    p = end;
                    Val::Buf(s)
                }
                5 => {
                    let s = b.get(p..p + 4).ok_or("protobuf: truncated fixed32")?;
                    p += 4;
                    Val::F32(u32::from_le_bytes(s.try_into().unwrap()))
                }
                w => return Err(format!("protobuf: wire type {}", w)),
            };
            out.push((f as u32, v));
        }
        Ok(Msg(out))
    }
    pub fn only(&self, known: &[u32], what: &str) -> R<()> {
        for (f, _) in &self.0 {
            if !known.contains(f) {
                return Err(format!("{}: unknown field {}", what, f));
            }
        }
        Ok(())
    }
    pub fn int(&self, f: u32) -> R<Option<u64>> {
        let mut r = None;
        for (g, v) in &self.0 {
            if *g == f {
                match v {
                    Val::Int(x) => r = Some(*x),
                    _ => return Err(format!("protobuf: field {} has the wrong wire type", f)),
                }
            }
        }
        Ok(r)
    }
    pub fn sint(&self, f: u32) -> R<Option<i64>> {
        Ok(self.int(f)?.map(zigzag))
    }
    pub fn f64(&self, f: u32) -> R<Option<f64>> {
        let mut r = None;
        for (g, v) in &self.0 {
            if *g == f {
                match v {
                    Val::F64(x) => r = Some(f64::from_bits(*x)),
                    _ => return Err(format!("protobuf: field {} has the wrong wire type", f)),
                }
            }
        }
        Ok(r)
    }
    pub fn bufs(&self, f: u32) -> R<Vec<&'a [u8]>> {
        let mut r = vec![];
        for (g, v) in &self.0 {
            if *g == f {
                match v {
                    Val::Buf(x) => r.push(*x),
                    _ => return Err(format!("protobuf: field {} has the wrong wire type", f)),
                }
            }
        }
        Ok(r)
    }
    pub fn buf(&self, f: u32) -> R<Option<&'a [u8]>> {
        Ok(self.bufs(f)?.last().copied())
    }
    /// Repeated integers, packed or not.
    pub fn ints(&self, f: u32) -> R<Vec<u64>> {
        let mut r = vec![];
        for (g, v) in &self.0 {
            if *g == f {
                match v {
                    Val::Int(x) => r.push(*x),
                    Val::Buf(b) => {
                        let mut p = 0;
                        while p < b.len() {
                            r.push(varint(b, &mut p)?);
                        }
                    }
                    _ => return Err(format!("protobuf: field {} has the wrong wire type", f)),
                }
            }
        }
        Ok(r)
    }
    pub fn string(&self, f: u32) -> R<Option<Vec<u8>>> {
        Ok(self.buf(f)?.map(|b| b.to_vec()))
    }
}

pub fn zigzag(x: u64) -> i64 {
    ((x >> 1) as i64) ^ -((x & 1) as i64)
}

// ---------------------------------------------------------------- chunks

#[derive(Clone, Copy, Debug)]
pub struct Chunk {
    /// Offset of the chunk header in the stored section.
    pub at: usize,
    pub stored: usize,
    /// Offset and length in the plain bytes.
    pub plain: usize,
    pub raw: usize,
    pub original: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Section {
    pub plain: Vec<u8>,
    pub chunks: Vec<Chunk>,
    pub stored_len: usize,
    pub compressed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Comp {
    None,
    Snappy,
    Zstd,
}

const SCRATCH_LEN: usize = (1 << 23) + (1 << 16);

thread_local! {
    static SCRATCH: RefCell<(Vec<u8>, Option<zstd::bulk::Decompressor<'static>>)> = RefCell::new((Vec::new(), None));
}

/// Decodes into a scratch buffer of fixed size, somewhat larger than the largest legal block, so
/// that the outcome never depends on what was decoded before.
fn zstd_decode(b: &[u8], out: &mut Vec<u8>) -> R<usize> {
    SCRATCH.with(|s| {
        let mut s = s.borrow_mut();
        if s.1.is_none() {
            s.1 = Some(zstd::bulk::Decompressor::new().map_err(|e| e.to_string())?);
            s.0 = vec![0; SCRATCH_LEN];
        }
        let (buf, d) = &mut *s;
        let n = d.as_mut().unwrap().decompress_to_buffer(b, &mut buf[..]).map_err(|e| format!("chunk: zstd: {}", e))?;
        out.extend_from_slice(&buf[..n]);
        Ok(n)
    })
}

/// Splits a stored section into chunks and decompresses them.
pub fn section(b: &[u8], comp: Comp) -> R<Section> {
    if comp == Comp::None {
        return Ok(Section { plain: b.to_vec(), chunks: vec![], stored_len: b.len(), compressed: false });
    }
    let mut s = Section { plain: vec![], chunks: vec![], stored_len: b.len(), compressed: true };
    let mut p = 0;
    while p < b.len() {
        let h = b.get(p..p + 3).ok_or_else(|| format!("chunk: truncated header at {}", p))?;
        let h = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
        let (original, len) = (h & 1 == 1, h >> 1);
        let body = b.get(p + 3..p + 3 + len).ok_or_else(|| format!("chunk: body of {} bytes at {} runs past the section ({} bytes)", len, p, b.len()))?;
        let start = s.plain.len();
        let raw = if original {
            s.plain.extend_from_slice(body);
            len
        } else {
            match comp {
                Comp::Snappy => {
                    let n = snap::decompress_len(body).map_err(|e| format!("chunk: snappy: {}", e))?;
                    if n > SCRATCH_LEN {
                        return Err(format!("chunk: snappy length {} beyond any block size", n));
                    }
                    let v = snap::Decoder::new().decompress_vec(body).map_err(|e| format!("chunk: snappy: {}", e))?;
                    s.plain.extend_from_slice(&v);
                    n
                }
                Comp::Zstd => {
                    zstd_decode(body, &mut s.plain)?
                }
                Comp::None => unreachable!(),
            }
        };
        s.chunks.push(Chunk { at: p, stored: len, plain: start, raw, original });
        p += 3 + len;
    }
    Ok(s)
}

impl Section {
    /// C09: each chunk holds 1..=block raw bytes and is not stored larger than them.
    pub fn conforms(&self, block: u64) -> R<()> {
        for c in &self.chunks {
            if c.raw == 0 {
                return Err(format!("chunk at {} is empty", c.at));
            }
            if c.raw as u64 > block {
                return Err(format!("chunk at {} holds {} bytes, more than the declared block size {}", c.at, c.raw, block));
            }
            if c.stored > c.raw {
                return Err(format!("chunk at {} is stored in {} bytes although it holds only {}", c.at, c.stored, c.raw));
            }
        }
        Ok(())
    }

    /// Where reading starts for a recorded position (block start if compressed, offset).
    pub fn seek(&self, pos: &mut std::slice::Iter<u64>) -> R<usize> {
        if !self.compressed {
            let o = *pos.next().ok_or("too few positions")? as usize;
            if o > self.plain.len() {
                return Err(format!("position {} beyond the stream's {} bytes", o, self.plain.len()));
            }
            return Ok(o);
        }
        let at = *pos.next().ok_or("too few positions")? as usize;
        let off = *pos.next().ok_or("too few positions")? as usize;
        if at == self.stored_len {
            if off != 0 {
                return Err(format!("position ({}, {}) beyond the stream's {} stored bytes", at, off, self.stored_len));
            }
            return Ok(self.plain.len());
        }
        match self.chunks.binary_search_by_key(&at, |c| c.at) {
            Ok(i) => {
                let c = self.chunks[i];
                if off > c.raw {
                    return Err(format!("position ({}, {}) beyond the {} bytes of its chunk", at, off, c.raw));
                }
                Ok(c.plain + off)
            }
            Err(_) => Err(format!("position ({}, {}): no chunk starts there", at, off)),
        }
    }
}

// ---------------------------------------------------------------- run-length decoders

/// (plain offset, index of first value) of every run.
pub type Groups = Vec<(usize, usize)>;

pub fn byte_rle(b: &[u8], start: usize, want: usize, groups: &mut Groups) -> R<(Vec<u8>, usize)> {
    let mut v = Vec::with_capacity(want);
    let mut p = start;
    while v.len() < want {
        let c = *b.get(p).ok_or_else(|| format!("byte run: stream ends after {} of {} values", v.len(), want))?;
        groups.push((p, v.len()));
        p += 1;
        if c < 128 {
            let x = *b.get(p).ok_or("byte run: truncated run")?;
            p += 1;
            v.extend(std::iter::repeat(x).take(c as usize + 3));
        } else {
            let n = 256 - c as usize;
            v.extend_from_slice(b.get(p..p + n).ok_or("byte run: truncated literals")?);
            p += n;
        }
    }
    Ok((v, p))
}

fn long_varint(b: &[u8], p: &mut usize) -> R<u128> {
    let mut x = 0u128;
    let mut sh = 0;
    loop {
        let c = *b.get(*p).ok_or("varint: stream ends inside a value")?;
        *p += 1;
        if sh > 126 || (sh == 126 && c > 3) {
            return Err("varint: too long".into());
        }
        x |= ((c & 0x7f) as u128) << sh;
        if c < 0x80 {
            return Ok(x);
        }
        sh += 7;
    }
}

fn int_varint(b: &[u8], p: &mut usize) -> R<u64> {
    let x = long_varint(b, p)?;
    if x > u64::MAX as u128 {
        return Err("varint: more than 64 bits".into());
    }
    Ok(x as u64)
}

pub fn int_rle(b: &[u8], start: usize, want: usize, signed: bool, groups: &mut Groups) -> R<(Vec<i64>, usize)> {
    let mut v: Vec<i64> = Vec::with_capacity(want);
    let mut p = start;
    while v.len() < want {
        let c = *b.get(p).ok_or_else(|| format!("int run: stream ends after {} of {} values", v.len(), want))?;
        groups.push((p, v.len()));
        p += 1;
        let one = |p: &mut usize| -> R<i64> {
            let u = int_varint(b, p)?;
            Ok(if signed { zigzag(u) } else { u as i64 })
        };
        if c < 128 {
            let d = *b.get(p).ok_or("int run: truncated run")? as i8 as i64;
            p += 1;
            let mut x = one(&mut p)?;
            for _ in 0..c as usize + 3 {
                v.push(x);
                x = x.wrapping_add(d);
            }
        } else {
            for _ in 0..256 - c as usize {
                v.push(one(&mut p)?);
            }
        }
    }
    Ok((v, p))
}

/// Whole stream: exactly `want` values and not a byte more.
pub fn ints_exact(b: &[u8], want: usize, signed: bool) -> R<(Vec<i64>, Groups)> {
    let mut g = vec![];
    let (v, p) = int_rle(b, 0, want, signed, &mut g)?;
    if v.len() != want || p != b.len() {
        return Err(format!("int run: {} values expected, stream has {} and {} bytes left", want, v.len(), b.len() - p));
    }
    Ok((v, g))
}

pub fn bytes_exact(b: &[u8], want: usize) -> R<(Vec<u8>, Groups)> {
    let mut g = vec![];
    let (v, p) = byte_rle(b, 0, want, &mut g)?;
    if v.len() != want || p != b.len() {
        return Err(format!("byte run: {} values expected, stream has {} and {} bytes left", want, v.len(), b.len() - p));
    }
    Ok((v, g))
}

fn bits_of(v: &[u8], skip: usize, want: usize) -> Vec<bool> {
    (skip..skip + want).map(|i| (v[i / 8] >> (7 - i % 8)) & 1 == 1).collect()
}

pub fn bits_exact(b: &[u8], want: usize) -> R<(Vec<bool>, Groups)> {
    let (v, g) = bytes_exact(b, (want + 7) / 8)?;
    Ok((bits_of(&v, 0, want), g))
}

pub fn bits_from(b: &[u8], start: usize, skip_bytes: usize, skip_bits: usize, want: usize) -> R<Vec<bool>> {
    if want == 0 {
        return Ok(vec![]);
    }
    if skip_bits > 7 {
        return Err(format!("bit position {}", skip_bits));
    }
    let (v, _) = byte_rle(b, start, skip_bytes + (skip_bits + want + 7) / 8, &mut vec![])?;
    Ok(bits_of(&v, skip_bytes * 8 + skip_bits, want))
}

pub fn ints_from(b: &[u8], start: usize, skip: usize, want: usize, signed: bool) -> R<Vec<i64>> {
    if want == 0 {
        return Ok(vec![]);
    }
    let (v, _) = int_rle(b, start, skip + want, signed, &mut vec![])?;
    Ok(v[skip..skip + want].to_vec())
}

pub fn bytes_from(b: &[u8], start: usize, skip: usize, want: usize) -> R<Vec<u8>> {
    if want == 0 {
        return Ok(vec![]);
    }
    let (v, _) = byte_rle(b, start, skip + want, &mut vec![])?;
    Ok(v[skip..skip + want].to_vec())
}

/// Decimals: unbounded zigzag varints.
pub fn dec_from(b: &[u8], start: usize, want: usize) -> R<(Vec<i128>, usize)> {
    let mut v = Vec::with_capacity(want);
    let mut p = start;
    for _ in 0..want {
        let u = long_varint(b, &mut p)?;
        v.push(((u >> 1) as i128) ^ -((u & 1) as i128));
    }
    Ok((v, p))
}

// ---------------------------------------------------------------- file structure

#[derive(Clone, Debug, Default)]
pub struct ColStats {
    pub count: Option<u64>,
    pub has_null: Option<bool>,
    pub int: Option<(Option<i64>, Option<i64>, Option<i64>)>,
    pub double: Option<(Option<f64>, Option<f64>, Option<f64>)>,
    pub string: Option<(Option<Vec<u8>>, Option<Vec<u8>>, Option<i64>)>,
    pub bucket: Option<Vec<u64>>,
    pub decimal: Option<(Option<Vec<u8>>, Option<Vec<u8>>, Option<Vec<u8>>)>,
    pub date: Option<(Option<i64>, Option<i64>)>,
    pub binary: Option<Option<i64>>,
    pub ts: Option<(Option<i64>, Option<i64>, Option<i64>, Option<i64>)>,
}

pub fn col_stats(b: &[u8]) -> R<ColStats> {
    let m = Msg::parse(b)?;
    m.only(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10], "column statistics")?;
    let mut s = ColStats { count: m.int(1)?, has_null: m.int(10)?.map(|x| x != 0), ..Default::default() };
    if let Some(b) = m.buf(2)? {
        let m = Msg::parse(b)?;
        s.int = Some((m.sint(1)?, m.sint(2)?, m.sint(3)?));
    }
    if let Some(b) = m.buf(3)? {
        let m = Msg::parse(b)?;
        s.double = Some((m.f64(1)?, m.f64(2)?, m.f64(3)?));
    }
    if let Some(b) = m.buf(4)? {
        let m = Msg::parse(b)?;
        s.string = Some((m.string(1)?, m.string(2)?, m.sint(3)?));
    }
    if let Some(b) = m.buf(5)? {
        s.bucket = Some(Msg::parse(b)?.ints(1)?);
    }
    if let Some(b) = m.buf(6)? {
        let m = Msg::parse(b)?;
        s.decimal = Some((m.string(1)?, m.string(2)?, m.string(3)?));
    }
    if let Some(b) = m.buf(7)? {
        let m = Msg::parse(b)?;
        s.date = Some((m.sint(1)?, m.sint(2)?));
    }
    if let Some(b) = m.buf(8)? {
        s.binary = Some(Msg::parse(b)?.sint(1)?);
    }
    if let Some(b) = m.buf(9)? {
        let m = Msg::parse(b)?;
        s.ts = Some((m.sint(1)?, m.sint(2)?, m.sint(3)?, m.sint(4)?));
    }
    Ok(s)
}

#[derive(Clone, Debug)]
pub struct TypeInfo {
    pub kind: u64,
    pub subtypes: Vec<u64>,
    pub names: Vec<Vec<u8>>,
    pub max_len: Option<u64>,
    pub precision: Option<u64>,
    pub scale: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct StripeDesc {
    pub offset: u64,
    pub index_len: u64,
    pub data_len: u64,
    pub footer_len: u64,
    pub rows: u64,
}

impl StripeDesc {
    pub fn end(&self) -> u64 {
        self.offset.saturating_add(self.index_len).saturating_add(self.data_len).saturating_add(self.footer_len)
    }
}

pub struct Tail {
    pub ps_len: usize,
    pub ps_start: usize,
    pub footer_start: usize,
    pub meta_start: usize,
    pub comp: Comp,
    pub block: Option<u64>,
    pub version: Vec<u64>,
    pub writer_version: Option<u64>,
    pub header_len: Option<u64>,
    pub content_len: Option<u64>,
    pub rows: Option<u64>,
    pub stride: Option<u64>,
    pub stripes: Vec<StripeDesc>,
    pub types: Vec<TypeInfo>,
    pub stats: Vec<ColStats>,
    pub stripe_stats: Vec<Vec<ColStats>>,
    pub footer_sec: Section,
    pub meta_sec: Section,
}

/// Reads postscript, footer and metadata.
pub fn tail(b: &[u8]) -> R<Tail> {
    if b.len() < 5 {
        return Err(format!("tail: only {} bytes", b.len()));
    }
    if &b[..3] != b"ORC" {
        return Err("tail: no magic at the start".into());
    }
    let ps_len = b[b.len() - 1] as usize;
    let ps_end = b.len() - 1;
    if ps_len == 0 || ps_len + 3 > ps_end {
        return Err(format!("tail: postscript length {}", ps_len));
    }
    let ps_start = ps_end - ps_len;
    let ps = Msg::parse(&b[ps_start..ps_end]).map_err(|e| format!("tail: postscript: {}", e))?;
    ps.only(&[1, 2, 3, 4, 5, 6, 7, 8000], "tail: postscript")?;
    if ps.buf(8000)? != Some(b"ORC") {
        return Err("tail: no magic in the postscript".into());
    }
    let flen = ps.int(1)?.ok_or("tail: no footer length")? as usize;
    let mlen = ps.int(5)?.unwrap_or(0) as usize;
    if flen.saturating_add(mlen).saturating_add(3) > ps_start {
        return Err(format!("tail: footer length {} and metadata length {} do not fit", flen, mlen));
    }
    let footer_start = ps_start - flen;
    let meta_start = footer_start - mlen;
    let comp = match ps.int(2)?.unwrap_or(0) {
        0 => Comp::None,
        2 => Comp::Snappy,
        5 => Comp::Zstd,
        k => return Err(format!("tail: compression kind {}", k)),
    };
    let block = ps.int(3)?;
    if comp != Comp::None && block.map_or(true, |x| x == 0 || x > 1 << 23) {
        return Err(format!("tail: block size {:?}", block));
    }
    let footer_sec = section(&b[footer_start..ps_start], comp).map_err(|e| format!("tail: footer: {}", e))?;
    let meta_sec = section(&b[meta_start..footer_start], comp).map_err(|e| format!("tail: metadata: {}", e))?;
    let plain = footer_sec.plain.clone();
    let f = Msg::parse(&plain).map_err(|e| format!("tail: footer: {}", e))?;
    f.only(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], "tail: footer")?;
    let mut stripes = vec![];
    for s in f.bufs(3)? {
        let m = Msg::parse(s).map_err(|e| format!("tail: stripe information: {}", e))?;
        stripes.push(StripeDesc {
            offset: m.int(1)?.ok_or("tail: stripe without offset")?,
            index_len: m.int(2)?.unwrap_or(0),
            data_len: m.int(3)?.unwrap_or(0),
            footer_len: m.int(4)?.ok_or("tail: stripe without footer length")?,
            rows: m.int(5)?.ok_or("tail: stripe without rows")?,
        });
    }
    let mut types = vec![];
    for t in f.bufs(4)? {
        let m = Msg::parse(t).map_err(|e| format!("tail: type: {}", e))?;
        m.only(&[1, 2, 3, 4, 5, 6, 7], "tail: type")?;
        types.push(TypeInfo {
            kind: m.int(1)?.ok_or("tail: type without kind")?,
            subtypes: m.ints(2)?,
            names: m.bufs(3)?.iter().map(|b| b.to_vec()).collect(),
            max_len: m.int(4)?,
            precision: m.int(5)?,
            scale: m.int(6)?,
        });
    }
    let mut stats = vec![];
    for s in f.bufs(7)? {
        stats.push(col_stats(s).map_err(|e| format!("tail: file statistics: {}", e))?);
    }
    let mut stripe_stats = vec![];
    let mp = meta_sec.plain.clone();
    let m = Msg::parse(&mp).map_err(|e| format!("tail: metadata: {}", e))?;
    m.only(&[1], "tail: metadata")?;
    for s in m.bufs(1)? {
        let mut v = vec![];
        for c in Msg::parse(s).map_err(|e| format!("tail: stripe statistics: {}", e))?.bufs(1)? {
            v.push(col_stats(c).map_err(|e| format!("tail: stripe statistics: {}", e))?);
        }
        stripe_stats.push(v);
    }
    Ok(Tail {
        ps_len,
        ps_start,
        footer_start,
        meta_start,
        comp,
        block,
        version: ps.ints(4)?,
        writer_version: ps.int(6)?,
        header_len: f.int(1)?,
        content_len: f.int(2)?,
        rows: f.int(6)?,
        stride: f.int(8)?,
        stripes,
        types,
        stats,
        stripe_stats,
        footer_sec,
        meta_sec,
    })
}

pub const PRESENT: u64 = 0;
pub const DATA: u64 = 1;
pub const LENGTH: u64 = 2;
pub const SECONDARY: u64 = 5;
pub const ROW_INDEX: u64 = 6;

#[derive(Clone, Copy, Debug)]
pub struct StreamDesc {
    pub kind: u64,
    pub col: u64,
    pub at: usize,
    pub len: usize,
}

pub struct Stripe {
    pub desc: StripeDesc,
    pub streams: Vec<StreamDesc>,
    pub encodings: Vec<u64>,
    pub footer_sec: Section,
    pub by_key: BTreeMap<(u64, u64), StreamDesc>,
}

/// Reads a stripe footer and lays out its streams.
pub fn stripe(b: &[u8], t: &Tail, i: usize) -> R<Stripe> {
    let d = t.stripes[i].clone();
    let end = d.end() as usize;
    if end > t.meta_start || d.offset < 3 {
        return Err(format!("stripe {}: offset {} and lengths {}+{}+{} leave the content area", i, d.offset, d.index_len, d.data_len, d.footer_len));
    }
    let fs = end - d.footer_len as usize;
    let footer_sec = section(&b[fs..end], t.comp).map_err(|e| format!("stripe {} footer: {}", i, e))?;
    let plain = footer_sec.plain.clone();
    let m = Msg::parse(&plain).map_err(|e| format!("stripe {} footer: {}", i, e))?;
    m.only(&[1, 2, 3, 4, 5], "stripe footer")?;
    let mut at = d.offset as usize;
    let mut streams = vec![];
    let mut by_key = BTreeMap::new();
    for s in m.bufs(1)? {
        let s = Msg::parse(s).map_err(|e| format!("stripe {} stream: {}", i, e))?;
        let sd = StreamDesc {
            kind: s.int(1)?.ok_or("stream without kind")?,
            col: s.int(2)?.ok_or("stream without column")?,
            len: s.int(3)?.ok_or("stream without length")? as usize,
            at,
        };
        at = at.checked_add(sd.len).ok_or("stream length overflow")?;
        if at > fs {
            return Err(format!("stripe {}: streams run past the stripe's data", i));
        }
        if by_key.insert((sd.col, sd.kind), sd).is_some() {
            return Err(format!("stripe {}: two streams of kind {} for column {}", i, sd.kind, sd.col));
        }
        streams.push(sd);
    }
    let mut encodings = vec![];
    for e in m.bufs(2)? {
        encodings.push(Msg::parse(e)?.int(1)?.ok_or("encoding without kind")?);
    }
    Ok(Stripe { desc: d, streams, encodings, footer_sec, by_key })
}

impl Stripe {
    pub fn section(&self, b: &[u8], t: &Tail, col: usize, kind: u64) -> R<Option<Section>> {
        match self.by_key.get(&(col as u64, kind)) {
            None => Ok(None),
            Some(s) => section(&b[s.at..s.at + s.len], t.comp)
                .map(Some)
                .map_err(|e| format!("stripe at {}, column {}, stream kind {}: {}", self.desc.offset, col, kind, e)),
        }
    }
}

pub struct IndexEntry {
    pub positions: Vec<u64>,
    pub stats: Option<ColStats>,
}

pub fn row_index(s: &Section) -> R<Vec<IndexEntry>> {
    let m = Msg::parse(&s.plain)?;
    m.only(&[1], "row index")?;
    let mut v = vec![];
    for e in m.bufs(1)? {
        let m = Msg::parse(e)?;
        m.only(&[1, 2], "row index entry")?;
        v.push(IndexEntry {
            positions: m.ints(1)?,
            stats: match m.buf(2)? {
                Some(b) => Some(col_stats(b)?),
                None => None,
            },
        });
    }
    Ok(v)
}
