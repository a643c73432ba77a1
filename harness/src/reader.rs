//! An independent reader of TsFile version 3.
//! Written from the format, shares no code with the crate under test.
use crate::model::Val;

pub const MAGIC: &[u8] = b"TsFile";

#[derive(Clone, Debug)]
pub struct Stats {
    pub count: u32,
    pub start: i64,
    pub end: i64,
    pub min: Val,
    pub max: Val,
    pub first: Val,
    pub last: Val,
    /// INT32: exact, as i64 bits; otherwise f64 bits
    pub sum: u64,
}

#[derive(Clone, Debug)]
pub struct Page {
    pub off: usize,
    pub uncompressed: usize,
    pub compressed: usize,
    pub stats: Option<Stats>,
    pub payload: usize,
    pub times: Vec<i64>,
    pub values: Vec<Val>,
    /// the page could not be decompressed
    pub compression_error: Option<String>,
    /// the page could not be decoded
    pub decode_error: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Chunk {
    pub off: usize,
    pub marker: u8,
    pub name: Vec<u8>,
    pub size: usize,
    pub ty: u8,
    pub comp: u8,
    pub enc: u8,
    pub data: usize,
    pub pages: Vec<Page>,
    /// the pages do not fit the declared size
    pub page_error: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Group {
    pub off: usize,
    pub device: Vec<u8>,
    pub chunks: Vec<Chunk>,
}

#[derive(Debug, Default)]
pub struct Scan {
    pub groups: Vec<Group>,
    /// where the separator was found
    pub separator: Option<usize>,
    /// the data ended within something
    pub truncated: Option<String>,
    pub error: Option<String>,
}

pub struct Cur<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub end: usize,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Eof;

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8], p: usize, end: usize) -> Cur<'a> {
        Cur { b, p, end }
    }
    pub fn u8(&mut self) -> Result<u8, Eof> {
        if self.p >= self.end {
            return Err(Eof);
        }
        self.p += 1;
        Ok(self.b[self.p - 1])
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], Eof> {
        if n > self.end - self.p {
            return Err(Eof);
        }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    pub fn be32(&mut self) -> Result<u32, Eof> {
        let s = self.take(4)?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    pub fn be64(&mut self) -> Result<u64, Eof> {
        let s = self.take(8)?;
        let mut a = [0; 8];
        a.copy_from_slice(s);
        Ok(u64::from_be_bytes(a))
    }
    /// unsigned variable length, at most 32 bits, None if malformed
    pub fn uvar(&mut self) -> Result<Option<u32>, Eof> {
        let mut v: u64 = 0;
        for i in 0..5 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u64) << (7 * i);
            if b & 0x80 == 0 {
                if v > u32::MAX as u64 || (i > 0 && b == 0) {
                    return Ok(None);
                }
                return Ok(Some(v as u32));
            }
        }
        Ok(None)
    }
    /// signed variable length (zigzag)
    pub fn ivar(&mut self) -> Result<Option<i32>, Eof> {
        Ok(self.uvar()?.map(|u| ((u >> 1) as i32) ^ -((u & 1) as i32)))
    }
    /// string with zigzag length
    pub fn string(&mut self) -> Result<Option<&'a [u8]>, Eof> {
        match self.ivar()? {
            Some(n) if n >= 0 => Ok(Some(self.take(n as usize)?)),
            _ => Ok(None),
        }
    }
}

fn val(ty: u8, b: &[u8]) -> Val {
    match ty {
        1 => Val::I(i32::from_be_bytes([b[0], b[1], b[2], b[3]])),
        3 => Val::F(u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
        _ => {
            let mut a = [0; 8];
            a.copy_from_slice(b);
            Val::L(i64::from_be_bytes(a))
        }
    }
}

/// None: malformed
pub fn stats(c: &mut Cur, ty: u8) -> Result<Option<Stats>, Eof> {
    let count = match c.uvar()? {
        Some(n) => n,
        None => return Ok(None),
    };
    let start = c.be64()? as i64;
    let end = c.be64()? as i64;
    let w = match ty {
        1 | 3 => 4,
        2 => 8,
        _ => return Ok(None),
    };
    let min = val(ty, c.take(w)?);
    let max = val(ty, c.take(w)?);
    let first = val(ty, c.take(w)?);
    let last = val(ty, c.take(w)?);
    let sum = c.be64()?;
    Ok(Some(Stats {
        count,
        start,
        end,
        min,
        max,
        first,
        last,
        sum,
    }))
}

/// Raw Snappy
pub fn unsnap(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut c = Cur::new(b, 0, b.len());
    let e = |_| "truncated snappy data".to_string();
    let n = c.uvar().map_err(e)?.ok_or("bad snappy length")? as usize;
    if n > 1 << 30 {
        return Err(format!("snappy length {}", n));
    }
    let mut o: Vec<u8> = Vec::with_capacity(n);
    while c.p < c.end {
        let t = c.u8().map_err(e)?;
        match t & 3 {
            0 => {
                let mut l = (t >> 2) as usize;
                if l >= 60 {
                    let k = l - 59;
                    let s = c.take(k).map_err(e)?;
                    l = 0;
                    for (i, x) in s.iter().enumerate() {
                        l |= (*x as usize) << (8 * i);
                    }
                }
                o.extend_from_slice(c.take(l + 1).map_err(e)?);
            }
            k => {
                let (l, d) = match k {
                    1 => (
                        ((t >> 2) & 7) as usize + 4,
                        ((t as usize >> 5) << 8) | c.u8().map_err(e)? as usize,
                    ),
                    2 => {
                        let s = c.take(2).map_err(e)?;
                        ((t >> 2) as usize + 1, s[0] as usize | (s[1] as usize) << 8)
                    }
                    _ => {
                        let s = c.take(4).map_err(e)?;
                        (
                            (t >> 2) as usize + 1,
                            u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize,
                        )
                    }
                };
                if d == 0 || d > o.len() {
                    return Err("snappy copy before the start".into());
                }
                for _ in 0..l {
                    o.push(o[o.len() - d]);
                }
            }
        }
        if o.len() > n {
            return Err(format!("snappy data longer than its length {}", n));
        }
    }
    if o.len() != n {
        return Err(format!("snappy data of {} bytes, declared {}", o.len(), n));
    }
    Ok(o)
}

fn bits(b: &[u8], pos: usize, width: usize) -> u64 {
    let mut v = 0u64;
    let mut p = pos;
    let mut left = width;
    while left > 0 {
        let avail = 8 - (p & 7);
        let n = avail.min(left);
        let x = (b[p >> 3] >> (avail - n)) & (((1u16 << n) - 1) as u8);
        v = (v << n) | x as u64;
        p += n;
        left -= n;
    }
    v
}

/// TS_2DIFF with 32 or 64 bit values
pub fn ts2diff(b: &[u8], wide: bool) -> Result<Vec<i64>, String> {
    let mut c = Cur::new(b, 0, b.len());
    let mut o = vec![];
    let e = |_| "truncated TS_2DIFF block".to_string();
    while c.p < c.end {
        let n = c.be32().map_err(e)? as usize;
        let w = c.be32().map_err(e)? as usize;
        let (min, first) = if wide {
            (c.be64().map_err(e)? as i64, c.be64().map_err(e)? as i64)
        } else {
            (
                c.be32().map_err(e)? as i32 as i64,
                c.be32().map_err(e)? as i32 as i64,
            )
        };
        if w > if wide { 64 } else { 32 } {
            return Err(format!("TS_2DIFF width {}", w));
        }
        if n > 1 << 24 {
            return Err(format!("TS_2DIFF count {}", n));
        }
        let packed = c.take((n * w + 7) / 8).map_err(e)?;
        let mut v = first;
        o.push(v);
        for i in 0..n {
            let d = bits(packed, i * w, w);
            v = if wide {
                v.wrapping_add(min).wrapping_add(d as i64)
            } else {
                (v as i32)
                    .wrapping_add(min as i32)
                    .wrapping_add(d as u32 as i32) as i64
            };
            o.push(v);
        }
    }
    Ok(o)
}

pub fn plain(b: &[u8], ty: u8) -> Result<Vec<Val>, String> {
    let mut c = Cur::new(b, 0, b.len());
    let mut o = vec![];
    let e = |_| "truncated PLAIN data".to_string();
    while c.p < c.end {
        o.push(match ty {
            1 => Val::I(c.ivar().map_err(e)?.ok_or("bad PLAIN integer")?),
            2 => Val::L(c.be64().map_err(e)? as i64),
            3 => Val::F(c.be32().map_err(e)?),
            _ => return Err(format!("type {}", ty)),
        });
    }
    Ok(o)
}

fn decode_payload(b: &[u8], ty: u8, enc: u8) -> Result<(Vec<i64>, Vec<Val>), String> {
    let mut c = Cur::new(b, 0, b.len());
    let n = c
        .uvar()
        .map_err(|_| "no time length")?
        .ok_or("bad time length")? as usize;
    let t = c.take(n).map_err(|_| "time column longer than the page")?;
    let times = ts2diff(t, true)?;
    let rest = &b[c.p..];
    let values = match (enc, ty) {
        (0, _) => plain(rest, ty)?,
        (4, 1) => ts2diff(rest, false)?
            .into_iter()
            .map(|v| Val::I(v as i32))
            .collect(),
        (4, 2) => ts2diff(rest, true)?.into_iter().map(Val::L).collect(),
        _ => return Err(format!("encoding {} for type {}", enc, ty)),
    };
    if times.len() != values.len() {
        return Err(format!("{} times but {} values", times.len(), values.len()));
    }
    Ok((times, values))
}

fn pages(b: &[u8], ch: &mut Chunk) -> Result<(), String> {
    let end = ch.data + ch.size;
    let mut c = Cur::new(b, ch.data, end);
    let e = |_| "page header beyond the chunk".to_string();
    while c.p < end {
        let off = c.p;
        let unc = c.uvar().map_err(e)?.ok_or("bad uncompressed size")? as usize;
        let com = c.uvar().map_err(e)?.ok_or("bad compressed size")? as usize;
        let st = if ch.marker == 1 {
            Some(stats(&mut c, ch.ty).map_err(e)?.ok_or("bad page statistics")?)
        } else {
            None
        };
        let payload = c.p;
        let raw = c
            .take(com)
            .map_err(|_| format!("page of {} bytes beyond the chunk", com))?;
        let mut pg = Page {
            off,
            uncompressed: unc,
            compressed: com,
            stats: st,
            payload,
            times: vec![],
            values: vec![],
            compression_error: None,
            decode_error: None,
        };
        let tmp;
        let content: &[u8] = match ch.comp {
            0 => {
                if unc != com {
                    pg.compression_error = Some(format!(
                        "uncompressed page with sizes {} and {}",
                        unc, com
                    ));
                }
                raw
            }
            1 => match unsnap(raw) {
                Ok(v) => {
                    if v.len() != unc {
                        pg.compression_error = Some(format!(
                            "page decompresses to {} bytes, declared {}",
                            v.len(),
                            unc
                        ));
                    }
                    tmp = v;
                    &tmp
                }
                Err(x) => {
                    pg.compression_error = Some(x);
                    &[]
                }
            },
            x => {
                pg.compression_error = Some(format!("compression code {}", x));
                &[]
            }
        };
        match decode_payload(content, ch.ty, ch.enc) {
            Ok((t, v)) => {
                pg.times = t;
                pg.values = v;
            }
            Err(x) => pg.decode_error = Some(x),
        }
        ch.pages.push(pg);
        if ch.marker == 5 && c.p < end {
            return Err(format!(
                "single page chunk has {} bytes behind its page",
                end - c.p
            ));
        }
    }
    Ok(())
}

/// Forward scan of a file or of a prefix of one
pub fn scan(b: &[u8]) -> Scan {
    let mut s = Scan::default();
    if b.len() < 7 {
        if b.is_empty() || (b.len() <= 6 && MAGIC.starts_with(b)) {
            s.truncated = Some("head".into());
        } else {
            s.error = Some("head magic is wrong".into());
        }
        return s;
    }
    if &b[..6] != MAGIC {
        s.error = Some("head magic is wrong".into());
        return s;
    }
    if b[6] != 3 {
        s.error = Some(format!("version byte {}", b[6]));
        return s;
    }
    let mut p = 7;
    loop {
        let mut c = Cur::new(b, p, b.len());
        let r: Result<Result<(), String>, Eof> = (|| {
            let m = c.u8()?;
            match m {
                0 => {
                    let n = match c.string()? {
                        Some(n) => n,
                        None => return Ok(Err(format!("bad device name at {}", p))),
                    };
                    s.groups.push(Group {
                        off: p,
                        device: n.to_vec(),
                        chunks: vec![],
                    });
                }
                1 | 5 => {
                    let n = match c.string()? {
                        Some(n) => n,
                        None => return Ok(Err(format!("bad measurement name at {}", p))),
                    };
                    let size = match c.uvar()? {
                        Some(n) => n as usize,
                        None => return Ok(Err(format!("bad chunk size at {}", p))),
                    };
                    let ty = c.u8()?;
                    let comp = c.u8()?;
                    let enc = c.u8()?;
                    let mut ch = Chunk {
                        off: p,
                        marker: m,
                        name: n.to_vec(),
                        size,
                        ty,
                        comp,
                        enc,
                        data: c.p,
                        pages: vec![],
                        page_error: None,
                    };
                    c.take(size)?;
                    ch.page_error = pages(b, &mut ch).err();
                    match s.groups.last_mut() {
                        Some(g) => g.chunks.push(ch),
                        None => return Ok(Err("chunk outside of a chunk group".into())),
                    }
                }
                2 => s.separator = Some(p),
                x => return Ok(Err(format!("unknown marker {} at {}", x, p))),
            }
            Ok(Ok(()))
        })();
        match r {
            Err(Eof) => {
                s.truncated = Some(format!("incomplete at {}", p));
                return s;
            }
            Ok(Err(x)) => {
                s.error = Some(x);
                return s;
            }
            Ok(Ok(())) => {}
        }
        if s.separator.is_some() {
            return s;
        }
        p = c.p;
    }
}

#[derive(Clone, Debug)]
pub struct Node {
    pub off: usize,
    pub end: usize,
    pub entries: Vec<(Vec<u8>, u64)>,
    pub end_offset: u64,
    pub kind: u8,
}

pub const INTERNAL_DEVICE: u8 = 0;
pub const LEAF_DEVICE: u8 = 1;
pub const INTERNAL_MEASUREMENT: u8 = 2;
pub const LEAF_MEASUREMENT: u8 = 3;

#[derive(Clone, Debug)]
pub struct Series {
    pub off: usize,
    pub end: usize,
    pub kind: u8,
    pub name: Vec<u8>,
    pub ty: u8,
    pub stats: Stats,
    pub chunks: Vec<(u64, Option<Stats>)>,
}

#[derive(Clone, Debug)]
pub struct Footer {
    pub start: usize,
    pub root: Node,
    pub meta_offset: u64,
    pub bloom: Vec<u8>,
    pub bloom_size: u32,
    pub bloom_hashes: u32,
}

pub fn node(b: &[u8], off: usize, limit: usize) -> Result<Node, String> {
    let e = |_| format!("index node at {} is truncated", off);
    if off > limit || limit > b.len() {
        return Err(format!("index node at {} outside of its range", off));
    }
    let mut c = Cur::new(b, off, limit);
    let n = c.uvar().map_err(e)?.ok_or("bad number of index entries")?;
    let mut entries = vec![];
    for _ in 0..n {
        let nm = c.string().map_err(e)?.ok_or("bad index entry name")?;
        entries.push((nm.to_vec(), c.be64().map_err(e)?));
    }
    let end_offset = c.be64().map_err(e)?;
    let kind = c.u8().map_err(e)?;
    Ok(Node {
        off,
        end: c.p,
        entries,
        end_offset,
        kind,
    })
}

pub fn series(b: &[u8], off: usize, limit: usize) -> Result<Series, String> {
    let e = |_| format!("series metadata at {} is truncated", off);
    if off > limit || limit > b.len() {
        return Err(format!("series metadata at {} outside of its range", off));
    }
    let mut c = Cur::new(b, off, limit);
    let kind = c.u8().map_err(e)?;
    let name = c.string().map_err(e)?.ok_or("bad name in series metadata")?;
    let ty = c.u8().map_err(e)?;
    let len = c.uvar().map_err(e)?.ok_or("bad chunk list size")? as usize;
    let st = stats(&mut c, ty)
        .map_err(e)?
        .ok_or_else(|| format!("bad statistics in series metadata at {}", off))?;
    if kind > 1 {
        return Err(format!("series metadata type {}", kind));
    }
    let list_start = c.p;
    c.take(len).map_err(e)?;
    let end = c.p;
    let mut l = Cur::new(b, list_start, end);
    let mut chunks = vec![];
    let e2 = |_| format!("chunk list of the series metadata at {} is cut", off);
    while l.p < end {
        let o = l.be64().map_err(e2)?;
        let s = if kind == 1 {
            Some(stats(&mut l, ty).map_err(e2)?.ok_or("bad chunk statistics")?)
        } else {
            None
        };
        chunks.push((o, s));
    }
    Ok(Series {
        off,
        end,
        kind,
        name: name.to_vec(),
        ty,
        stats: st,
        chunks,
    })
}

pub fn footer(b: &[u8]) -> Result<Footer, String> {
    let n = b.len();
    if n < 7 + 10 {
        return Err("file too short".into());
    }
    if &b[..6] != MAGIC || b[6] != 3 {
        return Err("head magic or version is wrong".into());
    }
    if &b[n - 6..] != MAGIC {
        return Err("tail magic is missing".into());
    }
    let size = u32::from_be_bytes([b[n - 10], b[n - 9], b[n - 8], b[n - 7]]) as usize;
    if size > n - 17 {
        return Err(format!("footer length {} does not fit the file", size));
    }
    let start = n - 10 - size;
    let root = node(b, start, n - 10)?;
    let e = |_| "file metadata is truncated".to_string();
    let mut c = Cur::new(b, root.end, n - 10);
    let meta_offset = c.be64().map_err(e)?;
    let k = c.uvar().map_err(e)?.ok_or("bad Bloom filter length")?;
    let bloom = c.take(k as usize).map_err(e)?.to_vec();
    let bloom_size = c.uvar().map_err(e)?.ok_or("bad Bloom filter size")?;
    let bloom_hashes = c.uvar().map_err(e)?.ok_or("bad Bloom hash count")?;
    if c.p != n - 10 {
        return Err(format!("{} stray bytes in the file metadata", n - 10 - c.p));
    }
    Ok(Footer {
        start,
        root,
        meta_offset,
        bloom,
        bloom_size,
        bloom_hashes,
    })
}

/// The whole index below the footer
#[derive(Debug, Default)]
pub struct Index {
    /// device, series in index order
    pub devices: Vec<(Vec<u8>, Vec<Series>)>,
    /// everything found, as (start, end)
    pub tiles: Vec<(usize, usize)>,
    pub errors: Vec<String>,
    pub nodes: usize,
    pub depth: usize,
}

fn child_ranges(n: &Node) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in 0..n.entries.len() {
        let s = n.entries[i].1 as usize;
        let e = if i + 1 < n.entries.len() {
            n.entries[i + 1].1
        } else {
            n.end_offset
        } as usize;
        v.push((s, e));
    }
    v
}

pub fn walk(b: &[u8], f: &Footer) -> Index {
    let mut ix = Index::default();
    walk_device(b, f, &f.root, &mut ix, 1);
    ix
}

fn walk_device(b: &[u8], f: &Footer, n: &Node, ix: &mut Index, depth: usize) {
    ix.nodes += 1;
    ix.depth = ix.depth.max(depth);
    if depth > 12 {
        ix.errors.push("index deeper than 12 levels".into());
        return;
    }
    if n.kind != INTERNAL_DEVICE && n.kind != LEAF_DEVICE {
        ix.errors
            .push(format!("node type {} where devices are indexed", n.kind));
        return;
    }
    for (i, (s, e)) in child_ranges(n).into_iter().enumerate() {
        if e > f.start || s > e {
            ix.errors.push(format!(
                "device index entry {:?} has range {}..{}",
                String::from_utf8_lossy(&n.entries[i].0),
                s,
                e
            ));
            continue;
        }
        match node(b, s, e) {
            Err(x) => ix.errors.push(x),
            Ok(c) => {
                ix.tiles.push((c.off, c.end));
                if c.end != e {
                    ix.errors.push(format!(
                        "index node at {} ends at {}, its parent says {}",
                        s, c.end, e
                    ));
                }
                if n.kind == INTERNAL_DEVICE {
                    if c.entries.first().map(|x| &x.0) != Some(&n.entries[i].0) {
                        ix.errors
                            .push(format!("device index entry differs from first name of its node at {}", s));
                    }
                    walk_device(b, f, &c, ix, depth + 1);
                } else {
                    let mut list = vec![];
                    walk_measurement(b, f, &c, ix, &mut list, depth + 1);
                    ix.devices.push((n.entries[i].0.clone(), list));
                }
            }
        }
    }
}

fn walk_measurement(
    b: &[u8],
    f: &Footer,
    n: &Node,
    ix: &mut Index,
    list: &mut Vec<Series>,
    depth: usize,
) {
    ix.nodes += 1;
    ix.depth = ix.depth.max(depth);
    if depth > 12 {
        ix.errors.push("index deeper than 12 levels".into());
        return;
    }
    if n.kind != INTERNAL_MEASUREMENT && n.kind != LEAF_MEASUREMENT {
        ix.errors
            .push(format!("node type {} where measurements are indexed", n.kind));
        return;
    }
    if n.entries.is_empty() {
        ix.errors.push("empty measurement index node".into());
    }
    for (i, (s, e)) in child_ranges(n).into_iter().enumerate() {
        if e > f.start || s > e {
            ix.errors.push(format!(
                "measurement index entry {:?} has range {}..{}",
                String::from_utf8_lossy(&n.entries[i].0),
                s,
                e
            ));
            continue;
        }
        if n.kind == INTERNAL_MEASUREMENT {
            match node(b, s, e) {
                Err(x) => ix.errors.push(x),
                Ok(c) => {
                    ix.tiles.push((c.off, c.end));
                    if c.end != e {
                        ix.errors.push(format!(
                            "index node at {} ends at {}, its parent says {}",
                            s, c.end, e
                        ));
                    }
                    if c.entries.first().map(|x| &x.0) != Some(&n.entries[i].0) {
                        ix.errors.push(format!(
                            "measurement index entry differs from first name of its node at {}",
                            s
                        ));
                    }
                    walk_measurement(b, f, &c, ix, list, depth + 1);
                }
            }
        } else {
            let mut p = s;
            let mut first = true;
            if s == e {
                ix.errors.push(format!("empty range in leaf node at {}", n.off));
            }
            while p < e {
                match series(b, p, e) {
                    Err(x) => {
                        ix.errors.push(x);
                        break;
                    }
                    Ok(t) => {
                        if first && t.name != n.entries[i].0 {
                            ix.errors.push(format!(
                                "measurement index entry differs from first series at {}",
                                p
                            ));
                        }
                        first = false;
                        ix.tiles.push((t.off, t.end));
                        p = t.end;
                        list.push(t);
                    }
                }
            }
        }
    }
}

/// Last entry whose name is not greater; or the exact one
fn bsearch(n: &Node, name: &[u8], exact: bool) -> Option<usize> {
    let (mut lo, mut hi) = (0i64, n.entries.len() as i64 - 1);
    while lo <= hi {
        let mid = (lo + hi) / 2;
        match n.entries[mid as usize].0.as_slice().cmp(name) {
            std::cmp::Ordering::Equal => return Some(mid as usize),
            std::cmp::Ordering::Less => lo = mid + 1,
            std::cmp::Ordering::Greater => hi = mid - 1,
        }
    }
    if exact || lo == 0 {
        None
    } else {
        Some(lo as usize - 1)
    }
}

/// Binary search from the end of the file, as the Java reader does
pub fn lookup(
    b: &[u8],
    f: &Footer,
    device: &[u8],
    meas: &[u8],
    steps: &mut usize,
) -> Result<Option<Series>, String> {
    let mut n = f.root.clone();
    let mut depth = 0;
    // devices
    loop {
        depth += 1;
        *steps += 1;
        if depth > 12 {
            return Err("index deeper than 12 levels".into());
        }
        let exact = match n.kind {
            LEAF_DEVICE => true,
            INTERNAL_DEVICE => false,
            x => return Err(format!("node type {} where devices are indexed", x)),
        };
        let leaf = n.kind == LEAF_DEVICE;
        let i = match bsearch(&n, device, exact) {
            Some(i) => i,
            None => return Ok(None),
        };
        let (s, e) = child_ranges(&n)[i];
        if e > f.start {
            return Err(format!("index entry range {}..{}", s, e));
        }
        n = node(b, s, e)?;
        if leaf {
            break;
        }
    }
    loop {
        depth += 1;
        *steps += 1;
        if depth > 12 {
            return Err("index deeper than 12 levels".into());
        }
        let i = match bsearch(&n, meas, false) {
            Some(i) => i,
            None => return Ok(None),
        };
        let (s, e) = child_ranges(&n)[i];
        if e > f.start {
            return Err(format!("index entry range {}..{}", s, e));
        }
        match n.kind {
            INTERNAL_MEASUREMENT => n = node(b, s, e)?,
            LEAF_MEASUREMENT => {
                let mut v = vec![];
                let mut p = s;
                while p < e {
                    let t = series(b, p, e)?;
                    p = t.end;
                    v.push(t);
                }
                let (mut lo, mut hi) = (0i64, v.len() as i64 - 1);
                while lo <= hi {
                    let mid = (lo + hi) / 2;
                    match v[mid as usize].name.as_slice().cmp(meas) {
                        std::cmp::Ordering::Equal => {
                            return Ok(Some(v.swap_remove(mid as usize)))
                        }
                        std::cmp::Ordering::Less => lo = mid + 1,
                        std::cmp::Ordering::Greater => hi = mid - 1,
                    }
                }
                return Ok(None);
            }
            x => return Err(format!("node type {} where measurements are indexed", x)),
        }
    }
}

// ---------------------------------------------------------------- Bloom filter

fn rotl(v: u64, n: u32) -> u64 {
    v.rotate_left(n)
}
fn fmix(mut k: u64) -> u64 {
    k ^= k >> 33;
    k = k.wrapping_mul(0xff51afd7ed558ccd);
    k ^= k >> 33;
    k = k.wrapping_mul(0xc4ceb9fe1a85ec53);
    k ^ (k >> 33)
}

/// MurmurHash3 x64 128, as the format uses it: sum of both halves, low 32 bits
pub fn murmur(key: &[u8], seed: u64) -> i32 {
    const C1: u64 = 0x87c37b91114253d5;
    const C2: u64 = 0x4cf5ad432745937f;
    let (mut h1, mut h2) = (seed, seed);
    let mut ch = key.chunks_exact(16);
    for blk in &mut ch {
        let mut a = [0u8; 8];
        a.copy_from_slice(&blk[..8]);
        let mut k1 = u64::from_le_bytes(a);
        a.copy_from_slice(&blk[8..]);
        let mut k2 = u64::from_le_bytes(a);
        k1 = rotl(k1.wrapping_mul(C1), 31).wrapping_mul(C2);
        h1 ^= k1;
        h1 = rotl(h1, 27).wrapping_add(h2).wrapping_mul(5).wrapping_add(0x52dce729);
        k2 = rotl(k2.wrapping_mul(C2), 33).wrapping_mul(C1);
        h2 ^= k2;
        h2 = rotl(h2, 31).wrapping_add(h1).wrapping_mul(5).wrapping_add(0x38495ab5);
    }
    let tail = ch.remainder();
    let mut t = [0u8; 16];
    t[..tail.len()].copy_from_slice(tail);
    let mut a = [0u8; 8];
    a.copy_from_slice(&t[8..]);
    let k2 = u64::from_le_bytes(a);
    if tail.len() > 8 {
        h2 ^= rotl(k2.wrapping_mul(C2), 33).wrapping_mul(C1);
    }
    a.copy_from_slice(&t[..8]);
    let k1 = u64::from_le_bytes(a);
    if !tail.is_empty() {
        h1 ^= rotl(k1.wrapping_mul(C1), 31).wrapping_mul(C2);
    }
    h1 ^= key.len() as u64;
    h2 ^= key.len() as u64;
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1 = fmix(h1);
    h2 = fmix(h2);
    h1 = h1.wrapping_add(h2);
    h2 = h2.wrapping_add(h1);
    h1.wrapping_add(h2) as u32 as i32
}

pub const SEEDS: [u64; 8] = [5, 7, 11, 19, 31, 37, 43, 59];

pub fn bloom_bits(n: usize) -> f64 {
    let ln2 = std::f64::consts::LN_2;
    -(n as f64) * (0.05f64).ln() / ln2 / ln2
}
pub fn bloom_size(n: usize) -> u32 {
    (bloom_bits(n) as u32 + 1).max(256)
}
pub const BLOOM_HASHES: u32 = 5;

pub fn bloom_bit(path: &[u8], i: usize, size: u32) -> usize {
    (murmur(path, SEEDS[i]).unsigned_abs() % size) as usize
}

pub fn bloom_bytes(paths: &[Vec<u8>], size: u32, hashes: u32) -> Vec<u8> {
    let mut v = vec![0u8; (size as usize + 7) / 8];
    for p in paths {
        for i in 0..hashes as usize {
            let b = bloom_bit(p, i, size);
            v[b / 8] |= 1 << (b % 8);
        }
    }
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

pub fn bloom_has(f: &Footer, path: &[u8]) -> bool {
    if f.bloom_size == 0 {
        return false;
    }
    (0..(f.bloom_hashes as usize).min(8)).all(|i| {
        let b = bloom_bit(path, i, f.bloom_size);
        b / 8 < f.bloom.len() && f.bloom[b / 8] & (1 << (b % 8)) != 0
    })
}
