//! Offline checker over the produced file: compares what an independent
//! reader finds with what the reference model says was accepted
use crate::model::*;
use crate::reader::*;
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Issue {
    pub props: &'static [&'static str],
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct Metrics(pub BTreeMap<&'static str, u64>);
impl Metrics {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.0.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: &Metrics) {
        for (k, v) in &o.0 {
            if k.starts_with("max_") {
                self.max(k, *v)
            } else {
                self.add(k, *v)
            }
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).copied().unwrap_or(0)
    }
}

pub type Points = BTreeMap<(Name, Name), Vec<(i64, Val)>>;

pub struct Judged {
    pub issues: Vec<Issue>,
    pub metrics: Metrics,
    pub scan: Scan,
}

struct Out {
    issues: Vec<Issue>,
}
impl Out {
    fn bad(&mut self, props: &'static [&'static str], text: impl Into<String>) {
        if self.issues.len() < 200 {
            self.issues.push(Issue {
                props,
                text: text.into(),
            });
        }
    }
}

fn lossy(b: &[u8]) -> String {
    let s: String = String::from_utf8_lossy(b).chars().take(40).collect();
    format!("{:?}", s)
}

#[derive(Clone, Copy)]
pub struct Agg {
    pub count: u64,
    pub start: i64,
    pub end: i64,
    pub first: Val,
    pub last: Val,
    pub min: Val,
    pub max: Val,
    isum: i128,
    fsum: f64,
    abs: f64,
    nan: bool,
}

fn less(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::I(a), Val::I(b)) => a < b,
        (Val::L(a), Val::L(b)) => a < b,
        (Val::F(a), Val::F(b)) => f32::from_bits(a) < f32::from_bits(b),
        _ => false,
    }
}

impl Agg {
    pub fn of<'a>(it: impl Iterator<Item = (i64, Val)> + 'a) -> Option<Agg> {
        let mut a: Option<Agg> = None;
        for (t, v) in it {
            let (i, f) = match v {
                Val::I(x) => (x as i128, x as f64),
                Val::L(x) => (x as i128, x as f64),
                Val::F(x) => (0, f32::from_bits(x) as f64),
                Val::D(x) => (0, f64::from_bits(x)),
            };
            match a.as_mut() {
                None => {
                    a = Some(Agg {
                        count: 1,
                        start: t,
                        end: t,
                        first: v,
                        last: v,
                        min: v,
                        max: v,
                        isum: i,
                        fsum: f,
                        abs: f.abs(),
                        nan: f.is_nan(),
                    })
                }
                Some(a) => {
                    a.count += 1;
                    a.end = t;
                    a.last = v;
                    if less(v, a.min) {
                        a.min = v;
                    }
                    if less(a.max, v) {
                        a.max = v;
                    }
                    a.isum += i;
                    a.fsum += f;
                    a.abs += f.abs();
                    a.nan |= f.is_nan();
                }
            }
        }
        a
    }
}

fn same_num(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => f32::from_bits(x) == f32::from_bits(y),
        _ => a == b,
    }
}
fn same_bits_or_nan(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => {
            x == y || (f32::from_bits(x).is_nan() && f32::from_bits(y).is_nan())
        }
        _ => a == b,
    }
}

/// differences between a stored block and the data it covers
fn stat_diff(s: &Stats, a: &Agg, skip_values: bool) -> Option<String> {
    if s.count as u64 != a.count {
        return Some(format!("count {} for {} points", s.count, a.count));
    }
    if s.start != a.start || s.end != a.end {
        return Some(format!(
            "times {}..{} for {}..{}",
            s.start, s.end, a.start, a.end
        ));
    }
    if !same_bits_or_nan(s.first, a.first) {
        return Some(format!("first {} for {}", s.first.show(), a.first.show()));
    }
    if !same_bits_or_nan(s.last, a.last) {
        return Some(format!("last {} for {}", s.last.show(), a.last.show()));
    }
    if skip_values || a.nan {
        return None;
    }
    if !same_num(s.min, a.min) {
        return Some(format!("minimum {} for {}", s.min.show(), a.min.show()));
    }
    if !same_num(s.max, a.max) {
        return Some(format!("maximum {} for {}", s.max.show(), a.max.show()));
    }
    match a.first {
        Val::I(_) => {
            if s.sum as i64 as i128 != a.isum {
                return Some(format!("sum {} for {}", s.sum as i64, a.isum));
            }
        }
        _ => {
            let got = f64::from_bits(s.sum);
            let want = match a.first {
                Val::L(_) => a.isum as f64,
                _ => a.fsum,
            };
            let ok = if want.is_nan() {
                got.is_nan()
            } else if want.is_infinite() {
                got == want
            } else {
                (got - want).abs() <= (a.count as f64 + 8.0) * f64::EPSILON * a.abs
            };
            if !ok {
                return Some(format!("sum {:e} for {:e}", got, want));
            }
        }
    }
    None
}

pub fn points_of(c: &Chunk) -> impl Iterator<Item = (i64, Val)> + '_ {
    c.pages
        .iter()
        .flat_map(|p| p.times.iter().copied().zip(p.values.iter().copied()))
}

pub fn has_nan(v: &[(i64, Val)]) -> bool {
    v.iter()
        .any(|x| matches!(x.1, Val::F(b) if f32::from_bits(b).is_nan()))
}

pub fn judge(b: &[u8], spec: &Spec, expected: &Points) -> Judged {
    let mut o = Out { issues: vec![] };
    let mut m = Metrics::default();
    let decl = spec.index();

    // ------------------------------------------------ forward scan
    let sc = scan(b);
    if let Some(e) = &sc.error {
        o.bad(
            &["C01", "C04", "C05", "C06", "C03"],
            format!("forward scan fails: {}", e),
        );
    }
    if let Some(e) = &sc.truncated {
        o.bad(
            &["C01", "C04", "C05", "C06", "C03"],
            format!("forward scan runs over the end: {}", e),
        );
    }
    let mut by_series: HashMap<(&[u8], &[u8]), Vec<&Chunk>> = HashMap::new();
    let mut by_offset: HashMap<usize, (&[u8], &Chunk)> = HashMap::new();
    for g in &sc.groups {
        m.add("chunk_groups", 1);
        for c in &g.chunks {
            m.add("chunks", 1);
            m.add("pages", c.pages.len() as u64);
            if c.pages.len() > 1 {
                m.add("multi_page_chunks", 1);
                m.max("max_pages_in_chunk", c.pages.len() as u64);
            }
            for p in &c.pages {
                for z in [p.uncompressed, p.compressed] {
                    match z {
                        127 | 16383 => m.add("page_sizes_just_below_a_longer_representation", 1),
                        128 | 16384 => m.add("page_sizes_just_in_a_longer_representation", 1),
                        _ => {}
                    }
                }
            }
            by_series
                .entry((&g.device, &c.name))
                .or_default()
                .push(c);
            by_offset.insert(c.off, (&g.device, c));
            let who = || format!("{}.{} chunk at {}", lossy(&g.device), lossy(&c.name), c.off);
            if let Some(e) = &c.page_error {
                o.bad(
                    &["C01", "C04", "C05", "C06"],
                    format!("{}: {}", who(), e),
                );
            }
            if c.pages.is_empty() {
                o.bad(&["C04"], format!("{} has no page", who()));
            }
            if (c.pages.len() == 1) != (c.marker == 5) {
                o.bad(
                    &["C04"],
                    format!(
                        "{} with {} page(s) has marker {}",
                        who(),
                        c.pages.len(),
                        c.marker
                    ),
                );
            }
            let d = std::str::from_utf8(&g.device).ok();
            let n = std::str::from_utf8(&c.name).ok();
            match (d, n) {
                (Some(d), Some(n)) => match decl.get(&(name_ref(d), name_ref(n))) {
                    None => o.bad(&["C01", "C16"], format!("{} was never declared", who())),
                    Some(x) => {
                        if c.ty != x.ty.code() {
                            o.bad(
                                &["C16", "C04"],
                                format!("{} has type code {}, declared {:?}", who(), c.ty, x.ty),
                            );
                        }
                        if c.enc != x.en.code() {
                            o.bad(
                                &["C16", "C04", "C05"],
                                format!(
                                    "{} has encoding code {}, declared {:?}",
                                    who(),
                                    c.enc,
                                    x.en
                                ),
                            );
                        }
                        if c.comp != x.co.code() {
                            o.bad(
                                &["C16", "C06"],
                                format!(
                                    "{} has compression code {}, declared {:?}",
                                    who(),
                                    c.comp,
                                    x.co
                                ),
                            );
                        }
                    }
                },
                _ => o.bad(&["C01", "C04"], format!("{} has a broken name", who())),
            }
            for (i, p) in c.pages.iter().enumerate() {
                m.add("points", p.times.len() as u64);
                if c.comp == 1 {
                    m.add("snappy_pages", 1);
                }
                if let Some(e) = &p.compression_error {
                    o.bad(
                        &["C06", "C01", "C04"],
                        format!("{} page {}: {}", who(), i, e),
                    );
                } else if let Some(e) = &p.decode_error {
                    o.bad(
                        &["C05", "C01", "C06"],
                        format!("{} page {}: {}", who(), i, e),
                    );
                }
            }
        }
    }

    // ------------------------------------------------ points
    let mut seen = 0;
    for ((d, n), want) in expected {
        if want.is_empty() {
            continue;
        }
        let en = spec.find_en(&decl, d, n);
        let chunks = by_series.get(&(d.as_bytes(), n.as_bytes()));
        let chunks = match chunks {
            None => {
                o.bad(
                    &["C01", "C05"],
                    format!(
                        "series {}.{} with {} points is not in the file",
                        lossy(d.as_bytes()),
                        lossy(n.as_bytes()),
                        want.len()
                    ),
                );
                continue;
            }
            Some(c) => c,
        };
        seen += 1;
        m.add("series", 1);
        if chunks.len() > 1 {
            m.add("multi_chunk_series", 1);
            m.max("max_chunks_in_series", chunks.len() as u64);
        }
        let mut k = 0;
        let mut diff = None;
        for c in chunks {
            for p in points_of(c) {
                if diff.is_none() {
                    if k >= want.len() {
                        diff = Some(format!("has more than the {} accepted points", want.len()));
                    } else if want[k] != p {
                        diff = Some(format!(
                            "point {} is ({}, {}), accepted was ({}, {})",
                            k,
                            p.0,
                            p.1.show(),
                            want[k].0,
                            want[k].1.show()
                        ));
                    }
                }
                k += 1;
            }
        }
        if diff.is_none() && k != want.len() {
            diff = Some(format!("has {} of {} accepted points", k, want.len()));
        }
        if let Some(x) = diff {
            o.bad(
                &["C01", "C05"],
                format!(
                    "series {}.{} ({:?}) {}",
                    lossy(d.as_bytes()),
                    lossy(n.as_bytes()),
                    en,
                    x
                ),
            );
        }
    }
    for (d, n) in by_series.keys() {
        let known = expected
            .get(&(
                name_ref(std::str::from_utf8(d).unwrap_or("\u{fffd}")),
                name_ref(std::str::from_utf8(n).unwrap_or("\u{fffd}")),
            ))
            .map(|v| !v.is_empty())
            .unwrap_or(false);
        if !known {
            o.bad(
                &["C01"],
                format!("series {}.{} has chunks but no accepted points", lossy(d), lossy(n)),
            );
        }
    }
    let _ = seen;

    // ------------------------------------------------ statistics of pages
    let nans: HashSet<(&[u8], &[u8])> = expected
        .iter()
        .filter(|x| has_nan(x.1))
        .map(|x| (x.0 .0.as_bytes(), x.0 .1.as_bytes()))
        .collect();
    m.add("series_with_nan", nans.len() as u64);
    for g in &sc.groups {
        for c in &g.chunks {
            let nan = nans.contains(&(g.device.as_slice(), c.name.as_slice()));
            for (i, p) in c.pages.iter().enumerate() {
                if let Some(s) = &p.stats {
                    m.add("page_statistics", 1);
                    let a = Agg::of(p.times.iter().copied().zip(p.values.iter().copied()));
                    match a {
                        None => o.bad(
                            &["C03"],
                            format!("page {} of chunk at {} has statistics but no points", i, c.off),
                        ),
                        Some(a) => {
                            if let Some(d) = stat_diff(s, &a, nan) {
                                o.bad(
                                    &["C03"],
                                    format!(
                                        "statistics of page {} of {}.{}: {}",
                                        i,
                                        lossy(&g.device),
                                        lossy(&c.name),
                                        d
                                    ),
                                );
                            }
                        }
                    }
                }
            }
        }
    }

    // ------------------------------------------------ footer and index
    let f = match footer(b) {
        Ok(f) => f,
        Err(e) => {
            o.bad(
                &["C02", "C04", "C15", "C03"],
                format!("file metadata: {}", e),
            );
            return Judged {
                issues: o.issues,
                metrics: m,
                scan: sc,
            };
        }
    };
    if sc.separator.map(|x| x as u64) != Some(f.meta_offset) {
        o.bad(
            &["C04"],
            format!(
                "metadata offset {} but the separator is at {:?}",
                f.meta_offset, sc.separator
            ),
        );
    }
    let ix = walk(b, &f);
    m.add("index_nodes", ix.nodes as u64);
    m.max("max_index_depth", ix.depth as u64);
    for e in &ix.errors {
        o.bad(&["C02", "C04"], e.clone());
    }
    if f.root.end_offset as usize > f.start {
        o.bad(&["C04"], "root node ends behind the file metadata");
    }
    // exact tiling of the metadata section
    let mut tiles = ix.tiles.clone();
    tiles.sort();
    m.add("metadata_tiles", tiles.len() as u64);
    let mut p = f.meta_offset.saturating_add(1) as usize;
    for (s, e) in tiles {
        if s != p {
            o.bad(
                &["C04"],
                format!("metadata section: byte {} is covered {}", p.min(s), if s > p { "by nothing" } else { "twice" }),
            );
            p = p.max(e);
            continue;
        }
        p = e;
    }
    if p != f.start {
        o.bad(
            &["C04"],
            format!("metadata section ends at {}, file metadata starts at {}", p, f.start),
        );
    }
    // every chunk exactly once, under its own series, in write order
    let mut referenced: HashMap<usize, u32> = HashMap::new();
    let mut listed: HashMap<(Vec<u8>, Vec<u8>), u32> = HashMap::new();
    for (d, list) in &ix.devices {
        for s in list {
            *listed.entry((d.clone(), s.name.clone())).or_insert(0) += 1;
            let who = || format!("index of {}.{}", lossy(d), lossy(&s.name));
            if (s.kind == 1) != (s.chunks.len() > 1) {
                o.bad(
                    &["C04", "C03"],
                    format!("{}: type {} for {} chunk(s)", who(), s.kind, s.chunks.len()),
                );
            }
            let nan = nans.contains(&(d.as_slice(), s.name.as_slice()));
            let mut all = vec![];
            for (off, st) in &s.chunks {
                *referenced.entry(*off as usize).or_insert(0) += 1;
                match by_offset.get(&(*off as usize)) {
                    None => o.bad(
                        &["C04", "C02"],
                        format!("{}: there is no chunk at {}", who(), off),
                    ),
                    Some((dev, c)) => {
                        if *dev != d.as_slice() || c.name != s.name {
                            o.bad(
                                &["C04", "C02"],
                                format!(
                                    "{}: chunk at {} belongs to {}.{}",
                                    who(),
                                    off,
                                    lossy(dev),
                                    lossy(&c.name)
                                ),
                            );
                        }
                        if c.ty != s.ty {
                            o.bad(
                                &["C04", "C16"],
                                format!("{}: type {} but chunk has type {}", who(), s.ty, c.ty),
                            );
                        }
                        if let Some(st) = st {
                            m.add("chunk_statistics", 1);
                            if let Some(a) = Agg::of(points_of(c)) {
                                if let Some(x) = stat_diff(st, &a, nan) {
                                    o.bad(
                                        &["C03"],
                                        format!("chunk statistics in {}: {}", who(), x),
                                    );
                                }
                            }
                        }
                        all.push(*c);
                    }
                }
            }
            m.add("series_statistics", 1);
            if let Some(a) = Agg::of(all.iter().flat_map(|c| points_of(c))) {
                if let Some(x) = stat_diff(&s.stats, &a, nan) {
                    o.bad(&["C03"], format!("series statistics in {}: {}", who(), x));
                }
            }
        }
    }
    for (off, n) in &referenced {
        if *n > 1 {
            o.bad(&["C04", "C02"], format!("chunk at {} is indexed {} times", off, n));
        }
    }
    for off in by_offset.keys() {
        if !referenced.contains_key(off) {
            o.bad(&["C04", "C02"], format!("chunk at {} is not indexed", off));
        }
    }
    for ((d, n), k) in &listed {
        if *k > 1 {
            o.bad(
                &["C02", "C04"],
                format!("{}.{} is listed {} times", lossy(d), lossy(n), k),
            );
        }
    }

    // ------------------------------------------------ look-ups
    let mut steps = 0;
    let mut lookups = 0u64;
    let mut miss = 0u64;
    let mut one = |o: &mut Out, d: &str, n: &str, chunks: Option<&Vec<&Chunk>>| {
        lookups += 1;
        let r = lookup(b, &f, d.as_bytes(), n.as_bytes(), &mut steps);
        let who = || format!("look-up of {}.{}", lossy(d.as_bytes()), lossy(n.as_bytes()));
        match (r, chunks) {
            (Err(e), _) => o.bad(&["C02"], format!("{}: {}", who(), e)),
            (Ok(None), None) => miss += 1,
            (Ok(Some(_)), None) => o.bad(&["C02"], format!("{} finds a series without data", who())),
            (Ok(None), Some(_)) => o.bad(&["C02"], format!("{} finds nothing", who())),
            (Ok(Some(s)), Some(c)) => {
                let got: Vec<u64> = s.chunks.iter().map(|x| x.0).collect();
                let want: Vec<u64> = c.iter().map(|x| x.off as u64).collect();
                if got != want {
                    o.bad(
                        &["C02"],
                        format!("{} finds chunks at {:?}, written at {:?}", who(), got, want),
                    );
                }
            }
        }
    };
    let total = spec.series();
    let step = (total / 20000).max(1);
    let mut k = 0usize;
    for (d, ms) in &spec.devices {
        for x in ms {
            k += 1;
            let has = expected.get(&(*d, x.name)).map_or(false, |v| !v.is_empty());
            // large schemas are sampled, but always around the node boundaries
            if step > 1 && k % step != 0 && k % 256 > 1 && k > 600 && k + 600 < total {
                continue;
            }
            let c = if has {
                by_series.get(&(d.as_bytes(), x.name.as_bytes()))
            } else {
                None
            };
            if has && c.is_none() {
                o.bad(&["C02"], format!("{} has no chunk to be found", lossy(d.as_bytes())));
                continue;
            }
            one(&mut o, d, x.name, c);
        }
    }
    // names that are not in the file
    let mut probes: Vec<(String, String)> = vec![("".into(), "".into()), ("\u{10ffff}".into(), "s".into())];
    for (d, ms) in spec.devices.iter().take(6) {
        for x in ms.iter().take(4) {
            probes.push((format!("{}.", d), x.name.to_string()));
            probes.push((d.to_string(), format!("{}\u{1}", x.name)));
            if let Some((i, _)) = x.name.char_indices().last() {
                probes.push((d.to_string(), x.name[..i].to_string()));
            }
            probes.push((format!("{}.{}", d, x.name), x.name.to_string()));
            probes.push((d.to_string(), format!("{}.{}", d, x.name)));
            if let Some(i) = x.name.find('.') {
                probes.push((format!("{}.{}", d, &x.name[..i]), x.name[i + 1..].to_string()));
            }
            if let Some(i) = d.rfind('.') {
                probes.push((d[..i].to_string(), format!("{}.{}", &d[i + 1..], x.name)));
            }
        }
    }
    for (d, n) in probes {
        let c = by_series.get(&(d.as_bytes(), n.as_bytes()));
        one(&mut o, &d, &n, c);
    }
    m.add("lookups", lookups);
    m.add("lookups_of_absent_names", miss);
    m.add("lookup_steps", steps as u64);

    // ------------------------------------------------ Bloom filter
    let mut paths: Vec<Vec<u8>> = vec![];
    for (d, n) in expected.iter().filter(|x| !x.1.is_empty()).map(|x| x.0) {
        paths.push(format!("{}.{}", d, n).into_bytes());
    }
    let n_series = paths.len();
    paths.sort();
    paths.dedup();
    for p in &paths {
        if !bloom_has(&f, p) {
            o.bad(&["C15"], format!("Bloom filter denies {}", lossy(p)));
        }
    }
    m.add("bloom_members", paths.len() as u64);
    let sizes = [bloom_size(n_series), bloom_size(paths.len())];
    if !sizes.contains(&f.bloom_size) {
        o.bad(
            &["C15"],
            format!("Bloom filter has {} bits, prescribed are {}", f.bloom_size, sizes[0]),
        );
    } else if f.bloom_hashes != BLOOM_HASHES {
        o.bad(
            &["C15"],
            format!("Bloom filter with {} hash functions, prescribed are {}", f.bloom_hashes, BLOOM_HASHES),
        );
    } else {
        let want = bloom_bytes(&paths, f.bloom_size, BLOOM_HASHES);
        if want != f.bloom {
            o.bad(
                &["C15"],
                format!(
                    "Bloom filter bits differ from the prescribed ones ({} and {} bytes)",
                    f.bloom.len(),
                    want.len()
                ),
            );
        }
    }
    // the footer itself
    if f.root.kind != LEAF_DEVICE && f.root.kind != INTERNAL_DEVICE {
        o.bad(&["C02", "C04"], format!("root node has type {}", f.root.kind));
    }
    Judged {
        issues: o.issues,
        metrics: m,
        scan: sc,
    }
}


/// only used for look-ups by content, never stored
fn name_ref(s: &str) -> Name {
    unsafe { std::mem::transmute::<&str, &'static str>(s) }
}

impl Spec {
    fn find_en(&self, ix: &HashMap<(Name, Name), Meas>, d: Name, n: Name) -> Option<(Ty, En, Co)> {
        ix.get(&(d, n)).map(|m| (m.ty, m.en, m.co))
    }
}
