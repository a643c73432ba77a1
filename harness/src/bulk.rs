//! Long streams that reach the real 128 MiB threshold
use crate::alloc;
use crate::driver::*;
use crate::exec::*;
use crate::json::s;
use crate::judge::*;
use crate::model::*;
use crate::reader;
use crate::report::Report;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Content {
    /// arbitrary values
    Full,
    /// values of a few bits
    Small(u32),
    Const,
    /// nearly constant for that many points of a series, then arbitrary
    Turns(u64),
}

#[derive(Clone, Debug)]
pub struct Stream {
    pub label: &'static str,
    pub devices: usize,
    pub per: usize,
    /// type, encoding, compression; cycled over the series
    pub kinds: Vec<(Ty, En, Co)>,
    pub content: Content,
    /// time gaps of up to that many bits
    pub gap: u32,
    pub points: u64,
    /// attempts at out-of-order writes per million calls
    pub disorder: u64,
    /// calls that are batches, per thousand
    pub batch: u64,
    /// keep the points for judging the file
    pub keep: bool,
}

pub const CHUNK: u64 = 128 << 20;

impl Stream {
    pub fn spec(&self) -> Spec {
        let mut sp = Spec::default();
        let mut k = 0;
        for d in 0..self.devices {
            let mut ms = vec![];
            for m in 0..self.per {
                let (ty, en, co) = self.kinds[k % self.kinds.len()];
                k += 1;
                ms.push(Meas {
                    name: name(&format!("s{}", m)),
                    ty,
                    en,
                    co,
                });
            }
            sp.devices.push((name(&format!("root.d{}", d)), ms));
        }
        sp
    }
}

pub struct Outcome {
    pub bad: Option<String>,
    pub points: Points,
    pub accepted: u64,
    pub calls: u64,
    pub tried: u64,
    pub tried_after_growth: u64,
    /// points accepted and file length, each time the file was longer
    pub growth: Vec<(u64, u64)>,
    /// highest number of live bytes above the start
    pub peak: u64,
    pub before_close: u64,
    pub bytes: Vec<u8>,
}

struct S {
    d: Name,
    m: Meas,
    last: i64,
    n: u64,
    points: Vec<(i64, Val)>,
}

fn value(r: &mut Rng, ty: Ty, c: Content, n: u64) -> Val {
    let v = match c {
        Content::Full => r.u64() as i64,
        Content::Small(b) => (r.u64() >> (64 - b)) as i64,
        Content::Const => 7,
        Content::Turns(k) => {
            if n < k {
                7
            } else {
                r.u64() as i64
            }
        }
    };
    match ty {
        Ty::I32 => Val::I(v as i32),
        Ty::I64 => Val::L(v),
        Ty::F32 => {
            let f = f32::from_bits(v as u32);
            Val::F(if f.is_nan() { 0 } else { v as u32 })
        }
    }
}

pub fn run_stream(st: &Stream, seed: u64, snapshot: &mut dyn FnMut(Name)) -> Outcome {
    let spec = st.spec();
    let path = thread_file("bulk");
    let mut r = Rng::new(seed, 77);
    let mut o = Outcome {
        bad: None,
        points: BTreeMap::new(),
        accepted: 0,
        calls: 0,
        tried: 0,
        tried_after_growth: 0,
        growth: vec![],
        peak: 0,
        before_close: 0,
        bytes: vec![],
    };
    let mut ss: Vec<S> = vec![];
    for (d, ms) in &spec.devices {
        for m in ms {
            let cap = if st.keep {
                (st.points / (st.devices * st.per) as u64 + 16) as usize * 5 / 4
            } else {
                0
            };
            ss.push(S {
                d,
                m: *m,
                last: -1,
                n: 0,
                points: Vec::with_capacity(cap),
            });
        }
    }
    let base = alloc::live();
    alloc::reset_peak();
    let mut w = match open(path, &spec) {
        Ok(w) => w,
        Err(e) => {
            o.bad = Some(format!("creating the writer: {}", e.show()));
            return o;
        }
    };
    let mut len = 0;
    let per = st.per;
    // timestamps must not reach the end of the range
    let each = st.points / (st.devices * st.per) as u64 * 2 + 2;
    let gap = st.gap.min(62 - (64 - each.leading_zeros()));
    let mut k = 0usize;
    while o.accepted < st.points {
        o.calls += 1;
        // out-of-order attempt
        if st.disorder > 0 && r.below(1_000_000) < st.disorder {
            let i = r.usize(ss.len());
            let x = &ss[i];
            if x.last >= 0 {
                let t = match r.below(3) {
                    0 => x.last,
                    1 => x.last - 1 - r.small(x.last.max(1) as u64).min(x.last as u64) as i64,
                    _ => r.below(x.last as u64 + 1) as i64,
                };
                let v = value(&mut r, x.m.ty, Content::Full, 0);
                o.tried += 1;
                if !o.growth.is_empty() {
                    o.tried_after_growth += 1;
                }
                let res = call_write(&mut w, x.d, x.m.name, t, v);
                if !matches!(res, Res::Err(Kind::Order, _)) {
                    o.bad = Some(format!(
                        "write({}, {}, {}) after {} answers {} ({} points accepted, file length {})",
                        x.d,
                        x.m.name,
                        t,
                        x.last,
                        res.show(),
                        o.accepted,
                        len
                    ));
                    return o;
                }
            }
        }
        let g = 1 + if gap == 0 { 0 } else { (r.u64() >> (64 - gap)) as i64 };
        if st.batch > 0 && r.below(1000) < st.batch {
            // one batch on one device, sometimes with a bad point in the middle
            let d = k % st.devices;
            let t = (0..per).map(|j| ss[d * per + j].last).max().unwrap() + g;
            let mut ps = vec![];
            for j in 0..per {
                let x = &ss[d * per + j];
                ps.push((x.m.name, value(&mut r, x.m.ty, st.content, x.n)));
            }
            let cut = if r.chance(1, 50) {
                let c = r.usize(per);
                let n = ps[c].0;
                ps[c] = (n, Val::D(1));
                c
            } else {
                per
            };
            let res = call_batch(&mut w, ss[d * per].d, t, &ps);
            let fine = if cut < per {
                matches!(res, Res::Err(Kind::Type, _))
            } else {
                res.ok()
            };
            if !fine {
                o.bad = Some(format!("a batch of {} ({} legal points first) answers {}", ps.len(), cut, res.show()));
                return o;
            }
            for j in 0..cut {
                let x = &mut ss[d * per + j];
                x.last = t;
                x.n += 1;
                o.accepted += 1;
                if st.keep {
                    x.points.push((t, ps[j].1));
                }
            }
            k += per;
        } else {
            let i = k % ss.len();
            let x = &mut ss[i];
            let t = x.last + g;
            let v = value(&mut r, x.m.ty, st.content, x.n);
            let res = call_write(&mut w, x.d, x.m.name, t, v);
            if !res.ok() {
                o.bad = Some(format!(
                    "legal write({}, {}, {}) answers {} after {} points",
                    x.d,
                    x.m.name,
                    t,
                    res.show(),
                    o.accepted
                ));
                return o;
            }
            x.last = t;
            x.n += 1;
            o.accepted += 1;
            if st.keep {
                x.points.push((t, v));
            }
            k += 1;
        }
        if o.calls % 4096 == 0 {
            let l = std::fs::metadata(path).map(|m| m.len()).unwrap_or(0);
            if l > len {
                if l > 7 {
                    o.growth.push((o.accepted, l));
                    let p = alloc::peak() - base;
                    o.peak = o.peak.max(p.max(0) as u64);
                    snapshot(path);
                    alloc::reset_peak();
                }
                len = l;
            }
        }
    }
    o.before_close = std::fs::metadata(path).map(|m| m.len()).unwrap_or(0);
    o.peak = o.peak.max((alloc::peak() - base).max(0) as u64);
    let res = call_close(&mut w);
    if !res.ok() {
        o.bad = Some(format!("close answers {}", res.show()));
    }
    o.peak = o.peak.max((alloc::peak() - base).max(0) as u64);
    drop(w);
    o.bytes = std::fs::read(path).unwrap_or_default();
    let _ = std::fs::remove_file(path);
    for x in ss {
        if !x.points.is_empty() {
            o.points.insert((x.d, x.m.name), x.points);
        }
    }
    o
}

use Co::{None as Raw, Snappy};
use En::*;
use Ty::*;

pub fn mixed_kinds() -> Vec<(Ty, En, Co)> {
    vec![
        (I64, Plain, Raw),
        (I32, Diff, Snappy),
        (F32, Plain, Raw),
        (I64, Diff, Raw),
        (I32, Plain, Snappy),
        (F32, Plain, Snappy),
    ]
}

/// Streams judged completely
pub fn judged(thorough: bool) -> Vec<Stream> {
    let mut v = vec![
        Stream {
            label: "one series",
            devices: 1,
            per: 1,
            kinds: vec![(I64, Plain, Raw)],
            content: Content::Full,
            gap: 36,
            points: 20_000_000,
            disorder: 200,
            batch: 0,
            keep: true,
        },
        Stream {
            label: "mixed series",
            devices: 3,
            per: 5,
            kinds: mixed_kinds(),
            content: Content::Full,
            gap: 36,
            points: 24_000_000,
            disorder: 200,
            batch: 150,
            keep: true,
        },
    ];
    if thorough {
        for (i, k) in mixed_kinds().into_iter().enumerate() {
            v.push(Stream {
                label: "one kind",
                devices: 1 + i % 3,
                per: 1 + i * 7 % 11,
                kinds: vec![k],
                content: Content::Full,
                gap: 40,
                points: 40_000_000,
                disorder: 100,
                batch: if i % 2 == 0 { 300 } else { 0 },
                keep: true,
            });
        }
        v.push(Stream {
            label: "many series",
            devices: 40,
            per: 50,
            kinds: mixed_kinds(),
            content: Content::Full,
            gap: 40,
            points: 30_000_000,
            disorder: 1000,
            batch: 500,
            keep: true,
        });
    }
    v
}

/// Writes a long stream and judges answers and file for `id`
pub fn check(rep: &Report, id: &str, streams: &[Stream]) {
    for (i, st) in streams.iter().enumerate() {
        let tag = format!("bulk{}", i);
        single(rep, &tag, || {
            let o = run_stream(st, rep.seed + i as u64, &mut |_| {});
            rep.metric("long_streams", 1);
            rep.metric("long_stream_points", o.accepted);
            rep.metric("out_of_order_writes_tried_in_long_streams", o.tried);
            rep.metric("out_of_order_writes_tried_after_an_automatic_flush", o.tried_after_growth);
            rep.metric("automatic_flushes_seen", o.growth.len() as u64);
            let replay = format!("only {}:0\n# {:?}\n", tag, st);
            if let Some(b) = &o.bad {
                rep.violation("", &format!("[long stream, {}] {}", st.label, b), &replay);
                return;
            }
            let spec = st.spec();
            let j = judge(&o.bytes, &spec, &o.points);
            rep.metric("long_stream_chunks", j.metrics.get("chunks"));
            rep.metric("long_stream_pages", j.metrics.get("pages"));
            let want = if id == "C07" || id == "C09" { "C01" } else { id };
            if let Some(x) = j.issues.iter().find(|x| x.props.contains(&want)) {
                rep.violation("", &format!("[long stream, {}] {}", st.label, x.text), &replay);
            }
            rep.eval(Some(mix(9000 + i as u64, o.accepted)));
            rep.sample(format!("long stream {:?}: {} calls, file of {} bytes, grew at {:?}", st, o.calls, o.bytes.len(), o.growth));
        });
    }
}

// ------------------------------------------------------------------ C14

fn c14_streams(thorough: bool) -> Vec<Stream> {
    let base = Stream {
        label: "",
        devices: 1,
        per: 1,
        kinds: vec![],
        content: Content::Full,
        gap: 40,
        points: 0,
        disorder: 0,
        batch: 0,
        keep: false,
    };
    let f = if thorough { 3 } else { 1 };
    let mut v = vec![
        Stream { label: "one PLAIN INT64 series", kinds: vec![(I64, Plain, Raw)], points: 36_000_000 * f, ..base.clone() },
        Stream { label: "one TS2DIFF INT64 series", kinds: vec![(I64, Diff, Raw)], points: 36_000_000 * f, ..base.clone() },
        Stream { label: "one TS2DIFF INT32 SNAPPY series", kinds: vec![(I32, Diff, Snappy)], points: 45_000_000 * f, ..base.clone() },
        Stream { label: "one FLOAT series", kinds: vec![(F32, Plain, Raw)], points: 45_000_000 * f, ..base.clone() },
        Stream { label: "one PLAIN INT32 SNAPPY series", kinds: vec![(I32, Plain, Snappy)], points: 45_000_000 * f, ..base.clone() },
        Stream { label: "mixed series in batches", devices: 3, per: 6, kinds: mixed_kinds(), points: 40_000_000 * f, batch: 500, ..base.clone() },
        Stream { label: "300 series", devices: 30, per: 10, kinds: mixed_kinds(), points: 40_000_000 * f, ..base.clone() },
        Stream { label: "2000 series", devices: 2, per: 1000, kinds: vec![(I64, Plain, Raw), (I32, Plain, Raw)], points: 40_000_000 * f, ..base.clone() },
        Stream { label: "small values", kinds: vec![(I32, Plain, Raw)], content: Content::Small(7), gap: 20, points: 90_000_000 * f, ..base.clone() },
        Stream { label: "out-of-order attempts", devices: 2, per: 2, kinds: vec![(I64, Plain, Raw)], points: 36_000_000 * f, disorder: 20_000, ..base.clone() },
    ];
    v.push(Stream { label: "constant", kinds: vec![(I32, Diff, Raw)], content: Content::Const, gap: 0, points: 6_000_000, ..base.clone() });
    v.push(Stream { label: "constant, compressed", devices: 2, kinds: vec![(I64, Diff, Snappy)], content: Content::Const, gap: 0, points: 8_000_000, ..base.clone() });
    v.push(Stream { label: "constant at first", kinds: vec![(I64, Plain, Raw)], content: Content::Turns(1000), points: 40_000_000, ..base.clone() });
    v.push(Stream { label: "constant for a while", kinds: vec![(I64, Diff, Raw)], content: Content::Turns(3_000_000), gap: 0,points: 40_000_000, ..base.clone() });
    if thorough {
        v.push(Stream { label: "20000 series", devices: 100, per: 200, kinds: vec![(I64, Plain, Raw)], points: 60_000_000, ..base.clone() });
        v.push(Stream { label: "nearly constant", kinds: vec![(I32, Diff, Raw)], content: Content::Const, gap: 12, points: 300_000_000, ..base.clone() });
    }
    v
}

pub fn c14(rep: &Report) {
    rep.rule("streams of several hundred MiB over 1 to 2000 series; each stream is watched through the file length (looked at every 4096 calls) and a counting allocator; the chunk groups and pages of the finished file are measured; non-trivial: a stream that was flushed at least twice before close, or one with pages of more than 100000 points");
    rep.assume("memory is what the writing thread allocates through the global allocator");
    let v = c14_streams(rep.thorough);
    let next = std::sync::atomic::AtomicUsize::new(0);
    let n = if rep.thorough { 3 } else { 5 };
    let only = std::env::var("TSV_ONLY").ok();
    single_many(rep, "streams", || {
        std::thread::scope(|sc| {
            for _ in 0..n {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= v.len() || rep.stopped() {
                        break;
                    }
                    if let Some(o) = &only {
                        if *o != format!("streams:{}", i) {
                            continue;
                        }
                    }
                    c14_one(rep, i, &v[i]);
                });
            }
        });
    });
}

fn c14_one(rep: &Report, i: usize, st: &Stream) {
    let o = run_stream(st, rep.seed + 100 + i as u64, &mut |_| {});
    let replay = format!("only streams:{}\n# {:?}\n", i, st);
    let bad = |t: String| rep.violation("", &format!("[{}] {}", st.label, t), &replay);
    if let Some(b) = &o.bad {
        return bad(b.clone());
    }
    let sc = reader::scan(&o.bytes);
    // rounds of chunk groups: a device that comes again starts the next one
    let mut rounds: Vec<(usize, u64, u64)> = vec![]; // offset, bytes, points
    let mut seen = std::collections::HashSet::new();
    let end = sc.separator.unwrap_or(o.bytes.len());
    let mut page_sizes: Vec<u64> = vec![];
    let mut max_points = 0u64;
    let mut total = 0u64;
    for (g, grp) in sc.groups.iter().enumerate() {
        let stop = sc.groups.get(g + 1).map_or(end, |x| x.off);
        if rounds.is_empty() || seen.contains(&grp.device) {
            seen.clear();
            rounds.push((grp.off, 0, 0));
        }
        seen.insert(grp.device.clone());
        let r = rounds.last_mut().unwrap();
        r.1 += (stop - grp.off) as u64;
        for c in &grp.chunks {
            for (k, p) in c.pages.iter().enumerate() {
                r.2 += p.times.len() as u64;
                total += p.times.len() as u64;
                max_points = max_points.max(p.times.len() as u64);
                if k + 1 < c.pages.len() {
                    page_sizes.push(p.uncompressed as u64);
                }
            }
        }
    }
    rep.metric("streams", 1);
    rep.metric("points", o.accepted);
    rep.metric("file_growths_seen_while_writing", o.growth.len() as u64);
    rep.metric("flush_rounds", rounds.len() as u64);
    rep.metric_max("max_peak_bytes", o.peak);
    rep.metric_max("max_round_bytes", rounds.iter().map(|x| x.1).max().unwrap_or(0));
    rep.metric_max("max_page_points", max_points);
    rep.metric("pages", page_sizes.len() as u64);
    rep.metric_max("max_page_bytes", page_sizes.iter().copied().max().unwrap_or(0));
    let series = (st.devices * st.per) as u64;
    let mean = page_sizes.iter().sum::<u64>() / (page_sizes.len() as u64).max(1);
    rep.sample(format!(
        "{}: {} points, rounds {:?}, peak {} bytes, {} full pages of {} bytes on average ({}..{}), at most {} points per page",
        st.label,
        o.accepted,
        rounds.iter().map(|x| x.1).collect::<Vec<_>>(),
        o.peak,
        page_sizes.len(),
        mean,
        page_sizes.iter().min().unwrap_or(&0),
        page_sizes.iter().max().unwrap_or(&0),
        max_points
    ));
    if total != o.accepted {
        return bad(format!("{} points accepted, {} in the chunks", o.accepted, total));
    }
    if max_points > 1_048_577 {
        return bad(format!("a page of {} points", max_points));
    }
    // what is written at close is the last round only
    let last = rounds.last().map_or(0, |x| x.1);
    let bulk: u64 = rounds.iter().map(|x| x.1).sum();
    if bulk > 2 * CHUNK && rounds.len() < 2 {
        return bad(format!("{} bytes of chunks were written by close only", bulk));
    }
    for (k, x) in rounds.iter().enumerate() {
        let fin = k + 1 == rounds.len();
        if x.1 > CHUNK * 5 / 4 + series * 200_000 {
            return bad(format!("flush {} wrote {} bytes at once (about {} expected)", k, x.1, CHUNK));
        }
        if !fin && x.1 < CHUNK * 3 / 5 {
            return bad(format!("flush {} wrote only {} bytes (about {} expected)", k, x.1, CHUNK));
        }
    }
    if rounds.len() > 1 {
        // the file grew at each of them, while writing
        let grown = o.before_close as i64 - 7;
        let before: u64 = bulk - last;
        // a buffer in between is as good
        if grown + (1 << 20) < before as i64 {
            return bad(format!("{} bytes in the file before close, {} expected", grown, before));
        }
        if o.growth.len() + 1 < rounds.len() {
            return bad(format!("the file grew {} times for {} flushes", o.growth.len(), rounds.len() - 1));
        }
    }
    let limit = 4 * CHUNK + series * 400_000;
    if o.peak > limit {
        return bad(format!("{} bytes in use at the peak, {} allowed", o.peak, limit));
    }
    if !matches!(st.content, Content::Const | Content::Turns(_)) && !page_sizes.is_empty() {
        if mean < 30_000 || mean > 110_000 {
            return bad(format!("full pages have {} bytes on average, about 65536 expected", mean));
        }
        if let Some(x) = page_sizes.iter().find(|x| **x > 200_000) {
            return bad(format!("a page of {} bytes, about 65536 expected", x));
        }
    }
    rep.eval(if rounds.len() > 2 || max_points > 100_000 { Some(mix(i as u64, o.accepted)) } else { None });
    rep.note(&format!("stream_{}", i), s(format!("{}: {} flushes before close", st.label, rounds.len().max(1) - 1)));
}

// ------------------------------------------------------------------ beyond 4 GiB

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(a: *mut u8, len: usize) -> i32;
    fn statvfs(p: *const i8, out: *mut u64) -> i32;
}

fn free_bytes(dir: &std::path::Path) -> u64 {
    let c = std::ffi::CString::new(dir.to_str().unwrap_or("/")).unwrap();
    let mut b = [0u64; 32];
    // f_bsize, f_frsize, f_blocks, f_bfree, f_bavail
    if unsafe { statvfs(c.as_ptr(), b.as_mut_ptr()) } != 0 {
        return 0;
    }
    b[1].saturating_mul(b[4])
}

struct Map(*mut u8, usize);
impl Drop for Map {
    fn drop(&mut self) {
        unsafe { munmap(self.0, self.1) };
    }
}

const HUGE: u64 = 4_260_000_000;

/// Writes a file with offsets that do not fit into 32 bits and follows its
/// index without decoding the points
fn huge_run(rep: &Report, path: &str) -> Result<(), String> {
    use std::os::unix::io::AsRawFd;
    let m = |n: &'static str| Meas { name: n, ty: I64, en: Plain, co: Raw };
    let mut spec = Spec::default();
    spec.devices.push(("root.a", vec![m("s")]));
    spec.devices.push(("root.b", vec![m("s"), m("u")]));
    spec.devices.push(("root.c", vec![m("late")]));
    let all = [("root.a", "s"), ("root.b", "s"), ("root.b", "u")];
    let mut w = open(name(path), &spec).map_err(|e| format!("creating the writer: {}", e.show()))?;
    let mut n = 0u64;
    let mut t = 0i64;
    let mut odd = 0;
    // eight bytes per value and more than four per time
    while n * 12 < HUGE {
        for (d, s) in all {
            for _ in 0..1000 {
                odd ^= 1;
                t += 1 + (odd << 33);
                let r = call_write(&mut w, d, s, t, Val::L(i64::MIN + t));
                if !r.ok() {
                    return Err(format!("legal write at {} answers {} after {} points", t, r.show(), n));
                }
            }
            n += 1000;
        }
        if n % 3_000_000 == 0 && rep.stopped() {
            return Ok(());
        }
    }
    // a series which only exists behind 4 GiB
    let r = call_write(&mut w, "root.c", "late", t + 1, Val::L(5));
    if !r.ok() {
        return Err(format!("legal write answers {}", r.show()));
    }
    let r = call_close(&mut w);
    if !r.ok() {
        return Err(format!("close answers {}", r.show()));
    }
    drop(w);
    let f = std::fs::File::open(path).map_err(|e| e.to_string())?;
    let len = f.metadata().map_err(|e| e.to_string())?.len() as usize;
    if (len as u64) < (1 << 32) + (64 << 20) {
        return Err(format!("the file has only {} bytes for {} points of twelve bytes", len, n));
    }
    let p = unsafe { mmap(std::ptr::null_mut(), len, 1, 2, f.as_raw_fd(), 0) };
    if p as isize == -1 {
        rep.problem("mmap failed");
        return Ok(());
    }
    let map = Map(p, len);
    let b = unsafe { std::slice::from_raw_parts(map.0 as *const u8, map.1) };
    let foot = reader::footer(b)?;
    let mut chunks: Vec<(u64, &str, Vec<u8>)> = vec![];
    let mut points = 0;
    let mut beyond = 0;
    for (d, s) in all.iter().copied().chain([("root.c", "late")]) {
        let mut steps = 0;
        let x = reader::lookup(b, &foot, d.as_bytes(), s.as_bytes(), &mut steps)?
            .ok_or_else(|| format!("{}.{} is not found in a file of {} bytes", d, s, len))?;
        points += x.stats.count as u64;
        let mut last = 0;
        for (o, _) in &x.chunks {
            if *o <= last {
                return Err(format!("chunks of {}.{} are not listed in write order: {} after {}", d, s, o, last));
            }
            last = *o;
            if *o >= 1 << 32 {
                beyond += 1;
            }
            chunks.push((*o, d, s.as_bytes().to_vec()));
        }
    }
    if points != n + 1 {
        return Err(format!("the statistics count {} points, {} were accepted", points, n + 1));
    }
    // the chunks found through the index must fill the data region
    chunks.sort();
    let mut at = 7;
    for (o, d, s) in &chunks {
        let cut = |_| format!("chunk header at {} is cut", o);
        // perhaps headers of groups, the last one with the device of this chunk
        let mut dev: Option<Vec<u8>> = None;
        while at < *o as usize {
            let mut c = reader::Cur::new(b, at, len);
            if c.u8().map_err(cut)? != 0 {
                return Err(format!("no chunk group header at {}, the index names a chunk at {}", at, o));
            }
            dev = c.string().map_err(cut)?.map(|x| x.to_vec());
            at = c.p;
        }
        if at != *o as usize || dev.as_deref().map_or(false, |x| x != d.as_bytes()) {
            return Err(format!("the index names a chunk of {} at {}, which is not there", d, o));
        }
        let mut c = reader::Cur::new(b, at, len);
        let marker = c.u8().map_err(cut)?;
        let nm = c.string().map_err(cut)?.map(|x| x.to_vec()).unwrap_or_default();
        let size = c.uvar().map_err(cut)?.unwrap_or(0);
        if (marker != 1 && marker != 5) || nm != *s {
            return Err(format!("the index names a chunk of {} at {}, which is not there", lossless(s), o));
        }
        at = c.p + 3 + size as usize;
    }
    while at < foot.meta_offset as usize && b[at] == 0 {
        // groups without chunks
        let mut c = reader::Cur::new(b, at, len);
        let _ = c.u8();
        let _ = c.string();
        at = c.p;
    }
    if at != foot.meta_offset as usize || b[at] != 2 {
        return Err(format!("the chunks end at {}, the metadata offset is {}", at, foot.meta_offset));
    }
    rep.metric("huge_file_bytes", len as u64);
    rep.metric("chunks_behind_4_GiB", beyond);
    rep.eval(Some(mix(9100, len as u64)));
    Ok(())
}

fn lossless(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

/// Whether a file of that size can be written here at all
fn plain_file_of(path: &std::path::Path, n: u64) -> bool {
    use std::io::Write;
    let block = vec![0x5au8; 1 << 20];
    let go = || -> std::io::Result<()> {
        let mut f = std::fs::File::create(path)?;
        for _ in 0..(n >> 20) {
            f.write_all(&block)?;
        }
        Ok(())
    };
    go().is_ok()
}

pub fn huge(rep: &Report) {
    if rep.stopped() {
        return;
    }
    if let Ok(o) = std::env::var("TSV_ONLY") {
        if o != "huge:0" {
            return;
        }
    }
    let dir = ["/var/tmp", "/tmp", "/dev/shm"]
        .iter()
        .map(|d| std::path::Path::new(d))
        .find(|d| d.is_dir() && free_bytes(d) > HUGE * 2);
    let dir = match dir {
        Some(d) => d.join(format!("tsv-huge-{}", std::process::id())),
        None => {
            rep.metric("huge_file_skipped_for_lack_of_space", 1);
            return;
        }
    };
    let _ = std::fs::create_dir_all(&dir);
    journal(98, "huge:0 long");
    let path = dir.join("huge.tsfile");
    let r = huge_run(rep, path.to_str().unwrap());
    let _ = std::fs::remove_file(&path);
    if r.is_err() && !plain_file_of(&path, HUGE + (600 << 20)) {
        rep.metric("huge_file_skipped_for_lack_of_space", 1);
        let _ = std::fs::remove_dir_all(&dir);
        journal(98, "");
        return;
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = r {
        rep.violation("", &format!("[file of more than 4 GiB] {}", e), "only huge:0\n");
    }
    journal(98, "");
}
