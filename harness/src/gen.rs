//! Workload generation
use crate::model::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub enum TPat {
    Step(i64),
    Jitter(i64),
    Bits(u32),
    Mixed(u32),
    /// runs of steps with rare jumps
    Jumps(i64, u32),
}

#[derive(Clone)]
pub struct TGen {
    pub last: i64,
    pat: TPat,
}

impl TGen {
    pub fn new(r: &mut Rng) -> TGen {
        let pat = match r.below(12) {
            0 | 1 => TPat::Step(1),
            2 => TPat::Step(1000),
            3 => TPat::Step(1 + r.small(1 << 40) as i64),
            4 | 5 => TPat::Jitter(1 + r.small(1 << 20) as i64),
            6 | 7 => TPat::Bits(1 + r.below(40) as u32),
            8 => TPat::Bits(1 + r.below(55) as u32),
            9 => TPat::Mixed(1 + r.below(46) as u32),
            10 => TPat::Jumps(1 + r.small(5000) as i64, 1 + r.below(40) as u32),
            _ => TPat::Mixed(58),
        };
        let last = match r.below(8) {
            0 | 1 => -1,
            2 => 0,
            3 => 1,
            4 => 1_600_000_000_000,
            5 => r.small(1 << 62) as i64 - 1,
            6 => r.small(1 << 32) as i64 - 1,
            _ => {
                // close to the end of the range
                if r.chance(1, 3) {
                    i64::MAX - 1 - r.small(1 << 20) as i64
                } else {
                    r.small(1 << 50) as i64 - 1
                }
            }
        };
        TGen { last, pat }
    }
    pub fn gap(&mut self, r: &mut Rng) -> i64 {
        match self.pat {
            TPat::Step(s) => s,
            TPat::Jitter(j) => 1 + r.below(j as u64) as i64,
            TPat::Bits(b) => 1 + (r.u64() >> (64 - b.min(63))) as i64,
            TPat::Mixed(b) => 1 + (r.small((1u64 << b) - 1)) as i64,
            TPat::Jumps(s, b) => {
                if r.chance(1, 150) {
                    1 + (r.u64() >> (64 - b)) as i64
                } else {
                    s
                }
            }
        }
    }
    pub fn next(&mut self, r: &mut Rng) -> Option<i64> {
        if self.last == i64::MAX {
            return None;
        }
        let g = self.gap(r);
        self.last = self.last.checked_add(g).unwrap_or(i64::MAX);
        Some(self.last)
    }
}

#[derive(Clone, Debug)]
pub enum VPat {
    Const,
    Ramp(i64),
    /// values of at most that many bits
    Small(u32),
    Full,
    Extremes,
    /// differences of at most that many bits
    Walk(u32),
    Sparse,
    Zig,
    /// one block of each width
    Widths,
}

#[derive(Clone)]
pub struct VGen {
    ty: Ty,
    pub pat: VPat,
    cur: i64,
    n: u64,
    /// NaN allowed
    nan: bool,
}

pub fn widen(ty: Ty, v: i64) -> Val {
    match ty {
        Ty::I32 => Val::I(v as i32),
        Ty::I64 => Val::L(v),
        Ty::F32 => Val::F((v as f32).to_bits()),
    }
}

impl VGen {
    pub fn new(r: &mut Rng, ty: Ty) -> VGen {
        let bits = if ty == Ty::I32 { 32 } else { 64 };
        let pat = match r.below(12) {
            0 => VPat::Const,
            1 => VPat::Ramp(r.range(-5, 5)),
            2 => VPat::Ramp(r.u64() as i64),
            3 | 4 => VPat::Small(1 + r.below(bits) as u32),
            5 => VPat::Full,
            6 => VPat::Extremes,
            7 | 8 => VPat::Walk(1 + r.below(bits) as u32),
            9 => VPat::Sparse,
            10 => VPat::Zig,
            _ => VPat::Widths,
        };
        VGen {
            ty,
            pat,
            cur: if r.chance(1, 2) { r.range(-100, 100) } else { r.u64() as i64 },
            n: 0,
            nan: r.chance(1, 4),
        }
    }
    pub fn next(&mut self, r: &mut Rng) -> Val {
        self.n += 1;
        if self.ty == Ty::F32 {
            let b = match self.pat {
                VPat::Const => (self.cur as u32) & 0xbf7f_ffff,
                VPat::Ramp(s) => (self.n as f32 * (s % 1000) as f32 * 0.37).to_bits(),
                VPat::Small(_) | VPat::Walk(_) => {
                    (r.range(-1_000_000, 1_000_000) as f32 / 1000.0).to_bits()
                }
                VPat::Full | VPat::Widths => r.u64() as u32,
                VPat::Sparse => {
                    if r.chance(1, 50) {
                        r.u64() as u32
                    } else {
                        1.5f32.to_bits()
                    }
                }
                VPat::Zig => {
                    if self.n % 2 == 0 {
                        f32::MAX.to_bits()
                    } else {
                        f32::MIN.to_bits()
                    }
                }
                VPat::Extremes => *r.pick(&[
                    0u32,
                    0x8000_0000,
                    0x7f80_0000,
                    0xff80_0000,
                    0x7f7f_ffff,
                    0xff7f_ffff,
                    1,
                    0x8000_0001,
                    0x0080_0000,
                    0x7fc0_0000,
                    0x3f80_0000,
                    0xffc1_2345,
                ]),
            };
            let mut b = b;
            if !self.nan && f32::from_bits(b).is_nan() {
                b &= 0x7f80_0000 ^ 0xffff_ffff;
            }
            return Val::F(b);
        }
        let (min, max) = if self.ty == Ty::I32 {
            (i32::MIN as i64, i32::MAX as i64)
        } else {
            (i64::MIN, i64::MAX)
        };
        match self.pat {
            VPat::Const => {}
            VPat::Ramp(s) => self.cur = self.cur.wrapping_add(s),
            VPat::Small(b) => {
                self.cur = (r.u64() >> (64 - b)) as i64;
                if r.chance(1, 2) {
                    self.cur = self.cur.wrapping_neg();
                }
            }
            VPat::Full => self.cur = r.u64() as i64,
            VPat::Extremes => {
                self.cur = *r.pick(&[
                    min,
                    max,
                    0,
                    -1,
                    1,
                    min + 1,
                    max - 1,
                    63,
                    64,
                    -64,
                    -65,
                    8191,
                    8192,
                    -8193,
                    1 << 20,
                    1 << 27,
                    -(1 << 27) - 1,
                ])
            }
            VPat::Walk(b) => {
                self.cur = self.cur.wrapping_add((r.u64() >> (64 - b)) as i64)
                    .wrapping_sub(1i64.wrapping_shl(b - 1));
            }
            VPat::Sparse => {
                if r.chance(1, 100) {
                    self.cur = r.u64() as i64
                }
            }
            VPat::Zig => self.cur = if self.n % 2 == 0 { max } else { min },
            VPat::Widths => {
                let b = 1 + (self.n / 129) % if self.ty == Ty::I32 { 32 } else { 64 };
                self.cur = self.cur.wrapping_add((r.u64() >> (64 - b)) as i64);
            }
        }
        if self.ty == Ty::I32 {
            Val::I(self.cur as i32)
        } else {
            Val::L(self.cur)
        }
    }
}

pub fn ident(r: &mut Rng, class: u64) -> String {
    let alpha = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
    let word = |r: &mut Rng, n: usize| -> String {
        (0..n).map(|_| *r.pick(alpha) as char).collect()
    };
    match class {
        0 => format!("s{}", r.below(10)),
        1 => format!("d{}", r.below(2000)),
        2 => {
            let k = 1 + r.usize(6);
            word(r, k)
        }
        3 => {
            let k = 1 + r.usize(3);
            let mut s = String::from("root");
            for _ in 0..k {
                let l = 1 + r.usize(4);
                s.push('.');
                s.push_str(&word(r, l));
            }
            s
        }
        4 => {
            let k = *r.pick(&[7usize, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129]);
            word(r, k)
        }
        5 => {
            let k = 1 + r.usize(12);
            (0..k)
                .map(|_| *r.pick(&['ä', 'ß', '温', '度', 'é', '\u{ffff}', '\u{7f}', 'я', '😀', 'a', '.', '\u{e000}', '\u{10ffff}']))
                .collect()
        }
        6 => {
            let k = r.usize(5);
            (0..k).map(|_| *r.pick(&['a', '.', 'b'])).collect()
        }
        7 => {
            let k = 1 + r.usize(3);
            (0..k)
                .map(|_| *r.pick(&[' ', '"', '\\', '\n', '\0', '\t', '`', '\'', '/', '*', '$']))
                .collect()
        }
        _ => {
            let mut k = *r.pick(&[8191usize, 8192, 8193, 300, 1000, 16383, 16384]);
            if r.chance(1, 300) {
                k = *r.pick(&[65535, 65536, 1048575, 1048576, 1048577]);
            }
            word(r, k)
        }
    }
}

pub fn class(r: &mut Rng) -> u64 {
    *r.pick(&[0, 0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 6, 7, 8])
}

/// n distinct names
pub fn names(r: &mut Rng, n: usize) -> Vec<Name> {
    let mut seen = HashSet::new();
    let mut v = vec![];
    let c0 = class(r);
    let c0 = if n > 40 { *r.pick(&[1, 2, 3, 6]) } else { c0 };
    let mixed = r.chance(1, 4);
    let mut tries = 0;
    while v.len() < n {
        tries += 1;
        let c = if mixed { class(r) } else { c0 };
        let mut s = if tries > 20 * n + 20 {
            format!("{}{}", ident(r, 2), tries)
        } else {
            ident(r, c)
        };
        if n > 40 && c == 1 {
            s = format!("m{}", v.len() * 7919 % 100003);
        }
        // derive one name from another, so that they share prefixes
        if !v.is_empty() && r.chance(1, 8) {
            let o: Name = *r.pick(&v);
            s = match r.below(4) {
                0 => format!("{}.{}", o, s),
                1 => format!("{}0", o),
                2 => format!("{}\u{0}", o),
                _ => o.chars().take(o.chars().count() / 2).collect(),
            };
        }
        if seen.insert(s.clone()) {
            v.push(name(&s));
        }
    }
    v
}

pub fn meas(r: &mut Rng, n: Name, float_diff: bool) -> Meas {
    let ty = *r.pick(&[Ty::I32, Ty::I64, Ty::F32]);
    let en = if ty == Ty::F32 {
        if float_diff && r.chance(1, 4) {
            En::Diff
        } else {
            En::Plain
        }
    } else {
        *r.pick(&[En::Plain, En::Diff])
    };
    Meas {
        name: n,
        ty,
        en,
        co: *r.pick(&[Co::None, Co::Snappy]),
    }
}

pub fn spec(r: &mut Rng, nd: usize, nm: (usize, usize), float_diff: bool) -> Spec {
    let dn = names(r, nd);
    let mut s = Spec::default();
    let shared = r.chance(1, 2);
    let k = nm.1.max(1);
    let common = names(r, k);
    for d in dn {
        let n = nm.0 + r.usize(nm.1 - nm.0 + 1);
        let mut ns: Vec<Name> = if shared {
            let mut c = common.clone();
            r.shuffle(&mut c);
            c.truncate(n);
            c
        } else {
            names(r, n)
        };
        if n > 0 && ns.is_empty() {
            ns.push(name("s"));
        }
        s.devices
            .push((d, ns.into_iter().map(|x| meas(r, x, float_diff)).collect()));
    }
    s
}

pub struct Dial {
    pub illegal: u64,
    pub batch: u64,
    pub flush: u64,
    pub close: bool,
}

pub fn wrong(r: &mut Rng, ty: Ty) -> Val {
    loop {
        let v = match r.below(4) {
            0 => Val::I(r.u64() as i32),
            1 => Val::L(r.u64() as i64),
            2 => Val::F(r.u64() as u32),
            _ => Val::D(r.u64()),
        };
        if v.ty() != Some(ty) {
            return v;
        }
    }
}

fn any(r: &mut Rng, ty: Ty) -> Val {
    match ty {
        Ty::I32 => Val::I(r.u64() as i32),
        Ty::I64 => Val::L(r.u64() as i64),
        Ty::F32 => Val::F(r.range(-1000, 1000).to_owned() as f32 as u32),
    }
}

/// A name that is not in the list, but similar to one of it
pub fn unknown(r: &mut Rng, known: &[Name]) -> Name {
    loop {
        let s = if known.is_empty() || r.chance(1, 3) {
            let c = class(r);
            ident(r, c)
        } else {
            let k: Name = *r.pick(known);
            match r.below(5) {
                0 => format!("{} ", k),
                1 => format!("{}.{}", k, k),
                2 => k.chars().skip(1).collect(),
                3 => k.to_uppercase(),
                _ => format!("x{}", k),
            }
        };
        if !known.contains(&s.as_str()) {
            return name(&s);
        }
    }
}

struct SGen {
    d: usize,
    m: Meas,
    left: u64,
    t: TGen,
    v: VGen,
}

/// A history that writes `points` to each series, plus illegal calls
pub fn history(r: &mut Rng, spec: &Spec, points: (u64, u64), dial: &Dial) -> Vec<Op> {
    let mut gens: Vec<SGen> = vec![];
    let shared_t = r.chance(1, 2);
    let t0 = TGen::new(r);
    for (i, (_, ms)) in spec.devices.iter().enumerate() {
        for m in ms {
            let n = match r.below(6) {
                0 => points.0 + r.small(points.1 - points.0),
                1 if points.0 == 0 && r.chance(1, 3) => 0,
                _ => points.0 + r.below(points.1 - points.0 + 1),
            };
            gens.push(SGen {
                d: i,
                m: *m,
                left: n,
                t: if shared_t { t0.clone() } else { TGen::new(r) },
                v: VGen::new(r, m.ty),
            });
        }
    }
    let style = r.below(4);
    let dn: Vec<Name> = spec.devices.iter().map(|d| d.0).collect();
    let mut ops = vec![];
    let mut live: Vec<usize> = (0..gens.len()).filter(|i| gens[*i].left > 0).collect();
    let mut pos = 0usize;
    let mut run = 0u64;
    let mut model_last: BTreeMap<usize, i64> = BTreeMap::new();
    while !live.is_empty() {
        if dial.illegal > 0 && r.chance(dial.illegal, 1000) && !gens.is_empty() {
            let g = r.usize(gens.len());
            let (d, m) = (dn[gens[g].d], gens[g].m);
            let last = model_last.get(&g).copied().unwrap_or(-1);
            let t = gens[g].t.last.saturating_add(1);
            let good = any(r, m.ty);
            match r.below(9) {
                0 => ops.push(Op::Write(unknown(r, &dn), m.name, t, good)),
                1 => {
                    let kn: Vec<Name> =
                        spec.devices[gens[g].d].1.iter().map(|x| x.name).collect();
                    ops.push(Op::Write(d, unknown(r, &kn), t, good))
                }
                2 => ops.push(Op::Write(d, m.name, t, wrong(r, m.ty))),
                3 => ops.push(Op::Write(d, m.name, last, good)),
                4 => {
                    let o = if last > 0 { r.below(last as u64) as i64 } else { -1 };
                    ops.push(Op::Write(d, m.name, o, good))
                }
                5 => {
                    let n = *r.pick(&[-1, i64::MIN, -2, -1_000_000, -(1 << 40)]);
                    ops.push(Op::Write(d, m.name, n, good))
                }
                6 => ops.push(Op::Batch(unknown(r, &dn), t, vec![(m.name, good)])),
                7 => {
                    // a type error that is too old as well
                    ops.push(Op::Write(d, m.name, last, wrong(r, m.ty)))
                }
                _ => ops.push(Op::Batch(d, t, vec![])),
            }
            continue;
        }
        if dial.flush > 0 && r.chance(dial.flush, 1000) {
            ops.push(Op::Flush);
        }
        // which series
        let li = match style {
            0 => 0,
            1 => {
                pos = (pos + 1) % live.len();
                pos
            }
            2 => r.usize(live.len()),
            _ => {
                if run == 0 {
                    run = 1 + r.small(400);
                    pos = r.usize(live.len());
                }
                run -= 1;
                pos % live.len()
            }
        };
        let gi = live[li];
        if dial.batch > 0 && r.chance(dial.batch, 1000) {
            let d = gens[gi].d;
            let mut set: Vec<usize> = live.iter().copied().filter(|x| gens[*x].d == d).collect();
            r.shuffle(&mut set);
            let k = 1 + r.usize(set.len());
            set.truncate(k);
            let mut t = set.iter().map(|x| gens[*x].t.last).max().unwrap();
            if t == i64::MAX {
                for x in &set {
                    gens[*x].left = 0;
                }
            } else {
                let gap = gens[gi].t.gap(r);
                t = t.checked_add(gap).unwrap_or(i64::MAX);
                let mut ps = vec![];
                for x in &set {
                    let v = gens[*x].v.next(r);
                    ps.push((gens[*x].m.name, v));
                    gens[*x].t.last = t;
                    gens[*x].left -= 1;
                    model_last.insert(*x, t);
                }
                if dial.illegal > 0 && r.chance(dial.illegal, 400) {
                    let at = r.usize(ps.len() + 1);
                    let g = *r.pick(&set);
                    let kn: Vec<Name> = spec.devices[d].1.iter().map(|x| x.name).collect();
                    let bad = match r.below(4) {
                        0 => (unknown(r, &kn), Val::I(1)),
                        1 => (gens[g].m.name, wrong(r, gens[g].m.ty)),
                        2 => (gens[g].m.name, any(r, gens[g].m.ty)),
                        _ => {
                            // a series that is ahead of this batch
                            let ahead: Vec<usize> = (0..gens.len())
                                .filter(|x| gens[*x].d == d && model_last.get(x).map_or(false, |l| *l > t))
                                .collect();
                            if ahead.is_empty() {
                                (unknown(r, &kn), Val::L(1))
                            } else {
                                let a = *r.pick(&ahead);
                                (gens[a].m.name, any(r, gens[a].m.ty))
                            }
                        }
                    };
                    ps.insert(at, bad);
                }
                ops.push(Op::Batch(dn[d], t, ps));
            }
        } else {
            match gens[gi].t.next(r) {
                None => gens[gi].left = 0,
                Some(t) => {
                    let v = gens[gi].v.next(r);
                    ops.push(Op::Write(dn[gens[gi].d], gens[gi].m.name, t, v));
                    gens[gi].left -= 1;
                    model_last.insert(gi, t);
                }
            }
        }
        if gens[gi].left == 0 || r.chance(1, 64) {
            live.retain(|x| gens[*x].left > 0);
        }
        live.retain(|x| gens[*x].left > 0);
    }
    if dial.close {
        ops.push(Op::Close);
    }
    ops
}

fn case(family: &'static str, spec: Spec, ops: Vec<Op>) -> Case {
    Case {
        family,
        spec,
        ops,
        params: BTreeMap::new(),
    }
}

pub fn tiny(r: &mut Rng, illegal: u64) -> Case {
    let nd = 1 + r.usize(3);
    let lo = if r.chance(1, 4) { 0 } else { 1 };
    let s = spec(r, nd, (lo, 3), illegal > 0);
    let f = *r.pick(&[0, 0, 30, 100, 300]);
    let b = *r.pick(&[0, 200, 500, 1000]);
    let n = *r.pick(&[1, 3, 8, 40]);
    let ops = history(
        r,
        &s,
        (0, n),
        &Dial {
            illegal,
            batch: b,
            flush: f,
            close: true,
        },
    );
    case("tiny", s, ops)
}

pub fn mixed(r: &mut Rng, illegal: u64) -> Case {
    let nd = 1 + r.usize(6);
    let s = spec(r, nd, (1, 8), illegal > 0);
    let f = *r.pick(&[0, 1, 5, 20]);
    let b = *r.pick(&[0, 100, 500]);
    let n = *r.pick(&[20, 130, 258, 700]);
    let ops = history(
        r,
        &s,
        (1, n),
        &Dial {
            illegal,
            batch: b,
            flush: f,
            close: true,
        },
    );
    case("mixed", s, ops)
}

/// one or two series with lengths around the block size of TS_2DIFF
pub fn blocks(r: &mut Rng) -> Case {
    let mut s = spec(r, 1, (1, 2), false);
    for m in s.devices[0].1.iter_mut() {
        if m.ty != Ty::F32 && r.chance(2, 3) {
            m.en = En::Diff;
        }
    }
    let k = r.usize(6) as u64;
    let base = 129 * k;
    let d = r.range(-2, 2);
    let n = (base as i64 + d).max(1) as u64;
    let (lo, hi) = if r.chance(1, 2) { (n, n) } else { (1, 9000) };
    let ops = history(
        r,
        &s,
        (lo, hi),
        &Dial {
            illegal: 0,
            batch: 0,
            flush: *[0, 0, 3].get(k as usize % 3).unwrap(),
            close: true,
        },
    );
    case("blocks", s, ops)
}

/// several pages per chunk
pub fn pages(r: &mut Rng) -> Case {
    let s = spec(r, 1, (1, 2), false);
    let (lo, hi) = *r.pick(&[
        (7985, 7995),
        (8000, 20000),
        (20000, 45000),
        (15970, 15990),
        (30000, 70000),
    ]);
    let f = *r.pick(&[0, 0, 0, 0, 1, 2]);
    let mut ops = history(
        r,
        &s,
        (lo, hi),
        &Dial {
            illegal: 0,
            batch: 0,
            flush: 0,
            close: true,
        },
    );
    if f == 1 {
        for _ in 0..1 + r.usize(3) {
            let at = r.usize(ops.len());
            ops.insert(at, Op::Flush);
        }
    }
    if f == 2 {
        // flushes where pages may just have been completed
        for k in (1..4).rev() {
            let at = 7989 * k + r.usize(3) - 1;
            if at < ops.len() {
                ops.insert(at, Op::Flush);
            }
        }
    }
    case("pages", s, ops)
}

/// hundreds of chunks per series
pub fn rounds(r: &mut Rng) -> Case {
    let nd = 1 + r.usize(2);
    let s = spec(r, nd, (1, 2), false);
    let n = *r.pick(&[126u64, 127, 128, 129, 130, 255, 256, 257, 258, 300, 700]);
    let mut ops = vec![];
    for (d, ms) in s.devices.iter() {
        for m in ms.iter() {
            let mut v = VGen::new(r, m.ty);
            let mut t = TGen::new(r);
            t.last = t.last.min(1 << 60);
            t.pat = TPat::Jitter(1 + r.small(1 << 20) as i64);
            let miss = *r.pick(&[0, 0, 1, 30]);
            let mut at = vec![];
            for i in 0..n {
                if r.chance(miss, 100) {
                    continue;
                }
                for _ in 0..*r.pick(&[1, 1, 1, 2, 5]) {
                    if let Some(x) = t.next(r) {
                        at.push((i, Op::Write(*d, m.name, x, v.next(r))));
                    }
                }
            }
            ops.extend(at);
        }
    }
    ops.sort_by_key(|x| x.0);
    let mut all = vec![];
    let mut last = 0;
    for (i, o) in ops {
        if i != last {
            all.push(Op::Flush);
            last = i;
        }
        all.push(o);
    }
    all.push(Op::Close);
    case("rounds", s, all)
}

/// Numbers of points and sizes of pages around the places where their
/// representation grows; `k` below `SIZES`
pub const SIZES: u64 = 2 * (70 + 260 + 12 + 120);
pub fn sizes(r: &mut Rng, k: u64) -> Case {
    let snappy = k % 2 == 1;
    let k = k / 2;
    // `long` values take a byte more
    let mut long = if r.chance(1, 4) { r.below(100) } else { 0 };
    let n = match k {
        0..=69 => 65 + k,
        70..=329 => 16170 + (k - 70),
        342.. => {
            long = (k - 342) / 4;
            13800 + k % 4
        }
        _ => *[1u64, 2, 63, 64, 127, 128, 129, 8191, 8192, 16383, 16384, 16385].get(k as usize - 330).unwrap(),
    };
    let mut s = Spec::default();
    let m = Meas {
        name: name("s"),
        ty: Ty::I32,
        en: En::Plain,
        co: if snappy { Co::Snappy } else { Co::None },
    };
    let other = Meas { name: name("t"), ..m };
    s.devices.push((name("root.d"), vec![m, other]));
    // one byte per value, two constant blocks of time per 128 points
    let mut ops = vec![Op::Write(name("root.d"), other.name, 1, Val::I(1))];
    for i in 0..n {
        let v = if i < long { 200 } else { r.range(-64, 63) as i32 };
        ops.push(Op::Write(name("root.d"), m.name, i as i64, Val::I(v)));
    }
    ops.push(Op::Close);
    case("sizes", s, ops)
}

/// many devices or many measurements
pub fn wide(r: &mut Rng) -> Case {
    let (nd, nm) = match r.below(8) {
        0 => (*r.pick(&[255, 256, 257, 258, 511, 512, 513, 514, 600]), (1, 1)),
        1 => (1, (255, 258)),
        2 => (1, (510, 515)),
        3 => (2, (250, 800)),
        4 => (30 + r.usize(40), (1, 12)),
        5 => (200 + r.usize(150), (1, 3)),
        6 => (3, (40, 50)),
        _ => (1 + r.usize(700), (1, 2)),
    };
    let s = spec(r, nd, nm, false);
    let lo = r.below(2);
    let hi = 1 + r.below(2);
    let f = *r.pick(&[0, 0, 2]);
    let b = *r.pick(&[0, 300]);
    let ops = history(
        r,
        &s,
        (lo, hi),
        &Dial {
            illegal: 0,
            batch: b,
            flush: f,
            close: true,
        },
    );
    case("wide", s, ops)
}

/// many chunks per series
pub fn chunks(r: &mut Rng, illegal: u64) -> Case {
    let nd = 1 + r.usize(3);
    let s = spec(r, nd, (1, 4), illegal > 0);
    let ops = history(
        r,
        &s,
        (10, 80),
        &Dial {
            illegal,
            batch: 300,
            flush: *[20, 100, 250].get(nd - 1).unwrap(),
            close: true,
        },
    );
    case("chunks", s, ops)
}

/// no devices, devices without data, nothing written
pub fn empty(r: &mut Rng) -> Case {
    let nd = r.usize(3);
    let s = spec(r, nd, (1, 3), false);
    let mut ops = vec![];
    if r.chance(1, 2) {
        ops.push(Op::Flush);
    }
    if nd > 0 && r.chance(1, 2) {
        let (d, ms) = &s.devices[0];
        ops.push(Op::Write(d, ms[0].name, -5, any(r, ms[0].ty)));
    }
    ops.push(Op::Close);
    case("empty", s, ops)
}

/// exactly these numbers of devices and measurements, one point each
pub fn grid(nd: usize, nm: usize, label: &'static str) -> Case {
    let mut s = Spec::default();
    let ms: Vec<Meas> = (0..nm)
        .map(|i| Meas {
            name: name(&format!("s{}", i)),
            ty: [Ty::I32, Ty::I64, Ty::F32][i % 3],
            en: En::Plain,
            co: if i % 5 == 0 { Co::Snappy } else { Co::None },
        })
        .collect();
    for d in 0..nd {
        s.devices.push((name(&format!("root.d{}", d)), ms.clone()));
    }
    let mut ops = vec![];
    for (d, ms) in &s.devices {
        for (i, m) in ms.iter().enumerate() {
            ops.push(Op::Write(d, m.name, i as i64, widen(m.ty, i as i64 * 3 - 7)));
        }
    }
    ops.push(Op::Close);
    case(label, s, ops)
}

/// The general mixture; `k` selects the family so that every run has each
pub fn any_case(r: &mut Rng, k: u64, illegal: bool) -> Case {
    let i = |r: &mut Rng, x: u64| if illegal && r.chance(1, 2) { x } else { 0 };
    match k % 20 {
        0..=5 => {
            let x = i(r, 250);
            tiny(r, x)
        }
        6..=9 => {
            let x = i(r, 60);
            mixed(r, x)
        }
        10..=12 => blocks(r),
        13 | 14 => pages(r),
        15 | 16 => wide(r),
        17 if k % 60 == 37 => rounds(r),
        17 | 18 => {
            let x = i(r, 60);
            chunks(r, x)
        }
        _ => {
            if r.chance(1, 4) {
                empty(r)
            } else {
                let x = i(r, 250);
                tiny(r, x)
            }
        }
    }
}
