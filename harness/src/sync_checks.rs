//! C18 (schema log), C19 (handshake), C20 (session), C21 (RPC)
use crate::driver::*;
use crate::exec::*;
use crate::gen;
use crate::interpose::{self, Fault as WriteFault};
use crate::judge::Metrics;
use crate::model::*;
use crate::report::Report;
use crate::rng::Rng;
use crate::wire::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::rc::Rc;
use std::time::Duration;
use thrift::protocol::{TBinaryInputProtocol, TBinaryOutputProtocol};
use thrift::server::TProcessor;
use tsfile_writer::sync::sync_sender::verif_hooks as sender;
use tsfile_writer::sync::sync_sender::{SyncSender, SyncSenderError};
use tsfile_writer::sync::verif_hooks as rpc;
use tsfile_writer::sync::verif_hooks::TSyncServiceSyncClient;

fn hex(b: &[u8]) -> String {
    let mut t: String = b.iter().take(60).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 60 {
        t.push_str(&format!("… ({} bytes)", b.len()));
    }
    t
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(60).collect()
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, PartialEq)]
enum Rec {
    Group(Vec<u8>),
    Series(Vec<u8>, u8, u8, u8),
}

/// Frames of a schema log
fn log_frames(b: &[u8]) -> Result<Vec<Vec<Rec>>, String> {
    let mut p = 0;
    let mut all = vec![];
    let short = |p: usize| format!("the log ends inside of a frame at byte {}", p);
    while p < b.len() {
        let n = i32::from_be_bytes(b.get(p..p + 4).ok_or(short(p))?.try_into().unwrap());
        let n = usize::try_from(n).map_err(|_| format!("frame length {} at byte {}", n, p))?;
        let body = b.get(p + 4..p + 4 + n).ok_or(short(p))?;
        let sum = i64::from_be_bytes(b.get(p + 4 + n..p + 12 + n).ok_or(short(p))?.try_into().unwrap());
        if sum != crc32(body) as i64 {
            return Err(format!("the frame at byte {} has checksum {:x}, its content has {:x}", p, sum, crc32(body)));
        }
        p += 12 + n;
        all.push(records(body)?);
    }
    Ok(all)
}

fn records(b: &[u8]) -> Result<Vec<Rec>, String> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let e = || format!("a record ends early at byte {} of its frame", p);
        let k = b[p];
        let n = i32::from_be_bytes(b.get(p + 1..p + 5).ok_or_else(e)?.try_into().unwrap());
        let n = usize::try_from(n).map_err(|_| format!("path length {}", n))?;
        let path = b.get(p + 5..p + 5 + n).ok_or_else(e)?.to_vec();
        let rest = p + 5 + n;
        match k {
            3 => {
                if b.get(rest..rest + 8).ok_or_else(e)? != [0; 8] {
                    return Err("the index of a storage group record is not 0".into());
                }
                v.push(Rec::Group(path));
                p = rest + 8;
            }
            4 => {
                let f = b.get(rest..rest + 23).ok_or_else(e)?;
                if f[3..11] != [255; 8] || f[11..15] != [0; 4] || f[15..23] != [0; 8] {
                    return Err(format!("tag offset, options or index of the record of {} are {}", text(&path), hex(&f[3..])));
                }
                v.push(Rec::Series(path, f[0], f[1], f[2]));
                p = rest + 23;
            }
            _ => return Err(format!("record of unknown kind {} at byte {} of its frame", k, p)),
        }
    }
    Ok(v)
}

fn check_log(b: &[u8], sg: &str, spec: &Spec) -> Result<u64, String> {
    let frames = log_frames(b)?;
    let mut all: Vec<Rec> = frames.into_iter().flatten().collect();
    if all.is_empty() || all[0] != Rec::Group(sg.as_bytes().to_vec()) {
        return Err(format!("the log starts with {:?}, not with the storage group {:?}", all.first(), sg));
    }
    all.remove(0);
    let mut want: BTreeMap<(Vec<u8>, u8, u8, u8), u64> = BTreeMap::new();
    for (d, ms) in &spec.devices {
        for m in ms {
            *want
                .entry((format!("{}.{}.{}", sg, d, m.name).into_bytes(), m.ty.code(), m.en.code(), m.co.code()))
                .or_default() += 1;
        }
    }
    let n = all.len();
    for r in all {
        match r {
            Rec::Group(g) => return Err(format!("a second storage group record, for {:?}", text(&g))),
            Rec::Series(p, t, e, c) => match want.get_mut(&(p.clone(), t, e, c)) {
                Some(n) if *n > 0 => *n -= 1,
                _ => return Err(format!("a record for {:?} with type {} encoding {} compression {} that the schema does not have (that often)", text(&p), t, e, c)),
            },
        }
    }
    if let Some((k, _)) = want.iter().find(|x| *x.1 > 0) {
        return Err(format!("no record for the series {:?}", text(&k.0)));
    }
    Ok(n as u64)
}

fn group_name(r: &mut Rng) -> String {
    let c = gen::class(r);
    gen::ident(r, c)
}

fn schema_case(r: &mut Rng, k: u64) -> Case {
    let mut c = match k % 6 {
        0 => gen::empty(r),
        1 => gen::wide(r),
        2 => gen::mixed(r, 0),
        _ => gen::tiny(r, 0),
    };
    c.ops.clear();
    c.set("sg", name(&group_name(r)));
    c
}

/// The log the sender prepares
#[cfg(not(tsfile_verif_no_mlog))]
fn prepared(sg: &str, spec: &Spec) -> Result<Vec<u8>, String> {
    sender::write_mlog(sg, schema(spec)).map_err(|e| format!("{:?}", e))
}
/// Without access to it: the log as a receiver sees it
#[cfg(all(tsfile_verif_no_mlog, not(tsfile_verif_no_session)))]
fn prepared(sg: &str, spec: &Spec) -> Result<Vec<u8>, String> {
    let path = scratch().join(format!("c18-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    std::fs::write(&path, b"x").map_err(|e| e.to_string())?;
    let (r, seen) = against(
        |_, f| match decode(f) {
            Some((d, _)) => Act::Reply(framed(&encode(&reply(&String::from_utf8_lossy(&d.name), d.seq, status(0, MSG)), true).b)),
            None => Act::CloseAtOnce,
        },
        None,
        |addr| {
            let c: Connected = SyncSender::new(addr, Some("1.1.1.1"), Some("id"));
            c.and_then(|mut c| sender::sync(&mut c, path.to_str().unwrap(), sg, schema(spec)))
        },
    )?;
    r.map_err(|e| format!("{:?}", e))?;
    let first = seen.frames.iter().filter_map(|f| decode(f)).find(|(d, _)| d.name == b"syncData");
    match first.as_ref().map(|(d, _)| d.body.as_slice()) {
        Some([(1, TV::Str(b))]) => Ok(b.clone()),
        _ => Err("no log is transferred".into()),
    }
}
#[cfg(all(tsfile_verif_no_mlog, tsfile_verif_no_session))]
fn prepared(_: &str, _: &Spec) -> Result<Vec<u8>, String> {
    unbuildable()
}
/// The check cannot decide without this hook
#[cfg(any(tsfile_verif_no_mlog, tsfile_verif_no_session))]
#[allow(dead_code)]
fn unbuildable() -> ! {
    eprintln!("INCONCLUSIVE: the hooks of the sync sender do not build");
    std::process::exit(3);
}

fn c18_schema(c: &Case, m: &mut Metrics) -> Eval {
    let sg = c.param("sg");
    match guarded(|| prepared(sg, &c.spec)) {
        Err(p) => bad(format!("preparing the log panics: {}", p)),
        Ok(Err(e)) => bad(format!("preparing the log fails: {:?}", e)),
        Ok(Ok(b)) => match check_log(&b, sg, &c.spec) {
            Err(t) => bad(t),
            Ok(n) => {
                m.add("logs", 1);
                m.add("series_records", n);
                if n == 0 {
                    Eval::Trivial
                } else {
                    Eval::Counted
                }
            }
        },
    }
}

/// A destination that takes few bytes at a time, is interrupted, and fails
struct Dest {
    b: Vec<u8>,
    step: usize,
    fail_at: Option<usize>,
    calls: u64,
    failed: bool,
}
impl Write for Dest {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.step < 100 && self.calls % 5 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let mut n = x.len().min(self.step);
        if let Some(f) = self.fail_at {
            if self.b.len() >= f {
                self.failed = true;
                return match self.calls % 3 {
                    0 => Ok(0),
                    1 => Err(std::io::ErrorKind::Other.into()),
                    _ => Err(std::io::Error::from_raw_os_error(28)),
                };
            }
            n = n.min(f - self.b.len());
        }
        self.b.extend(&x[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

#[cfg(not(tsfile_verif_no_log))]
fn c18_records(r: &mut Rng, _k: u64, m: &mut Metrics) -> Eval {
    let mut log = rpc::MLog::new();
    let mut pending: Vec<Rec> = vec![];
    let mut history = String::new();
    let n = 1 + r.below(40);
    let (mut total, mut frames) = (0, 0);
    let share = 1 + r.below(6);
    for _ in 0..n {
        if r.chance(1, 1 + share) {
            let len: usize = pending.iter().map(|p| match p { Rec::Group(g) => g.len() + 13, Rec::Series(p, ..) => p.len() + 28 }).sum::<usize>() + 12;
            let mut d = Dest {
                b: vec![],
                step: *r.pick(&[1, 2, 7, 13, usize::MAX, usize::MAX]),
                fail_at: if r.chance(1, 4) { Some(r.usize(len + 3)) } else { None },
                calls: 0,
                failed: false,
            };
            history.push_str(&format!("flush({:?}) ", d.fail_at));
            let res = match guarded(|| rpc::mlog_flush(&mut log, &mut d)) {
                Ok(x) => x,
                Err(p) => return bad(format!("flush panics: {} after {}", p, history)),
            };
            m.add("flushes", 1);
            match (res, d.failed) {
                (Ok(_), false) => {
                    let f = match log_frames(&d.b) {
                        Ok(f) => f,
                        Err(t) => return bad(format!("{} after {}", t, history)),
                    };
                    let got: Vec<Rec> = f.into_iter().flatten().collect();
                    if got != pending {
                        return bad(format!("flushed {:?}, written since the last flush were {:?}; {}", got, pending, history));
                    }
                    frames += 1;
                    total += got.len() as u64;
                    pending.clear();
                }
                (Err(_), true) => m.add("flushes_refused_by_the_destination", 1),
                (Ok(_), true) => return bad(format!("flush succeeds although the destination failed; {}", history)),
                (Err(e), false) => return bad(format!("flush fails ({}) although the destination did not; {}", e, history)),
            }
        } else if r.chance(1, 4) {
            let g = group_name(r);
            history.push_str("group ");
            pending.push(Rec::Group(g.clone().into_bytes()));
            if rpc::mlog_set_storage_group(&mut log, &g).is_err() {
                return bad("a storage group record is refused");
            }
        } else {
            let x = gen::meas(r, name("m"), true);
            let p = format!("{}.{}", group_name(r), group_name(r));
            history.push_str("series ");
            pending.push(Rec::Series(p.clone().into_bytes(), x.ty.code(), x.en.code(), x.co.code()));
            if log.create_plan(&p, dt(x.ty), enc(x.en), comp(x.co)).is_err() {
                return bad("a series record is refused");
            }
        }
    }
    m.add("frames", frames);
    m.add("records_in_frames", total);
    if total > 0 {
        Eval::Counted
    } else {
        Eval::Trivial
    }
}

const FRAMES: [usize; 22] = [
    64, 127, 128, 255, 256, 512, 1000, 1024, 1500, 4096, 8192, 10_000, 16_384, 32_767, 32_768, 65_535, 65_536, 100_000, 131_072, 196_608,
    1 << 20, 3 << 20,
];

/// Frames of chosen sizes
#[cfg(not(tsfile_verif_no_log))]
fn c18_frames(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let size = match FRAMES.get(k as usize / 10) {
        Some(s) => s + (k as usize / 2 % 5) - 2,
        None if k % 2 == 0 => 40 + r.usize(300_000),
        None => 1024 * (1 + r.usize(300)),
    };
    let mut log = rpc::MLog::new();
    let mut want = vec![];
    let mut left = size;
    // one record, or many
    let one = k % 2 == 0;
    while left > 0 {
        let mut n = if one || left < 2 * 28 + 200 { left - 28 } else { r.usize(170) };
        if left > 28 + n && left - 28 - n < 28 {
            n = left - 28;
        }
        left -= 28 + n;
        let c = (b'a' + r.below(26) as u8) as char;
        let p: String = (0..n).map(|i| if i % 7 == 3 { '.' } else { c }).collect();
        let x = gen::meas(r, name("m"), true);
        if log.create_plan(&p, dt(x.ty), enc(x.en), comp(x.co)).is_err() {
            return bad("a series record is refused");
        }
        want.push(Rec::Series(p.into_bytes(), x.ty.code(), x.en.code(), x.co.code()));
    }
    let mut out = vec![];
    match guarded(|| rpc::mlog_flush(&mut log, &mut out)) {
        Err(p) => return bad(format!("flush of {} bytes panics: {}", size, p)),
        Ok(Err(e)) => return bad(format!("flush of {} bytes fails: {}", size, e)),
        Ok(Ok(_)) => {}
    }
    match log_frames(&out) {
        Err(t) => bad(format!("{} records of {} bytes: {}", want.len(), size, t)),
        Ok(f) => {
            if f.into_iter().flatten().collect::<Vec<_>>() != want {
                return bad(format!("{} records of {} bytes come back changed", want.len(), size));
            }
            m.add("frames_of_chosen_size", 1);
            m.max("largest_frame", size as u64);
            Eval::Counted
        }
    }
}

pub fn c18(rep: &Report) {
    rep.rule("schema logs prepared by the sender for generated schemas and storage groups, decoded by an independent reader (lengths, CRC-32, records) and compared with the schema as a multiset; random sequences of records and flushes into destinations that take a few bytes at a time, are interrupted or fail; non-trivial: at least one series record");
    let f = if rep.thorough { 15 } else { 1 };
    cases(rep, "schema", 6000 * f, 300.0, &schema_case, &c18_schema);
    #[cfg(not(tsfile_verif_no_log))]
    each(rep, "records", 60_000 * f, 300.0, &c18_records);
    #[cfg(not(tsfile_verif_no_log))]
    each(rep, "frames", FRAMES.len() as u64 * 10 + if rep.thorough { 30_000 } else { 600 }, 300.0, &c18_frames);
}

// ------------------------------------------------------------------ replies

fn status(code: i32, msg: &str) -> Fields {
    vec![(1, TV::I32(code)), (2, TV::Str(msg.as_bytes().to_vec()))]
}

fn reply(method: &str, seq: i32, st: Fields) -> Msg {
    Msg {
        name: method.as_bytes().to_vec(),
        ty: REPLY,
        seq,
        body: vec![(0, TV::Struct(st))],
    }
}

fn exception(method: &str, seq: i32, msg: &str, kind: i32) -> Msg {
    Msg {
        name: method.as_bytes().to_vec(),
        ty: EXCEPTION,
        seq,
        body: vec![(1, TV::Str(msg.as_bytes().to_vec())), (2, TV::I32(kind))],
    }
}

/// What a client has to make of a reply
#[derive(Clone, Debug, PartialEq)]
enum Expect {
    Status(i32, Vec<u8>),
    App(i32, Vec<u8>),
    Error,
    /// anything but a panic
    Any,
}

#[derive(Clone, Debug)]
enum Fault {
    Fine,
    Code(i32),
    Exception(i32),
    Name(String),
    Seq(i32),
    Type(u8),
    NoResult,
    NoCode,
    NoMsg,
    BadUtf8,
    Cut(usize),
    Byte(usize, u8),
}

const MSG: &str = "xyzzy";

/// The bytes of a reply with a fault, without a frame
fn faulty(f: &Fault, method: &str, seq: i32, strict: bool, r: &mut Rng, plain: bool) -> (Vec<u8>, Expect) {
    let mut m = reply(method, seq, status(0, MSG));
    let ok = Expect::Status(0, MSG.as_bytes().to_vec());
    let mut want = Expect::Error;
    let mut disturbable = !plain;
    match f {
        Fault::Fine => want = ok.clone(),
        Fault::Code(c) => {
            m = reply(method, seq, status(*c, MSG));
            want = Expect::Status(*c, MSG.as_bytes().to_vec());
        }
        Fault::Exception(k) => {
            m = exception(method, seq, MSG, *k);
            want = Expect::App(*k, MSG.as_bytes().to_vec());
            disturbable = false;
        }
        Fault::Name(n) => m.name = n.clone().into_bytes(),
        Fault::Seq(s) => m.seq = *s,
        Fault::Type(t) => m.ty = *t,
        Fault::NoResult => m.body.clear(),
        Fault::NoCode => m.body = vec![(0, TV::Struct(vec![(2, TV::Str(MSG.into()))]))],
        Fault::NoMsg => m.body = vec![(0, TV::Struct(vec![(1, TV::I32(7))]))],
        Fault::BadUtf8 => {
            m.body = vec![(0, TV::Struct(vec![(1, TV::I32(0)), (2, TV::Str(vec![0xff, 0xfe]))]))];
            want = Expect::Any;
            disturbable = false;
        }
        Fault::Cut(_) | Fault::Byte(..) => disturbable = false,
    }
    if disturbable {
        for (_, v) in m.body.iter_mut() {
            if let TV::Struct(s) = v {
                disturb(r, s, &[1, 2]);
            }
        }
        if !matches!(f, Fault::NoResult) || r.chance(1, 2) {
            disturb(r, &mut m.body, &[0]);
        }
    }
    let e = encode(&m, strict);
    let mut b = e.b.clone();
    match f {
        Fault::Cut(n) => {
            b.truncate((*n).min(e.b.len() - 1));
        }
        Fault::Byte(i, v) => {
            let i = i % b.len();
            let mut v = *v;
            if let Some(l) = e.lens.iter().find(|l| i >= **l && i < **l + 4) {
                // a length stays honest: neither negative nor enormous
                v &= [0, 0x0f, 0xff, 0xff][i - l];
            }
            if strict && i == 0 {
                v |= 0x80;
            }
            b[i] = v;
            want = match decode(&b) {
                _ if b == e.b => ok,
                Some((d, n)) if n == b.len() => {
                    let known = strict && i == 1 || strict && i == 2;
                    let st = d.body.iter().find(|x| x.0 == 0).map(|x| &x.1);
                    if known {
                        Expect::Any
                    } else if d.name != m.name || d.seq != seq || d.ty != REPLY {
                        Expect::Error
                    } else if let Some(TV::Struct(s)) = st {
                        match (s.iter().find(|x| x.0 == 1), s.iter().find(|x| x.0 == 2)) {
                            (Some((_, TV::I32(c))), Some((_, TV::Str(t)))) if std::str::from_utf8(t).is_ok() => Expect::Status(*c, t.clone()),
                            (None, _) | (_, None) => Expect::Error,
                            _ => Expect::Any,
                        }
                    } else if st.is_none() {
                        Expect::Error
                    } else {
                        Expect::Any
                    }
                }
                _ => Expect::Any,
            };
        }
        _ => {}
    }
    (b, want)
}

/// The faults that exist for a reply of about that many bytes
fn all_faults(len: usize, seq: i32, method: &str) -> Vec<Fault> {
    let mut v = vec![Fault::Fine];
    for c in [1, 2, 200, i32::MAX, -1, -2, -200, i32::MIN] {
        v.push(Fault::Code(c));
    }
    for k in 0..=10 {
        v.push(Fault::Exception(k));
    }
    for n in ["", "check2", "chec", "Check", "startSync", "endSync", "init", "initSyncData", "syncData", "checkDataDigest", "syncDeletedFileName", "check"] {
        if n != method {
            v.push(Fault::Name(n.into()));
        }
    }
    for s in [0, seq - 1, seq + 1, -seq, i32::MIN, i32::MAX, seq + 256] {
        if s != seq {
            v.push(Fault::Seq(s));
        }
    }
    for t in [0, 1, 4, 5, 9, 255] {
        v.push(Fault::Type(t));
    }
    v.extend([Fault::NoResult, Fault::NoCode, Fault::NoMsg, Fault::BadUtf8]);
    for n in 0..len {
        v.push(Fault::Cut(n));
    }
    v
}

fn reply_len(method: &str) -> usize {
    encode(&reply(method, 1, status(0, MSG)), true).b.len()
}

// ------------------------------------------------------------------ C21

const METHODS: [&str; 8] = ["check", "startSync", "init", "syncDeletedFileName", "initSyncData", "syncData", "checkDataDigest", "endSync"];

#[derive(Clone, Debug, PartialEq)]
struct Call {
    method: usize,
    info: [Option<String>; 3],
    interval: Option<i64>,
    s: String,
    data: Vec<u8>,
}

fn string(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        return String::new();
    }
    if r.chance(1, 60) {
        let n = (1usize << r.below(15)) - 1 + r.usize(3);
        return "x\u{e9}".chars().cycle().take(n).collect();
    }
    let c = gen::class(r);
    gen::ident(r, c)
}

/// All magnitudes, limits and the neighbourhood of powers of two
fn number(r: &mut Rng) -> i64 {
    let p = 1i64 << r.below(63);
    match r.below(8) {
        0 => 0,
        1 => r.range(-3, 3),
        2 => p + r.range(-2, 1),
        3 => -p - r.range(-2, 1),
        4 => *r.pick(&[i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, 604800, 200, -1]),
        _ => (r.u64() >> r.below(64)) as i64,
    }
}

fn code(r: &mut Rng) -> i32 {
    number(r) as i32
}

fn any_call(r: &mut Rng) -> Call {
    let o = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(string(r)) };
    let n = match r.below(80) {
        0 => r.usize(200_000),
        1 => (1usize << r.below(18)) - 1 + r.usize(3),
        _ => r.usize(60),
    };
    Call {
        method: r.usize(8),
        info: [o(r), o(r), o(r)],
        interval: if r.chance(1, 4) { None } else { Some(number(r)) },
        s: string(r),
        data: (0..n).map(|_| r.u64() as u8).collect(),
    }
}

impl Call {
    /// the arguments on the wire
    fn args(&self) -> Fields {
        let s = |x: &String| TV::Str(x.clone().into_bytes());
        match self.method {
            0 => {
                let mut f = vec![];
                if let Some(x) = &self.info[0] {
                    f.push((1, s(x)));
                }
                if let Some(x) = &self.info[1] {
                    f.push((2, s(x)));
                }
                if let Some(x) = self.interval {
                    f.push((3, TV::I64(x)));
                }
                if let Some(x) = &self.info[2] {
                    f.push((4, s(x)));
                }
                vec![(-1, TV::Struct(f))]
            }
            1 | 7 => vec![],
            5 => vec![(1, TV::Str(self.data.clone()))],
            _ => vec![(1, s(&self.s))],
        }
    }
    /// what a handler is given: fields left out have their defaults
    fn given(&self) -> Call {
        let mut c = self.clone();
        if c.method != 0 {
            c.info = Default::default();
            c.interval = None;
        } else {
            for i in c.info.iter_mut() {
                *i = Some(i.clone().unwrap_or_default());
            }
            c.interval = Some(c.interval.unwrap_or(0));
        }
        if c.method != 5 {
            c.data.clear();
        }
        if [0, 1, 5, 7].contains(&c.method) {
            c.s.clear();
        }
        c
    }
}

#[derive(Clone, Default)]
struct Pipe(Rc<RefCell<(Vec<u8>, usize)>>);
impl Pipe {
    fn fill(&self, b: Vec<u8>) {
        *self.0.borrow_mut() = (b, 0);
    }
    fn drain(&self) -> Vec<u8> {
        std::mem::take(&mut self.0.borrow_mut().0)
    }
}
impl Read for Pipe {
    fn read(&mut self, x: &mut [u8]) -> std::io::Result<usize> {
        let mut s = self.0.borrow_mut();
        let n = x.len().min(s.0.len() - s.1);
        let p = s.1;
        x[..n].copy_from_slice(&s.0[p..p + n]);
        s.1 += n;
        Ok(n)
    }
}
impl Write for Pipe {
    fn write(&mut self, x: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().0.extend(x);
        Ok(x.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Answers when the request is complete
struct Peer {
    request: Pipe,
    reply: Pipe,
}

type Client = rpc::SyncServiceSyncClient<TBinaryInputProtocol<Pipe>, TBinaryOutputProtocol<Pipe>>;

fn client(strict: (bool, bool)) -> (Client, Peer) {
    let p = Peer { request: Pipe::default(), reply: Pipe::default() };
    let c = rpc::SyncServiceSyncClient::new(
        TBinaryInputProtocol::new(p.reply.clone(), strict.0),
        TBinaryOutputProtocol::new(p.request.clone(), strict.1),
    );
    (c, p)
}

fn make<C: rpc::TSyncServiceSyncClient>(c: &mut C, x: &Call) -> thrift::Result<rpc::SyncStatus> {
    match x.method {
        0 => c.check(rpc::ConfirmInfo::new(x.info[0].clone(), x.info[1].clone(), x.interval, x.info[2].clone())),
        1 => c.start_sync(),
        2 => c.init(x.s.clone()),
        3 => c.sync_deleted_file_name(x.s.clone()),
        4 => c.init_sync_data(x.s.clone()),
        5 => c.sync_data(x.data.clone()),
        6 => c.check_data_digest(x.s.clone()),
        _ => c.end_sync(),
    }
}

fn kind_code(k: &thrift::ApplicationErrorKind) -> i32 {
    use thrift::ApplicationErrorKind::*;
    match k {
        Unknown => 0,
        UnknownMethod => 1,
        InvalidMessageType => 2,
        WrongMethodName => 3,
        BadSequenceId => 4,
        MissingResult => 5,
        InternalError => 6,
        ProtocolError => 7,
        InvalidTransform => 8,
        InvalidProtocol => 9,
        UnsupportedClientType => 10,
    }
}
fn kind_of(k: i32) -> thrift::ApplicationErrorKind {
    use thrift::ApplicationErrorKind::*;
    match k {
        1 => UnknownMethod,
        2 => InvalidMessageType,
        3 => WrongMethodName,
        4 => BadSequenceId,
        5 => MissingResult,
        6 => InternalError,
        7 => ProtocolError,
        8 => InvalidTransform,
        9 => InvalidProtocol,
        10 => UnsupportedClientType,
        _ => Unknown,
    }
}

fn answer(want: &Expect, got: &Result<thrift::Result<rpc::SyncStatus>, String>) -> Result<(), String> {
    let g = match got {
        Err(p) => return Err(format!("panic: {}", p)),
        Ok(g) => g,
    };
    let ok = match (want, g) {
        (Expect::Any, _) => true,
        (Expect::Status(c, m), Ok(s)) => s.code == *c && s.msg.as_bytes() == m.as_slice(),
        (Expect::App(k, m), Err(thrift::Error::Application(a))) => kind_code(&a.kind) == *k && a.message.as_bytes() == m.as_slice(),
        (Expect::Error, Err(_)) => true,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("expected {:?}, the client gives {:?}", want, g))
    }
}

/// The request of a call: complete, exact, with a later number than before
fn request_ok(b: &[u8], x: &Call, last: i32) -> Result<i32, String> {
    let (m, n) = decode(b).ok_or_else(|| format!("the request cannot be decoded: {}", hex(b)))?;
    if n != b.len() {
        return Err(format!("{} bytes after the request: {}", b.len() - n, hex(b)));
    }
    if m.name != METHODS[x.method].as_bytes() || m.ty != CALL {
        return Err(format!("{} is requested as {:?} with message type {}", METHODS[x.method], text(&m.name), m.ty));
    }
    if m.seq <= last {
        return Err(format!("sequence number {} after {}", m.seq, last));
    }
    if m.body != x.args() {
        return Err(format!("{} is requested with {} instead of {}", METHODS[x.method], short(&m.body), short(&x.args())));
    }
    Ok(m.seq)
}

fn short(f: &Fields) -> String {
    format!("{:?}", f).chars().take(300).collect()
}

/// Several calls of one client, each answered correctly
fn c21_calls(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let strict = (r.chance(1, 2), r.chance(1, 2));
    let (mut c, p) = client(strict);
    let n = match k % 1000 {
        17 => 70_000,
        37 | 537 => 1000,
        _ => 1 + r.below(12),
    };
    // the number of the first call is not known beforehand
    let mut last = i32::MIN;
    for i in 0..n {
        let mut x = any_call(r);
        if n > 20 {
            x.data.truncate(60);
        }
        p.reply.fill(vec![]);
        let seq = if last == i32::MIN {
            // look at the number first
            let (mut c2, p2) = client(strict);
            let _ = guarded(|| make(&mut c2, &x));
            match decode(&p2.request.drain()) {
                Some((q, _)) => q.seq,
                None => return bad("the request cannot be decoded"),
            }
        } else {
            last + 1
        };
        let want;
        let mut msg;
        if r.chance(1, 5) {
            let kind = r.range(0, 10) as i32;
            let t = string(r);
            msg = exception(METHODS[x.method], seq, &t, kind);
            want = Expect::App(kind, t.into_bytes());
            disturb(r, &mut msg.body, &[1, 2]);
        } else {
            let code = code(r);
            let t = string(r);
            let mut st = status(code, &t);
            disturb(r, &mut st, &[1, 2]);
            msg = reply(METHODS[x.method], seq, st);
            disturb(r, &mut msg.body, &[0]);
            want = Expect::Status(code, t.into_bytes());
        }
        p.reply.fill(encode(&msg, strict.0 || r.chance(1, 2)).b);
        let got = guarded(|| make(&mut c, &x));
        match request_ok(&p.request.drain(), &x, last) {
            Err(t) => return bad(format!("call {} of {}: {}", i, n, t)),
            Ok(s) => {
                if s != seq {
                    // another numbering would be as good: ask again
                    if i > 0 {
                        m.add("gaps_in_numbers", 1);
                        return Eval::Trivial;
                    }
                }
                last = s;
            }
        }
        if let Err(t) = answer(&want, &got) {
            return bad(format!("call {} of {}, {}: {}; the reply was {}", i, n, METHODS[x.method], t, short(&msg.body)));
        }
        m.add("calls", 1);
    }
    Eval::Counted
}

/// One call answered wrongly
fn c21_faults(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let method = (k % 8) as usize;
    let mut x = any_call(r);
    x.method = method;
    x.data.truncate(100);
    let strict = r.chance(1, 2);
    let len = reply_len(METHODS[method]);
    let faults = all_faults(len, 1, METHODS[method]);
    let f = match faults.get((k / 8) as usize) {
        Some(f) => f.clone(),
        None => Fault::Byte(r.usize(len), r.u64() as u8),
    };
    let (mut c, p) = client((false, r.chance(1, 2)));
    let plain = r.chance(1, 2);
    let (b, want) = faulty(&f, METHODS[method], 1, strict, r, plain);
    crate::driver::show(|| format!("reply to {} with {:?}: {} must give {:?}", METHODS[method], f, hex(&b), want));
    p.reply.fill(b.clone());
    let got = guarded(|| make(&mut c, &x));
    let s = match request_ok(&p.request.drain(), &x, i32::MIN) {
        Err(t) => return bad(t),
        Ok(s) => s,
    };
    if s != 1 {
        return Eval::Trivial;
    }
    if let Err(t) = answer(&want, &got) {
        return bad(format!("{} answered with {:?} ({}): {}", METHODS[method], f, hex(&b), t));
    }
    m.add(
        match f {
            Fault::Cut(_) => "replies_cut",
            Fault::Byte(..) => "replies_with_a_changed_byte",
            _ => "replies_of_other_kinds",
        },
        1,
    );
    if want == Expect::Any {
        m.add("replies_of_which_only_no_panic_is_required", 1);
        return Eval::Trivial;
    }
    Eval::Counted
}

enum Outcome {
    Status(i32, String),
    App(i32, String),
    User(String),
    Protocol(String),
}

struct Handler {
    calls: Rc<RefCell<Vec<Call>>>,
    outcome: Rc<RefCell<Outcome>>,
}
impl Handler {
    fn got(&self, method: usize, info: Option<rpc::ConfirmInfo>, s: String, data: Vec<u8>) -> thrift::Result<rpc::SyncStatus> {
        let (i, interval) = match info {
            Some(i) => ([i.address, i.uuid, i.version], i.partition_interval),
            None => (Default::default(), None),
        };
        self.calls.borrow_mut().push(Call { method, info: i, interval, s, data });
        match &*self.outcome.borrow() {
            Outcome::Status(c, m) => Ok(rpc::SyncStatus::new(*c, m.clone())),
            Outcome::App(k, m) => Err(thrift::Error::Application(thrift::ApplicationError::new(kind_of(*k), m.clone()))),
            Outcome::User(m) => Err(thrift::Error::User(m.clone().into())),
            Outcome::Protocol(m) => Err(thrift::Error::Protocol(thrift::ProtocolError::new(thrift::ProtocolErrorKind::InvalidData, m.clone()))),
        }
    }
}
impl rpc::SyncServiceSyncHandler for Handler {
    fn handle_check(&self, info: rpc::ConfirmInfo) -> thrift::Result<rpc::SyncStatus> {
        self.got(0, Some(info), String::new(), vec![])
    }
    fn handle_start_sync(&self) -> thrift::Result<rpc::SyncStatus> {
        self.got(1, None, String::new(), vec![])
    }
    fn handle_init(&self, s: String) -> thrift::Result<rpc::SyncStatus> {
        self.got(2, None, s, vec![])
    }
    fn handle_sync_deleted_file_name(&self, s: String) -> thrift::Result<rpc::SyncStatus> {
        self.got(3, None, s, vec![])
    }
    fn handle_init_sync_data(&self, s: String) -> thrift::Result<rpc::SyncStatus> {
        self.got(4, None, s, vec![])
    }
    fn handle_sync_data(&self, b: Vec<u8>) -> thrift::Result<rpc::SyncStatus> {
        self.got(5, None, String::new(), b)
    }
    fn handle_check_data_digest(&self, s: String) -> thrift::Result<rpc::SyncStatus> {
        self.got(6, None, s, vec![])
    }
    fn handle_end_sync(&self) -> thrift::Result<rpc::SyncStatus> {
        self.got(7, None, String::new(), vec![])
    }
}

struct Server {
    p: rpc::SyncServiceSyncProcessor<Handler>,
    calls: Rc<RefCell<Vec<Call>>>,
    outcome: Rc<RefCell<Outcome>>,
}
fn server() -> Server {
    let calls = Rc::new(RefCell::new(vec![]));
    let outcome = Rc::new(RefCell::new(Outcome::Status(0, String::new())));
    Server {
        p: rpc::SyncServiceSyncProcessor::new(Handler { calls: calls.clone(), outcome: outcome.clone() }),
        calls,
        outcome,
    }
}
impl Server {
    /// the reply's bytes and whether processing succeeded
    fn serve(&self, request: Vec<u8>, strict: bool) -> Result<(Vec<u8>, bool), String> {
        let (i, o) = (Pipe::default(), Pipe::default());
        i.fill(request);
        let mut ip = TBinaryInputProtocol::new(i, false);
        let mut op = TBinaryOutputProtocol::new(o.clone(), strict);
        let ok = guarded(|| self.p.process(&mut ip, &mut op))?.is_ok();
        Ok((o.drain(), ok))
    }
}

/// Calls served by the processor
fn c21_server(r: &mut Rng, _k: u64, m: &mut Metrics) -> Eval {
    let sv = server();
    for _ in 0..1 + r.below(6) {
        let x = any_call(r);
        let seq = code(r);
        let mut body = x.args();
        for (_, v) in body.iter_mut() {
            if let TV::Struct(s) = v {
                disturb(r, s, &[1, 2, 3, 4]);
            }
        }
        disturb(r, &mut body, if x.method == 0 { &[-1] } else { &[1] });
        let msg = Msg { name: METHODS[x.method].as_bytes().to_vec(), ty: CALL, seq, body };
        let t = string(r);
        let code = code(r);
        let kind = r.range(0, 10) as i32;
        let (o, want) = match r.below(6) {
            0 => (Outcome::App(kind, t.clone()), Some((kind, true))),
            1 => (Outcome::User(t.clone()), Some((0, false))),
            2 => (Outcome::Protocol(t.clone()), Some((0, false))),
            _ => (Outcome::Status(code, t.clone()), None),
        };
        *sv.outcome.borrow_mut() = o;
        sv.calls.borrow_mut().clear();
        let strict = r.chance(1, 2);
        let (b, _) = match sv.serve(encode(&msg, r.chance(1, 2)).b, strict) {
            Ok(x) => x,
            Err(p) => return bad(format!("serving {} panics: {}; arguments {}", METHODS[x.method], p, short(&msg.body))),
        };
        let got = sv.calls.borrow().clone();
        if got != [x.given()] {
            return bad(format!(
                "{} with arguments {} hands to the handler: {}",
                METHODS[x.method],
                short(&msg.body),
                format!("{:?}", got).chars().take(300).collect::<String>()
            ));
        }
        let (d, n) = match decode(&b) {
            Some(x) => x,
            None => return bad(format!("the reply to {} cannot be decoded: {}", METHODS[x.method], hex(&b))),
        };
        if n != b.len() || d.name != msg.name || d.seq != seq {
            return bad(format!("the reply to {} number {} is for {:?} number {} and {} bytes too long", METHODS[x.method], seq, text(&d.name), d.seq, b.len() - n));
        }
        let ok = match want {
            None => d.ty == REPLY && d.body == reply("", 0, status(code, &t)).body,
            Some((k, exact)) => d.ty == EXCEPTION && (!exact || d.body == exception("", 0, &t, k).body),
        };
        if !ok {
            return bad(format!("{}: the handler gives {:?} {:?}, the reply has type {} and {}", METHODS[x.method], want, (code, &t), d.ty, short(&d.body)));
        }
        m.add("calls_served", 1);
    }
    Eval::Counted
}

/// Requests that are cut, changed or wrong
fn c21_requests(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let sv = server();
    let x = Call {
        method: (k % 8) as usize,
        info: [Some("addrs".into()), Some("uuid".into()), Some("vers".into())],
        interval: Some(604800),
        s: "groupname".into(),
        data: b"somebytes".to_vec(),
    };
    let msg = Msg { name: METHODS[x.method].as_bytes().to_vec(), ty: CALL, seq: 9, body: x.args() };
    crate::driver::show(|| format!("request for {} with a fault", METHODS[x.method]));
    let strict = r.chance(1, 2);
    let e = encode(&msg, strict);
    let mut b = e.b.clone();
    let i = (k / 8) as usize;
    let mut must_fail = true;
    if i < b.len() {
        b.truncate(i);
    } else {
        match r.below(8) {
            0 => {
                // a method there is not
                let n = *r.pick(&["", "Check", "chec", "checkk", "sync", "start_sync"]);
                b = encode(&Msg { name: n.into(), ..msg.clone() }, strict).b;
            }
            1 if x.method != 1 && x.method != 7 => {
                // no arguments
                b = encode(&Msg { body: vec![], ..msg.clone() }, strict).b;
            }
            _ => {
                let i = r.usize(b.len());
                let mut v = r.u64() as u8;
                if let Some(l) = e.lens.iter().find(|l| i >= **l && i < **l + 4) {
                    v &= [0, 0x0f, 0xff, 0xff][i - l];
                }
                if strict && i == 0 {
                    v |= 0x80;
                }
                b[i] = v;
                must_fail = false;
            }
        }
    }
    let (rep, ok) = match sv.serve(b.clone(), strict) {
        Ok(x) => x,
        Err(p) => return bad(format!("serving a wrong request for {} panics: {}; {}", METHODS[x.method], p, hex(&b))),
    };
    let calls = sv.calls.borrow().clone();
    if must_fail {
        if !calls.is_empty() {
            return bad(format!("a wrong request for {} ({}) reaches the handler: {:?}", METHODS[x.method], hex(&b), calls));
        }
        if ok && decode(&rep).map_or(true, |d| d.0.ty != EXCEPTION) {
            return bad(format!("a wrong request for {} ({}) is answered with {}", METHODS[x.method], hex(&b), hex(&rep)));
        }
        m.add("requests_cut_or_incomplete", 1);
        return Eval::Counted;
    }
    m.add("requests_with_a_changed_byte", 1);
    // whatever it is now: what was handed over is what the bytes say
    if let Some((d, n)) = decode(&b) {
        let version = strict && b[1..3] != e.b[1..3];
        if n == b.len() && d.ty == CALL && !version && (d.body == msg.body || d.name != msg.name) {
            let same = METHODS.iter().position(|x| x.as_bytes() == d.name.as_slice());
            let want: Vec<Call> = if same == Some(x.method) { vec![x.given()] } else { vec![] };
            if same.map_or(true, |s| s == x.method) && calls != want {
                return bad(format!("request {} gives {:?}", hex(&b), calls));
            }
        }
    }
    Eval::Trivial
}

/// The client against the processor
fn c21_both(r: &mut Rng, _k: u64, m: &mut Metrics) -> Eval {
    let strict = r.chance(1, 2);
    let (mut c, p) = client((strict, strict));
    let sv = server();
    for i in 0..1 + r.below(8) {
        let x = any_call(r);
        let t = string(r);
        let code = r.u64() as i32;
        *sv.outcome.borrow_mut() = Outcome::Status(code, t.clone());
        sv.calls.borrow_mut().clear();
        // the request, from a client with the same number of calls behind it
        let (mut c2, p2) = client((strict, strict));
        for _ in 0..i {
            let _ = guarded(|| make(&mut c2, &Call { method: 1, ..x.clone() }));
            p2.request.drain();
        }
        let _ = guarded(|| make(&mut c2, &x));
        let rq = p2.request.drain();
        let (b, ok) = match sv.serve(rq, strict) {
            Ok(x) => x,
            Err(p) => return bad(format!("serving {} panics: {}", METHODS[x.method], p)),
        };
        p.reply.fill(b);
        let got = guarded(|| make(&mut c, &x));
        p.request.drain();
        if !ok || *sv.calls.borrow() != [x.given()] {
            return bad(format!("{} arrives as {}", METHODS[x.method], format!("{:?}", sv.calls.borrow()).chars().take(300).collect::<String>()));
        }
        if let Err(e) = answer(&Expect::Status(code, t.into_bytes()), &got) {
            return bad(format!("{}: {}", METHODS[x.method], e));
        }
        m.add("calls_from_client_to_processor_and_back", 1);
    }
    Eval::Counted
}

fn negative_length() -> Vec<u8> {
    // a reply whose message has length -1
    let mut b = encode(&reply("check", 1, status(0, "")), true).b;
    let n = b.len();
    b[n - 6..n - 2].copy_from_slice(&[255; 4]);
    b
}

fn c21_known(rep: &Report) {
    single(rep, "lengths", || {
        let (mut c, p) = client((false, true));
        p.reply.fill(negative_length());
        let got = guarded(|| c.check(rpc::ConfirmInfo::default()));
        if let Err(t) = answer(&Expect::Error, &got) {
            rep.violation("negative-string-length-in-a-reply", &format!("a reply with a string of length -1: {}", t), "only lengths:0\n");
        }
        let sv = server();
        let mut b = encode(&Msg { name: "init".into(), ty: CALL, seq: 1, body: vec![(1, TV::Str(vec![]))] }, true).b;
        let n = b.len();
        b[n - 5..n - 1].copy_from_slice(&[255; 4]);
        match sv.serve(b, true) {
            Err(p) => rep.violation("negative-string-length-in-a-request", &format!("serving a request with a string of length -1 panics: {}", p), "only lengths:0\n"),
            Ok(_) if !sv.calls.borrow().is_empty() => rep.violation("", "a request with a string of length -1 reaches the handler", "only lengths:0\n"),
            _ => {}
        }
        rep.eval(None);
    });
}

pub fn c21(rep: &Report) {
    rep.rule("calls of the eight operations with arbitrary arguments, decoded by an independent implementation of the binary protocol; replies with permuted and unknown fields, exceptions, and every kind of wrong reply, cut at every byte or with a changed byte; the processor given requests made by the independent implementation, likewise disturbed, cut and changed; the client connected to the processor; non-trivial: a call whose result is fully determined");
    rep.assume("lengths inside of changed messages are neither negative nor enormous: the thrift crate panics on those (known finding)");
    let f = if rep.thorough { 20 } else { 1 };
    each(rep, "calls", 40_000 * f, 200.0, &c21_calls);
    each(rep, "faults", 60_000 * f, 200.0, &c21_faults);
    each(rep, "server", 40_000 * f, 200.0, &c21_server);
    each(rep, "requests", 40_000 * f, 200.0, &c21_requests);
    each(rep, "both", 15_000 * f, 200.0, &c21_both);
    c21_known(rep);
}

// ------------------------------------------------------------------ fake receiver

/// What the receiver does with the nth request of a connection
#[derive(Clone, Debug)]
enum Act {
    /// replies with that and goes on
    Reply(Vec<u8>),
    /// replies in pieces of that many bytes
    Pieces(Vec<u8>, usize),
    /// sends that, then closes
    Last(Vec<u8>),
    /// closes with unread data, which resets the connection
    Reset,
    /// closes without having read
    CloseAtOnce,
}

fn framed(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as i32).to_be_bytes().to_vec();
    v.extend(b);
    v
}

/// The requests of one connection
#[derive(Default, Clone)]
struct Seen {
    frames: Vec<Vec<u8>>,
    /// bytes of an incomplete request
    rest: usize,
}

fn read_frame(s: &mut TcpStream, seen: &mut Seen) -> Option<Vec<u8>> {
    let mut h = [0; 4];
    let mut n = 0;
    // TCP_QUICKACK: clients that send a message in pieces do not wait for acknowledgements
    let quick = |s: &TcpStream| {
        use std::os::fd::AsRawFd;
        unsafe { setsockopt(s.as_raw_fd(), 6, 12, &1i32 as *const i32 as *const u8, 4) };
    };
    while n < 4 {
        quick(s);
        match s.read(&mut h[n..]) {
            Ok(0) | Err(_) => {
                seen.rest = n;
                return None;
            }
            Ok(k) => n += k,
        }
    }
    quick(s);
    let len = i32::from_be_bytes(h);
    if len < 0 || len > 1 << 30 {
        seen.rest = 4;
        return None;
    }
    let mut b = vec![0; len as usize];
    let mut n = 0;
    while n < b.len() {
        match s.read(&mut b[n..]) {
            Ok(0) | Err(_) => {
                seen.rest = 4 + n;
                return None;
            }
            Ok(k) => n += k,
        }
    }
    Some(b)
}

/// One connection; `act` is asked for each request
fn receive(mut s: TcpStream, act: &mut dyn FnMut(usize, &[u8]) -> Act, greeting: Option<Act>) -> Seen {
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
    let mut seen = Seen::default();
    if greeting.is_some() {
        return seen;
    }
    while let Some(f) = read_frame(&mut s, &mut seen) {
        let i = seen.frames.len();
        let a = act(i, &f);
        seen.frames.push(f);
        match a {
            Act::Reply(b) => {
                if s.write_all(&b).is_err() {
                    break;
                }
            }
            Act::Pieces(b, n) => {
                for c in b.chunks(n.max(1)) {
                    if s.write_all(c).is_err() {
                        break;
                    }
                    std::thread::yield_now();
                }
            }
            Act::Last(b) => {
                let _ = s.write_all(&b);
                // what comes after it is of interest, too
                let _ = s.shutdown(std::net::Shutdown::Write);
                while let Some(f) = read_frame(&mut s, &mut seen) {
                    seen.frames.push(f);
                }
                break;
            }
            Act::Reset => {
                reset_on_close(&s);
                return seen;
            }
            Act::CloseAtOnce => return seen,
        }
    }
    // the client is done; a reset keeps its port from being kept for a minute
    reset_on_close(&s);
    seen
}

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, val: *const u8, len: u32) -> i32;
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

/// SO_LINGER 0: the close becomes a reset
fn reset_on_close(s: &TcpStream) {
    use std::os::fd::AsRawFd;
    unsafe { setsockopt(s.as_raw_fd(), 1, 13, &[1i32, 0] as *const [i32; 2] as *const u8, 8) };
}

/// The system may be short of ports for a while
fn listen() -> TcpListener {
    for _ in 0..900 {
        if let Ok(l) = TcpListener::bind("127.0.0.1:0") {
            return l;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    eprintln!("INCONCLUSIVE: cannot listen on the loopback interface");
    std::process::exit(3);
}

thread_local! {
    static LISTENER: TcpListener = listen();
}

/// Runs a client against a receiver for one connection
fn against<T>(act: impl FnMut(usize, &[u8]) -> Act + Send, greeting: Option<Act>, f: impl FnOnce(&str) -> T) -> Result<(T, Seen), String> {
    let l = LISTENER.with(|l| l.try_clone()).map_err(|e| e.to_string())?;
    let addr = l.local_addr().map_err(|e| e.to_string())?.to_string();
    let over = std::sync::atomic::AtomicBool::new(false);
    let accepted = std::sync::atomic::AtomicBool::new(false);
    let mut act = act;
    let r = std::thread::scope(|sc| {
        let (over, accepted) = (&over, &accepted);
        let l = &l;
        let h = sc.spawn(move || {
            let s = match l.accept() {
                Ok((s, _)) => s,
                Err(_) => return Seen::default(),
            };
            accepted.store(true, std::sync::atomic::Ordering::SeqCst);
            if over.load(std::sync::atomic::Ordering::SeqCst) {
                return Seen::default();
            }
            receive(s, &mut act, greeting)
        });
        let r = guarded(|| f(&addr));
        over.store(true, std::sync::atomic::Ordering::SeqCst);
        if !accepted.load(std::sync::atomic::Ordering::SeqCst) {
            // in case nobody connected
            let _ = TcpStream::connect(&addr);
        }
        let seen = h.join().unwrap_or_default();
        match r {
            Ok(x) => Ok((x, seen)),
            Err(p) => Err(format!("panic: {}", p)),
        }
    });
    // nothing is left for the next one
    let _ = l.set_nonblocking(true);
    while l.accept().is_ok() {}
    let _ = l.set_nonblocking(false);
    r
}

// ------------------------------------------------------------------ C19

type Connected = Result<sender::TcpSyncSender, SyncSenderError>;

fn confirm(seen: &[u8], address: &str, uuid: &str) -> Result<i32, String> {
    let (m, n) = decode(seen).ok_or_else(|| format!("the handshake cannot be decoded: {}", hex(seen)))?;
    if n != seen.len() {
        return Err(format!("{} bytes after the handshake", seen.len() - n));
    }
    let s = |x: &str| TV::Str(x.as_bytes().to_vec());
    let want = vec![(-1, TV::Struct(vec![(1, s(address)), (2, s(uuid)), (3, TV::I64(604800)), (4, s("0.13"))]))];
    let mut body = m.body.clone();
    if let Some((_, TV::Struct(f))) = body.first_mut() {
        f.sort_by_key(|x| x.0);
    }
    if m.name != b"check" || m.ty != CALL || body != want {
        return Err(format!("the handshake is {:?} type {} {}, not check {}", text(&m.name), m.ty, short(&m.body), short(&want)));
    }
    Ok(m.seq)
}

fn uuid_like(r: &mut Rng) -> String {
    match r.below(4) {
        0 => string(r),
        _ => format!("{:016x}{:016x}", r.u64(), r.u64()),
    }
}

/// A handshake with one kind of answer
fn c19_answers(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let len = reply_len("check");
    let faults = all_faults(len, 1, "check");
    let f = match faults.get(k as usize) {
        Some(f) => f.clone(),
        None => Fault::Byte(r.usize(len), r.u64() as u8),
    };
    let (address, uuid) = (string(r), uuid_like(r));
    let plain = r.chance(1, 2);
    let (bytes, want) = faulty(&f, "check", 1, r.chance(1, 2), r, plain);
    crate::driver::show(|| format!("reply with {:?}: {} must give {:?}", f, hex(&bytes), want));
    let mut whole = framed(&bytes);
    let mut want = want;
    if let Fault::Cut(_) = f {
        if r.chance(1, 2) {
            // the frame promises more than comes
            let n = bytes.len() + 1 + r.usize(30);
            whole[..4].copy_from_slice(&(n as i32).to_be_bytes());
            if r.chance(1, 3) {
                whole.truncate(r.usize(5));
            }
        }
    }
    let how = r.below(12);
    let (act, greeting) = match how {
        0 => {
            want = Expect::Error;
            (Act::Reset, None)
        }
        1 => {
            want = Expect::Error;
            (Act::CloseAtOnce, None)
        }
        2 => {
            want = Expect::Error;
            (Act::CloseAtOnce, Some(Act::CloseAtOnce))
        }
        3..=5 => (Act::Pieces(whole.clone(), 1 + r.usize(9)), None),
        6 => {
            // more than one answer
            let mut b = whole.clone();
            if matches!(f, Fault::Fine | Fault::Code(_)) {
                b.extend(framed(&bytes));
            }
            (Act::Last(b), None)
        }
        7 if matches!(f, Fault::Fine | Fault::Code(_)) => (Act::Reply(whole.clone()), None),
        _ => (Act::Last(whole.clone()), None),
    };
    // after an answer in pieces that makes no sense the connection is closed
    let act = match (act, &f) {
        (Act::Pieces(b, n), Fault::Fine | Fault::Code(_)) => Act::Pieces(b, n),
        (Act::Pieces(b, _), _) => Act::Last(b),
        (a, _) => a,
    };
    let a2 = act.clone();
    let no_request = greeting.is_some();
    let out = against(
        move |i, _| if i == 0 { a2.clone() } else { Act::CloseAtOnce },
        greeting,
        |addr| {
            let c: Connected = SyncSender::new(addr, Some(&address), Some(&uuid));
            match c {
                Ok(_) => Ok(()),
                Err(e) => Err(format!("{:?}", e)),
            }
        },
    );
    let (got, seen) = match out {
        Ok(x) => x,
        Err(p) => return bad(format!("connecting to a receiver that answers {:?} ({:?}): {}", f, act, p)),
    };
    if !no_request {
        if seen.frames.len() != 1 || seen.rest != 0 {
            return bad(format!("{} requests and {} bytes during a connect, expected the handshake alone", seen.frames.len(), seen.rest));
        }
        match confirm(&seen.frames[0], &address, &uuid) {
            Err(t) => return bad(t),
            Ok(1) => {}
            // the replies were made for number 1
            Ok(_) => return Eval::Trivial,
        }
    }
    let ok = match &want {
        Expect::Any => true,
        Expect::Status(c, _) => got.is_ok() == (*c >= 0),
        _ => got.is_err(),
    };
    if !ok {
        return bad(format!("a receiver that answers {:?} ({:?}, {}) gives {:?}", f, act, hex(&whole), got));
    }
    m.add(if got.is_ok() { "connections_confirmed" } else { "connections_failed" }, 1);
    if want == Expect::Any {
        Eval::Trivial
    } else {
        Eval::Counted
    }
}

/// Nobody there
fn c19_unreachable(r: &mut Rng, _k: u64, m: &mut Metrics) -> Eval {
    let l = listen();
    let free = l.local_addr().unwrap().to_string();
    drop(l);
    let a = match r.below(6) {
        0..=2 => free,
        3 => "127.0.0.1".to_string(),
        4 => "127.0.0.1:99999".to_string(),
        _ => String::new(),
    };
    match guarded(|| {
        let c: Connected = SyncSender::new(&a, Some("1.2.3.4"), Some("id"));
        c.is_ok()
    }) {
        Ok(false) => {
            m.add("unreachable_receivers", 1);
            Eval::Counted
        }
        Ok(true) => bad(format!("connecting to {:?}, where nobody listens, succeeds", a)),
        Err(p) => bad(format!("connecting to {:?}: panic: {}", a, p)),
    }
}

/// Connects in the current folder: arguments are addresses of receivers, each
/// followed by an identifier or "-"
pub fn connect_child(args: &[String]) -> i32 {
    let mut out = String::new();
    let t = std::env::var("TSV_FAULT").unwrap_or_default();
    let w: Vec<&str> = t.split(':').collect();
    let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    let fault = match w[0] {
        "short" => WriteFault::Short(n(1) as usize),
        "eintr" => WriteFault::Mixed(n(1)),
        "once" => WriteFault::FailOnce(n(1), n(2) as i32),
        "from" => WriteFault::FailFrom(n(1), n(2) as i32),
        "limit" => WriteFault::Limit(n(1), n(2) as i32),
        "kill" => WriteFault::Kill(n(1), n(2) as usize),
        "slow" => WriteFault::Slow(n(1)),
        _ => WriteFault::None,
    };
    let print = w[0] != "print";
    for a in args.chunks(2) {
        let id = if a[1] == "-" { None } else { Some(a[1].as_str()) };
        let r = guarded(|| {
            let run = || {
                let c: Connected = SyncSender::new(&a[0], Some("10.0.0.1"), id);
                c.is_ok()
            };
            interpose::with(fault.clone(), false, || if print { run() } else { unprintable(run) }).0
        });
        out.push_str(&match r {
            Ok(true) => "result ok\n".to_string(),
            Ok(false) => "result error\n".to_string(),
            Err(p) => format!("result panic {}\n", p.replace('\n', " ")),
        });
    }
    // the sender talks on the same stream
    println!("\n{}", out);
    0
}

/// Sequences of connections in processes of their own
fn c19_identity(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let dir = scratch().join(format!("id{}", k));
    let _ = std::fs::create_dir_all(&dir);
    let e = identity(r, m, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    e
}

fn identity(r: &mut Rng, m: &mut Metrics, dir: &std::path::Path) -> Eval {
    let file = dir.join("uuid.lock");
    let mut stored: Option<String> = None;
    let mut broken = false;
    match r.below(6) {
        0 => {
            stored = Some(format!("{:016x}{:016x}", r.u64(), r.u64()));
            std::fs::write(&file, stored.as_ref().unwrap()).unwrap();
        }
        1 => {
            // cannot be read or written
            std::fs::create_dir(&file).unwrap();
            broken = true;
        }
        _ => {}
    }
    let mut history = vec![];
    for _ in 0..1 + r.below(3) {
        // one process
        let l = listen();
        let addr = l.local_addr().unwrap().to_string();
        let n = 1 + r.usize(4);
        let mut args = vec![];
        let mut plan = vec![];
        for _ in 0..n {
            let given = if r.chance(1, 3) { Some(format!("given{}", r.below(1000))) } else { None };
            let accept = r.chance(2, 3);
            args.push(addr.clone());
            args.push(given.clone().unwrap_or_else(|| "-".into()));
            plan.push((given, accept));
        }
        let answers: Vec<bool> = plan.iter().filter(|p| !(broken && p.0.is_none())).map(|p| p.1).collect();
        let done = std::sync::atomic::AtomicBool::new(false);
        let (seen, out) = std::thread::scope(|sc| {
            let (l, done, addr) = (&l, &done, &addr);
            let h = sc.spawn(move || {
                let mut v = vec![];
                for a in answers.into_iter().chain(std::iter::repeat(true)) {
                    let s = match l.accept() {
                        Ok((s, _)) => s,
                        Err(_) => break,
                    };
                    if done.load(std::sync::atomic::Ordering::SeqCst) {
                        break;
                    }
                    let b = framed(&encode(&reply("check", 1, status(if a { 0 } else { -1 }, "")), true).b);
                    v.push(receive(s, &mut |_, _| Act::Last(b.clone()), None));
                }
                v
            });
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.arg("connect-child").args(&args).current_dir(dir).env_remove("TSV_JOURNAL");
            let out = crate::external::command(c, 60);
            done.store(true, std::sync::atomic::Ordering::SeqCst);
            let _ = TcpStream::connect(addr);
            (h.join().unwrap_or_default(), out)
        });
        let results: Vec<&str> = out.out.lines().filter_map(|l| l.strip_prefix("result ")).collect();
        if results.len() != n {
            return bad(format!("a process that connects {} times ends with {:?} and {:?}: {}", n, out.code, results, out.err.chars().take(300).collect::<String>()));
        }
        let mut it = seen.iter();
        for (i, (given, accept)) in plan.iter().enumerate() {
            history.push(format!("{:?} {}", given, if *accept { "accepted" } else { "refused" }));
            let unable = broken && given.is_none();
            let want = *accept && !unable;
            if results[i] != if want { "ok" } else { "error" } {
                return bad(format!("connection {} gives {}, history {:?}{}", i, results[i], history, if unable { ", the identifier cannot be stored" } else { "" }));
            }
            if unable {
                continue;
            }
            let s = match it.next() {
                Some(s) => s,
                None => return bad(format!("connection {} does not reach the receiver, history {:?}", i, history)),
            };
            if s.frames.len() != 1 {
                return bad(format!("{} requests in connection {}, history {:?}", s.frames.len(), i, history));
            }
            let id = match decode(&s.frames[0]) {
                Some((d, _)) => match d.body.first() {
                    Some((_, TV::Struct(f))) => f.iter().find(|x| x.0 == 2).and_then(|x| if let TV::Str(s) = &x.1 { String::from_utf8(s.clone()).ok() } else { None }),
                    _ => None,
                },
                None => None,
            };
            let id = match id {
                Some(i) => i,
                None => return bad(format!("no identifier in connection {}", i)),
            };
            let expected = match (given, &stored) {
                (Some(g), _) => g.clone(),
                (None, Some(s)) => s.clone(),
                (None, None) => {
                    if id.len() != 32 || !id.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)) {
                        return bad(format!("the generated identifier is {:?}", id));
                    }
                    stored = Some(id.clone());
                    m.add("identifiers_generated", 1);
                    id.clone()
                }
            };
            if let Err(t) = confirm(&s.frames[0], "10.0.0.1", &expected) {
                return bad(format!("{}; history {:?}", t, history));
            }
            m.add("identified_connections", 1);
        }
        if std::fs::read_to_string(&file).ok() != stored {
            return bad(format!("the stored identifier is {:?}, expected {:?}; history {:?}", std::fs::read_to_string(&file).ok(), stored, history));
        }
    }
    Eval::Counted
}

/// Processes that connect at the same time without an identifier, each with a
/// fault of its file output: what they report, and the identifiers announced
fn processes(dir: &std::path::Path, faults: &[String]) -> Result<(Vec<String>, Vec<String>), String> {
    let l = listen();
    let addr = l.local_addr().unwrap().to_string();
    let done = std::sync::atomic::AtomicBool::new(false);
    let ids = std::sync::Mutex::new(vec![]);
    let out: Vec<crate::external::Out> = std::thread::scope(|sc| {
        let (l, done, ids) = (&l, &done, &ids);
        let accepting = sc.spawn(move || {
            while let Ok((s, _)) = l.accept() {
                if done.load(std::sync::atomic::Ordering::SeqCst) {
                    break;
                }
                sc.spawn(move || {
                    let b = framed(&encode(&reply("check", 1, status(0, "")), true).b);
                    let seen = receive(s, &mut |_, _| Act::Last(b.clone()), None);
                    for f in &seen.frames {
                        let id = match decode(f) {
                            Some((d, _)) => match d.body.first() {
                                Some((_, TV::Struct(f))) => f.iter().find(|x| x.0 == 2).and_then(|x| if let TV::Str(s) = &x.1 { Some(text(s)) } else { None }),
                                _ => None,
                            },
                            None => None,
                        };
                        ids.lock().unwrap().push(id.unwrap_or_else(|| "no identifier".into()));
                    }
                });
            }
        });
        let hs: Vec<_> = faults
            .iter()
            .map(|f| {
                let addr = addr.clone();
                sc.spawn(move || {
                    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
                    c.args(["connect-child", &addr, "-"]).current_dir(dir).env_remove("TSV_JOURNAL").env("TSV_FAULT", f);
                    crate::external::command(c, 60)
                })
            })
            .collect();
        let out = hs.into_iter().map(|h| h.join().unwrap()).collect();
        done.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = TcpStream::connect(&addr);
        let _ = accepting.join();
        out
    });
    let mut results = vec![];
    for (o, f) in out.iter().zip(faults) {
        if o.timeout {
            return Err(format!("a connecting process does not end, fault {:?}", f));
        }
        results.push(o.out.lines().find_map(|l| l.strip_prefix("result ")).unwrap_or("killed").to_string());
    }
    Ok((results, ids.into_inner().unwrap()))
}

fn is_identifier(id: &str) -> bool {
    id.len() == 32 && id.bytes().all(|b| b.is_ascii_hexdigit())
}

/// The identifier is stored while output fails, is cut, or the process dies
fn c19_storage(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let dir = scratch().join(format!("store{}", k));
    let _ = std::fs::create_dir_all(&dir);
    let e = storage(r, k, m, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    match e {
        Err(t) => bad(t),
        Ok(()) => Eval::Counted,
    }
}

fn storage(r: &mut Rng, k: u64, m: &mut Metrics, dir: &std::path::Path) -> Result<(), String> {
    let errno = *r.pick(&[5, 27, 28, 122]);
    let fault = match k % 9 {
        8 => "print".to_string(),
        0 => format!("once:0:{}", errno),
        1 => format!("once:{}:{}", r.below(3), errno),
        2 => format!("from:{}:{}", r.below(3), errno),
        3 => format!("limit:{}:{}", r.below(33), errno),
        4 => "kill:0:0".to_string(),
        5 => format!("kill:{}:{}", r.below(2), r.below(33)),
        6 => format!("short:{}", 1 + r.below(12)),
        _ => format!("eintr:{}", r.below(1 << 30)),
    };
    crate::driver::show(|| format!("first connection with the fault {:?} of file output, then connections without", fault));
    let (first, mut announced) = processes(dir, &[fault.clone()])?;
    let what = |t: String| Err(format!("first connection with fault {:?} gives {:?}: {}", fault, first[0], t));
    if first[0].starts_with("panic") || (first[0] == "killed") != fault.starts_with("kill") && first[0] == "killed" {
        return what("it must not end like this".into());
    }
    if (fault.starts_with("short") || fault.starts_with("eintr") || fault == "print") && first[0] != "ok" {
        return what("all of the output succeeded in the end".into());
    }
    for _ in 0..2 {
        let (later, ids) = processes(dir, &[String::new()])?;
        if later[0] != "ok" || ids.len() != 1 {
            return what(format!("a later connection gives {:?}", later[0]));
        }
        announced.extend(ids);
    }
    let stored = std::fs::read(dir.join("uuid.lock")).map(|b| text(&b)).unwrap_or_else(|_| "nothing".into());
    if !is_identifier(&announced[0]) || announced.iter().any(|a| *a != stored) {
        return what(format!("identifiers announced: {:?}, stored: {:?}", announced, stored));
    }
    m.add("identifiers_stored_in_spite_of_faults", 1);
    m.add(if first[0] == "ok" { "first_connections_unharmed" } else if first[0] == "killed" { "first_connections_killed" } else { "first_connections_refused" }, 1);
    Ok(())
}

/// Several processes connect for the first time at the same moment
fn c19_together(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let dir = scratch().join(format!("tog{}", k));
    let _ = std::fs::create_dir_all(&dir);
    let n = 2 + r.usize(4);
    let faults: Vec<String> = (0..n).map(|_| format!("slow:{}", r.below(40))).collect();
    crate::driver::show(|| format!("{} processes connect at the same time", n));
    let a = processes(&dir, &faults);
    let b = processes(&dir, &[String::new()]);
    let stored = std::fs::read(dir.join("uuid.lock")).map(|b| text(&b)).unwrap_or_else(|_| "nothing".into());
    let _ = std::fs::remove_dir_all(&dir);
    let ((results, mut ids), (later, id)) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(t), _) | (_, Err(t)) => return bad(t),
    };
    if results.iter().chain(&later).any(|x| x != "ok") {
        return bad(format!("{} processes connecting at the same time, then one: {:?} {:?}", n, results, later));
    }
    ids.extend(id);
    if ids.len() != n + 1 || !is_identifier(&stored) || ids.iter().any(|i| *i != stored) {
        return bad(format!("{} processes connecting at the same time ({:?}), then one, announce {:?}; stored: {:?}", n, faults, ids, stored));
    }
    m.add("processes_connected_together", n as u64);
    Eval::Counted
}

/// Runs f, which must not panic, while nothing can be printed
fn unprintable<T>(f: impl FnOnce() -> T) -> T {
    use std::os::fd::AsRawFd;
    let _ = std::io::stdout().flush();
    let full = match std::fs::OpenOptions::new().write(true).open("/dev/full") {
        Ok(f) => f,
        Err(_) => return f(),
    };
    struct Restore(i32);
    impl Drop for Restore {
        fn drop(&mut self) {
            unsafe { dup2(self.0, 1) };
        }
    }
    let _old = Restore(unsafe { dup(1) });
    unsafe { dup2(full.as_raw_fd(), 1) };
    f()
}

fn distinct_identifiers(rep: &Report) {
    // identifiers of different nodes differ
    single(rep, "nodes", || {
        let mut ids = std::collections::HashSet::new();
        for k in 0..12 {
            let dir = scratch().join(format!("node{}", k));
            let _ = std::fs::create_dir_all(&dir);
            let mut c = std::process::Command::new(std::env::current_exe().unwrap());
            c.args(["connect-child", "127.0.0.1:1", "-"]).current_dir(&dir).env_remove("TSV_JOURNAL");
            crate::external::command(c, 60);
            let id = std::fs::read_to_string(dir.join("uuid.lock")).unwrap_or_default();
            let _ = std::fs::remove_dir_all(&dir);
            if !ids.insert(id.clone()) {
                rep.violation("", &format!("two nodes have the identifier {:?}", id), "only nodes:0\n");
            }
        }
        rep.eval(Some(19));
    });
}

/// Without a given address one of this machine is announced
fn own_address(rep: &Report) {
    single(rep, "address", || {
        for accept in [true, false, true] {
            let b = framed(&encode(&reply("check", 1, status(if accept { 0 } else { -1 }, "")), true).b);
            let out = against(
                move |_, _| Act::Last(b.clone()),
                None,
                |addr| {
                    let c: Connected = SyncSender::new(addr, None, Some("id"));
                    c.map(|_| ())
                },
            );
            let (r, seen) = match out {
                Ok(x) => x,
                Err(p) => return rep.violation("", &format!("connecting without a local address: {}", p), "only address:0\n"),
            };
            if matches!(r, Err(SyncSenderError::NoLocalIpFound)) && seen.frames.is_empty() {
                rep.metric("no_own_address", 1);
                continue;
            }
            if r.is_ok() != accept || seen.frames.len() != 1 {
                return rep.violation("", &format!("connecting without a local address: {:?} after {} requests, the receiver {}", r, seen.frames.len(), if accept { "confirms" } else { "refuses" }), "only address:0\n");
            }
            let a = match decode(&seen.frames[0]) {
                Some((d, _)) => match d.body.first() {
                    Some((_, TV::Struct(f))) => f.iter().find(|x| x.0 == 1).and_then(|x| if let TV::Str(s) = &x.1 { Some(text(s)) } else { None }),
                    _ => None,
                },
                None => None,
            }
            .unwrap_or_default();
            let own = match a.parse::<std::net::IpAddr>() {
                Ok(std::net::IpAddr::V4(i)) => std::net::UdpSocket::bind((i, 0)).is_ok(),
                Ok(_) => true,
                Err(_) => false,
            };
            if !own {
                return rep.violation("", &format!("the local address announced is {:?}, which is none of this machine", a), "only address:0\n");
            }
            if let Err(t) = confirm(&seen.frames[0], &a, "id") {
                return rep.violation("", &t, "only address:0\n");
            }
            rep.metric("own_addresses_announced", 1);
        }
        rep.eval(None);
    });
}

fn c19_known(rep: &Report) {
    single(rep, "lengths", || {
        for (key, what, bytes) in [
            ("negative-frame-size", "a reply frame of size -1", vec![255u8; 4]),
            ("negative-string-length", "a reply with a string of length -1", framed(&negative_length())),
        ] {
            let b = bytes.clone();
            let out = against(
                move |_, _| Act::Last(b.clone()),
                None,
                |addr| {
                    let c: Connected = SyncSender::new(addr, Some("1.1.1.1"), Some("id"));
                    c.is_ok()
                },
            );
            match out {
                Ok((false, _)) => {}
                Ok((true, _)) => rep.violation("", &format!("{} is taken for a confirmation", what), "only lengths:0\n"),
                Err(p) => rep.violation(key, &format!("{}: {}", what, p), "only lengths:0\n"),
            }
        }
        rep.eval(None);
    });
}

pub fn c19(rep: &Report) {
    rep.rule("connections to a receiver on the loopback interface that records all bytes: every refusal, exception, wrong name, number, type and missing field, replies cut at every byte, changed bytes, replies in pieces, resets and closed connections; unreachable receivers; sequences of processes and connections with and without given and stored identifiers; the identifier is stored while output is refused, cut, interrupted, or the process is killed in the middle of it, and by several processes at once, and while standard output is full; non-trivial: the outcome is fully determined");
    rep.assume("lengths inside of changed messages are neither negative nor enormous: the thrift crate panics on those (known finding)");
    let f = if rep.thorough { 8 } else { 1 };
    each(rep, "answers", 12_000 * f, 200.0, &c19_answers);
    each(rep, "unreachable", 400, 60.0, &c19_unreachable);
    each(rep, "identity", 250 * f, 200.0, &c19_identity);
    each(rep, "storage", 180 * f, 100.0, &c19_storage);
    each(rep, "together", 60 * f, 60.0, &c19_together);
    distinct_identifiers(rep);
    own_address(rep);
    c19_known(rep);
}

// ------------------------------------------------------------------ C20

const STEPS: [&str; 9] = ["startSync", "init", "initSyncData", "syncData", "checkDataDigest", "initSyncData", "syncData", "checkDataDigest", "endSync"];

struct Session {
    spec: Spec,
    sg: String,
    path: std::path::PathBuf,
    base: String,
    data: Vec<u8>,
}

fn digest_of(b: &[u8]) -> String {
    sha256(b).trim_start_matches('0').to_string()
}

fn content(r: &mut Rng, k: u64) -> Vec<u8> {
    let n = match k % 12 {
        0 => 0,
        1 => 1,
        2 => *r.pick(&[63, 64, 65, 4076, 4080, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8191, 8192, 8193]),
        3 if k % 8 == 3 => 1 << 20,
        4 if k % 96 == 4 => 20 << 20,
        _ => r.usize(3000),
    };
    let mut v: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
    if k % 5 == 1 && !v.is_empty() && n < 5000 {
        // digests that start with zeros
        let zeros = if r.chance(1, 4) { "00" } else { "0" };
        for _ in 0..600 {
            if sha256(&v).starts_with(zeros) {
                break;
            }
            let i = r.usize(v.len());
            v[i] = r.u64() as u8;
        }
    }
    v
}

fn session(r: &mut Rng, k: u64) -> Session {
    let c = schema_case(r, k + 1);
    let data = content(r, k);
    let mut base: String = match r.below(4) {
        0 => format!("{}-1-0-0.tsfile", r.below(1 << 40)),
        1 => string(r),
        2 => "datei mit Ä.tsfile".into(),
        _ => "x".into(),
    };
    base = base.replace(['/', '\0'], "_").chars().take(50).collect();
    if base.is_empty() || base == "." || base == ".." {
        base = "f".into();
    }
    let mut path = scratch().join(format!("c20-{:?}", std::thread::current().id()).replace(['(', ')'], ""));
    if r.chance(1, 2) {
        path = path.join("sub.dir").join("äß");
    }
    Session {
        sg: c.param("sg").to_string(),
        spec: c.spec,
        path: path.join(&base),
        base,
        data,
    }
}

/// The requests of a session, as far as there are any
fn session_ok(s: &Session, frames: &[Vec<u8>], last: &mut i32) -> Result<(), String> {
    let mut data: Vec<u8> = vec![];
    for (i, f) in frames.iter().enumerate() {
        let (m, n) = decode(f).ok_or_else(|| format!("request {} cannot be decoded: {}", i, hex(f)))?;
        if i >= STEPS.len() {
            return Err(format!("request {} ({}) after the session", i, text(&m.name)));
        }
        if n != f.len() || m.name != STEPS[i].as_bytes() || m.ty != CALL || m.seq <= *last {
            return Err(format!("step {} is {:?} (type {}, number {} after {}), expected {}", i, text(&m.name), m.ty, m.seq, last, STEPS[i]));
        }
        *last = m.seq;
        let arg = match m.body.as_slice() {
            [] if i == 0 || i == 8 => continue,
            [(1, TV::Str(s))] if i != 0 && i != 8 => s.clone(),
            _ => return Err(format!("step {} ({}) has arguments {}", i, STEPS[i], short(&m.body))),
        };
        let wrong = |want: &[u8]| Err(format!("step {} ({}) sends {:?}, expected {:?}", i, STEPS[i], text(&arg), text(want)));
        match i {
            1 if arg != s.sg.as_bytes() => return wrong(s.sg.as_bytes()),
            2 if arg != b"mlog.bin" => return wrong(b"mlog.bin"),
            3 => {
                check_log(&arg, &s.sg, &s.spec).map_err(|e| format!("step 3: {}", e))?;
                data = arg;
            }
            4 | 7 => {
                let d = digest_of(&data);
                if arg != d.as_bytes() {
                    return wrong(d.as_bytes());
                }
            }
            5 => {
                let want = format!("0_0_{}", s.base);
                if arg != want.as_bytes() {
                    return wrong(want.as_bytes());
                }
            }
            6 => {
                if arg != s.data {
                    return Err(format!("step 6 sends {} bytes, the file has {}", arg.len(), s.data.len()));
                }
                data = arg;
            }
            _ => {}
        }
    }
    Ok(())
}

#[cfg(not(tsfile_verif_no_session))]
fn run_session(c: &mut sender::TcpSyncSender, s: &Session) -> Result<(), SyncSenderError> {
    sender::sync(c, s.path.to_str().unwrap(), &s.sg, schema(&s.spec))
}
#[cfg(tsfile_verif_no_session)]
fn run_session(_: &mut sender::TcpSyncSender, _: &Session) -> Result<(), SyncSenderError> {
    unbuildable()
}

fn c20_eval(r: &mut Rng, k: u64, m: &mut Metrics, plan: Option<(usize, Fault)>) -> Eval {
    let s = session(r, k);
    let _ = std::fs::create_dir_all(s.path.parent().unwrap());
    let missing = plan.is_none() && k % 23 == 7;
    if missing {
        let _ = std::fs::remove_file(&s.path);
    } else if let Err(e) = std::fs::write(&s.path, &s.data) {
        m.add("files_not_written", 1);
        let _ = e;
        return Eval::Trivial;
    }
    let rounds = if plan.is_none() && r.chance(1, 3) { 2 } else { 1 };
    crate::driver::show(|| format!("{} session(s): {} devices, file of {} bytes named {:?}, faulty step {:?}", rounds, s.spec.devices.len(), s.data.len(), s.base, plan));
    let seed = r.u64();
    let codes: Vec<i32> = (0..10).map(|_| if r.chance(1, 2) { 0 } else { r.below(1 << 31) as i32 }).collect();
    let expect = std::sync::Mutex::new(Expect::Error);
    let (p2, e2) = (plan.clone(), &expect);
    let mut rr = Rng::new(seed, 1);
    let out = against(
        move |i, f| {
            let (name, seq) = match decode(f) {
                Some((d, _)) => (String::from_utf8_lossy(&d.name).to_string(), d.seq),
                None => return Act::CloseAtOnce,
            };
            let strict = rr.chance(1, 2);
            if let (Some((at, fault)), true) = (&p2, i > 0) {
                if i - 1 == *at {
                    let fault = match fault {
                        Fault::Seq(d) => Fault::Seq(seq.wrapping_add(*d)),
                        f => f.clone(),
                    };
                    let (b, want) = faulty(&fault, &name, seq, strict, &mut rr, true);
                    *e2.lock().unwrap() = want.clone();
                    return match want {
                        // such a session may go on
                        Expect::Status(c, _) if c >= 0 => Act::Reply(framed(&b)),
                        Expect::Status(..) | Expect::App(..) => Act::Reply(framed(&b)),
                        _ if rr.chance(1, 6) => {
                            *e2.lock().unwrap() = Expect::Error;
                            Act::Reset
                        }
                        _ => Act::Last(framed(&b)),
                    };
                }
            }
            let mut msg = reply(&name, seq, status(codes[i % 10], MSG));
            disturb(&mut rr, &mut msg.body, &[0]);
            let b = framed(&encode(&msg, strict).b);
            if rr.chance(1, 8) {
                Act::Pieces(b, 5)
            } else {
                Act::Reply(b)
            }
        },
        None,
        |addr| {
            let c: Connected = SyncSender::new(addr, Some("1.1.1.1"), Some("id"));
            let mut c = match c {
                Ok(c) => c,
                Err(e) => return vec![Err(format!("connect: {:?}", e))],
            };
            (0..rounds)
                .map(|_| {
                    guarded(|| run_session(&mut c, &s).map_err(|e| format!("{:?}", e)))
                        .unwrap_or_else(|p| Err(format!("PANIC {}", p)))
                })
                .collect::<Vec<Result<(), String>>>()
        },
    );
    let _ = std::fs::remove_file(&s.path);
    let what = |t: String| bad(format!("{}; receiver: {:?}; file of {} bytes named {:?}", t, plan, s.data.len(), s.base));
    let (got, seen) = match out {
        Ok(x) => x,
        Err(p) => return what(p),
    };
    if let Some(Err(p)) = got.iter().find(|g| matches!(g, Err(t) if t.starts_with("PANIC"))) {
        return what(p.clone());
    }
    if seen.frames.is_empty() {
        return what("no handshake".into());
    }
    let mut last = decode(&seen.frames[0]).map_or(0, |d| d.0.seq);
    let calls = &seen.frames[1..];
    if missing {
        if got.iter().any(|g| g.is_ok()) {
            return what("the file does not exist, but the session succeeds".into());
        }
        if calls.iter().any(|f| decode(f).map_or(false, |d| d.0.name == b"endSync")) {
            return what("the file does not exist, but the session is ended regularly".into());
        }
        m.add("sessions_with_a_missing_file", 1);
        return Eval::Counted;
    }
    let want = expect.into_inner().unwrap();
    let fails = match (&plan, &want) {
        (None, _) => Some(false),
        (_, Expect::Any) => None,
        (_, Expect::Status(c, _)) => Some(*c < 0),
        _ => Some(true),
    };
    for (i, c) in calls.chunks(STEPS.len()).enumerate() {
        if let Err(t) = session_ok(&s, c, &mut last) {
            return what(format!("session {}: {}", i, t));
        }
    }
    match fails {
        None => {
            m.add("sessions_of_which_only_no_panic_is_required", 1);
            return Eval::Trivial;
        }
        Some(false) => {
            if got.iter().any(|g| g.is_err()) || got.len() != rounds {
                return what(format!("every step was confirmed, the session gives {:?}", got));
            }
            if calls.len() != rounds * STEPS.len() {
                return what(format!("{} sessions succeed with {} requests", rounds, calls.len()));
            }
            m.add("sessions_completed", rounds as u64);
            m.add("bytes_transferred", (rounds * s.data.len()) as u64);
        }
        Some(true) => {
            let at = plan.as_ref().unwrap().0;
            if got[0].is_ok() {
                return what(format!("step {} ({}) was not confirmed ({:?}), but the session succeeds", at, STEPS[at], want));
            }
            if calls.len() != at + 1 {
                return what(format!("step {} ({}) was not confirmed ({:?}), and {} requests were sent", at, STEPS[at], want, calls.len()));
            }
            m.add("sessions_stopped_at_the_faulty_step", 1);
        }
    }
    Eval::Counted
}

fn c20_good(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    c20_eval(r, k, m, None)
}

fn c20_faults(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let at = (k % 9) as usize;
    let i = (k / 9) as usize;
    let len = reply_len(STEPS[at]);
    let mut all: Vec<Fault> = all_faults(len, 1000, STEPS[at]).into_iter().filter(|f| !matches!(f, Fault::Seq(_))).collect();
    for d in [1, -1, 256, i32::MIN] {
        all.push(Fault::Seq(d));
    }
    let f = match all.get(i) {
        Some(f) => f.clone(),
        None => Fault::Byte(r.usize(len), r.u64() as u8),
    };
    c20_eval(r, k * 12 + 7 + k % 3, m, Some((at, f)))
}

#[cfg(not(tsfile_verif_no_digest))]
fn c20_digests(r: &mut Rng, k: u64, m: &mut Metrics) -> Eval {
    let b = content(r, k * 5 + 1);
    match guarded(|| sender::calculate_digest(&b)) {
        Err(p) => bad(format!("digest of {} bytes: panic {}", b.len(), p)),
        Ok(d) => {
            if d != digest_of(&b) {
                return bad(format!("digest of {}: {}, expected {}", hex(&b), d, digest_of(&b)));
            }
            m.add("digests", 1);
            m.add("digests_with_leading_zeros", sha256(&b).starts_with('0') as u64);
            Eval::Counted
        }
    }
}

pub fn c20(rep: &Report) {
    rep.rule("sessions against a receiver on the loopback interface that records all requests: generated schemas, storage groups, file names and contents (empty, around buffer sizes, large, with digests that start with zeros), one or two sessions per connection; every step answered with every kind of refusal, exception, wrong name, number, type, missing field, cut at every byte, changed bytes, resets; non-trivial: the outcome is fully determined");
    rep.assume("lengths inside of changed messages are neither negative nor enormous: the thrift crate panics on those (known finding of C19)");
    let f = if rep.thorough { 8 } else { 1 };
    each(rep, "good", 2500 * f, 200.0, &c20_good);
    each(rep, "faults", 9000 * f, 300.0, &c20_faults);
    unprintable(|| each(rep, "unprintable", 60 * f, 60.0, &c20_good));
    #[cfg(not(tsfile_verif_no_digest))]
    each(rep, "digests", 3000 * f, 100.0, &c20_digests);
}

/// The sender prints; keeps that out of the way of verdicts
pub fn silent(f: impl FnOnce()) {
    let _ = std::io::stdout().flush();
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    use std::os::fd::AsRawFd;
    let old = unsafe { dup(1) };
    unsafe { dup2(null.as_raw_fd(), 1) };
    f();
    let _ = std::io::stdout().flush();
    unsafe { dup2(old, 1) };
}

pub fn entry(rep: &Report) -> bool {
    let f: fn(&Report) = match rep.id.as_str() {
        "C18" => c18,
        "C19" => c19,
        "C20" => c20,
        "C21" => c21,
        _ => return false,
    };
    silent(|| f(rep));
    true
}
