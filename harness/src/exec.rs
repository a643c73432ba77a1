//! Runs histories on the real writer and records what each call answered
use crate::model::*;
use std::cell::RefCell;
use std::fs::File;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::OnceLock;
use tsfile_writer::writer::compression::CompressionType;
use tsfile_writer::writer::encoding::TSEncoding;
use tsfile_writer::writer::errors::TsFileError;
use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
use tsfile_writer::writer::tsfile_writer::{DataPoint, TsFileWriter};
use tsfile_writer::writer::{IoTDBValue, Schema, TSDataType, WriteWrapper};

pub type W = TsFileWriter<'static, WriteWrapper<File>>;

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Ok,
    Err(Kind, String),
    Panic(String),
}

impl Res {
    pub fn ok(&self) -> bool {
        matches!(self, Res::Ok)
    }
    /// the same answer, messages aside
    pub fn same(&self, o: &Res) -> bool {
        match (self, o) {
            (Res::Ok, Res::Ok) => true,
            (Res::Err(a, _), Res::Err(b, _)) => a == b,
            (Res::Panic(_), Res::Panic(_)) => true,
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Res::Ok => "success".into(),
            Res::Err(k, m) => format!("error {:?} ({})", k, m),
            Res::Panic(m) => format!("panic ({})", m),
        }
    }
}

pub fn kind(e: &TsFileError) -> Kind {
    match e {
        TsFileError::IllegalState { .. } => Kind::Unknown,
        TsFileError::WrongTypeForSeries => Kind::Type,
        TsFileError::Encoding => Kind::Encoding,
        TsFileError::OutOfOrderData => Kind::Order,
        TsFileError::IoError { .. } => Kind::Io,
        _ => Kind::Other,
    }
}

/// Is the answer one the model allows
pub fn allowed(v: &Verdict, r: &Res) -> bool {
    match (v, r) {
        (Verdict::Accept, Res::Ok) => true,
        (Verdict::Reject(ks), Res::Err(k, _)) => ks
            .iter()
            .any(|x| x == k || (*x == Kind::Closed && *k == Kind::Unknown)),
        _ => false,
    }
}

#[cfg(tsfile_verif)]
pub use tsfile_writer::writer::verif_hooks;
/// Without the hooks of /repo no flush can be asked for; a request stays pending
#[cfg(not(tsfile_verif))]
pub mod verif_hooks {
    use std::cell::Cell;
    thread_local! {
        static ASKED: Cell<bool> = const { Cell::new(false) };
    }
    pub fn force_flush() {
        ASKED.with(|f| f.set(true));
    }
    pub fn take_forced_flush() -> bool {
        ASKED.with(|f| f.replace(false))
    }
}

thread_local! {
    static MSG: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let quiet = QUIET.try_with(|q| *q.borrow()).unwrap_or(false);
        if quiet {
            let loc = i
                .location()
                .map(|l| format!("{}:{}", l.file(), l.line()))
                .unwrap_or_default();
            let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = i.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let _ = MSG.try_with(|x| *x.borrow_mut() = format!("{} at {}", m, loc));
        } else {
            old(i);
        }
    }));
}

/// Runs f; a panic becomes Err(message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    r.map_err(|_| MSG.with(|m| m.borrow().clone()))
}

/// messages repeat names, which may be very long
fn clip(s: String) -> String {
    if s.len() > 400 {
        s.chars().take(400).collect()
    } else {
        s
    }
}

fn res(r: Result<Result<(), TsFileError>, String>) -> Res {
    match r {
        Ok(Ok(())) => Res::Ok,
        Ok(Err(e)) => Res::Err(kind(&e), clip(format!("{:?}", e))),
        Err(m) => Res::Panic(m),
    }
}

pub fn val(v: Val) -> IoTDBValue {
    match v {
        Val::I(x) => IoTDBValue::INT(x),
        Val::L(x) => IoTDBValue::LONG(x),
        Val::F(x) => IoTDBValue::FLOAT(f32::from_bits(x)),
        Val::D(x) => IoTDBValue::DOUBLE(f64::from_bits(x)),
    }
}

pub fn dt(t: Ty) -> TSDataType {
    match t {
        Ty::I32 => TSDataType::INT32,
        Ty::I64 => TSDataType::INT64,
        Ty::F32 => TSDataType::FLOAT,
    }
}
pub fn enc(t: En) -> TSEncoding {
    match t {
        En::Plain => TSEncoding::PLAIN,
        En::Diff => TSEncoding::TS2DIFF,
    }
}
pub fn comp(t: Co) -> CompressionType {
    match t {
        Co::None => CompressionType::UNCOMPRESSED,
        Co::Snappy => CompressionType::SNAPPY,
    }
}

pub fn schema(spec: &Spec) -> Schema<'static> {
    let mut b = TsFileSchemaBuilder::new();
    for (d, ms) in &spec.devices {
        if ms.is_empty() {
            continue;
        }
        let mut x = DeviceBuilder::new();
        for m in ms {
            x.add(m.name, dt(m.ty), enc(m.en), comp(m.co));
        }
        b.add(d, x.build());
    }
    b.build()
}

/// Scratch directory of this process, on a memory file system if there is one
pub fn scratch() -> &'static PathBuf {
    static D: OnceLock<PathBuf> = OnceLock::new();
    D.get_or_init(|| {
        if let Ok(p) = std::env::var("TSV_SCRATCH") {
            let p = PathBuf::from(p);
            let _ = std::fs::create_dir_all(&p);
            return p;
        }
        for base in ["/dev/shm", "/tmp"] {
            let p = PathBuf::from(base).join(format!("tsv-{}", std::process::id()));
            if std::fs::create_dir_all(&p).is_ok() {
                return p;
            }
        }
        panic!("no scratch directory");
    })
}

pub fn remove_scratch() {
    if std::env::var("TSV_SCRATCH").is_err() {
        let _ = std::fs::remove_dir_all(scratch());
    }
}

/// A file name for this thread, lives as long as the process
pub fn thread_file(tag: &str) -> Name {
    name(
        scratch()
            .join(format!(
                "{}-{}.tsfile",
                tag,
                format!("{:?}", std::thread::current().id())
                    .chars()
                    .filter(|c| c.is_ascii_digit())
                    .collect::<String>()
            ))
            .to_str()
            .unwrap(),
    )
}

pub fn open(path: Name, spec: &Spec) -> Result<W, Res> {
    match guarded(|| TsFileWriter::new(path, schema(spec), Default::default())) {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => Err(Res::Err(kind(&e), clip(format!("{:?}", e)))),
        Err(m) => Err(Res::Panic(m)),
    }
}

pub fn call_write(w: &mut W, d: Name, m: Name, t: i64, v: Val) -> Res {
    res(guarded(|| w.write(d, m, t, val(v))))
}
pub fn call_batch(w: &mut W, d: Name, t: i64, ps: &[(Name, Val)]) -> Res {
    res(guarded(|| {
        w.write_many(
            d,
            t,
            ps.iter()
                .map(|(m, v)| DataPoint::new(*m, val(*v)))
                .collect::<Vec<_>>(),
        )
    }))
}
pub fn call_close(w: &mut W) -> Res {
    res(guarded(|| w.close()))
}

/// One operation; `flush` is the pending request for a forced flush
pub fn step(w: &mut W, op: &Op, flush: &mut bool) -> Res {
    if *flush && !matches!(op, Op::Flush) {
        verif_hooks::force_flush();
    }
    let r = match op {
        Op::Write(d, m, t, v) => call_write(w, d, m, *t, *v),
        Op::Batch(d, t, ps) => call_batch(w, d, *t, ps),
        Op::Flush => {
            *flush = true;
            return Res::Ok;
        }
        Op::Close => call_close(w),
    };
    let left = verif_hooks::take_forced_flush();
    if *flush && !left {
        *flush = false;
    }
    r
}

pub struct Run {
    pub open: Res,
    pub results: Vec<Res>,
    /// file content while the writer still existed
    pub alive: Option<Vec<u8>>,
    /// file content after the writer was dropped
    pub bytes: Vec<u8>,
    pub flushes: u64,
}

impl Run {
    pub fn panicked(&self) -> Option<(usize, &str)> {
        if let Res::Panic(m) = &self.open {
            return Some((0, m));
        }
        self.results.iter().enumerate().find_map(|(i, r)| match r {
            Res::Panic(m) => Some((i, m.as_str())),
            _ => None,
        })
    }
}

pub fn run_at(path: Name, spec: &Spec, ops: &[Op], alive: bool) -> Run {
    let mut out = Run {
        open: Res::Ok,
        results: vec![],
        alive: None,
        bytes: vec![],
        flushes: 0,
    };
    verif_hooks::take_forced_flush();
    let mut w = match open(path, spec) {
        Ok(w) => w,
        Err(r) => {
            out.open = r;
            return out;
        }
    };
    let mut flush = false;
    for op in ops {
        let before = flush;
        let r = step(&mut w, op, &mut flush);
        if before && !flush {
            out.flushes += 1;
        }
        let p = matches!(r, Res::Panic(_));
        out.results.push(r);
        if p {
            break;
        }
    }
    if alive {
        out.alive = std::fs::read(path).ok();
    }
    let _ = guarded(move || drop(w));
    out.bytes = std::fs::read(path).unwrap_or_default();
    let _ = std::fs::remove_file(path);
    out
}

pub fn run(spec: &Spec, ops: &[Op]) -> Run {
    run_at(thread_file("f"), spec, ops, false)
}
