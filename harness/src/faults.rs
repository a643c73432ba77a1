//! C11 output failures, C12 crash prefixes, C13 opening and closing
use crate::bulk;
use crate::core_checks::{based, show_op};
use crate::driver::*;
use crate::exec::*;
use crate::gen;
use crate::interpose::*;
use crate::judge::*;
use crate::model::*;
use crate::reader;
use crate::report::Report;
use crate::rng::Rng;
use std::collections::HashSet;
use std::os::unix::process::ExitStatusExt;
use crate::exec::verif_hooks;

struct Faulted {
    run: Run,
    plan: Plan,
    /// file content directly after the successful close, before the writer was dropped
    closed: Option<Vec<u8>>,
}

fn run_with(path: Name, c: &Case, f: Fault, record: bool) -> Faulted {
    let mut closed = None;
    let (run, plan) = with(f, record, || {
        let mut out = Run {
            open: Res::Ok,
            results: vec![],
            alive: None,
            bytes: vec![],
            flushes: 0,
        };
        verif_hooks::take_forced_flush();
        let mut w = match open(path, &c.spec) {
            Ok(w) => w,
            Err(r) => {
                out.open = r;
                return out;
            }
        };
        let mut flush = false;
        for op in &c.ops {
            let r = step(&mut w, op, &mut flush);
            let p = matches!(r, Res::Panic(_));
            if *op == Op::Close && r.ok() && closed.is_none() {
                closed = std::fs::read(path).ok();
            }
            out.results.push(r);
            if p {
                break;
            }
        }
        // A failed close may be tried again
        if closed.is_none() && matches!(out.results.last(), Some(Res::Err(..))) && c.ops.last() == Some(&Op::Close) {
            for _ in 0..2 {
                match call_close(&mut w) {
                    Res::Ok => {
                        closed = std::fs::read(path).ok();
                        break;
                    }
                    Res::Err(..) => {}
                    p => {
                        out.results.push(p);
                        break;
                    }
                }
            }
        }
        if let Err(m) = guarded(move || drop(w)) {
            out.results.push(Res::Panic(format!("while dropping the writer: {}", m)));
        }
        out
    });
    let mut run = run;
    run.bytes = std::fs::read(path).unwrap_or_default();
    let _ = std::fs::remove_file(path);
    Faulted { run, plan, closed }
}

fn fault_text(f: &Fault) -> String {
    match f {
        Fault::FailFrom(k, e) => format!("failfrom {} {}", k, e),
        Fault::FailOnce(k, e) => format!("failonce {} {}", k, e),
        Fault::Limit(k, e) => format!("limit {} {}", k, e),
        Fault::Short(k) => format!("short {}", k),
        Fault::Eintr(k) => format!("eintr {}", k),
        Fault::Mixed(k) => format!("mixed {}", k),
        Fault::None => "none".into(),
        Fault::Kill(k, n) => format!("kill {} {}", k, n),
        Fault::Slow(ms) => format!("slow {}", ms),
    }
}

const ERRS: [i32; 4] = [ENOSPC, EIO, EFBIG, EDQUOT];

fn judge_faulted(c: &Case, f: &Fault, whole: &[u8], m: &mut Metrics) -> Result<bool, String> {
    let x = run_with(thread_file("q"), c, f.clone(), false);
    let what = || format!("fault {}: ", fault_text(f));
    if let Some((i, p)) = x.run.panicked() {
        let op = c.ops.get(i).map_or("dropping the writer".into(), show_op);
        return Err(format!("{}call {} {} panics: {}", what(), i, op, p));
    }
    let ok = x.run.open.ok() && x.run.results.iter().zip(&c.ops).all(|(r, o)| r.ok() || *o == Op::Flush);
    m.add("faulted_runs", 1);
    m.add("output_calls", x.plan.calls);
    m.add("injected_errors", x.plan.errors);
    m.add("interrupted_calls", x.plan.interrupted);
    m.add("partial_calls", x.plan.shortened);
    if ok {
        let got = x.closed.as_deref().unwrap_or(&x.run.bytes);
        if got != whole || x.run.bytes != whole {
            return Err(format!(
                "{}every call succeeds, but the file has {} bytes and differs from the {} bytes of an undisturbed run ({} errors, {} interruptions, {} partial writes injected)",
                what(),
                got.len(),
                whole.len(),
                x.plan.errors,
                x.plan.interrupted,
                x.plan.shortened
            ));
        }
    } else if x.plan.errors == 0 {
        let bad = x.run.results.iter().position(|r| !r.ok());
        return Err(format!(
            "{}nothing failed, but call {:?} answers {}",
            what(),
            bad,
            bad.map_or(x.run.open.show(), |i| x.run.results[i].show())
        ));
    } else {
        m.add("runs_that_reported_the_failure", 1);
        if let Some(b) = &x.closed {
            m.add("successful_closes_after_a_failure", 1);
            complete_in_spite(c, &x.run.results, b).map_err(|e| format!("{}a call fails, then close succeeds, but {}", what(), e))?;
        }
    }
    Ok(x.plan.errors + x.plan.interrupted + x.plan.shortened > 0)
}

/// A file closed after a failure: all points of the calls that succeeded, and of the
/// others only such points as were given
fn complete_in_spite(c: &Case, results: &[Res], b: &[u8]) -> Result<(), String> {
    let mut stored = HashSet::new();
    for g in &reader::scan(b).groups {
        for k in &g.chunks {
            for p in &k.pages {
                for t in &p.times {
                    stored.insert((g.device.clone(), k.name.clone(), *t));
                }
            }
        }
    }
    let mut points = Points::new();
    for (o, r) in c.ops.iter().zip(results) {
        let (d, t, ps) = match o {
            Op::Write(d, m, t, v) => (*d, *t, vec![(*m, *v)]),
            Op::Batch(d, t, ps) => (*d, *t, ps.clone()),
            _ => continue,
        };
        for (m, v) in ps {
            if r.ok() || stored.contains(&(d.as_bytes().to_vec(), m.as_bytes().to_vec(), t)) {
                points.entry((d, m)).or_default().push((t, v));
            }
        }
    }
    match judge(b, &c.spec, &points).issues.first() {
        Some(i) => Err(i.text.clone()),
        None => Ok(()),
    }
}

/// Only the legal calls of the history: every failure then comes from the output
fn legal_ops(c: &Case) -> Vec<Op> {
    let mut m = Model::new(&c.spec);
    let mut out = vec![];
    for o in &c.ops {
        if m.closed {
            break;
        }
        if *o == Op::Flush {
            out.push(Op::Flush);
            continue;
        }
        if m.apply(o) == Verdict::Accept {
            out.push(o.clone());
        }
    }
    out
}

fn legal(c: &Case) -> Case {
    let mut d = c.clone();
    d.ops = legal_ops(c);
    d
}

pub fn c11(c: &Case, m: &mut Metrics) -> Eval {
    let c = &legal(c);
    if !c.ops.contains(&Op::Close) {
        return Eval::Trivial;
    }
    let base = run_with(thread_file("q"), c, Fault::None, true);
    if let Some((i, p)) = base.run.panicked() {
        return bad(format!("call {} panics without any fault: {}", i, p));
    }
    let n = base.plan.calls;
    let whole = base.run.bytes.clone();
    let mut r = Rng::new(whole.len() as u64, n);
    let mut faults = vec![
        Fault::Short(1),
        Fault::Short(2 + r.usize(14)),
        Fault::Eintr(2),
        Fault::Eintr(2 + r.below(9)),
        Fault::Mixed(r.u64()),
        Fault::Mixed(r.u64()),
    ];
    let stride = 1 + n / 150;
    let mut k = r.below(stride);
    while k < n {
        faults.push(Fault::FailFrom(k, *r.pick(&ERRS)));
        faults.push(Fault::FailOnce(k, *r.pick(&ERRS)));
        k += stride;
    }
    for _ in 0..24 {
        faults.push(Fault::Limit(r.below(whole.len() as u64), *r.pick(&ERRS)));
    }
    faults.push(Fault::Limit(whole.len() as u64 - 1, ENOSPC));
    faults.push(Fault::Limit(0, ENOSPC));
    for f in &faults {
        match judge_faulted(c, f, &whole, m) {
            Err(e) => return bad(e),
            Ok(_) => {}
        }
    }
    m.add("histories", 1);
    m.add("output_calls_of_the_undisturbed_runs", n);
    if n == 0 {
        Eval::Trivial
    } else {
        Eval::Counted
    }
}

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn kill(p: i32, s: i32) -> i32;
}

/// The kernel's own file size limit and a full device
fn c11_kernel(rep: &Report) {
    single(rep, "kernel", || {
        unsafe { signal(25, 1) };
        let n = if rep.thorough { 4000 } else { 300 };
        let mut r = Rng::new(rep.seed, 1100);
        for k in 0..n {
            let c = legal(&small_case(&mut r, k));
            let base = run_with(thread_file("q"), &c, Fault::None, false);
            if base.run.bytes.is_empty() {
                continue;
            }
            let lim = match k % 4 {
                0 => r.below(8),
                1 => base.run.bytes.len() as u64 - 1,
                _ => r.below(base.run.bytes.len() as u64),
            };
            unsafe { setrlimit(1, &[lim, u64::MAX]) };
            let x = run_with(thread_file("q"), &c, Fault::None, false);
            unsafe { setrlimit(1, &[u64::MAX, u64::MAX]) };
            let all = x.run.open.ok() && x.run.results.iter().all(|r| r.ok());
            if let Some((i, p)) = x.run.panicked() {
                rep.case_violation("", &format!("file size limit {}: call {} panics: {}", lim, i, p), &c);
                return;
            }
            if all {
                rep.case_violation("", &format!("file size limit {}: every call succeeds, {} of {} bytes are on disk", lim, x.run.bytes.len(), base.run.bytes.len()), &c);
                return;
            }
            rep.metric("runs_under_a_kernel_file_size_limit", 1);
            rep.eval(Some(mix(hash(&c), lim)));
        }
        // a device that is always full
        if std::fs::OpenOptions::new().write(true).open("/dev/full").is_ok() {
            for k in 0..100 {
                let c = legal(&small_case(&mut r, k));
                let mut all = true;
                match open(name("/dev/full"), &c.spec) {
                    Err(Res::Panic(p)) => {
                        rep.case_violation("", &format!("/dev/full: creating the writer panics: {}", p), &c);
                        return;
                    }
                    Err(_) => all = false,
                    Ok(mut w) => {
                        let mut fl = false;
                        for (i, o) in c.ops.iter().enumerate() {
                            match step(&mut w, o, &mut fl) {
                                Res::Ok => {}
                                Res::Err(..) => all = false,
                                Res::Panic(p) => {
                                    rep.case_violation("", &format!("/dev/full: call {} panics: {}", i, p), &c);
                                    return;
                                }
                            }
                        }
                    }
                }
                if all {
                    rep.case_violation("", "/dev/full: every call succeeds", &c);
                    return;
                }
                rep.metric("runs_on_a_full_device", 1);
                rep.eval(Some(hash(&c)));
            }
        }
    });
}

fn small_case(r: &mut Rng, k: u64) -> Case {
    match k % 8 {
        0 => gen::empty(r),
        1 | 2 => gen::chunks(r, 0),
        3 if k % 64 == 3 => gen::pages(r),
        4 => gen::mixed(r, 0),
        _ => gen::tiny(r, 0),
    }
}

pub fn c11_entry(rep: &Report) {
    rep.level("fault_enumeration");
    rep.rule("histories of legal calls; each is run with every single output call failing once and from there on (at most 150 positions per history, evenly spread), with space limits at 26 sizes, with partial and interrupted writes, under the kernel's file size limit and on a full device; non-trivial: a history with output calls; faulted_runs counts the executions");
    rep.assume("faults are injected where the standard library calls write and writev of libc; a file system reports errors there and not later");
    let e: Box<Ev> = Box::new(|c, m| c11(c, m));
    c11_kernel(rep);
    cases(rep, "any", u64::MAX, if rep.thorough { 600.0 } else { 30.0 }, &|r, k| small_case(r, k), &*e);
    let i = rep.inner.lock().unwrap();
    let none = i.metrics.get("injected_errors") == 0 && i.metrics.get("faulted_runs") > 0;
    drop(i);
    if none && std::env::var("TSV_ONLY").is_err() {
        rep.problem("no output call was seen: the code does not write through libc's write");
    }
}

// ------------------------------------------------------------------ C12

fn magic_tail(b: &[u8]) -> bool {
    b.len() > 13 && b.ends_with(b"TsFile")
}

fn judge_prefix(whole: &[u8], full: &[(usize, &reader::Chunk)], cut: usize, what: &str) -> Result<(), String> {
    let p = &whole[..cut];
    let sc = reader::scan(p);
    if let Some(e) = &sc.error {
        return Err(format!("{}: the forward scan of the first {} bytes fails: {}", what, cut, e));
    }
    let want = full.iter().filter(|c| c.0 <= cut).count();
    let got: Vec<&reader::Chunk> = sc.groups.iter().flat_map(|g| &g.chunks).collect();
    if got.len() != want {
        return Err(format!("{}: {} chunks recovered from the first {} bytes, {} are complete in it", what, got.len(), cut, want));
    }
    for (a, (_, b)) in got.iter().zip(full) {
        if a.off != b.off
            || a.page_error.is_some()
            || a.pages.len() != b.pages.len()
            || a.pages.iter().zip(&b.pages).any(|(x, y)| x.decode_error.is_some() || x.times != y.times || x.values != y.values)
        {
            return Err(format!("{}: the chunk at {} recovered from the first {} bytes differs", what, a.off, cut));
        }
    }
    if cut < whole.len() && (magic_tail(p) || reader::footer(p).is_ok()) {
        return Err(format!("{}: the first {} of {} bytes pass for a complete file", what, cut, whole.len()));
    }
    Ok(())
}

pub fn c12(c: &Case, m: &mut Metrics) -> Eval {
    // undisturbed and closed
    let mut cl = legal(c);
    if !cl.ops.contains(&Op::Close) {
        cl.ops.push(Op::Close);
    }
    let b = match based(&cl.spec, &cl.ops, false) {
        Ok(b) => b,
        Err(e) => return bad(e),
    };
    let whole = b.run.bytes;
    let j = judge(&whole, &cl.spec, &b.points);
    if let Some(i) = j.issues.iter().find(|i| i.props.contains(&"C01")) {
        return bad(i.text.clone());
    }
    let full: Vec<(usize, &reader::Chunk)> = j
        .scan
        .groups
        .iter()
        .flat_map(|g| &g.chunks)
        .map(|c| (c.data + c.size, c))
        .collect();
    // the recorded output calls
    let x = run_with(thread_file("q"), &cl, Fault::None, true);
    let mut len = 0i64;
    let mut cuts = vec![];
    for e in &x.plan.events {
        match e {
            Event::Write(_, pos, n) | Event::PWrite(_, pos, n) => {
                if *pos != len {
                    return bad(format!("output at position {} while the file has {} bytes", pos, len));
                }
                len += *n as i64;
                cuts.push(len as usize);
            }
            Event::Truncate(_, l) if *l < len => {
                return bad(format!("the file is cut to {} of {} bytes", l, len));
            }
            _ => {}
        }
    }
    if x.run.bytes != whole {
        return bad("two undisturbed runs differ");
    }
    m.add("recorded_output_calls", x.plan.events.len() as u64);
    cuts.retain(|c| *c <= whole.len());
    let mut r = Rng::new(whole.len() as u64, 12);
    if cuts.len() > 3000 {
        r.shuffle(&mut cuts);
        cuts.truncate(3000);
    }
    if whole.len() < 2500 {
        cuts.extend(0..=whole.len());
    } else {
        // around the chunk ends and anywhere
        for (e, _) in full.iter().take(100) {
            cuts.extend([e - 1, *e, e + 1]);
        }
        for _ in 0..200 {
            cuts.push(r.usize(whole.len()));
        }
    }
    cuts.sort_unstable();
    cuts.dedup();
    if whole.len() > 100_000 {
        r.shuffle(&mut cuts);
        cuts.truncate(150);
    }
    for cut in &cuts {
        m.add("crash_points", 1);
        if let Err(e) = judge_prefix(&whole, &full, *cut, "crash") {
            return bad(e);
        }
    }
    // what is really on disk between the calls, and when the writer is dropped or leaked unclosed
    let path = thread_file("q");
    verif_hooks::take_forced_flush();
    let mut w = match open(path, &cl.spec) {
        Ok(w) => w,
        Err(e) => return bad(format!("creating the writer: {}", e.show())),
    };
    let mut fl = false;
    let mut last = 0;
    let every = 1 + cl.ops.len() / 120;
    let stop = cl.ops.len() - 1;
    let short = r.usize(cl.ops.len());
    let upto = if r.chance(1, 2) { stop } else { short };
    for (i, o) in cl.ops[..upto].iter().enumerate() {
        step(&mut w, o, &mut fl);
        if i % every == 0 || i + 1 == upto {
            let d = std::fs::read(path).unwrap_or_default();
            if d.len() < last || !whole.starts_with(&d) {
                return bad(format!("after call {} the {} bytes on disk are no prefix of the finished file", i, d.len()));
            }
            last = d.len();
            m.add("snapshots", 1);
            if d.len() == whole.len() {
                return bad(format!("the file is complete after call {}, before close", i));
            }
        }
    }
    let leak = r.chance(1, 4);
    if leak {
        std::mem::forget(w);
    } else if let Err(p) = guarded(move || drop(w)) {
        return bad(format!("dropping the writer panics: {}", p));
    }
    let d = std::fs::read(path).unwrap_or_default();
    let _ = std::fs::remove_file(path);
    if magic_tail(&d) || reader::footer(&d).is_ok() {
        return bad(format!("a writer that was never closed leaves {} bytes that pass for a complete file", d.len()));
    }
    if !whole.starts_with(&d) {
        return bad("what an unclosed writer leaves is no prefix of the finished file");
    }
    m.add("unclosed_writers", 1);
    // an output error is a crash point as well
    for k in 0..6 {
        let at = r.below(x.plan.calls + 1);
        let f = match k % 3 {
            0 => Fault::FailFrom(at, ENOSPC),
            1 => Fault::FailOnce(at, EIO),
            _ => Fault::Limit(r.below(whole.len() as u64), ENOSPC),
        };
        let y = run_with(path, &cl, f.clone(), false);
        m.add("runs_with_an_output_error", 1);
        if !whole.starts_with(&y.run.bytes) {
            return bad(format!("fault {}: the {} bytes on disk are no prefix of the undisturbed output", fault_text(&f), y.run.bytes.len()));
        }
        if y.run.bytes.len() < whole.len() && (magic_tail(&y.run.bytes) || reader::footer(&y.run.bytes).is_ok()) {
            return bad(format!("fault {}: an incomplete file passes for a complete one", fault_text(&f)));
        }
    }
    if full.is_empty() {
        Eval::Trivial
    } else {
        Eval::Counted
    }
}

fn c12_case(r: &mut Rng, k: u64) -> Case {
    match k % 8 {
        0 => gen::tiny(r, 0),
        1 if k % 16 == 1 => gen::pages(r),
        2 => gen::mixed(r, 0),
        3 if k % 32 == 3 => gen::wide(r),
        _ => gen::chunks(r, 0),
    }
}

/// The child of the kill test: writes slowly enough to be hit anywhere
pub fn crash_child(seed: u64, k: u64, path: &str) -> i32 {
    let mut r = Rng::new(seed, 5000 + k);
    let c = legal(&gen::chunks(&mut r, 0));
    let mut w = match open(name(path), &c.spec) {
        Ok(w) => w,
        Err(_) => return 3,
    };
    println!("go");
    let mut fl = false;
    let n = c.ops.len().max(1);
    let pause = 20_000 / n as u64;
    for o in &c.ops {
        step(&mut w, o, &mut fl);
        if pause > 0 {
            std::thread::sleep(std::time::Duration::from_micros(pause));
        }
    }
    std::thread::sleep(std::time::Duration::from_millis(3));
    0
}

fn c12_kill(rep: &Report) {
    single(rep, "kill", || {
        let exe = std::env::current_exe().unwrap();
        let n = if rep.thorough { 2000 } else { 120 };
        let next = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                sc.spawn(|| loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= n || rep.stopped() {
                        break;
                    }
                    let mut r = Rng::new(rep.seed, 5000 + k);
                    let mut c = legal(&gen::chunks(&mut r, 0));
                    if !c.ops.contains(&Op::Close) {
                        c.ops.push(Op::Close);
                    }
                    let whole = run(&c.spec, &c.ops).bytes;
                    let path = scratch().join(format!("kill-{}.tsfile", k));
                    let mut ch = match std::process::Command::new(&exe)
                        .args(["crash-child", &rep.seed.to_string(), &k.to_string(), path.to_str().unwrap()])
                        .stdout(std::process::Stdio::piped())
                        .spawn()
                    {
                        Ok(c) => c,
                        Err(e) => return rep.problem(format!("cannot start a child: {}", e)),
                    };
                    use std::io::Read;
                    let mut b = [0u8; 3];
                    let _ = ch.stdout.as_mut().unwrap().read(&mut b);
                    std::thread::sleep(std::time::Duration::from_micros(r.below(26_000)));
                    unsafe { kill(ch.id() as i32, 9) };
                    let st = ch.wait().unwrap();
                    let d = std::fs::read(&path).unwrap_or_default();
                    let _ = std::fs::remove_file(&path);
                    rep.metric("killed_processes", (st.signal() == Some(9)) as u64);
                    rep.metric("killed_with_a_partial_file", (d.len() < whole.len()) as u64);
                    let sc = reader::scan(&whole);
                    let full: Vec<(usize, &reader::Chunk)> =
                        sc.groups.iter().flat_map(|g| &g.chunks).map(|c| (c.data + c.size, c)).collect();
                    let e = if !whole.starts_with(&d) {
                        Some(format!("a killed writer leaves {} bytes that are no prefix of the finished file", d.len()))
                    } else {
                        judge_prefix(&whole, &full, d.len(), "killed process").err()
                    };
                    if let Some(e) = e {
                        rep.case_violation("", &e, &c);
                    }
                    rep.eval(Some(mix(hash(&c), d.len() as u64)));
                });
            }
        });
    });
}

fn fnv(b: &[u8]) -> u64 {
    b.chunks(8).fold(3, |h, c| {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        mix(h, u64::from_le_bytes(x))
    })
}

fn c12_bulk(rep: &Report) {
    single(rep, "bulk", || {
        let mut st = bulk::judged(false).remove(1);
        st.keep = false;
        let mut snaps: Vec<(usize, u64, bool)> = vec![];
        let o = bulk::run_stream(&st, rep.seed, &mut |p| {
            let b = std::fs::read(p).unwrap_or_default();
            snaps.push((b.len(), fnv(&b), magic_tail(&b)));
        });
        let replay = "only bulk:0\n";
        if let Some(b) = o.bad {
            return rep.violation("", &b, replay);
        }
        for (n, h, tail) in &snaps {
            rep.metric("snapshots_after_an_automatic_flush", 1);
            if *n > o.bytes.len() || fnv(&o.bytes[..*n]) != *h {
                return rep.violation("", &format!("the {} bytes on disk after an automatic flush are no prefix of the finished file", n), replay);
            }
            if *tail {
                return rep.violation("", "an unfinished file ends with the magic", replay);
            }
        }
        let sc = reader::scan(&o.bytes);
        let full: Vec<(usize, &reader::Chunk)> =
            sc.groups.iter().flat_map(|g| &g.chunks).map(|c| (c.data + c.size, c)).collect();
        let mut r = Rng::new(rep.seed, 121);
        let mut cuts: Vec<usize> = snaps.iter().map(|x| x.0).collect();
        cuts.push(r.usize(o.bytes.len()));
        for c in cuts {
            if let Err(e) = judge_prefix(&o.bytes, &full, c, "long stream") {
                return rep.violation("", &e, replay);
            }
        }
        rep.eval(Some(mix(12, o.accepted)));
    });
}

pub fn c12_entry(rep: &Report) {
    rep.level("fault_enumeration");
    rep.rule("histories with forced flushes, the output calls of which are recorded; every boundary between output calls (up to 3000) and every byte of files below 2500 bytes is a crash point whose prefix is scanned; further: files on disk between the calls, dropped and leaked unclosed writers, output errors, processes killed at random moments, a stream with real flushes; non-trivial: at least one chunk; crash_points counts the prefixes judged");
    rep.assume("what the kernel has accepted survives the crash and nothing else does: no reordering of blocks by a power failure");
    let e: Box<Ev> = Box::new(|c, m| c12(c, m));
    c12_kill(rep);
    c12_bulk(rep);
    cases(rep, "any", u64::MAX, if rep.thorough { 600.0 } else { 22.0 }, &|r, k| c12_case(r, k), &*e);
}

// ------------------------------------------------------------------ C13

fn fresh_dir() -> std::path::PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let d = scratch().join(format!("c13-{}", N.fetch_add(1, Ordering::SeqCst)));
    let _ = std::fs::create_dir_all(&d);
    d
}

struct Guard(std::path::PathBuf);
impl Drop for Guard {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn c13(c: &Case, m: &mut Metrics) -> Eval {
    let mut r = Rng::new(c.num("seed") as u64, 13);
    let dir = fresh_dir();
    let _g = Guard(dir.clone());
    let ds = dir.to_str().unwrap().to_string();
    // the reference
    let mut cl = c.clone();
    cl.ops.retain(|o| *o != Op::Close);
    cl.ops.push(Op::Close);
    let b = match based(&cl.spec, &cl.ops, false) {
        Ok(b) => b,
        Err(e) => return bad(e),
    };
    let whole = b.run.bytes;
    let j = judge(&whole, &cl.spec, &b.points);
    if let Some(i) = j.issues.iter().find(|i| i.props.contains(&"C01") || i.props.contains(&"C04") || i.props.contains(&"C02")) {
        return bad(format!("the file is not complete: {}", i.text));
    }
    // must it work, must it fail, or either
    let junk = |n: usize, r: &mut Rng| -> Vec<u8> { (0..n).map(|_| r.u64() as u8).collect() };
    let (path, must): (String, Option<bool>) = match c.num("path") {
        0 => (format!("{}/a.tsfile", ds), Some(true)),
        1 => (format!("{}/x/y/z/a.tsfile", ds), Some(true)),
        2 => (format!("{}/ä ö/温度 😀/b'\"*.tsfile", ds), Some(true)),
        3 => {
            let p = format!("{}/old", ds);
            let n = 2 * whole.len() + 1000;
            std::fs::write(&p, junk(n, &mut r)).unwrap();
            (p, Some(true))
        }
        4 => {
            let p = format!("{}/old", ds);
            let mut o = whole.clone();
            o.extend_from_slice(&whole);
            std::fs::write(&p, o).unwrap();
            (p, Some(true))
        }
        5 => {
            std::fs::create_dir_all(format!("{}/d/e", ds)).unwrap();
            std::fs::write(format!("{}/d/e/keep", ds), b"keep").unwrap();
            (format!("{}/d/e", ds), Some(false))
        }
        6 => {
            std::fs::write(format!("{}/f", ds), b"keep").unwrap();
            (format!("{}/f/a.tsfile", ds), Some(false))
        }
        7 => (format!("{}/a\0b", ds), Some(false)),
        8 => (format!("{}/{}", ds, "n".repeat(300)), Some(false)),
        9 => (format!("{}/{}/a", ds, "n".repeat(300)), Some(false)),
        10 => (String::new(), Some(false)),
        11 => (format!("{}/", ds), Some(false)),
        12 => (format!("{}/..", ds), Some(false)),
        13 => ("/".into(), Some(false)),
        14 => ("/dev/null/a.tsfile".into(), Some(false)),
        15 => (format!("rel-{}.tsfile", c.num("seed")), Some(true)),
        16 => (format!("reldir-{}/a/b.tsfile", c.num("seed")), Some(true)),
        17 => {
            let _ = std::os::unix::fs::symlink(format!("{}/target", ds), format!("{}/link", ds));
            (format!("{}/link", ds), Some(true))
        }
        18 => {
            let _ = std::os::unix::fs::symlink("loop", format!("{}/loop", ds));
            (format!("{}/loop", ds), Some(false))
        }
        19 => {
            let p = format!("{}/old", ds);
            std::fs::write(&p, b"").unwrap();
            (p, Some(true))
        }
        20 => (format!("{}/./q/../q2/a.tsfile", ds), None),
        21 => (format!("{}//m///n//a.tsfile", ds), Some(true)),
        22 => (format!("{}/g\n\t.tsfile", ds), Some(true)),
        23 => (format!("{}/{}", ds, "n".repeat(255)), Some(true)),
        _ => {
            let p = format!("{}/old", ds);
            let n = 1 + r.usize(40);
            std::fs::write(&p, junk(n, &mut r)).unwrap();
            (p, Some(true))
        }
    };
    let pn = name(&path);
    verif_hooks::take_forced_flush();
    let opened = open(pn, &c.spec);
    m.add("paths_tried", 1);
    let mut w = match opened {
        Err(Res::Panic(p)) => return bad(format!("new({:?}) panics: {}", path, p)),
        Err(e) => {
            if must == Some(true) {
                return bad(format!("new({:?}) answers {}", path, e.show()));
            }
            for k in ["d/e/keep", "f"] {
                let q = format!("{}/{}", ds, k);
                if (k == "f") == (c.num("path") == 6) && (k == "f" || c.num("path") == 5) && std::fs::read(&q).ok().as_deref() != Some(b"keep") {
                    return bad(format!("a failed new({:?}) changed {}", path, q));
                }
            }
            m.add("paths_refused", 1);
            return Eval::Counted;
        }
        Ok(w) => w,
    };
    if must == Some(false) {
        return bad(format!("new({:?}) succeeds", path));
    }
    let mut fl = false;
    let mut body = cl.ops.clone();
    body.pop();
    for (i, o) in body.iter().enumerate() {
        if let Res::Panic(p) = step(&mut w, o, &mut fl) {
            return bad(format!("call {} {} panics: {}", i, show_op(o), p));
        }
    }
    if c.num("path") % 5 == 3 && r.chance(1, 2) {
        // given up without close
        let _ = guarded(move || drop(w));
        let d = std::fs::read(pn).unwrap_or_default();
        if !whole.starts_with(&d) {
            return bad(format!("an unclosed writer on {:?} leaves {} bytes of something else", path, d.len()));
        }
        m.add("dropped_without_close", 1);
        return Eval::Counted;
    }
    let read = || std::fs::read(pn).unwrap_or_default();
    let a = step(&mut w, &Op::Close, &mut fl);
    if !a.ok() {
        return bad(format!("close answers {}", a.show()));
    }
    let d = read();
    if d != whole {
        return bad(format!(
            "after close {} bytes are on disk while the writer exists, {} expected, equal up to {}",
            d.len(),
            whole.len(),
            d.iter().zip(&whole).take_while(|x| x.0 == x.1).count()
        ));
    }
    // anything after close
    let extra = r.usize(9);
    for k in 0..extra {
        let (d2, ms) = match c.spec.devices.iter().find(|d| !d.1.is_empty()) {
            Some(x) if r.chance(5, 6) => (x.0, x.1.clone()),
            _ => (name("nowhere"), vec![]),
        };
        let t = match r.below(3) {
            0 => i64::MAX,
            1 => r.small(1 << 62) as i64,
            _ => -1,
        };
        let mn = ms.first().map_or(name("s"), |x| x.name);
        let v = match ms.first().map(|x| x.ty) {
            Some(Ty::I32) => Val::I(1),
            Some(Ty::I64) => Val::L(1),
            Some(Ty::F32) => Val::F(0),
            None => Val::D(0),
        };
        if r.chance(1, 5) {
            verif_hooks::force_flush();
        }
        let (what, res, must_err) = match r.below(4) {
            0 | 1 => ("write", call_write(&mut w, d2, mn, t, v), true),
            2 => {
                let n = r.usize(3);
                let ps: Vec<(Name, Val)> = ms.iter().take(n).map(|x| (x.name, v)).collect();
                let e = !ps.is_empty();
                ("write_many", call_batch(&mut w, d2, t, &ps), e)
            }
            _ => ("close", call_close(&mut w), false),
        };
        verif_hooks::take_forced_flush();
        if let Res::Panic(p) = &res {
            return bad(format!("{} after close panics: {}", what, p));
        }
        if must_err && res.ok() {
            return bad(format!("{} after close succeeds", what));
        }
        if read() != whole {
            return bad(format!("{} after close (call {} after it) changes the file", what, k));
        }
        m.add("calls_after_close", 1);
    }
    if r.chance(1, 3) {
        // a second writer replaces the file while the first one still exists
        let mut w2 = match open(pn, &c.spec) {
            Ok(w) => w,
            Err(e) => return bad(format!("a second new({:?}) answers {}", path, e.show())),
        };
        if !call_close(&mut w2).ok() {
            return bad("closing a second writer fails");
        }
        let short = read();
        let _ = guarded(move || drop(w));
        if read() != short {
            return bad("dropping a closed writer changes the file of its successor");
        }
        drop(w2);
        let mut em = c.clone();
        em.ops = vec![Op::Close];
        if run(&em.spec, &em.ops).bytes != read() {
            return bad(format!("a second writer on {:?} does not replace the file", path));
        }
        m.add("files_replaced_by_a_second_writer", 1);
    } else {
        if let Err(p) = guarded(move || drop(w)) {
            return bad(format!("dropping the writer panics: {}", p));
        }
        if read() != whole {
            return bad("dropping the closed writer changes the file");
        }
    }
    m.add("files_compared", 1);
    let _ = std::fs::remove_file(pn);
    Eval::Counted
}

pub fn c13_entry(rep: &Report) {
    rep.rule("usable and unusable paths of 25 kinds (missing, nested and odd directories, existing shorter, longer and similar files, directories, files as directories, NUL, too long, empty, relative, links) with histories of all small families including empty ones; after close: random writes, batches, closes, a second writer on the same path, drop, with the bytes on disk read after each; non-trivial: each case");
    rep.assume("the checks run as root, so that missing permissions are not among the unusable paths");
    // relative paths must not litter
    let cwd = scratch().join("cwd");
    let _ = std::fs::create_dir_all(&cwd);
    let _ = std::env::set_current_dir(&cwd);
    let e: Box<Ev> = Box::new(|c, m| c13(c, m));
    cases(
        rep,
        "any",
        u64::MAX,
        if rep.thorough { 300.0 } else { 15.0 },
        &|r, k| {
            let mut c = match k % 6 {
                0 => gen::empty(r),
                1 => gen::chunks(r, 0),
                2 => gen::mixed(r, 30),
                _ => gen::tiny(r, 60),
            };
            c.ops.retain(|o| *o != Op::Close);
            if k % 23 == 0 {
                c.ops.clear();
            }
            c.set("path", k % 25);
            c.set("seed", k);
            c
        },
        &*e,
    );
    let _ = std::env::set_current_dir("/");
}
