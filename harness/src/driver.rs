//! Runs cases on all cores, remembers what is in flight, shrinks failures
use crate::exec;
use crate::judge::Metrics;
use crate::model::*;
use crate::report::Report;
use crate::rng::Rng;
use std::os::unix::process::ExitStatusExt;
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub enum Eval {
    /// nothing of interest happened
    Trivial,
    Counted,
    Bad { key: String, text: String },
}

pub fn bad(text: impl Into<String>) -> Eval {
    Eval::Bad {
        key: String::new(),
        text: text.into(),
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).min(16)
}

/// Scales the time caps, for experiments with many versions of the code
fn scale() -> f64 {
    static S: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    *S.get_or_init(|| std::env::var("TSV_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0))
}

pub fn mix(h: u64, v: u64) -> u64 {
    (h.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95)
}

fn vbits(v: Val) -> u64 {
    match v {
        Val::I(x) => x as u32 as u64 | 1 << 40,
        Val::L(x) => x as u64,
        Val::F(x) => x as u64 | 2 << 40,
        Val::D(x) => x,
    }
}

pub fn hash(c: &Case) -> u64 {
    let mut h = 7;
    for (d, ms) in &c.spec.devices {
        h = mix(h, d.as_ptr() as u64);
        for m in ms {
            h = mix(h, m.name.as_ptr() as u64);
            h = mix(h, (m.ty.code() as u64) << 16 | (m.en.code() as u64) << 8 | m.co.code() as u64);
        }
    }
    for o in &c.ops {
        match o {
            Op::Write(d, m, t, v) => {
                h = mix(h, d.as_ptr() as u64);
                h = mix(h, m.as_ptr() as u64);
                h = mix(h, *t as u64);
                h = mix(h, vbits(*v));
            }
            Op::Batch(d, t, ps) => {
                h = mix(h, d.as_ptr() as u64);
                h = mix(h, *t as u64);
                for (m, v) in ps {
                    h = mix(h, m.as_ptr() as u64);
                    h = mix(h, vbits(*v));
                }
            }
            Op::Flush => h = mix(h, 11),
            Op::Close => h = mix(h, 13),
        }
    }
    for (k, v) in &c.params {
        for b in k.bytes().chain(v.bytes()) {
            h = mix(h, b as u64);
        }
    }
    h
}

pub fn journal(slot: usize, text: &str) {
    if let Ok(d) = std::env::var("TSV_JOURNAL") {
        let _ = std::fs::write(format!("{}/{}", d, slot), text);
    }
}

/// TSV_ONLY=stage:k restricts a run to one case
fn only() -> Option<(String, u64)> {
    let v = std::env::var("TSV_ONLY").ok()?;
    let (a, b) = v.rsplit_once(':')?;
    Some((a.to_string(), b.parse().ok()?))
}

pub type Gen<'a> = dyn Fn(&mut Rng, u64) -> Case + Sync + 'a;
pub type Ev<'a> = dyn Fn(&Case, &mut Metrics) -> Eval + Sync + 'a;

fn stage_id(s: &str) -> u64 {
    s.bytes().fold(17, |h, b| mix(h, b as u64))
}

pub fn evaluate(eval: &Ev, c: &Case, m: &mut Metrics) -> Eval {
    match exec::guarded(|| eval(c, m)) {
        Ok(e) => e,
        Err(p) => Eval::Bad {
            key: String::new(),
            text: format!("the file or answer could not be processed: {}", p),
        },
    }
}

/// Bytes of names in the file, roughly: each chunk repeats them. Names may be
/// a mebibyte long; many flushes with them would fill the memory.
fn weight(c: &Case) -> usize {
    let names: usize = c
        .spec
        .devices
        .iter()
        .map(|(d, ms)| d.len() * (1 + ms.len()) + ms.iter().map(|m| m.name.len()).sum::<usize>())
        .sum();
    let flushes = c.ops.iter().filter(|o| matches!(o, Op::Flush)).count();
    // and each call hashes the names
    let longest = c
        .spec
        .devices
        .iter()
        .flat_map(|(d, ms)| ms.iter().map(|m| m.name.len()).chain([d.len()]))
        .max()
        .unwrap_or(0);
    (names * (2 + flushes)).max(longest * c.ops.len() / 40)
}

pub fn cases(rep: &Report, stage: &str, n: u64, cap: f64, gen: &Gen, eval: &Ev) {
    if rep.stopped() {
        return;
    }
    let begin = Instant::now();
    let next = AtomicU64::new(0);
    let only = only();
    if let Some((s, _)) = &only {
        if s != stage {
            return;
        }
    }
    let sid = stage_id(stage);
    let fail = std::sync::Mutex::new(false);
    std::thread::scope(|sc| {
        for th in 0..if only.is_some() { 1 } else { threads() } {
            let (next, only, fail) = (&next, &only, &fail);
            sc.spawn(move || {
                let mut m = Metrics::default();
                loop {
                    let k = match only {
                        Some((_, k)) => *k,
                        None => next.fetch_add(1, Ordering::Relaxed),
                    };
                    if k >= n || rep.stopped() || begin.elapsed().as_secs_f64() > cap * scale() {
                        break;
                    }
                    journal(th, &format!("{}:{}", stage, k));
                    let _names = Names::new();
                    let mut r = Rng::new(rep.seed, sid.wrapping_add(k.wrapping_mul(0x9E37)));
                    let mut c = gen(&mut r, k);
                    for _ in 0..20 {
                        if weight(&c) <= 24 << 20 {
                            break;
                        }
                        c = gen(&mut r, k);
                    }
                    let mut mm = Metrics::default();
                    let e = evaluate(eval, &c, &mut mm);
                    match e {
                        Eval::Trivial => rep.eval(None),
                        Eval::Counted => {
                            rep.eval(Some(hash(&c)));
                            m.merge(&mm);
                            if k % 97 == 0 {
                                rep.sample(c.describe());
                            }
                        }
                        Eval::Bad { key, text } => {
                            rep.eval(None);
                            let mut f = fail.lock().unwrap();
                            if *f {
                                break;
                            }
                            let (c2, t2) = shrink(eval, c, key.clone(), text);
                            let before = rep.stopped();
                            rep.case_violation(&key, &format!("[{}:{}] {}", stage, k, t2), &c2);
                            *f = rep.stopped() && !before;
                        }
                    }
                    journal(th, "");
                    if only.is_some() {
                        break;
                    }
                }
                rep.merge(&m);
            });
        }
    });
}

/// Numbered pieces of work that are not histories; `f` gets its own generator
thread_local! {
    static SHOWN: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// Describes the item at work, for the evidence
pub fn show(f: impl FnOnce() -> String) {
    SHOWN.with(|s| *s.borrow_mut() = Some(f()));
}

pub fn each(rep: &Report, stage: &str, n: u64, cap: f64, f: &(dyn Fn(&mut Rng, u64, &mut Metrics) -> Eval + Sync)) {
    if rep.stopped() {
        return;
    }
    let begin = Instant::now();
    let next = AtomicU64::new(0);
    let only = only();
    if let Some((s, _)) = &only {
        if s != stage {
            return;
        }
    }
    let sid = stage_id(stage);
    std::thread::scope(|sc| {
        for th in 0..if only.is_some() { 1 } else { threads() } {
            let (next, only) = (&next, &only);
            sc.spawn(move || {
                let mut m = Metrics::default();
                loop {
                    let k = match only {
                        Some((_, k)) => *k,
                        None => next.fetch_add(1, Ordering::Relaxed),
                    };
                    if k >= n || rep.stopped() || begin.elapsed().as_secs_f64() > cap * scale() {
                        break;
                    }
                    journal(th, &format!("{}:{}", stage, k));
                    let _names = Names::new();
                    let mut r = Rng::new(rep.seed, sid.wrapping_add(k.wrapping_mul(0x9E37)));
                    let e = match exec::guarded(|| f(&mut r, k, &mut m)) {
                        Ok(e) => e,
                        Err(p) => bad(format!("the answer could not be processed: {}", p)),
                    };
                    if let (Some(t), true) = (SHOWN.with(|s| s.borrow_mut().take()), k % 97 == 5) {
                        rep.sample(format!("[{}:{}] {}", stage, k, t));
                    }
                    match e {
                        Eval::Trivial => rep.eval(None),
                        Eval::Counted => rep.eval(Some(mix(sid, k))),
                        Eval::Bad { key, text } => {
                            rep.eval(None);
                            rep.violation(&key, &format!("[{}:{}] {}", stage, k, text), &format!("only {}:{}\n", stage, k));
                        }
                    }
                    journal(th, "");
                    if only.is_some() {
                        break;
                    }
                }
                rep.merge(&m);
            });
        }
    });
}

/// A single long piece of work
pub fn single(rep: &Report, stage: &str, f: impl FnOnce()) {
    if rep.stopped() {
        return;
    }
    if let Some((s, _)) = only() {
        if s != stage {
            return;
        }
    }
    journal(99, &format!("{}:0 long", stage));
    f();
    journal(99, "");
}

/// Long pieces of work that select themselves under TSV_ONLY
pub fn single_many(rep: &Report, stage: &str, f: impl FnOnce()) {
    if rep.stopped() {
        return;
    }
    if let Some((s, _)) = only() {
        if s != stage {
            return;
        }
    }
    journal(99, &format!("{}:0 long", stage));
    f();
    journal(99, "");
}

fn closes(c: &Case) -> bool {
    c.ops.iter().any(|o| matches!(o, Op::Close))
}

/// Removes operations and declarations while the failure stays the same kind
pub fn shrink(eval: &Ev, c: Case, key: String, text: String) -> (Case, String) {
    let start = Instant::now();
    let budget = 12.0;
    let mut best = c;
    let mut btext = text;
    let fails = |c: &Case| -> Option<String> {
        match evaluate(eval, c, &mut Metrics::default()) {
            Eval::Bad { key: k, text } if k == key => Some(text),
            _ => None,
        }
    };
    // operations
    let mut size = (best.ops.len() / 2).max(1);
    while start.elapsed().as_secs_f64() < budget && !best.ops.is_empty() {
        let mut i = 0;
        let mut any = false;
        while i < best.ops.len() && start.elapsed().as_secs_f64() < budget {
            let mut t = best.clone();
            let e = (i + size).min(t.ops.len());
            t.ops.drain(i..e);
            if closes(&best) && !closes(&t) {
                // An open file fails for another reason
                i += size;
                continue;
            }
            if let Some(x) = fails(&t) {
                best = t;
                btext = x;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        size = (size / 2).max(1);
    }
    // declarations
    let mut i = 0;
    while i < best.spec.devices.len() && start.elapsed().as_secs_f64() < budget * 1.3 {
        let mut t = best.clone();
        t.spec.devices.remove(i);
        if let Some(x) = fails(&t) {
            best = t;
            btext = x;
            continue;
        }
        let mut j = 0;
        while j < best.spec.devices[i].1.len()
            && best.spec.devices[i].1.len() > 1
            && start.elapsed().as_secs_f64() < budget * 1.3
        {
            let mut t = best.clone();
            t.spec.devices[i].1.remove(j);
            if let Some(x) = fails(&t) {
                best = t;
                btext = x;
            } else {
                j += 1;
            }
        }
        i += 1;
    }
    (best, btext)
}

fn tmp_journal() -> String {
    let d = format!("{}/journal", exec::scratch().display());
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Runs `tsv run <id>` in a child and turns its death or hanging into a verdict
pub fn supervise(id: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let j = tmp_journal();
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let limit = Duration::from_secs(if thorough { 3600 } else { 840 });
    let stuck = Duration::from_secs(if thorough { 400 } else { 150 });
    let scratch = exec::scratch().join("run");
    let spawn = |only: Option<&str>| {
        let mut c = Command::new(&exe);
        c.arg("run").arg(id).env("TSV_SCRATCH", &scratch);
        match only {
            Some(o) => {
                c.env("TSV_ONLY", o).env_remove("TSV_JOURNAL");
            }
            None => {
                c.env("TSV_JOURNAL", &j);
            }
        }
        c.spawn().expect("cannot start the worker")
    };
    let inflight = || -> Vec<(String, Duration)> {
        let mut v = vec![];
        if let Ok(rd) = std::fs::read_dir(&j) {
            for e in rd.flatten() {
                let t = std::fs::read_to_string(e.path()).unwrap_or_default();
                let age = e
                    .metadata()
                    .and_then(|m| m.modified())
                    .ok()
                    .and_then(|m| m.elapsed().ok())
                    .unwrap_or_default();
                if !t.is_empty() {
                    v.push((t, age));
                }
            }
        }
        v
    };
    let start = Instant::now();
    let mut child = spawn(None);
    let mut suspects: Vec<String> = vec![];
    let mut how = String::new();
    loop {
        if let Ok(Some(st)) = child.try_wait() {
            if let Some(c) = st.code() {
                if c == 0 || c == 1 || c == 3 {
                    exec::remove_scratch();
                    return c;
                }
                how = format!("exit code {}", c);
            } else if let Some(s) = st.signal() {
                how = format!("signal {}", s);
            }
            suspects = inflight().into_iter().map(|x| x.0).collect();
            break;
        }
        let hung: Vec<String> = inflight()
            .into_iter()
            .filter(|x| x.1 > stuck && !x.0.ends_with("long"))
            .map(|x| x.0)
            .collect();
        if !hung.is_empty() || start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            how = "hang".into();
            suspects = hung;
            break;
        }
        std::thread::sleep(Duration::from_millis(100));
    }
    eprintln!("worker ended by {}, in flight: {:?}", how, suspects);
    for sus in &suspects {
        let sus = sus.trim_end_matches(" long");
        let mut c = spawn(Some(sus));
        let t = Instant::now();
        let verdict = loop {
            if let Ok(Some(st)) = c.try_wait() {
                break match (st.code(), st.signal()) {
                    (Some(0) | Some(3), _) => None,
                    (Some(1), _) => Some("a violation".to_string()),
                    (Some(x), _) => Some(format!("exit code {}", x)),
                    (_, Some(s)) => Some(format!("signal {}", s)),
                    _ => None,
                };
            }
            if t.elapsed() > Duration::from_secs(if thorough { 300 } else { 120 }) {
                let _ = c.kill();
                let _ = c.wait();
                break Some("no end within two minutes".into());
            }
            std::thread::sleep(Duration::from_millis(50));
        };
        if let Some(v) = verdict {
            if v == "a violation" {
                exec::remove_scratch();
                return 1;
            }
            let rep = Report::new(id);
            rep.violation(
                "",
                &format!("the process running the real code ended with: {}", v),
                &format!("only {}\n", sus),
            );
            rep.rule("a case during which the process died or hung, confirmed in a process of its own");
            rep.finish();
            exec::remove_scratch();
            return 1;
        }
    }
    println!("INCONCLUSIVE: the worker ended by {}", how);
    exec::remove_scratch();
    3
}
