//! Checks that run the code in other programs: C17 (C interface), C22
//! (other platforms) and C23 (threads)
use crate::driver::*;
use crate::exec::*;
use crate::gen;
use crate::model::*;
use crate::report::Report;
use crate::rng::Rng;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: String,
    pub err: String,
    pub timeout: bool,
}

/// Runs a command with a time limit
pub fn command(mut c: Command, secs: u64) -> Out {
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            return Out {
                code: None,
                signal: None,
                out: String::new(),
                err: format!("cannot start: {}", e),
                timeout: false,
            }
        }
    };
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let a = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut o, &mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let b = std::thread::spawn(move || {
        let mut v = vec![];
        let _ = std::io::Read::read_to_end(&mut e, &mut v);
        String::from_utf8_lossy(&v).to_string()
    });
    let start = Instant::now();
    let mut timeout = false;
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => {}
            Err(_) => break None,
        }
        if start.elapsed() > Duration::from_secs(secs) {
            timeout = true;
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(15));
    };
    Out {
        code: st.and_then(|s| s.code()),
        signal: st.and_then(|s| s.signal()),
        out: a.join().unwrap_or_default(),
        err: b.join().unwrap_or_default(),
        timeout,
    }
}

fn only_index(stage: &str) -> Option<u64> {
    let v = std::env::var("TSV_ONLY").ok()?;
    let (a, b) = v.rsplit_once(':')?;
    if a == stage {
        b.parse().ok()
    } else {
        None
    }
}

fn tail(t: &str, n: usize) -> String {
    let v: Vec<&str> = t.lines().filter(|l| !l.trim().is_empty()).collect();
    v[v.len().saturating_sub(n)..].join("\n")
}
/// The interesting part of a report
fn head(t: &str) -> String {
    let v: Vec<&str> = t.lines().collect();
    let s = v
        .iter()
        .position(|l| l.contains("ERROR: ") || l.contains("error: ") || l.contains("WARNING: ThreadSanitizer") || l.contains("panicked at") || l.contains("Invalid "))
        .unwrap_or(0);
    v[s..].iter().take(22).map(|l| l.to_string()).collect::<Vec<_>>().join("\n")
}

fn env(k: &str) -> String {
    std::env::var(k).unwrap_or_default()
}

// ------------------------------------------------------------------ C17

struct Script {
    text: String,
    /// path, schema, writes
    files: Vec<(String, Spec, Vec<Op>)>,
    calls: u64,
}

fn hexname(s: &str) -> String {
    let mut o = String::from("x");
    for b in s.bytes() {
        o.push_str(&format!("{:02x}", b));
    }
    o
}

fn c17_script(seed: u64, k: u64, dir: &str, small: bool) -> Script {
    let mut r = Rng::new(seed, 17_000_000 + k);
    struct Sc {
        spec: Spec,
        freed: bool,
        released: bool,
        live: usize,
    }
    struct Wr {
        s: usize,
        open: bool,
        t: gen::TGen,
        v: gen::VGen,
        file: usize,
    }
    let mut o = Script {
        text: format!("= {}\n", k),
        files: vec![],
        calls: 0,
    };
    let mut ss: Vec<Sc> = vec![];
    let mut ws: Vec<Wr> = vec![];
    let steps = 3 + r.usize(if small { 12 } else { 50 });
    let long = !small && k % 16 == 5;
    let nm = |r: &mut Rng| loop {
        let c = gen::class(r);
        let c = if small && c == 8 { 2 } else { c };
        let s = gen::ident(r, c).replace('\0', "_");
        if s.len() < 9000 {
            return name(&s);
        }
    };
    let release = |o: &mut Script, ss: &mut Vec<Sc>, i: usize| {
        if ss[i].freed && ss[i].live == 0 && !ss[i].released {
            ss[i].released = true;
            o.text.push_str(&format!("X {}\n", i));
        }
    };
    for _ in 0..steps {
        o.calls += 1;
        match r.below(16) {
            0..=2 if ss.len() < 40 => {
                let (d, m) = (nm(&mut r), nm(&mut r));
                let ty = *r.pick(&[Ty::I32, Ty::I32, Ty::I32, Ty::I32, Ty::I64, Ty::F32]);
                let en = if ty == Ty::F32 { En::Plain } else { *r.pick(&[En::Plain, En::Diff]) };
                let co = *r.pick(&[Co::None, Co::Snappy]);
                o.text.push_str(&format!(
                    "S {} {} {} {} {} {}\n",
                    ss.len(),
                    hexname(d),
                    hexname(m),
                    ty.code(),
                    en.code(),
                    co.code()
                ));
                let mut spec = Spec::default();
                spec.devices.push((d, vec![Meas { name: m, ty, en, co }]));
                ss.push(Sc { spec, freed: false, released: false, live: 0 });
            }
            3..=5 if ws.len() < 40 => {
                let c: Vec<usize> = (0..ss.len()).filter(|i| !ss[*i].freed).collect();
                if c.is_empty() {
                    continue;
                }
                let s = *r.pick(&c);
                let p = format!("{}/{}-{}.tsfile", dir, k, ws.len());
                o.text.push_str(&format!("N {} {} {}\n", ws.len(), s, p));
                ss[s].live += 1;
                let ty = ss[s].spec.devices[0].1[0].ty;
                let mut t = gen::TGen::new(&mut r);
                t.last = t.last.min(1 << 60);
                let v = gen::VGen::new(&mut r, ty);
                o.files.push((p, ss[s].spec.clone(), vec![]));
                ws.push(Wr { s, open: true, t, v, file: o.files.len() - 1 });
            }
            6 => {
                let c: Vec<usize> = (0..ss.len()).filter(|i| !ss[*i].freed).collect();
                if c.is_empty() {
                    continue;
                }
                let s = *r.pick(&c);
                ss[s].freed = true;
                o.text.push_str(&format!("F {}\n", s));
                release(&mut o, &mut ss, s);
            }
            7 => {
                let c: Vec<usize> = (0..ws.len()).filter(|i| ws[*i].open).collect();
                if c.is_empty() {
                    continue;
                }
                let w = *r.pick(&c);
                ws[w].open = false;
                o.text.push_str(&format!("C {}\n", w));
                let s = ws[w].s;
                ss[s].live -= 1;
                release(&mut o, &mut ss, s);
            }
            8 if r.chance(1, 2) => o.text.push_str(if r.chance(1, 2) { "f\n" } else { "c\n" }),
            _ => {
                let c: Vec<usize> = (0..ws.len())
                    .filter(|i| ws[*i].open && ss[ws[*i].s].spec.devices[0].1[0].ty == Ty::I32)
                    .collect();
                if c.is_empty() {
                    continue;
                }
                let w = *r.pick(&c);
                let n = if long {
                    1 + r.usize(4000)
                } else if small {
                    1 + r.usize(20)
                } else {
                    1 + r.usize(150)
                };
                for _ in 0..n {
                    let x = &mut ws[w];
                    let (d, ms) = &ss[x.s].spec.devices[0];
                    let m = ms[0].name;
                    let (t, v) = match (x.t.next(&mut r), x.v.next(&mut r)) {
                        (Some(t), Val::I(v)) => (t, v),
                        _ => break,
                    };
                    o.calls += 1;
                    o.text.push_str(&format!("W {} {} {} {} {}\n", w, hexname(d), hexname(m), t, v));
                    o.files[x.file].2.push(Op::Write(d, m, t, Val::I(v)));
                }
            }
        }
    }
    // end of life, in any order
    let mut todo: Vec<(bool, usize)> = (0..ss.len()).filter(|i| !ss[*i].freed).map(|i| (true, i)).collect();
    todo.extend((0..ws.len()).filter(|i| ws[*i].open).map(|i| (false, i)));
    r.shuffle(&mut todo);
    for (schema, i) in todo {
        o.calls += 1;
        if schema {
            ss[i].freed = true;
            o.text.push_str(&format!("F {}\n", i));
            release(&mut o, &mut ss, i);
        } else {
            ws[i].open = false;
            o.text.push_str(&format!("C {}\n", i));
            let s = ws[i].s;
            ss[s].live -= 1;
            release(&mut o, &mut ss, s);
        }
    }
    for f in o.files.iter_mut() {
        f.2.push(Op::Close);
    }
    o
}

struct C17Run {
    tool: &'static str,
    scripts: Vec<u64>,
    small: bool,
    threads: usize,
}

fn c17_run(rep: &Report, x: &C17Run, tag: usize) {
    let dir = scratch().join(format!("c17-{}", tag));
    let _ = std::fs::create_dir_all(&dir);
    let ds = dir.to_str().unwrap().to_string();
    let scripts: Vec<(u64, Script)> = x.scripts.iter().map(|k| (*k, c17_script(rep.seed, *k, &ds, x.small))).collect();
    let file = dir.join("script.txt");
    let text: String = scripts.iter().map(|s| s.1.text.as_str()).collect();
    std::fs::write(&file, text).unwrap();
    let mut c;
    let secs;
    match x.tool {
        "AddressSanitizer" => {
            c = Command::new(env("TSV_C17_ASAN"));
            c.arg(&file).arg(x.threads.to_string());
            c.env("ASAN_OPTIONS", "detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1");
            secs = 300;
        }
        "Miri" => {
            c = Command::new("cargo");
            c.args(["+nightly", "miri", "run", "-q", "--offline", "--bin", "c17", "--manifest-path"])
                .arg(format!("{}/c17/Cargo.toml", crate::report::verif_dir()))
                .arg("--target-dir")
                .arg(env("TSV_C17_MIRI"))
                .arg("--")
                .arg(&file)
                .arg(x.threads.to_string())
                .env("MIRIFLAGS", "-Zmiri-disable-isolation");
            secs = 700;
        }
        _ => {
            c = Command::new("valgrind");
            c.args(["-q", "--error-exitcode=99", "--leak-check=full", "--show-leak-kinds=definite,indirect", "--errors-for-leak-kinds=definite,indirect"])
                .arg(env("TSV_C17_C"))
                .arg(&file);
            secs = 300;
        }
    }
    let o = command(c, secs);
    let began: Vec<u64> = o.out.lines().filter_map(|l| l.strip_prefix("begin ")?.parse().ok()).collect();
    let last = *began.last().unwrap_or(&x.scripts[0]);
    let done = o.out.contains("done ");
    if o.code != Some(0) || !done {
        if o.timeout {
            rep.problem(format!("{} did not finish in {} s", x.tool, secs));
        } else if began.is_empty() {
            rep.problem(format!("{} could not run: {}", x.tool, tail(&o.err, 8)));
        } else {
            rep.violation(
                "",
                &format!("{}: script {} ({} calls) ends with {:?}\n{}", x.tool, last, scripts.iter().find(|s| s.0 == last).map_or(0, |s| s.1.calls), o.code, head(&o.err)),
                &format!("only {}:{}\n{}", if x.small { "small" } else { "seq" }, last, scripts.iter().find(|s| s.0 == last).map_or("", |s| &s.1.text)),
            );
        }
        let _ = std::fs::remove_dir_all(&dir);
        return;
    }
    for (k, s) in &scripts {
        for (p, spec, ops) in &s.files {
            let got = std::fs::read(p).unwrap_or_default();
            let want = run(spec, ops).bytes;
            rep.metric("files_compared", 1);
            rep.metric("points", ops.len() as u64 - 1);
            if got != want {
                rep.violation(
                    "",
                    &format!("script {}: the file written through the C interface has {} bytes and differs from the {} bytes of the Rust interface", k, got.len(), want.len()),
                    &format!("only {}:{}\n{}", if x.small { "small" } else { "seq" }, k, s.text),
                );
                let _ = std::fs::remove_dir_all(&dir);
                return;
            }
        }
        rep.metric("calls", s.calls);
        rep.eval(if s.files.is_empty() { None } else { Some(mix(*k, s.calls)) });
        if k % 40 == 3 {
            rep.sample(format!("{}: {}", x.tool, s.text.lines().take(12).map(|l| l.chars().take(60).collect::<String>()).collect::<Vec<_>>().join("; ")));
        }
    }
    rep.metric(
        match x.tool {
            "AddressSanitizer" => "scripts_under_AddressSanitizer",
            "Miri" => "scripts_under_Miri",
            _ => "scripts_of_a_C_program_under_memcheck",
        },
        scripts.len() as u64,
    );
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c17(rep: &Report) {
    rep.rule("random legal call sequences over several schemas and writers, with names freed as early as the interface allows and null handles, executed by a Rust driver under AddressSanitizer and LeakSanitizer (leaks are looked for after every sequence) and under Miri, and by a C program under valgrind memcheck; the files are compared with those of the Rust interface; non-trivial: a sequence that creates a writer");
    rep.assume("a rejected write ends the process by design of the interface and is not part of the random sequences; C programs whose last call cannot be carried out are run on their own");
    let f = if rep.thorough { 8 } else { 1 };
    let mut runs: Vec<C17Run> = vec![];
    if let Some(k) = only_index("refused") {
        return c17_refused(rep, k);
    }
    if let Some(k) = only_index("seq").map(|k| (k, false)).or(only_index("small").map(|k| (k, true))) {
        for tool in ["AddressSanitizer", "valgrind", "Miri"] {
            if tool == "Miri" && !k.1 {
                continue;
            }
            runs.push(C17Run { tool, scripts: vec![k.0], small: k.1, threads: 1 });
        }
    } else if std::env::var("TSV_ONLY").is_ok() {
        return;
    } else {
        for p in 0..6 * f {
            runs.push(C17Run { tool: "AddressSanitizer", scripts: (p * 80..p * 80 + 80).collect(), small: false, threads: if p % 6 == 5 { 8 } else { 1 } });
        }
        for p in 0..3 * f {
            runs.push(C17Run { tool: "valgrind", scripts: (100_000 + p * 40..100_000 + p * 40 + 40).collect(), small: false, threads: 1 });
        }
        for p in 0..4 * f {
            runs.push(C17Run { tool: "Miri", scripts: (200_000 + p * 12..200_000 + p * 12 + 12).collect(), small: true, threads: if p % 4 == 3 { 3 } else { 1 } });
        }
    }
    parallel(rep, "scripts", runs.len(), &|i| c17_run(rep, &runs[i], i));
    if only_index("seq").or(only_index("small")).is_none() {
        parallel(rep, "refused", REFUSED.len() * 5 * f as usize, &|i| c17_refused(rep, i as u64));
    }
}

const REFUSED: [&str; 20] = [
    "a schema without a device",
    "a schema without a measurement",
    "a schema with an unknown type",
    "a schema with an unknown encoding",
    "a schema with an unknown compression",
    "a schema with a device that is not UTF-8",
    "a schema with a measurement that is not UTF-8",
    "a writer without a file name",
    "a writer on a folder",
    "a writer below a file",
    "a write without a writer",
    "a write without a device",
    "a write without a measurement",
    "a write to a device that is not UTF-8",
    "a write to a device that does not exist",
    "a write to a measurement that does not exist",
    "a write at a negative time",
    "a write at the time of the last point",
    "a write before the last point",
    "a write of the wrong type",
];

/// A C program whose last call cannot be carried out: it ends there
fn c17_refused(rep: &Report, k: u64) {
    let mut r = Rng::new(rep.seed, 17_500_000 + k);
    let what = (k % REFUSED.len() as u64) as usize;
    let dir = scratch().join(format!("c17r-{}", k));
    let _ = std::fs::create_dir_all(&dir);
    let nm = |r: &mut Rng| name(&format!("n{}", { let b = 1 + r.below(40); r.below(1 << b) }));
    let (d, m) = (nm(&mut r), nm(&mut r));
    let ty = if what == 19 { *r.pick(&[Ty::I64, Ty::F32]) } else { Ty::I32 };
    let en = if ty == Ty::F32 { En::Plain } else { *r.pick(&[En::Plain, En::Diff]) };
    let co = *r.pick(&[Co::None, Co::Snappy]);
    let mut spec = Spec::default();
    spec.devices.push((d, vec![Meas { name: m, ty, en, co }]));
    let codes = format!("{} {} {}", ty.code(), en.code(), co.code());
    let (hd, hm) = (hexname(d), hexname(m));
    let (a, b) = (dir.join("a.tsfile"), dir.join("b.tsfile"));
    // a complete file first, and points before the refused call
    let mut text = format!("= {}\nS 0 {} {} {}\nN 0 0 {}\nN 1 0 {}\n", k, hd, hm, codes, a.display(), b.display());
    let mut ops = vec![];
    let mut t = r.range(0, 1000);
    let n = if ty == Ty::I32 { r.range(1, 40) } else { 0 };
    for w in [0, 1] {
        let from = t;
        for i in 0..n {
            t = from + i * 3;
            text.push_str(&format!("W {} {} {} {} {}\n", w, hd, hm, t, i));
            if w == 0 {
                ops.push(Op::Write(d, m, t, Val::I(i as i32)));
            }
        }
        if w == 0 {
            text.push_str("C 0\n");
            ops.push(Op::Close);
        }
    }
    let bad_text = "xc328";
    let path = dir.join("c.tsfile");
    let code = 50 + r.below(200);
    text.push_str("= 1\n");
    text.push_str(&match what {
        0 => format!("S 1 ! {} {}", hm, codes),
        1 => format!("S 1 {} ! {}", hd, codes),
        2 => format!("S 1 {} {} {} {} {}", hd, hm, code, en.code(), co.code()),
        3 => format!("S 1 {} {} {} {} {}", hd, hm, ty.code(), code, co.code()),
        4 => format!("S 1 {} {} {} {} {}", hd, hm, ty.code(), en.code(), code),
        5 => format!("S 1 {} {} {}", bad_text, hm, codes),
        6 => format!("S 1 {} {} {}", hd, bad_text, codes),
        7 => "N 2 0 !".to_string(),
        8 => format!("N 2 0 {}", dir.display()),
        9 => format!("N 2 0 {}/x/{}", a.display(), path.display()),
        10 => format!("W 9 {} {} {} 1", hd, hm, t + 1),
        11 => format!("W 1 ! {} {} 1", hm, t + 1),
        12 => format!("W 1 {} ! {} 1", hd, t + 1),
        13 => format!("W 1 {} {} {} 1", bad_text, hm, t + 1),
        14 => format!("W 1 {} {} {} 1", hd.replace('x', "x6e"), hm, t + 1),
        15 => format!("W 1 {} {}7a {} 1", hd, hm, t + 1),
        16 => format!("W 1 {} {} {} 1", hd, hm, -1 - r.range(0, 5)),
        17 => format!("W 1 {} {} {} 1", hd, hm, t),
        18 => format!("W 1 {} {} {} 1", hd, hm, t - 1 - r.range(0, 2)),
        _ => format!("W 1 {} {} {} 1", hd, hm, t + 1),
    });
    text.push_str("\nC 1\n");
    let file = dir.join("script.txt");
    std::fs::write(&file, &text).unwrap();
    let mut c = Command::new(env("TSV_C17_C"));
    c.arg(&file).current_dir(&dir);
    let o = command(c, 60);
    let done = o.out.contains("done ");
    let reached = o.out.contains("begin 1\n");
    let got = std::fs::read(&a).unwrap_or_default();
    let want = run(&spec, &ops).bytes;
    let _ = std::fs::remove_dir_all(&dir);
    let replay = format!("only refused:{}\n{}", k, text);
    if o.timeout {
        rep.problem("a C program did not end");
    } else if !reached {
        rep.violation("", &format!("a C program ends with {:?} (signal {:?}) before {}\n{}", o.code, o.signal, REFUSED[what], head(&o.err)), &replay);
    } else if done || o.code == Some(0) {
        rep.violation("", &format!("{} is ignored: the C program goes on", REFUSED[what]), &replay);
    } else if matches!(o.signal, Some(7) | Some(11)) {
        rep.violation("", &format!("{} ends with signal {:?} instead of an orderly abort\n{}", REFUSED[what], o.signal, head(&o.err)), &replay);
    } else if got != want {
        rep.violation("", &format!("{}: the file closed before has {} bytes, {} expected", REFUSED[what], got.len(), want.len()), &replay);
    } else {
        rep.metric("calls_that_end_the_process", 1);
        rep.eval(Some(mix(170 + what as u64, k)));
    }
}

pub fn parallel(rep: &Report, stage: &str, n: usize, f: &(dyn Fn(usize) + Sync)) {
    let _ = stage;
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads() {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if i >= n || rep.stopped() {
                    break;
                }
                f(i);
            });
        }
    });
}

// ------------------------------------------------------------------ C22

const TARGETS: [(&str, &str); 3] = [
    ("x86_64-unknown-linux-gnu", "x86-64"),
    ("i686-unknown-linux-gnu", "32-bit little-endian"),
    ("s390x-unknown-linux-gnu", "64-bit big-endian"),
];

/// case -> digest, length, points; the panics
type Digests = std::collections::BTreeMap<u64, (String, u64, u64)>;

struct Digested {
    cases: Digests,
    panics: Vec<(u64, String)>,
    last: Option<u64>,
    done: bool,
    out: Out,
}

fn digested(o: Out) -> Digested {
    let mut d = Digested {
        cases: Digests::new(),
        panics: vec![],
        last: None,
        done: false,
        out: o,
    };
    for l in d.out.out.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "begin" => d.last = w[1].parse().ok(),
            "panic" => d.panics.push((d.last.unwrap_or(0), l.to_string())),
            "case" if w.len() == 5 => {
                d.cases.insert(w[1].parse().unwrap_or(0), (w[2].to_string(), w[3].parse().unwrap_or(0), w[4].parse().unwrap_or(0)));
            }
            "done" => d.done = true,
            _ => {}
        }
    }
    d
}

fn job_dir(tag: &str) -> String {
    let dir = scratch().join(tag);
    let _ = std::fs::create_dir_all(&dir);
    dir.to_str().unwrap().to_string()
}

/// cargo miri run for a target
fn miri(target: &str, flags: &str) -> Command {
    let mut c = Command::new("cargo");
    c.args(["+nightly", "miri", "run", "-q", "--offline", "--bin", "c22", "--target", target, "--manifest-path"])
        .arg(format!("{}/c22/Cargo.toml", crate::report::verif_dir()))
        .arg("--target-dir")
        .arg(format!("{}-{}", env("TSV_C22_MIRI"), target))
        .arg("--")
        .env("MIRIFLAGS", format!("-Zmiri-disable-isolation {}", flags));
    if target != TARGETS[0].0 {
        c.env("XDG_CACHE_HOME", format!("{}-{}", env("TSV_C22_SYSROOT"), target));
    }
    c
}

fn digest_args(c: &mut Command, rep: &Report, from: u64, to: u64, step: u64, dir: &str) {
    c.args(["digests", &rep.seed.to_string(), &from.to_string(), &to.to_string(), &step.to_string(), dir]);
}

struct Job22 {
    target: usize,
    from: u64,
    to: u64,
    step: u64,
    flags: &'static str,
}

const LIGHT: &str = "-Zmiri-disable-stacked-borrows -Zmiri-disable-validation";

fn c22_native(rep: &Report, from: u64, to: u64) -> Option<Digests> {
    let mut all: Vec<Digests> = vec![];
    for (what, bin) in [("the release build", env("TSV_C22")), ("the build with overflow checks", env("TSV_C22_CHECKED"))] {
        let dir = job_dir(&format!("n{}-{}", from, all.len()));
        let mut c = Command::new(bin);
        digest_args(&mut c, rep, from, to, 1, &dir);
        let d = digested(command(c, 400));
        let _ = std::fs::remove_dir_all(&dir);
        if let Some((k, l)) = d.panics.first() {
            rep.violation("", &format!("{}: history {} panics: {}", what, k, l), &format!("only digests:{}", k));
            return None;
        }
        if !d.done || d.out.code != Some(0) {
            match d.last {
                Some(k) if !d.out.timeout => rep.violation("", &format!("{}: history {} ends the process with {:?}\n{}", what, k, d.out.code, head(&d.out.err)), &format!("only digests:{}", k)),
                _ => rep.problem(format!("{} could not run: {}", what, tail(&d.out.err, 5))),
            }
            return None;
        }
        all.push(d.cases);
    }
    let b = all.pop().unwrap();
    let a = all.pop().unwrap();
    for (k, v) in &a {
        if b.get(k) != Some(v) {
            rep.violation(
                "",
                &format!("history {}: the release build writes {:?} (digest, bytes, accepted calls), the build with overflow checks {:?}", k, v, b.get(k)),
                &format!("only digests:{}", k),
            );
            return None;
        }
    }
    rep.metric("histories_compared_between_builds", a.len() as u64);
    Some(a)
}

fn c22_run(rep: &Report, j: &Job22, native: &Digests, tag: usize) {
    let (t, what) = TARGETS[j.target];
    let dir = job_dir(&format!("m{}", tag));
    let mut c = miri(t, j.flags);
    digest_args(&mut c, rep, j.from, j.to, j.step, &dir);
    let secs = if rep.thorough { 3000 } else { 800 };
    let d = digested(command(c, secs));
    let _ = std::fs::remove_dir_all(&dir);
    if let Some((k, l)) = d.panics.first() {
        rep.violation("", &format!("{}: history {} panics: {}", what, k, l), &format!("only digests:{}", k));
        return;
    }
    for (k, v) in &d.cases {
        if native.get(k) != Some(v) {
            rep.violation(
                "",
                &format!("history {}: a {} platform writes {:?} (digest, bytes, accepted calls), x86-64 {:?}", k, what, v, native.get(k)),
                &format!("only digests:{}", k),
            );
            return;
        }
        rep.metric(
            match j.target {
                0 => "histories_interpreted_for_x86_64",
                1 => "histories_interpreted_for_32_bit",
                _ => "histories_interpreted_for_big_endian",
            },
            1,
        );
        rep.metric("bytes_compared", v.1);
        rep.eval(if v.2 > 1 { Some(mix(*k, j.target as u64)) } else { None });
        if *k % 17 == 4 {
            rep.sample(format!("{}: history {}: digest {} of {} bytes after {} accepted calls", what, k, v.0, v.1, v.2));
        }
    }
    if !d.done || d.out.code != Some(0) {
        match d.last {
            Some(k) if !d.out.timeout => rep.violation(
                "",
                &format!("{}: Miri stops history {} with {:?}\n{}", what, k, d.out.code, head(&d.out.err)),
                &format!("only digests:{}", k),
            ),
            Some(k) => rep.problem(format!("{}: history {} took more than {} s", what, k, secs)),
            None => rep.problem(format!("Miri for {} could not run: {}", t, tail(&d.out.err, 5))),
        }
    }
}

pub fn c22(rep: &Report) {
    rep.rule("generated histories (index trees of several levels, several pages and chunk groups, all types, encodings and compressions, extreme times and values, rejected calls), written natively in a release build and in a build with overflow checks and by the Miri interpreter for x86-64, for a 32-bit little-endian and for a 64-bit big-endian target; a digest of the answers and of the file's bytes must be the same everywhere, and Miri must see no undefined behaviour; non-trivial: a history with accepted points, per target");
    rep.assume("Miri executes the code for the other platforms as their hardware would");
    let mut jobs: Vec<Job22> = vec![];
    let (from, to);
    if let Some(k) = only_index("digests") {
        from = k;
        to = k + 1;
        for target in 0..3 {
            jobs.push(Job22 { target, from: k, to: k + 1, step: 1, flags: "" });
        }
    } else if std::env::var("TSV_ONLY").is_ok() {
        return;
    } else {
        from = 0;
        to = if rep.thorough { 4000 } else { 1500 };
        for k in [2, 1, 0] {
            for target in [2, 1] {
                if k == 2 && target == 1 && !rep.thorough {
                    continue;
                }
                jobs.push(Job22 { target, from: k, to: k + 1, step: 1, flags: LIGHT });
            }
        }
        let f = if rep.thorough { 12 } else { 1 };
        for p in 0..4 * f {
            jobs.push(Job22 { target: 2, from: 3 + p, to: 3 + 16 * f, step: 4 * f, flags: "" });
            jobs.push(Job22 { target: 1, from: 3 + p, to: 3 + 16 * f, step: 4 * f, flags: "" });
        }
        for p in 0..4 * f {
            jobs.push(Job22 { target: 0, from: 300 + p, to: 300 + 12 * f, step: 4 * f, flags: "" });
        }
        if rep.thorough {
            for k in [2, 1, 0] {
                jobs.push(Job22 { target: 0, from: k, to: k + 1, step: 1, flags: "" });
            }
        }
    }
    let native = std::sync::Mutex::new(Digests::new());
    let per = (to - from).div_ceil(8).max(1);
    parallel(rep, "native", 8, &|i| {
        let a = from + i as u64 * per;
        let b = (a + per).min(to);
        if a < b {
            if let Some(d) = c22_native(rep, a, b) {
                native.lock().unwrap().extend(d);
            }
        }
    });
    if rep.stopped() {
        return;
    }
    let native = native.into_inner().unwrap();
    parallel(rep, "interpreted", jobs.len(), &|i| c22_run(rep, &jobs[i], &native, i));
}

// ------------------------------------------------------------------ C23

struct Job23 {
    tool: &'static str,
    from: u64,
    rounds: u64,
    threads: u64,
    miri_seed: u64,
}

fn c23_run(rep: &Report, j: &Job23, tag: usize) {
    let dir = job_dir(&format!("t{}", tag));
    let small = j.tool == "Miri";
    let mut c;
    match j.tool {
        "Miri" => {
            c = miri(TARGETS[0].0, &format!("-Zmiri-seed={} -Zmiri-preemption-rate=0.05", j.miri_seed));
        }
        "ThreadSanitizer" => {
            c = Command::new(env("TSV_C23_TSAN"));
            c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66");
        }
        _ => c = Command::new(env("TSV_C22")),
    }
    c.args([
        "threads",
        &rep.seed.to_string(),
        &j.from.to_string(),
        &j.rounds.to_string(),
        &j.threads.to_string(),
        &dir,
        if small { "1" } else { "0" },
    ]);
    let o = command(c, 700);
    let _ = std::fs::remove_dir_all(&dir);
    let last: Option<u64> = o.out.lines().filter_map(|l| l.strip_prefix("begin ")?.parse().ok()).last();
    let wrong: Vec<&str> = o.out.lines().filter(|l| l.starts_with("wrong ")).collect();
    let replay = |k: u64| format!("only {}:{}", if small { "small" } else { "threads" }, k);
    if let Some(w) = wrong.first() {
        let k = w.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
        rep.violation(
            "",
            &format!("{}: {} of the histories of round {} gave another file than alone: {}", j.tool, wrong.iter().filter(|x| x.starts_with(&format!("wrong {} ", k))).count(), k, w),
            &replay(k),
        );
        return;
    }
    if o.code != Some(0) || !o.out.contains("done") {
        match last {
            Some(k) if !o.timeout => rep.violation("", &format!("{}: round {} ends with {:?}\n{}", j.tool, k, o.code, head(&o.err)), &replay(k)),
            Some(k) => rep.problem(format!("{}: round {} did not finish", j.tool, k)),
            None => rep.problem(format!("{} could not run: {}", j.tool, tail(&o.err, 5))),
        }
        return;
    }
    for l in o.out.lines().filter(|l| l.starts_with("round ")) {
        let w: Vec<u64> = l.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
        if w.len() == 3 {
            rep.metric("histories_compared_with_a_run_alone", w[1]);
            rep.metric("calls", w[2]);
            rep.eval(if w[1] > 1 { Some(mix(w[0], mix(j.miri_seed, small as u64))) } else { None });
        }
    }
    rep.sample(format!("{}: rounds {}..{} of {} threads", j.tool, j.from, j.from + j.rounds, j.threads));
    rep.metric(
        match j.tool {
            "Miri" => "rounds_under_Miri",
            "ThreadSanitizer" => "rounds_under_ThreadSanitizer",
            _ => "rounds_at_full_speed",
        },
        j.rounds,
    );
}

/// Writers that reach the real threshold, on threads and in turns
fn c23_large(rep: &Report) {
    use crate::bulk::*;
    let st = |label, devices, ty, en| Stream {
        label,
        devices,
        per: 2,
        kinds: vec![(ty, en, Co::None)],
        content: Content::Full,
        gap: 12,
        points: 13_000_000,
        disorder: 0,
        batch: 0,
        keep: false,
    };
    let streams = [
        st("a", 1, Ty::I64, En::Plain),
        st("b", 2, Ty::I64, En::Diff),
        st("c", 1, Ty::F32, En::Plain),
    ];
    let hash = |b: &[u8]| {
        let mut h = b.len() as u64;
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            h = mix(h, u64::from_le_bytes(w));
        }
        h
    };
    let alone: Vec<(u64, usize)> = streams
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let o = run_stream(s, rep.seed + i as u64, &mut |_| {});
            (hash(&o.bytes), o.growth.len())
        })
        .collect();
    let together: Vec<u64> = std::thread::scope(|sc| {
        let hs: Vec<_> = streams
            .iter()
            .enumerate()
            .chain(streams.iter().enumerate())
            .map(|(i, s)| sc.spawn(move || hash(&run_stream(s, rep.seed + i as u64, &mut |_| {}).bytes)))
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
    });
    for (i, h) in together.iter().enumerate() {
        let n = i % streams.len();
        rep.metric("large_files_compared", 1);
        rep.metric("flushes_of_large_files", alone[n].1 as u64);
        if *h != alone[n].0 {
            rep.violation("", &format!("a writer of more than 128 MiB gives another file when {} others work at the same time (stream {})", together.len() - 1, streams[n].label), "only large:0");
            return;
        }
    }
    // two writers in turns on one thread
    let spec = streams[0].spec();
    let series: Vec<(Name, Name)> = spec.devices.iter().flat_map(|(d, ms)| ms.iter().map(|m| (*d, m.name))).collect();
    let turns = |n: usize| -> Vec<u64> {
        let mut ws: Vec<(Name, W)> = (0..n)
            .map(|i| {
                let p = thread_file(&format!("turn{}", i));
                (p, open(p, &spec).ok().expect("writer"))
            })
            .collect();
        let mut r = Rng::new(rep.seed, 23);
        for k in 0..10_000_000i64 {
            let v = r.u64() as i64;
            for w in ws.iter_mut() {
                let (d, m) = series[(k % 2) as usize];
                let _ = w.1.write(d, m, k, val(Val::L(v)));
            }
        }
        ws.into_iter()
            .map(|(p, mut w)| {
                let _ = w.close();
                drop(w);
                let h = hash(&std::fs::read(p).unwrap_or_default());
                let _ = std::fs::remove_file(p);
                h
            })
            .collect()
    };
    let one = turns(1);
    for h in turns(2) {
        rep.metric("large_files_compared", 1);
        if h != one[0] {
            rep.violation("", "two writers of more than 128 MiB whose calls take turns on one thread give another file than one alone", "only large:0");
            return;
        }
    }
    rep.eval(Some(23));
}

pub fn c23(rep: &Report) {
    rep.rule("up to eight threads with four writers each: on half of the threads the calls of the four take turns in random order, on the others they follow each other; each file is compared with that of the same history run alone. The same program runs at full speed, under ThreadSanitizer (with an instrumented standard library) and, with smaller histories and several schedules, under Miri's data race detector. Large writers which reach the real flush threshold are compared likewise; non-trivial: a round with more than one writer");
    let f = if rep.thorough { 10 } else { 1 };
    let only = std::env::var("TSV_ONLY").is_ok();
    let mut jobs = vec![];
    if let Some(k) = only_index("threads") {
        for tool in ["native", "ThreadSanitizer"] {
            jobs.push(Job23 { tool, from: k, rounds: 1, threads: 8, miri_seed: 0 });
        }
    } else if let Some(k) = only_index("small") {
        for s in 0..8 {
            jobs.push(Job23 { tool: "Miri", from: k, rounds: 1, threads: 3, miri_seed: s });
        }
    } else if !only {
        for p in 0..4 * f {
            jobs.push(Job23 { tool: "ThreadSanitizer", from: 1000 + p * 6, rounds: 6, threads: 8, miri_seed: 0 });
        }
        for p in 0..5 * f {
            jobs.push(Job23 { tool: "Miri", from: 5000 + p * 2, rounds: 2, threads: 3, miri_seed: p });
        }
        for p in 0..4 * f {
            jobs.push(Job23 { tool: "native", from: p * 60, rounds: 60, threads: 8, miri_seed: 0 });
        }
    }
    parallel(rep, "threads", jobs.len(), &|i| c23_run(rep, &jobs[i], i));
    if !rep.stopped() && (!only || only_index("large").is_some()) {
        c23_large(rep);
    }
}

// ------------------------------------------------------------------ C24

const WRONG: [&str; 17] = [
    "value-high", "value-low", "value-huge", "value-float", "value-text", "value-none", "time-high", "time-huge", "time-low", "time-float",
    "time-text", "time-none", "name-surrogate", "name-number", "write-closed", "close-closed", "exit-closed",
];

struct PyScript {
    script: Script,
    raises: u64,
}

/// Like the scripts of C17, with the lifetimes Python has: the library may
/// refer to a name for as long as a writer lives, whatever became of the schema
fn c24_script(seed: u64, k: u64, dir: &str, small: bool) -> PyScript {
    let mut r = Rng::new(seed, 24_000_000 + k);
    struct Sc {
        d: &'static str,
        m: Meas,
        freed: bool,
        gone: bool,
        context: bool,
    }
    struct Wr {
        s: usize,
        open: bool,
        gone: bool,
        context: bool,
        t: gen::TGen,
        v: gen::VGen,
        file: usize,
        last: i64,
    }
    let mut o = Script { text: format!("= {}\n", k), files: vec![], calls: 0 };
    let mut raises = 0;
    let (mut ss, mut ws): (Vec<Sc>, Vec<Wr>) = (vec![], vec![]);
    let steps = 4 + r.usize(if small { 25 } else { 60 });
    let nm = |r: &mut Rng| loop {
        let c = gen::class(r);
        let s = gen::ident(r, c).replace('\0', "_");
        if s.len() < 9000 {
            return name(&s);
        }
    };
    let mut end = false;
    for step in 0..steps + 200 {
        // at the end whatever is open is closed
        if step >= steps {
            end = true;
            if ws.iter().all(|w| !w.open) {
                break;
            }
        }
        let open: Vec<usize> = (0..ws.len()).filter(|i| ws[*i].open).collect();
        let closed: Vec<usize> = (0..ws.len()).filter(|i| !ws[*i].open && !ws[*i].gone).collect();
        let usable: Vec<usize> = (0..ss.len()).filter(|i| !ss[*i].freed && !ss[*i].gone).collect();
        let freed: Vec<usize> = (0..ss.len()).filter(|i| ss[*i].freed && !ss[*i].gone).collect();
        let what = if end { 9 } else { r.below(20) };
        o.calls += 1;
        match what {
            0..=2 if ss.len() < 30 => {
                let ty = *r.pick(&[Ty::I32, Ty::I32, Ty::I32, Ty::I32, Ty::I32, Ty::I64, Ty::F32]);
                let en = if ty == Ty::F32 { En::Plain } else { *r.pick(&[En::Plain, En::Diff]) };
                let co = *r.pick(&[Co::None, Co::Snappy]);
                let (d, m) = (nm(&mut r), nm(&mut r));
                let i = ss.len();
                o.text.push_str(&format!(
                    "S {} {} {} {} {} {}\n",
                    i,
                    hexname(d),
                    hexname(m),
                    match ty { Ty::I32 => "INT32", Ty::I64 => "INT64", _ => "FLOAT" },
                    if en == En::Plain { "PLAIN" } else { "TS2DIFF" },
                    if co == Co::None { "UNCOMPRESSED" } else { "SNAPPY" },
                ));
                let context = r.chance(1, 3);
                if context {
                    o.text.push_str(&format!("+ s {}\n", i));
                }
                ss.push(Sc { d, m: Meas { name: m, ty, en, co }, freed: false, gone: false, context });
            }
            3..=5 if ws.len() < 30 && !usable.is_empty() => {
                let s = *r.pick(&usable);
                let i = ws.len();
                let p = format!("{}/{}-{}.tsfile", dir, k, i);
                o.text.push_str(&format!("N {} {} {}\n", i, s, p));
                let context = r.chance(1, 3);
                if context {
                    o.text.push_str(&format!("+ w {}\n", i));
                }
                let mut spec = Spec::default();
                spec.devices.push((ss[s].d, vec![ss[s].m.clone()]));
                let t = gen::TGen::new(&mut r);
                let v = gen::VGen::new(&mut r, ss[s].m.ty);
                o.files.push((p, spec, vec![]));
                ws.push(Wr { s, open: true, gone: false, context, t, v, file: o.files.len() - 1, last: 0 });
            }
            6 if !usable.is_empty() => {
                let s = *r.pick(&usable);
                ss[s].freed = true;
                o.text.push_str(&if ss[s].context { format!("- s {}\n", s) } else { format!("F {}\n", s) });
            }
            7 => {
                let c: Vec<usize> = (0..ss.len()).filter(|i| !ss[*i].gone).collect();
                if !c.is_empty() {
                    let s = *r.pick(&c);
                    ss[s].gone = true;
                    o.text.push_str(&format!("X {}\n", s));
                }
            }
            8 if !closed.is_empty() => {
                let w = *r.pick(&closed);
                ws[w].gone = true;
                o.text.push_str(&format!("Y {}\n", w));
            }
            9 if !open.is_empty() => {
                let w = *r.pick(&open);
                ws[w].open = false;
                o.text.push_str(&if ws[w].context { format!("- w {}\n", w) } else { format!("C {}\n", w) });
                o.files[ws[w].file].2.push(Op::Close);
            }
            10..=11 => {
                raises += 1;
                if r.chance(1, 5) && !freed.is_empty() {
                    let s = *r.pick(&freed);
                    o.text.push_str(&if r.chance(1, 2) { format!("Z free-freed {}\n", s) } else { format!("Z writer-freed {} {}/never.tsfile\n", s, dir) });
                } else if r.chance(1, 6) {
                    o.text.push_str(&format!("Z {} 0\n", r.pick(&["type-wide", "encoding-wide", "compression-wide"])));
                } else {
                    let x = r.usize(WRONG.len());
                    // the last three are about closed writers
                    let c: Vec<usize> = if x >= 14 { closed } else { open.into_iter().filter(|i| ss[ws[*i].s].m.ty == Ty::I32).collect() };
                    if c.is_empty() {
                        raises -= 1;
                        continue;
                    }
                    let w = *r.pick(&c);
                    let s = &ss[ws[w].s];
                    o.text.push_str(&format!("Z {} {} {} {} {}\n", WRONG[x], w, hexname(s.d), hexname(s.m.name), ws[w].last.saturating_add(1)));
                }
            }
            _ => {
                let c: Vec<usize> = open.into_iter().filter(|i| ss[ws[*i].s].m.ty == Ty::I32).collect();
                if c.is_empty() {
                    continue;
                }
                let w = *r.pick(&c);
                let n = 1 + r.usize(if small { 20 } else if k % 16 == 5 { 4000 } else { 150 });
                for _ in 0..n {
                    let x = &mut ws[w];
                    let (d, m) = (ss[x.s].d, ss[x.s].m.name);
                    let (t, v) = match (x.t.next(&mut r), x.v.next(&mut r)) {
                        (Some(t), Val::I(v)) => (t, v),
                        _ => break,
                    };
                    x.last = t;
                    o.calls += 1;
                    o.text.push_str(&format!("W {} {} {} {} {}\n", w, hexname(d), hexname(m), t, v));
                    o.files[x.file].2.push(Op::Write(d, m, t, Val::I(v)));
                }
            }
        }
    }
    PyScript { script: o, raises }
}

fn c24_run(rep: &Report, first: u64, n: u64, small: bool, tag: usize) {
    let dir = scratch().join(format!("c24-{}", tag));
    let _ = std::fs::remove_dir_all(&dir);
    // the layout in which the wrapper looks for the library
    let wrapper = dir.join("tsfile-writer-c");
    let lib = dir.join("target").join("release");
    let files = dir.join("files");
    for d in [&wrapper, &lib, &files] {
        let _ = std::fs::create_dir_all(d);
    }
    let mut found = false;
    if let Ok(l) = std::fs::read_dir("/repo/tsfile-writer-c") {
        for e in l.flatten() {
            if e.path().extension().map_or(false, |x| x == "py") {
                found |= std::fs::copy(e.path(), wrapper.join(e.file_name())).is_ok();
            }
        }
    }
    if !found {
        rep.problem("the wrapper cannot be copied");
        return;
    }
    let _ = std::os::unix::fs::symlink(env("TSV_C24_LIB"), lib.join("libtsfile_writer_c.so"));
    let ds = files.to_str().unwrap().to_string();
    let scripts: Vec<(u64, PyScript)> = (first..first + n).map(|k| (k, c24_script(rep.seed, k, &ds, small))).collect();
    let file = dir.join("script.txt");
    std::fs::write(&file, scripts.iter().map(|s| s.1.script.text.as_str()).collect::<String>()).unwrap();
    let mut c;
    if small {
        c = Command::new("valgrind");
        c.args(["-q", "--error-exitcode=99", "--undef-value-errors=no", "--leak-check=no"]).arg(env("TSV_PYTHON")).env("PYTHONMALLOC", "malloc");
    } else {
        c = Command::new(env("TSV_PYTHON"));
        // freed memory is overwritten
        c.env("PYTHONMALLOC", "debug").env("MALLOC_PERTURB_", "165");
    }
    c.arg(format!("{}/c24/driver.py", crate::report::verif_dir())).arg(&file).current_dir(&wrapper);
    c.env("PYTHONDONTWRITEBYTECODE", "1").env("PYTHONIOENCODING", "utf-8").env_remove("PYTHONPATH");
    let secs = if small { 500 } else { 250 };
    let o = command(c, secs);
    let began: Vec<u64> = o.out.lines().filter_map(|l| l.strip_prefix("begin ")?.parse().ok()).collect();
    let last = *began.last().unwrap_or(&first);
    let stage = if small { "small" } else { "seq" };
    let bad = |k: u64, t: String| {
        let text = scripts.iter().find(|s| s.0 == k).map_or("", |s| &s.1.script.text);
        rep.violation("", &t, &format!("only {}:{}\n{}", stage, k, text));
    };
    if o.code != Some(0) || !o.out.contains("done ") {
        if o.timeout {
            rep.problem(format!("Python did not finish in {} s", secs));
        } else if began.is_empty() && !o.err.contains("wrapper") && !o.err.contains("rust.py") {
            rep.problem(format!("Python could not run: {}", tail(&o.err, 8)));
        } else if began.is_empty() {
            bad(first, format!("the wrapper cannot be loaded: {}\n{}", tail(&o.err, 1), tail(&o.err, 8)));
        } else {
            bad(last, format!("script {}: Python ends with code {:?} signal {:?}: {}\n{}", last, o.code, o.signal, tail(&o.err, 1), if small { head(&o.err) } else { tail(&o.err, 12) }));
        }
        let _ = std::fs::remove_dir_all(&dir);
        return;
    }
    let mut at = first;
    for l in o.out.lines() {
        if let Some(k) = l.strip_prefix("begin ") {
            at = k.parse().unwrap_or(at);
        }
        if let Some(w) = l.strip_prefix("ignored ") {
            bad(at, format!("script {}: {} raises nothing", at, w));
            let _ = std::fs::remove_dir_all(&dir);
            return;
        }
    }
    let raised = o.out.lines().filter(|l| l.starts_with("raised ")).count() as u64;
    let expected: u64 = scripts.iter().map(|s| s.1.raises).sum();
    if raised != expected {
        rep.problem(format!("{} of {} wrong uses were tried", raised, expected));
    }
    rep.metric("wrong_uses_that_raised", raised);
    for (k, s) in &scripts {
        for (p, spec, ops) in &s.script.files {
            let got = std::fs::read(p).unwrap_or_default();
            let want = run(spec, ops).bytes;
            rep.metric("files_compared", 1);
            rep.metric("points", ops.len() as u64 - 1);
            if got != want {
                bad(*k, format!("script {}: the file written through the Python wrapper has {} bytes and differs from the {} bytes of the Rust interface", k, got.len(), want.len()));
                let _ = std::fs::remove_dir_all(&dir);
                return;
            }
        }
        rep.metric("calls", s.script.calls);
        rep.eval(if s.script.files.is_empty() { None } else { Some(mix(*k, s.script.calls)) });
        if k % 40 == 3 {
            rep.sample(format!("{}", s.script.text.lines().take(12).map(|l| l.chars().take(60).collect::<String>()).collect::<Vec<_>>().join("; ")));
        }
    }
    if files.join("never.tsfile").exists() {
        bad(last, "a writer on a freed schema raises but leaves a file".into());
    }
    rep.metric(if small { "scripts_under_memcheck" } else { "scripts_with_freed_memory_overwritten" }, n);
    let _ = std::fs::remove_dir_all(&dir);
}

pub fn c24(rep: &Report) {
    rep.rule("random sequences of uses of the Python classes over several schemas and writers, with contexts, objects that go away as early as Python allows, and uses that have to raise; Python overwrites freed memory and memory is reused between the uses, some sequences run under valgrind memcheck; the files are compared with those of the Rust interface; non-trivial: a sequence that creates a writer");
    rep.assume("a write the library refuses ends the process by design of the C interface and is not part of the sequences");
    let f = if rep.thorough { 10 } else { 1 };
    let mut runs: Vec<(u64, u64, bool)> = vec![];
    if let Some(k) = only_index("seq") {
        runs.push((k, 1, false));
    } else if let Some(k) = only_index("small") {
        runs.push((k, 1, true));
    } else if std::env::var("TSV_ONLY").is_err() {
        runs.extend((0..6 * f).map(|p| (100_000 + p * 20, 20, true)));
        runs.extend((0..24 * f).map(|p| (p * 60, 60, false)));
    }
    parallel(rep, "scripts", runs.len(), &|i| c24_run(rep, runs[i].0, runs[i].1, runs[i].2, i));
}
