//! Writes generated histories and prints a digest of each file: run natively
//! and under Miri for other platforms, and with several writers at a time
#![allow(dead_code)]
#[path = "../../harness/src/exec.rs"]
mod exec;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/model.rs"]
mod model;
#[path = "../../harness/src/rng.rs"]
mod rng;

use model::*;
use rng::Rng;

fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

fn extremes(r: &mut Rng) -> Case {
    // one or two series with few points far apart
    let mut c = gen::tiny(r, 0);
    c.family = "extremes";
    c.ops.retain(|o| matches!(o, Op::Close));
    let spec = c.spec.clone();
    let mut ops = vec![];
    for (d, ms) in &spec.devices {
        for m in ms.iter().take(3) {
            if m.ty == Ty::F32 && m.en == En::Diff {
                continue;
            }
            let mut v = gen::VGen::new(r, m.ty);
            let mut t = -1i64;
            for k in 0..4 + r.below(140) {
                t = t.saturating_add(1 + r.small(if k % 7 == 0 { 1 << 58 } else { 1 << 20 }) as i64);
                ops.push(Op::Write(d, m.name, t, v.next(r)));
                if t == i64::MAX {
                    break;
                }
            }
        }
    }
    ops.push(Op::Close);
    c.ops = ops;
    c
}

pub fn case(seed: u64, k: u64) -> Case {
    let mut c = any(seed, k);
    no_nan_sums(&mut c);
    c
}

fn any(seed: u64, k: u64) -> Case {
    let mut r = Rng::new(seed, 22_000_000 + k);
    match k {
        // the sizes that matter, once each
        0 => gen::grid(1, 257, "grid"),
        1 => gen::grid(260, 1, "grid"),
        2 => {
            // more than one page
            let mut c = gen::grid(1, 1, "pages");
            let (d, m) = (c.spec.devices[0].0, c.spec.devices[0].1[0]);
            let mut v = gen::VGen::new(&mut r, m.ty);
            c.ops = (0..9000).map(|i| Op::Write(d, m.name, i * 3 + (i % 7), v.next(&mut r))).collect();
            c.ops.push(Op::Close);
            c
        }
        _ => match k % 5 {
            0 => gen::empty(&mut r),
            1 => extremes(&mut r),
            2 => {
                let mut c = gen::chunks(&mut r, 0);
                let n = c.ops.len().min(250);
                c.ops.truncate(n);
                c.ops.push(Op::Close);
                c
            }
            _ => gen::tiny(&mut r, if k % 2 == 0 { 60 } else { 0 }),
        },
    }
}

/// Takes out the values that make a sum NaN: which NaN arithmetic gives is
/// up to the platform
fn no_nan_sums(c: &mut Case) {
    let mut sums: std::collections::HashMap<(Name, Name), f64> = Default::default();
    let mut fix = |d: Name, m: Name, v: &mut Val| {
        let x = match *v {
            Val::F(b) => f32::from_bits(b) as f64,
            Val::D(b) => f64::from_bits(b),
            _ => return,
        };
        let s = sums.entry((d, m)).or_insert(0.0);
        if (*s + x).is_nan() || (x.is_finite() && x.abs() > 1e300) {
            *v = match *v {
                Val::F(_) => Val::F(1.5f32.to_bits()),
                _ => Val::D((-2.75f64).to_bits()),
            };
        } else {
            *s += x;
        }
    };
    for o in c.ops.iter_mut() {
        match o {
            Op::Write(d, m, _, v) => fix(d, m, v),
            Op::Batch(d, _, l) => {
                for (m, v) in l.iter_mut() {
                    fix(d, m, v);
                }
            }
            _ => {}
        }
    }
}

/// What a history did: the answers and the file
fn result(c: &Case, path: Name) -> (u64, usize, usize) {
    let x = exec::run_at(path, &c.spec, &c.ops, false);
    let mut h = digest(&x.bytes);
    let mut points = 0;
    for r in &x.results {
        let k = match r {
            exec::Res::Ok => {
                points += 1;
                1
            }
            exec::Res::Err(k, _) => 2 + *k as u64,
            exec::Res::Panic(m) => {
                println!("panic {}", m);
                100
            }
        };
        h = h.rotate_left(7).wrapping_add(k).wrapping_mul(0x9E3779B97F4A7C15);
    }
    if let exec::Res::Panic(m) = &x.open {
        println!("panic {}", m);
    }
    (h, x.bytes.len(), points)
}

/// Several writers whose calls take turns on this thread
fn interleaved(cs: &[Case], r: &mut Rng, dir: &str) -> Vec<Vec<u8>> {
    let paths: Vec<Name> = (0..cs.len()).map(|i| name(&format!("{}/i{}-{:?}.tsfile", dir, i, std::thread::current().id()))).collect();
    let mut ws: Vec<(exec::W, usize, bool)> = vec![];
    for (c, p) in cs.iter().zip(&paths) {
        ws.push((exec::open(p, &c.spec).ok().expect("writer"), 0, false));
    }
    loop {
        let live: Vec<usize> = (0..cs.len()).filter(|i| ws[*i].1 < cs[*i].ops.len()).collect();
        if live.is_empty() {
            break;
        }
        let i = *r.pick(&live);
        let w = &mut ws[i];
        exec::step(&mut w.0, &cs[i].ops[w.1], &mut w.2);
        w.1 += 1;
    }
    drop(ws);
    paths
        .iter()
        .map(|p| {
            let b = std::fs::read(p).unwrap_or_default();
            let _ = std::fs::remove_file(p);
            b
        })
        .collect()
}

fn shared(seed: u64, k: u64, small: bool) -> Case {
    let mut r = Rng::new(seed, 23_000_000 + k);
    let mut c = match k % 4 {
        0 if !small => gen::mixed(&mut r, 40),
        1 if !small && k % 16 == 1 => gen::pages(&mut r),
        2 if !small && k % 8 == 2 => gen::chunks(&mut r, 20),
        2 if !small => gen::blocks(&mut r),
        _ => gen::tiny(&mut r, 60),
    };
    if small {
        c.ops.truncate(40);
        // Miri gives another NaN each time
        no_nan_sums(&mut c);
    }
    if !c.ops.contains(&Op::Close) {
        c.ops.push(Op::Close);
    }
    c
}

fn single_bytes(c: &Case, dir: &str, tag: &str) -> Vec<u8> {
    let p = name(&format!("{}/s-{}-{:?}.tsfile", dir, tag, std::thread::current().id()));
    exec::run_at(p, &c.spec, &c.ops, false).bytes
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    exec::install_hook();
    match a[1].as_str() {
        // digests <seed> <from> <to> <step> <dir>
        "digests" => {
            let mut k = n(3);
            while k < n(4) {
                let c = case(n(2), k);
                println!("begin {}", k);
                let p = name(&format!("{}/{}.tsfile", a[6], k));
                let (h, len, points) = result(&c, p);
                println!("case {} {:016x} {} {}", k, h, len, points);
                k += n(5);
            }
            println!("done");
        }
        // threads <seed> <from> <rounds> <threads> <dir> <small>
        "threads" => {
            let (seed, from, rounds, th) = (n(2), n(3), n(4), n(5));
            let small = a[7] == "1";
            let dir = &a[6];
            let mut bad = 0;
            for round in from..from + rounds {
                println!("begin {}", round);
                let cases: Vec<Vec<Case>> = (0..th)
                    .map(|t| (0..if small { 2 } else { 4 }).map(|i| shared(seed, round * 1000 + t * 10 + i, small)).collect())
                    .collect();
                let alone: Vec<Vec<Vec<u8>>> = cases
                    .iter()
                    .map(|v| v.iter().enumerate().map(|(i, c)| single_bytes(c, dir, &format!("a{}", i))).collect())
                    .collect();
                let barrier = std::sync::Barrier::new(th as usize);
                let mut wrong = vec![];
                std::thread::scope(|sc| {
                    let hs: Vec<_> = cases
                        .iter()
                        .enumerate()
                        .map(|(t, v)| {
                            let barrier = &barrier;
                            sc.spawn(move || {
                                let mut r = Rng::new(seed, round * 77 + t as u64);
                                barrier.wait();
                                if t % 2 == 0 {
                                    interleaved(v, &mut r, dir)
                                } else {
                                    v.iter().enumerate().map(|(i, c)| single_bytes(c, dir, &format!("p{}-{}", t, i))).collect()
                                }
                            })
                        })
                        .collect();
                    for (t, h) in hs.into_iter().enumerate() {
                        match h.join() {
                            Ok(got) => {
                                for (i, g) in got.iter().enumerate() {
                                    if *g != alone[t][i] {
                                        wrong.push((t, i));
                                    }
                                }
                            }
                            Err(_) => wrong.push((t, 99)),
                        }
                    }
                });
                for (t, i) in &wrong {
                    println!("wrong {} thread {} history {}", round, t, i);
                    bad += 1;
                }
                let pts: usize = cases.iter().flatten().map(|c| c.ops.len()).sum();
                println!("round {} {} {}", round, cases.iter().map(|v| v.len()).sum::<usize>(), pts);
            }
            println!("done");
            if bad > 0 {
                std::process::exit(7);
            }
        }
        _ => {}
    }
}
