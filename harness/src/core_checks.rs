//! Checks that judge histories on the real writer: C01 to C10, C15, C16
use crate::driver::*;
use crate::exec::*;
use crate::gen;
use crate::judge::*;
use crate::model::*;
use crate::report::Report;
use crate::rng::Rng;
use std::collections::BTreeMap;

/// What was accepted, according to the answers of the real calls; the part of
/// a rejected batch that counts as accepted comes from the model.
pub struct Based {
    pub run: Run,
    pub verdicts: Vec<Verdict>,
    pub points: Points,
    /// the model and the real answers agree on accept and reject
    pub agree: bool,
}

pub fn show_op(op: &Op) -> String {
    match op {
        Op::Write(d, m, t, v) => format!("write({:?}, {:?}, {}, {})", short(d), short(m), t, v.show()),
        Op::Batch(d, t, ps) => format!("write_many({:?}, {}, {} points)", short(d), t, ps.len()),
        Op::Flush => "flush".into(),
        Op::Close => "close()".into(),
    }
}
fn short(s: &str) -> String {
    s.chars().take(30).collect()
}

pub fn model_verdicts(spec: &Spec, ops: &[Op]) -> (Vec<Verdict>, Model) {
    let mut m = Model::new(spec);
    let v = ops.iter().map(|o| m.apply(o)).collect();
    (v, m)
}

/// Runs the history. Err: a legal call failed or something panicked.
pub fn based(spec: &Spec, ops: &[Op], alive: bool) -> Result<Based, String> {
    let run = run_at(thread_file("f"), spec, ops, alive);
    if !run.open.ok() {
        return Err(format!("creating the writer: {}", run.open.show()));
    }
    if let Some((i, m)) = run.panicked() {
        return Err(format!("call {} {} panics: {}", i, show_op(&ops[i]), m));
    }
    let mut model = Model::new(spec);
    let mut verdicts = vec![];
    let mut agree = true;
    for (i, op) in ops.iter().enumerate() {
        let r = &run.results[i];
        // the model follows the real answers, so that one deviation is judged once
        let v = match op {
            Op::Write(d, m, t, v) => {
                let j = model.judge(d, m, *t, *v);
                if r.ok() {
                    model.accept(d, m, *t, *v);
                }
                j
            }
            _ => model.apply(op),
        };
        if (v == Verdict::Accept) != r.ok() {
            agree = false;
            if v == Verdict::Accept {
                return Err(format!(
                    "legal call {} {} answers {}",
                    i,
                    show_op(op),
                    r.show()
                ));
            }
        }
        verdicts.push(v);
    }
    Ok(Based {
        run,
        verdicts,
        points: model.points,
        agree,
    })
}

fn closed(c: &Case) -> bool {
    c.ops.contains(&Op::Close)
}

/// Runs a closed history and reports the issues of the file that concern `id`
pub fn file_check(id: &str, c: &Case, m: &mut Metrics) -> Eval {
    if !closed(c) {
        return Eval::Trivial;
    }
    let b = match based(&c.spec, &c.ops, false) {
        Ok(b) => b,
        Err(e) => return bad(e),
    };
    for ((d, n), v) in &b.points {
        if id == "C01" && v.windows(2).any(|w| w[0].0 >= w[1].0) {
            return bad(format!(
                "accepted points of {:?}.{:?} are not in increasing time order",
                short(d),
                short(n)
            ));
        }
    }
    let j = judge(&b.run.bytes, &c.spec, &b.points);
    m.merge(&j.metrics);
    m.add("calls", c.ops.len() as u64);
    m.add("rejected_calls", b.verdicts.iter().filter(|v| **v != Verdict::Accept).count() as u64);
    m.add("forced_flushes", b.run.flushes);
    m.add("file_bytes", b.run.bytes.len() as u64);
    let mine: Vec<&Issue> = j.issues.iter().filter(|i| id == "XF" || i.props.contains(&id)).collect();
    if let Some(i) = mine.first() {
        let mut t = i.text.clone();
        for x in mine.iter().skip(1).take(3) {
            t.push('\n');
            t.push_str(&x.text);
        }
        return bad(t);
    }
    if b.points.is_empty() {
        Eval::Trivial
    } else {
        Eval::Counted
    }
}

fn drop_flushes(ops: &[Op]) -> Vec<Op> {
    ops.iter().filter(|o| **o != Op::Flush).cloned().collect()
}

/// Moves every forced flush directly before a call that gets at least one point accepted
pub fn normalise(spec: &Spec, ops: &[Op]) -> Vec<Op> {
    let mut m = Model::new(spec);
    let mut out = vec![];
    let mut pending = false;
    for op in ops {
        if *op == Op::Flush {
            pending = true;
            continue;
        }
        let before: usize = count(&m);
        m.apply(op);
        if pending && count(&m) > before {
            out.push(Op::Flush);
            pending = false;
        }
        out.push(op.clone());
    }
    out
}
fn count(m: &Model) -> usize {
    m.points.values().map(|v| v.len()).sum()
}

// ------------------------------------------------------------------ C07
fn c07(c: &Case, m: &mut Metrics) -> Eval {
    let run = run(&c.spec, &c.ops);
    if !run.open.ok() {
        return bad(format!("creating the writer: {}", run.open.show()));
    }
    if let Some((i, p)) = run.panicked() {
        return bad(format!("call {} {} panics: {}", i, show_op(&c.ops[i]), p));
    }
    let mut model = Model::new(&c.spec);
    let mut orders = 0;
    let mut after_flush = 0;
    let mut flushed = false;
    for (i, op) in c.ops.iter().enumerate() {
        let v = model.apply(op);
        let r = &run.results[i];
        flushed |= *op == Op::Flush;
        let order = matches!(&v, Verdict::Reject(k) if k.contains(&Kind::Order));
        if order {
            orders += 1;
            after_flush += flushed as u64;
        }
        let ok = match &v {
            Verdict::Accept => r.ok(),
            Verdict::Reject(k) if k.as_slice() == [Kind::Order] => {
                matches!(r, Res::Err(Kind::Order, _))
            }
            Verdict::Reject(_) => !r.ok(),
        };
        if !ok {
            return bad(format!(
                "call {} {} answers {}, expected {}",
                i,
                show_op(op),
                r.show(),
                match &v {
                    Verdict::Accept => "success".to_string(),
                    Verdict::Reject(k) => format!("rejection {:?}", k),
                }
            ));
        }
    }
    m.add("calls", c.ops.len() as u64);
    m.add("order_violations_tried", orders);
    m.add("order_violations_tried_after_a_flush", after_flush);
    m.add("forced_flushes", run.flushes);
    if closed(c) {
        let j = judge(&run.bytes, &c.spec, &model.points);
        m.add("points", j.metrics.get("points"));
        if let Some(i) = j.issues.iter().find(|i| i.props.contains(&"C01")) {
            return bad(format!("the file disagrees with the answers: {}", i.text));
        }
    }
    if orders > 0 {
        Eval::Counted
    } else {
        Eval::Trivial
    }
}

// ------------------------------------------------------------------ C08
fn is_illegal(v: &Verdict) -> bool {
    matches!(v, Verdict::Reject(k) if k.iter().any(|x| matches!(x, Kind::Unknown | Kind::Type | Kind::Encoding)))
}

fn c08(c: &Case, m: &mut Metrics) -> Eval {
    let ops = normalise(&c.spec, &c.ops);
    let a = run(&c.spec, &ops);
    if !a.open.ok() {
        return bad(format!("creating the writer: {}", a.open.show()));
    }
    if let Some((i, p)) = a.panicked() {
        return bad(format!("call {} {} panics: {}", i, show_op(&ops[i]), p));
    }
    // the history without the illegal calls
    let mut model = Model::new(&c.spec);
    let mut legal = vec![];
    let mut map = vec![];
    let mut illegal = 0;
    for (i, op) in ops.iter().enumerate() {
        let before = model.judge_prefix(op);
        let v = model.apply(op);
        if is_illegal(&v) {
            illegal += 1;
            if !allowed(&v, &a.results[i]) {
                return bad(format!(
                    "call {} {} answers {}, expected error {:?}",
                    i,
                    show_op(op),
                    a.results[i].show(),
                    v
                ));
            }
            match op {
                Op::Batch(d, t, ps) if before > 0 => {
                    legal.push(Op::Batch(d, *t, ps[..before].to_vec()));
                    map.push(None);
                }
                _ => {}
            }
        } else {
            if v == Verdict::Accept && !a.results[i].ok() {
                return bad(format!(
                    "legal call {} {} answers {}",
                    i,
                    show_op(op),
                    a.results[i].show()
                ));
            }
            legal.push(op.clone());
            map.push(Some(i));
        }
    }
    if illegal == 0 {
        return Eval::Trivial;
    }
    let b = run(&c.spec, &legal);
    for (k, i) in map.iter().enumerate() {
        if let Some(i) = i {
            if b.results.len() <= k || !b.results[k].same(&a.results[*i]) {
                return bad(format!(
                    "call {} {} answers {}, but {} without the illegal calls before it",
                    i,
                    show_op(&ops[*i]),
                    a.results[*i].show(),
                    b.results.get(k).map_or("nothing".into(), |r| r.show())
                ));
            }
        }
    }
    if a.bytes != b.bytes {
        return bad(format!(
            "the file ({} bytes) differs from the one without the illegal calls ({} bytes)",
            a.bytes.len(),
            b.bytes.len()
        ));
    }
    m.add("illegal_calls", illegal);
    m.add("calls", ops.len() as u64);
    m.add("files_compared", 1);
    Eval::Counted
}

impl Model {
    /// how many leading points of a batch would be accepted
    pub fn judge_prefix(&self, op: &Op) -> usize {
        let mut seen: Vec<Name> = vec![];
        match op {
            Op::Batch(d, t, ps) => {
                if self.closed || !self.knows_device(d) {
                    return 0;
                }
                for (k, (m, v)) in ps.iter().enumerate() {
                    if self.judge(d, m, *t, *v) != Verdict::Accept || seen.contains(m) {
                        return k;
                    }
                    seen.push(m);
                }
                ps.len()
            }
            _ => 0,
        }
    }
}

// ------------------------------------------------------------------ C09
fn c09(c: &Case, m: &mut Metrics) -> Eval {
    let ops = normalise(&c.spec, &c.ops);
    let mut model = Model::new(&c.spec);
    let mut single = vec![];
    // op index -> range of single calls
    let mut map: Vec<(usize, usize)> = vec![];
    let mut batches = 0;
    let mut partial = 0;
    let mut flush = false;
    for op in &ops {
        let k = model.judge_prefix(op);
        let v = model.apply(op);
        let s = single.len();
        match op {
            Op::Flush => {
                flush = true;
            }
            Op::Batch(d, t, ps) => {
                batches += 1;
                if v != Verdict::Accept && k > 0 {
                    partial += 1;
                }
                for (i, (mm, vv)) in ps.iter().enumerate() {
                    if i > k {
                        break;
                    }
                    if flush && i + 1 == k {
                        single.push(Op::Flush);
                        flush = false;
                    }
                    single.push(Op::Write(d, mm, *t, *vv));
                }
            }
            o => {
                if flush {
                    single.push(Op::Flush);
                    flush = false;
                }
                single.push(o.clone());
            }
        }
        map.push((s, single.len()));
    }
    if batches == 0 {
        return Eval::Trivial;
    }
    let a = run(&c.spec, &ops);
    let b = run(&c.spec, &single);
    if let Some((i, p)) = a.panicked() {
        return bad(format!("call {} {} panics: {}", i, show_op(&ops[i]), p));
    }
    if b.panicked().is_some() || !a.open.ok() || !b.open.ok() {
        return bad("single writes panic or the writer cannot be created");
    }
    for (i, op) in ops.iter().enumerate() {
        if let Op::Batch(_, _, ps) = op {
            let (s, e) = map[i];
            if ps.is_empty() || s == e {
                continue;
            }
            let first = (s..e).find(|k| !b.results[*k].ok() && single[*k] != Op::Flush);
            let want = first.map_or(Res::Ok, |k| b.results[k].clone());
            if !a.results[i].same(&want) {
                return bad(format!(
                    "call {} {} answers {}, its single writes answer {}",
                    i,
                    show_op(op),
                    a.results[i].show(),
                    want.show()
                ));
            }
        }
    }
    if a.bytes != b.bytes {
        let j = judge(&a.bytes, &c.spec, &model.points);
        return bad(format!(
            "the file ({} bytes) differs from the one of the single writes ({} bytes)\n{}",
            a.bytes.len(),
            b.bytes.len(),
            j.issues.first().map_or("", |i| i.text.as_str())
        ));
    }
    let j = judge(&a.bytes, &c.spec, &model.points);
    if let Some(i) = j.issues.iter().find(|i| i.props.contains(&"C01")) {
        return bad(i.text.clone());
    }
    m.add("batches", batches);
    m.add("batches_with_accepted_points_and_a_rejection", partial);
    m.add("single_writes_compared", single.len() as u64);
    m.add("forced_flushes", a.flushes);
    m.add("points", j.metrics.get("points"));
    Eval::Counted
}

/// A few batches with up to thousands of points, some refused somewhere
fn large_batches(r: &mut Rng) -> Case {
    let n = *r.pick(&[127usize, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 2000, 4095, 4096, 4097, 5000]);
    let ms = (0..n).map(|i| gen::meas(r, name(&format!("m{}", i)), false)).collect::<Vec<_>>();
    let d = name("root.d");
    let mut ops = vec![];
    let mut t = 0;
    for _ in 0..1 + r.usize(4) {
        t += 1 + r.small(1000) as i64;
        let mut ix: Vec<usize> = (0..n).collect();
        if r.chance(1, 2) {
            r.shuffle(&mut ix);
        }
        let mut ps: Vec<(Name, Val)> = ix.iter().map(|i| (ms[*i].name, gen::widen(ms[*i].ty, r.u64() as i64))).collect();
        if r.chance(1, 2) {
            let at = if r.chance(1, 2) { r.usize(n) } else { n - 1 - r.usize(20) };
            let bad = match r.below(3) {
                0 => (name("unknown"), Val::I(1)),
                1 => (ps[at].0, Val::D(1)),
                _ if at > 0 => ps[r.usize(at)],
                _ => (ps[at].0, Val::D(1)),
            };
            ps.insert(at, bad);
        }
        ops.push(Op::Batch(d, t, ps));
    }
    ops.push(Op::Close);
    Case {
        family: "large-batches",
        spec: Spec { devices: vec![(d, ms)] },
        ops,
        params: BTreeMap::new(),
    }
}

/// Batches until pages are complete
fn paged_batches(r: &mut Rng) -> Case {
    let s = gen::spec(r, 1, (1, 3), false);
    let hi = *r.pick(&[8000, 8100, 17000]);
    let illegal = *r.pick(&[0, 2]);
    let ops = gen::history(
        r,
        &s,
        (7980, hi),
        &gen::Dial {
            illegal,
            batch: 900,
            flush: 0,
            close: true,
        },
    );
    Case {
        family: "paged-batches",
        spec: s,
        ops,
        params: BTreeMap::new(),
    }
}

fn c09_gen(r: &mut Rng, k: u64) -> Case {
    match k % 150 {
        7 | 82 => return large_batches(r),
        40 => return paged_batches(r),
        _ => {}
    }
    let nd = 1 + r.usize(3);
    let s = gen::spec(r, nd, (1, 6), k % 3 == 0);
    let f = *r.pick(&[0, 0, 20, 80]);
    let hi = *r.pick(&[5, 40, 300]);
    let ops = gen::history(
        r,
        &s,
        (1, hi),
        &gen::Dial {
            illegal: *[0, 100, 200, 350].get(k as usize % 4).unwrap(),
            batch: 700,
            flush: f,
            close: true,
        },
    );
    Case {
        family: "batches",
        spec: s,
        ops,
        params: BTreeMap::new(),
    }
}

// ------------------------------------------------------------------ C10
fn permute_spec(r: &mut Rng, s: &Spec) -> Spec {
    let mut t = s.clone();
    r.shuffle(&mut t.devices);
    for d in t.devices.iter_mut() {
        r.shuffle(&mut d.1);
    }
    t
}

/// Another interleaving with the same order within each series
fn reinterleave(r: &mut Rng, ops: &[Op]) -> Option<Vec<Op>> {
    let mut q: Vec<((Name, Name), Vec<Op>)> = vec![];
    let mut ix: std::collections::HashMap<(Name, Name), usize> = Default::default();
    let mut push = |d: Name, m: Name, o: Op, q: &mut Vec<((Name, Name), Vec<Op>)>| {
        let i = *ix.entry((d, m)).or_insert_with(|| {
            q.push(((d, m), vec![]));
            q.len() - 1
        });
        q[i].1.push(o);
    };
    let mut close = false;
    for o in ops {
        match o {
            Op::Write(d, m, _, _) => push(d, m, o.clone(), &mut q),
            Op::Batch(d, t, ps) => {
                for (m, v) in ps {
                    push(d, m, Op::Write(d, m, *t, *v), &mut q);
                }
            }
            Op::Flush => return None,
            Op::Close => close = true,
        }
    }
    let style = r.below(3);
    let mut out = vec![];
    for x in q.iter_mut() {
        x.1.reverse();
    }
    if style == 0 {
        r.shuffle(&mut q);
    }
    let mut i = 0;
    while !q.is_empty() {
        let k = match style {
            0 => 0,
            1 => {
                i += 1;
                i % q.len()
            }
            _ => r.usize(q.len()),
        };
        match q[k].1.pop() {
            Some(o) => out.push(o),
            None => {
                q.remove(k);
            }
        }
    }
    if close {
        out.push(Op::Close);
    }
    Some(out)
}

fn c10(c: &Case, m: &mut Metrics) -> Eval {
    let a = run(&c.spec, &c.ops);
    if !a.open.ok() {
        return bad(format!("creating the writer: {}", a.open.show()));
    }
    let mut r = Rng::new(hash(c), 3);
    let mut other: Vec<(&str, Spec, Vec<Op>)> = vec![
        ("again", c.spec.clone(), c.ops.clone()),
        ("declared in another order", permute_spec(&mut r, &c.spec), c.ops.clone()),
        ("declared in another order", permute_spec(&mut r, &c.spec), c.ops.clone()),
    ];
    let legal = drop_flushes(&c.ops);
    let mut base = a.bytes.clone();
    for (what, s, o) in other.drain(..) {
        let b = run(&s, &o);
        m.add("files_compared", 1);
        if b.bytes != base {
            return bad(format!(
                "{}: {} bytes instead of {}",
                what,
                b.bytes.len(),
                base.len()
            ));
        }
        if b.results.len() != a.results.len()
            || b.results.iter().zip(&a.results).any(|(x, y)| !x.same(y))
        {
            return bad(format!("{}: other answers", what));
        }
    }
    // without a flush the interleaving does not matter, if everything is accepted
    let (v, _) = model_verdicts(&c.spec, &legal);
    if v.iter().all(|x| *x == Verdict::Accept) {
        if legal.len() != c.ops.len() {
            base = run(&c.spec, &legal).bytes;
        }
        for _ in 0..2 {
            if let Some(o) = reinterleave(&mut r, &legal) {
                let b = run(&c.spec, &o);
                m.add("interleavings_compared", 1);
                if b.bytes != base {
                    return bad(format!(
                        "interleaved differently: {} bytes instead of {}",
                        b.bytes.len(),
                        base.len()
                    ));
                }
            }
        }
    }
    Eval::Counted
}

/// digests of the files of the first n general cases
pub fn digests(seed: u64, n: u64) -> Vec<u64> {
    let next = std::sync::atomic::AtomicU64::new(0);
    let out = std::sync::Mutex::new(vec![0; n as usize]);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= n {
                    break;
                }
                let mut r = Rng::new(seed, 0xD16E57 + k);
                let c = gen::any_case(&mut r, k, true);
                let x = run(&c.spec, &c.ops);
                let mut h = 0xcbf29ce484222325u64;
                for b in &x.bytes {
                    h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
                }
                for q in &x.results {
                    h = mix(h, match q {
                        Res::Ok => 1,
                        Res::Err(k, _) => 2 + *k as u64,
                        Res::Panic(_) => 99,
                    });
                }
                out.lock().unwrap()[k as usize] = h;
            });
        }
    });
    out.into_inner().unwrap()
}

fn c10_processes(rep: &Report, n: u64) {
    single(rep, "processes", || {
        let base = digests(rep.seed, n);
        let me = std::env::current_exe().unwrap();
        let mut runs = vec![("another process", me.clone()), ("another process", me)];
        if let Ok(p) = std::env::var("TSV_CHECKED") {
            runs.push(("a build with debug assertions", p.into()));
        } else {
            rep.problem("no build with debug assertions");
        }
        if let Ok(p) = std::env::var("TSV_DEBUG") {
            runs.push(("an unoptimised build", p.into()));
        }
        for (i, (what, exe)) in runs.into_iter().enumerate() {
            let o = std::process::Command::new(&exe)
                .args(["digest", &rep.seed.to_string(), &n.to_string()])
                .env("TSV_SCRATCH", scratch().join(format!("p{}", i)))
                .output();
            let o = match o {
                Ok(o) => o,
                Err(e) => return rep.problem(format!("{}: {}", what, e)),
            };
            let t = String::from_utf8_lossy(&o.stdout).to_string();
            let v: Vec<u64> = t.lines().filter_map(|l| u64::from_str_radix(l, 16).ok()).collect();
            if v.len() != base.len() {
                return rep.problem(format!("{}: {} digests", what, v.len()));
            }
            rep.metric("files_compared_across_processes_and_builds", n);
            for (k, (a, b)) in base.iter().zip(&v).enumerate() {
                if a != b {
                    let mut r = Rng::new(rep.seed, 0xD16E57 + k as u64);
                    let mut c = gen::any_case(&mut r, k as u64, true);
                    c.set("other", exe.display());
                    rep.case_violation("", &format!("{} writes other bytes or answers differently for the same history", what), &c);
                    return;
                }
            }
        }
    });
}

// ------------------------------------------------------------------ C06
fn with_comp(c: &Case, f: &mut dyn FnMut(Co) -> Co) -> Case {
    let mut c = c.clone();
    for d in c.spec.devices.iter_mut() {
        for m in d.1.iter_mut() {
            m.co = f(m.co);
        }
    }
    c
}

#[allow(clippy::type_complexity)]
fn decoded(c: &Case) -> Result<Vec<(Vec<u8>, Vec<u8>, Vec<(i64, Val)>)>, String> {
    let b = run(&c.spec, &c.ops);
    if let Some((i, p)) = b.panicked() {
        return Err(format!("call {} panics: {}", i, p));
    }
    let s = crate::reader::scan(&b.bytes);
    if let Some(e) = s.error.or(s.truncated) {
        return Err(e);
    }
    let mut v = vec![];
    for g in &s.groups {
        for ch in &g.chunks {
            v.push((g.device.clone(), ch.name.clone(), points_of(ch).collect()));
        }
    }
    Ok(v)
}

fn c06(c: &Case, m: &mut Metrics) -> Eval {
    let e = file_check("C06", c, m);
    if let Eval::Bad { .. } = e {
        return e;
    }
    let flips = [
        with_comp(c, &mut |_| Co::None),
        with_comp(c, &mut |_| Co::Snappy),
        with_comp(c, &mut |x| if x == Co::None { Co::Snappy } else { Co::None }),
    ];
    let mut first = None;
    for f in flips.iter() {
        match decoded(f) {
            Err(x) => return bad(x),
            Ok(v) => {
                m.add("compression_variants_compared", 1);
                match &first {
                    None => first = Some(v),
                    Some(w) => {
                        if *w != v {
                            return bad("the decoded points depend on the declared compression");
                        }
                    }
                }
            }
        }
    }
    e
}

// ------------------------------------------------------------------ C16
fn c16(c: &Case, m: &mut Metrics) -> Eval {
    use tsfile_writer::writer::schema::{DeviceBuilder, TsFileSchemaBuilder};
    use tsfile_writer::writer::Schema;
    // declare with repetitions: the declarations of the case come last
    let mut r = Rng::new(hash(c), 5);
    let mut b = TsFileSchemaBuilder::new();
    let mut redeclared = 0;
    let early: Schema<'static> = {
        for (d, ms) in &c.spec.devices {
            if r.chance(1, 3) && !ms.is_empty() {
                let mut x = DeviceBuilder::new();
                let g = gen::meas(&mut r, "gone", true);
                x.add("gone", dt(g.ty), enc(g.en), comp(g.co));
                b.add(d, x.build());
                redeclared += 1;
            }
        }
        b.build()
    };
    let before = early.get_devices().count();
    // a device cannot be built without measurements
    for (d, ms) in c.spec.devices.iter().filter(|x| !x.1.is_empty()) {
        let mut x = DeviceBuilder::new();
        for q in ms {
            if r.chance(1, 3) {
                let g = gen::meas(&mut r, q.name, true);
                x.add(q.name, dt(g.ty), enc(g.en), comp(g.co));
                redeclared += 1;
            }
        }
        for q in ms {
            x.add(q.name, dt(q.ty), enc(q.en), comp(q.co));
        }
        if r.chance(1, 4) {
            let _ = x.build();
        }
        b.add(d, x.build());
    }
    let s = b.build();
    if early.get_devices().count() != before {
        return bad("a schema that was built changes with its builder");
    }
    for s in [&s, &s.clone(), &b.build()] {
        let mut got: BTreeMap<&str, BTreeMap<&str, (u8, u8, u8)>> = BTreeMap::new();
        for (d, g) in s.get_devices() {
            let e = got.entry(d).or_default();
            for (n, x) in g.get_timeseries() {
                if e.insert(n, (x.data_type.serialize(), x.encoding.serialize(), x.compression.serialize())).is_some() {
                    return bad(format!("{:?} is reported twice", n));
                }
            }
        }
        let mut want: BTreeMap<&str, BTreeMap<&str, (u8, u8, u8)>> = BTreeMap::new();
        for (d, ms) in c.spec.devices.iter().filter(|x| !x.1.is_empty()) {
            let e = want.entry(d).or_default();
            for q in ms {
                e.insert(q.name, (q.ty.code(), q.en.code(), q.co.code()));
            }
        }
        if got != want {
            return bad("the schema reports other devices, measurements or properties than declared");
        }
        m.add("schemas_compared", 1);
    }
    m.add("redeclarations", redeclared);
    // the simple form
    if let Some((d, ms)) = c.spec.devices.first() {
        if let Some(q) = ms.first() {
            let s = Schema::simple(d, q.name, dt(q.ty), enc(q.en), comp(q.co));
            let all: Vec<_> = s
                .get_devices()
                .flat_map(|(d, g)| g.get_timeseries().map(move |(n, x)| (d, n, x)))
                .collect();
            if all.len() != 1
                || all[0].0 != *d
                || all[0].1 != q.name
                || all[0].2.data_type != dt(q.ty)
                || all[0].2.encoding != enc(q.en)
                || all[0].2.compression != comp(q.co)
            {
                return bad("the simple schema is not what was declared");
            }
        }
    }
    // the writer accepts and stores exactly this
    let run = match open_with(thread_file("s"), s) {
        Ok(mut w) => {
            let mut flush = false;
            let mut v = vec![];
            for o in &c.ops {
                v.push(step(&mut w, o, &mut flush));
            }
            drop(w);
            v
        }
        Err(r) => return bad(format!("creating the writer: {}", r.show())),
    };
    let bytes = std::fs::read(thread_file("s")).unwrap_or_default();
    let _ = std::fs::remove_file(thread_file("s"));
    let (v, model) = model_verdicts(&c.spec, &c.ops);
    for (i, (x, r)) in v.iter().zip(&run).enumerate() {
        let type_or_name = matches!(x, Verdict::Reject(k) if !k.contains(&Kind::Order));
        if (*x == Verdict::Accept) != r.ok() || (type_or_name && !allowed(x, r)) {
            return bad(format!(
                "call {} {} answers {}, the declaration asks for {:?}",
                i,
                show_op(&c.ops[i]),
                r.show(),
                x
            ));
        }
    }
    let j = judge(&bytes, &c.spec, &model.points);
    m.add("chunks", j.metrics.get("chunks"));
    m.add("calls", c.ops.len() as u64);
    if let Some(i) = j.issues.iter().find(|i| i.props.contains(&"C16")) {
        return bad(i.text.clone());
    }
    Eval::Counted
}

fn c16_codes(rep: &Report) {
    use tsfile_writer::writer::compression::CompressionType as C;
    use tsfile_writer::writer::encoding::TSEncoding as E;
    use tsfile_writer::writer::TSDataType as T;
    single(rep, "codes", || {
        let mut wrong = vec![];
        for (t, c) in [(T::INT32, 1u8), (T::INT64, 2), (T::FLOAT, 3)] {
            if t.serialize() != c {
                wrong.push(format!("type {:?} is stored as {}", t, t.serialize()));
            }
        }
        for (t, c) in [(E::PLAIN, 0u8), (E::TS2DIFF, 4)] {
            if t.serialize() != c {
                wrong.push(format!("encoding {:?} is stored as {}", t, t.serialize()));
            }
        }
        for (t, c) in [(C::UNCOMPRESSED, 0u8), (C::SNAPPY, 1)] {
            if t.serialize() != c {
                wrong.push(format!("compression {:?} is stored as {}", t, t.serialize()));
            }
        }
        for b in 0..=255u8 {
            let t = T::try_from(b).ok();
            let want = match b {
                1 => Some(T::INT32),
                2 => Some(T::INT64),
                3 => Some(T::FLOAT),
                _ => None,
            };
            if t != want {
                wrong.push(format!("type code {} is accepted as {:?}", b, t));
            }
            let e = E::try_from(b).ok();
            let want = match b {
                0 => Some(E::PLAIN),
                4 => Some(E::TS2DIFF),
                _ => None,
            };
            if e != want {
                wrong.push(format!("encoding code {} is accepted as {:?}", b, e));
            }
            let c = C::try_from(b).ok();
            let want = match b {
                0 => Some(C::UNCOMPRESSED),
                1 => Some(C::SNAPPY),
                _ => None,
            };
            if c != want {
                wrong.push(format!("compression code {} is accepted as {:?}", b, c));
            }
            rep.metric("codes_decoded", 3);
        }
        rep.eval(Some(1));
        if !wrong.is_empty() {
            rep.violation("", &wrong.join("\n"), "only codes:0\n");
        }
    });
}

pub fn open_with(
    path: Name,
    s: tsfile_writer::writer::Schema<'static>,
) -> Result<W, Res> {
    match guarded(|| tsfile_writer::writer::tsfile_writer::TsFileWriter::new(path, s, Default::default())) {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => Err(Res::Err(kind(&e), format!("{:?}", e))),
        Err(m) => Err(Res::Panic(m)),
    }
}

// ------------------------------------------------------------------ generators
fn gen_c02(r: &mut Rng, k: u64) -> Case {
    match k % 10 {
        0..=4 => gen::wide(r),
        5 if k % 50 == 5 => gen::rounds(r),
        5 | 6 => gen::chunks(r, 0),
        7 => gen::pages(r),
        8 => gen::tiny(r, 100),
        _ => {
            // names that collide when joined
            let a = gen::ident(r, 6);
            let b = gen::ident(r, 6);
            let c = gen::ident(r, 6);
            let mut s = Spec::default();
            for (d, m) in [
                (a.clone(), format!("{}.{}", b, c)),
                (format!("{}.{}", a, b), c.clone()),
                (format!("{}.", a), c.clone()),
                (a.clone(), c.clone()),
                (format!("{}.{}", a, b), format!("{}.{}", b, c)),
                (b.clone(), String::new()),
            ] {
                let (d, m) = (name(&d), name(&m));
                let x = gen::meas(r, m, false);
                match s.devices.iter_mut().find(|q| q.0 == d) {
                    Some(q) => {
                        if !q.1.iter().any(|y| y.name == m) {
                            q.1.push(x)
                        }
                    }
                    None => s.devices.push((d, vec![x])),
                }
            }
            let ops = gen::history(
                r,
                &s,
                (0, 4),
                &gen::Dial {
                    illegal: 0,
                    batch: 200,
                    flush: 100,
                    close: true,
                },
            );
            Case {
                family: "joined",
                spec: s,
                ops,
                params: BTreeMap::new(),
            }
        }
    }
}

fn gen_c03(r: &mut Rng, k: u64) -> Case {
    match k % 8 {
        0 | 1 => gen::pages(r),
        2 if k % 40 == 2 => gen::rounds(r),
        2 | 3 => gen::chunks(r, if k % 3 == 0 { 100 } else { 0 }),
        4 => gen::blocks(r),
        5 => gen::tiny(r, 200),
        6 => {
            // pages and chunks together
            let mut c = gen::pages(r);
            for _ in 0..1 + r.usize(4) {
                let at = r.usize(c.ops.len());
                c.ops.insert(at, Op::Flush);
            }
            c
        }
        _ => gen::mixed(r, 50),
    }
}

/// Histories that are flushed or closed exactly where the writer completes a
/// page, one point before or one after; the places are taken from a file the
/// writer itself produced
fn edges(r: &mut Rng, k: u64) -> Case {
    let mut c = gen::pages(r);
    c.family = "edges";
    c.ops.retain(|o| *o != Op::Flush && *o != Op::Close);
    let mut from = 0;
    for round in 0..1 + (k / 4) % 3 {
        let mut all = c.ops.clone();
        all.push(Op::Close);
        let b = run(&c.spec, &all);
        let s = crate::reader::scan(&b.bytes);
        // the numbers of points of a series after which a page was complete
        let mut ends: std::collections::BTreeMap<(Vec<u8>, Vec<u8>), (u64, Vec<u64>)> = Default::default();
        for g in &s.groups {
            for ch in &g.chunks {
                let e = ends.entry((g.device.clone(), ch.name.clone())).or_default();
                for p in &ch.pages {
                    e.0 += p.times.len() as u64;
                    e.1.push(e.0);
                }
                e.1.pop();
            }
        }
        let mut at = vec![];
        let mut seen: std::collections::HashMap<(&str, &str), u64> = Default::default();
        for (i, o) in c.ops.iter().enumerate() {
            if let Op::Write(d, m, _, _) = o {
                let n = seen.entry((d, m)).or_default();
                *n += 1;
                if i >= from && ends.get(&(d.as_bytes().to_vec(), m.as_bytes().to_vec())).map_or(false, |e| e.1.contains(n)) {
                    at.push(i + 1);
                }
            }
        }
        if at.is_empty() {
            break;
        }
        let i = at[r.usize(at.len().min(3))] + [0, 0, 0, 1, 0][k as usize % 5];
        let i = i.saturating_sub((k % 5 == 4) as usize).min(c.ops.len());
        if k % 2 == 0 && round == (k / 4) % 3 {
            c.ops.truncate(i);
            break;
        }
        c.ops.insert(i, Op::Flush);
        from = i + 1;
        if k % 8 == 1 && i + 1 < c.ops.len() {
            // hardly anything after it
            c.ops.truncate(i + 1 + r.usize(3).min(c.ops.len() - i - 1));
        }
    }
    c.ops.push(Op::Close);
    c
}

fn gen_c05(r: &mut Rng, k: u64) -> Case {
    match k % 6 {
        0..=3 => gen::blocks(r),
        4 => gen::pages(r),
        _ => gen::mixed(r, 0),
    }
}

fn gen_c06(r: &mut Rng, k: u64) -> Case {
    let mut c = match k % 6 {
        0 | 1 => gen::pages(r),
        2 => gen::blocks(r),
        3 => gen::chunks(r, 0),
        4 => gen::tiny(r, 0),
        _ => gen::mixed(r, 0),
    };
    if k % 2 == 0 {
        c = with_comp(&c, &mut |_| Co::Snappy);
    }
    c
}

fn gen_c07(r: &mut Rng, k: u64) -> Case {
    let nd = 1 + r.usize(3);
    let s = gen::spec(r, nd, (1, 4), k % 5 == 0);
    let f = *r.pick(&[0, 10, 50, 200]);
    let b = *r.pick(&[0, 300]);
    let hi = *r.pick(&[4, 30, 150]);
    let mut ops = gen::history(
        r,
        &s,
        (0, hi),
        &gen::Dial {
            illegal: *[100, 300, 600].get(k as usize % 3).unwrap(),
            batch: b,
            flush: f,
            close: true,
        },
    );
    // replays of earlier writes, in particular after flushes
    let n = ops.len();
    for _ in 0..r.usize(12) {
        let i = r.usize(n.max(1)).min(ops.len() - 1);
        let o = ops[i].clone();
        if matches!(o, Op::Write(..) | Op::Batch(..)) {
            let at = i + r.usize(ops.len() - i);
            ops.insert(at, o);
        }
    }
    Case {
        family: "order",
        spec: s,
        ops,
        params: BTreeMap::new(),
    }
}

fn gen_c08(r: &mut Rng, k: u64) -> Case {
    match k % 4 {
        0 | 1 => {
            let nd = 1 + r.usize(3);
            let s = gen::spec(r, nd, (1, 4), true);
            let f = *r.pick(&[0, 0, 50]);
            let hi = *r.pick(&[3, 20, 100]);
            let ops = gen::history(
                r,
                &s,
                (0, hi),
                &gen::Dial {
                    illegal: 400,
                    batch: 200,
                    flush: f,
                    close: true,
                },
            );
            Case {
                family: "illegal",
                spec: s,
                ops,
                params: BTreeMap::new(),
            }
        }
        2 => gen::mixed(r, 200),
        _ => {
            // around the first page check
            let s = gen::spec(r, 1, (1, 1), false);
            let ops = gen::history(
                r,
                &s,
                (7985, 9600),
                &gen::Dial {
                    illegal: 3,
                    batch: 0,
                    flush: 0,
                    close: true,
                },
            );
            Case {
                family: "illegal-pages",
                spec: s,
                ops,
                params: BTreeMap::new(),
            }
        }
    }
}

/// paths found by search whose MurmurHash3 for one of the used seeds is i32::MIN
pub const MIN_HASH: &[(&str, &str)] = &[
    ("d", "24814733"),
    ("d", "4718603ef"),
    ("d", "d07d1098"),
    ("d", "34d8be544"),
    ("d", "111444568"),
    ("d", "36a29b973"),
    ("d", "2dd7874f0"),
    ("d", "2f62c2ccf"),
    ("d", "13c32fe30"),
    ("d", "2f51bb7de"),
    ("d", "2fe880698"),
    ("d", "1b888145a"),
];

fn gen_c15(r: &mut Rng, k: u64) -> Case {
    match k % 6 {
        0 => gen::wide(r),
        1 => gen::tiny(r, 0),
        2 | 3 => {
            // every number of series around the smallest size and beyond
            let n = match r.below(3) {
                0 => 36 + r.usize(10),
                1 => 1 + r.usize(120),
                _ => 1 + r.usize(1500),
            };
            let mut s = gen::spec(r, 1 + (k as usize % 3), (1, 1), false);
            let ns = gen::names(r, n);
            let d = r.usize(s.devices.len());
            s.devices[d].1 = ns.into_iter().map(|x| gen::meas(r, x, false)).collect();
            let ops = gen::history(
                r,
                &s,
                (0, 1),
                &gen::Dial {
                    illegal: 0,
                    batch: 0,
                    flush: 0,
                    close: true,
                },
            );
            Case {
                family: "bloom",
                spec: s,
                ops,
                params: BTreeMap::new(),
            }
        }
        _ => {
            // names of every length
            let mut s = Spec::default();
            let lim = if k % 4 == 0 { 300 } else { 40 };
            let d = {
                let l = r.usize(lim);
                (0..l).map(|_| *r.pick(&['a', 'z', '0', '.', 'ÿ', '温'])).collect::<String>()
            };
            let mut ms = vec![];
            for i in 0..1 + r.usize(40) {
                let l = r.usize(lim);
                let n: String = (0..l).map(|_| *r.pick(&['q', 'Z', '9', 'ä', '\u{1}', '…'])).collect();
                let x = gen::meas(r, name(&format!("{}{}", n, i)), false);
                ms.push(x);
            }
            s.devices.push((name(&d), ms));
            let ops = gen::history(
                r,
                &s,
                (1, 1),
                &gen::Dial {
                    illegal: 0,
                    batch: 500,
                    flush: 0,
                    close: true,
                },
            );
            Case {
                family: "names",
                spec: s,
                ops,
                params: BTreeMap::new(),
            }
        }
    }
}

fn min_hash_case(i: usize) -> Case {
    let (d, m) = MIN_HASH[i % MIN_HASH.len()];
    let mut s = Spec::default();
    s.devices.push((
        name(d),
        vec![Meas {
            name: name(m),
            ty: Ty::I32,
            en: En::Plain,
            co: Co::None,
        }],
    ));
    if i >= MIN_HASH.len() {
        // filters of other sizes
        let n = [2, 40, 41, 45, 100, 700][i / MIN_HASH.len() % 6];
        for j in 0..n {
            let mut x = s.devices[0].1[0].clone();
            x.name = name(&format!("other{}", j));
            s.devices[0].1.push(x);
        }
    }
    Case {
        family: "extreme-hash",
        ops: vec![Op::Write(name(d), name(m), 1, Val::I(1)), Op::Close],
        spec: s,
        params: BTreeMap::new(),
    }
}

// ------------------------------------------------------------------ entry
fn tier(rep: &Report, q: f64, t: f64) -> f64 {
    if rep.thorough {
        t
    } else {
        q
    }
}

const MANY: u64 = u64::MAX / 2;

/// Numbers of series of every order of magnitude
fn counts(r: &mut Rng, _k: u64) -> Case {
    let n = (60.0 * 500f64.powf(r.below(1 << 20) as f64 / (1 << 20) as f64)) as usize;
    counted(r, n)
}

/// Numbers of series for which the number of bits of the filter is closest to
/// where it is rounded to another integer, closest first
fn critical(max: usize) -> Vec<usize> {
    let mut v: Vec<(f64, usize)> = (41..=max)
        .map(|n| {
            let x = crate::reader::bloom_bits(n);
            ((x - x.round()).abs() / x, n)
        })
        .collect();
    v.sort_by(|a, b| a.0.total_cmp(&b.0));
    v.into_iter().take(400).map(|x| x.1).collect()
}

fn counted(r: &mut Rng, n: usize) -> Case {
    let d = match r.below(4) {
        0 => n,
        1 => 1,
        2 => 1 + r.usize(9),
        _ => 1 + r.usize(n),
    };
    let mut c = gen::grid(d, n / d, "counts");
    // the last device has some more
    for i in 0..n % d {
        let m = Meas { name: name(&format!("t{}", i)), ty: Ty::I64, en: En::Diff, co: Co::None };
        let (d, ms) = c.spec.devices.last_mut().unwrap();
        ms.push(m);
        let w = Op::Write(d, m.name, 5, Val::L(i as i64));
        let at = c.ops.len() - 1;
        c.ops.insert(at, w);
    }
    c
}

/// Looks at nothing but the filter, for many series
fn filter_only(c: &Case, m: &mut Metrics) -> Eval {
    let r = run(&c.spec, &c.ops);
    if !r.open.ok() || r.results.iter().any(|x| !x.ok()) {
        return bad("a legal call does not succeed");
    }
    let f = match crate::reader::footer(&r.bytes) {
        Ok(f) => f,
        Err(e) => return bad(e),
    };
    let paths: Vec<Vec<u8>> = c.spec.devices.iter().flat_map(|(d, ms)| ms.iter().map(move |x| format!("{}.{}", d, x.name).into_bytes())).collect();
    let want = crate::reader::bloom_size(paths.len());
    if f.bloom_size != want {
        return bad(format!("Bloom filter for {} series has {} bits, prescribed are {}", paths.len(), f.bloom_size, want));
    }
    if f.bloom_hashes != crate::reader::BLOOM_HASHES || f.bloom != crate::reader::bloom_bytes(&paths, want, f.bloom_hashes) {
        return bad("Bloom filter bits differ from the prescribed ones");
    }
    m.add("bloom_members", paths.len() as u64);
    m.add("filters_of_many_sizes", 1);
    Eval::Counted
}

fn grids(rep: &Report, id: &'static str, eval: &Ev) {
    let mut list: Vec<(usize, usize)> = vec![
        (1, 255),
        (1, 256),
        (1, 257),
        (1, 512),
        (1, 513),
        (255, 1),
        (256, 1),
        (257, 1),
        (512, 1),
        (513, 1),
        (1, 65535),
        (1, 65537),
        (65537, 1),
        (3, 300),
        (300, 3),
        (1, 65536),
        (65536, 1),
    ];
    if rep.thorough {
        list.extend([(2, 70000), (65538, 2), (1, 131073), (131073, 1), (700, 300)]);
    }
    let _ = id;
    let n = list.len() as u64;
    cases(
        rep,
        "grid",
        n,
        600.0,
        &|_, k| gen::grid(list[k as usize].0, list[k as usize].1, "grid"),
        eval,
    );
}

pub fn eval_for(id: &str) -> Option<Box<Ev<'static>>> {
    let b: Box<Ev<'static>> = match id {
        // XF stands for all properties of files at once, for experiments only
        "C01" | "C02" | "C03" | "C04" | "C05" | "C15" | "XF" => {
            let id: Name = name(id);
            Box::new(move |c, m| file_check(id, c, m))
        }
        "C06" => Box::new(|c, m| c06(c, m)),
        "C07" => Box::new(|c, m| c07(c, m)),
        "C08" => Box::new(|c, m| c08(c, m)),
        "C09" => Box::new(|c, m| c09(c, m)),
        "C10" => Box::new(|c, m| c10(c, m)),
        "C16" => Box::new(|c, m| c16(c, m)),
        "C11" => Box::new(|c, m| crate::faults::c11(c, m)),
        "C12" => Box::new(|c, m| crate::faults::c12(c, m)),
        "C13" => Box::new(|c, m| crate::faults::c13(c, m)),
        _ => return None,
    };
    Some(b)
}

pub fn replay(id: &str, c: &Case) -> i32 {
    match eval_for(id) {
        None => {
            println!("no replay for {}", id);
            2
        }
        Some(e) => match evaluate(&*e, c, &mut Metrics::default()) {
            Eval::Bad { text, .. } => {
                println!("{}", text);
                1
            }
            _ => {
                println!("the property holds on this case");
                0
            }
        },
    }
}

pub fn entry(rep: &Report) -> bool {
    let id = rep.id.clone();
    let e = match eval_for(&id) {
        Some(e) => e,
        None => return false,
    };
    let sub = std::env::var("TSV_SUB").is_ok();
    std::thread::scope(|sc| {
        if id == "C02" || id == "C04" {
            sc.spawn(|| crate::bulk::huge(rep));
        }
        stages(rep, &id, &*e, sub);
    });
    true
}

fn stages(rep: &Report, id: &str, e: &Ev, sub: bool) {
    match id {
        "C01" => {
            rep.rule("random schemas and histories (families tiny, mixed, blocks, pages, wide, chunks, empty; with and without illegal calls and forced flushes), and long streams that are flushed by the real size threshold; the file is decoded by an independent reader and compared with the accepted points; non-trivial: at least one accepted point");
            cases(rep, "any", MANY, tier(rep, 25.0, 500.0), &|r, k| gen::any_case(r, k, true), e);
        }
        "XF" => {
            cases(rep, "any", MANY, 16.0, &|r, k| gen::any_case(r, k, true), e);
            cases(rep, "c02", MANY, 12.0, &gen_c02, e);
            cases(rep, "c03", MANY, 12.0, &gen_c03, e);
            cases(rep, "c05", MANY, 16.0, &gen_c05, e);
            cases(rep, "c15", MANY, 10.0, &gen_c15, e);
            cases(rep, "sizes", gen::SIZES, 60.0, &gen::sizes, e);
            cases(rep, "edges", MANY, 8.0, &edges, e);
            grids(rep, "XF", e);
        }
        "C02" => {
            rep.rule("random schemas with up to 700 devices and 800 measurements, names with dots, shared prefixes, joined-name collisions, and fixed sizes around the node capacities 256 and 65536; each declared and many undeclared names are looked up by binary search from the end of the file; non-trivial: at least one accepted point");
            grids(rep, "C02", e);
            cases(rep, "counts", MANY, tier(rep, 6.0, 150.0), &counts, e);
            cases(rep, "any", MANY, tier(rep, 20.0, 500.0), &gen_c02, e);
        }
        "C03" => {
            rep.rule("histories with several pages and chunks, extreme values, infinities, NaN and signed zeros; every statistics block is recomputed from the decoded points it covers; non-trivial: at least one accepted point");
            cases(rep, "any", MANY, tier(rep, 25.0, 500.0), &gen_c03, e);
        }
        "C04" => {
            rep.rule("random schemas and histories of all families and sizes around the index node capacities; the file is parsed by a strict forward scan and an index walk that must tile it completely and agree; non-trivial: at least one accepted point");
            grids(rep, "C04", e);
            cases(rep, "counts", MANY, tier(rep, 6.0, 150.0), &counts, e);
            cases(rep, "any", MANY, tier(rep, 20.0, 500.0), &|r, k| gen::any_case(r, k, k % 2 == 0), e);
        }
        "C05" => {
            rep.rule("one or two series per file with value patterns of every bit width, extremes, alternating limits, arbitrary float bits, time gaps of every width and lengths around the block and page limits, in a release build and in a build with overflow checks; non-trivial: at least one accepted point");
            cases(rep, "any", MANY, tier(rep, if sub { 12.0 } else { 18.0 }, 300.0), &gen_c05, e);
            if !sub {
                checked(rep);
            }
        }
        "C06" => {
            rep.rule("histories whose files are written with the declared, no, all and inverted compression; pages are decompressed by an independent Snappy decoder; non-trivial: at least one accepted point");
            cases(rep, "any", MANY, tier(rep, 22.0, 400.0), &gen_c06, e);
        }
        "C07" => {
            rep.rule("histories with repeated, older and negative timestamps on several series, before and after forced flushes; each answer is compared with the reference model; non-trivial: at least one out-of-order attempt");
            cases(rep, "any", MANY, tier(rep, 18.0, 400.0), &gen_c07, e);
        }
        "C08" => {
            rep.rule("histories with unknown names, wrong types and unsupported encodings, run with and without the illegal calls, comparing answers and bytes; non-trivial: at least one illegal call");
            cases(rep, "any", MANY, tier(rep, 22.0, 400.0), &gen_c08, e);
        }
        "C09" => {
            rep.rule("histories with batches, partly rejected ones included, run as batches and as single writes, comparing answers and bytes; non-trivial: at least one batch");
            cases(rep, "any", MANY, tier(rep, 18.0, 400.0), &c09_gen, e);
        }
        "C10" => {
            rep.rule("histories run again, with the schema declared in other orders, interleaved differently, in other processes and in a build with debug assertions, comparing bytes and answers; non-trivial: a file was compared");
            cases(rep, "any", MANY, tier(rep, 18.0, 400.0), &|r, k| if k % 30 == 7 { edges(r, k / 30) } else { gen::any_case(r, k, k % 3 == 0) }, e);
            c10_processes(rep, if rep.thorough { 4000 } else { 600 });
        }
        "C15" => {
            rep.rule("schemas with 0 to about 30000 series (sampled) and 65537 (fixed), names of every length and script, and paths whose hash is the smallest integer; the stored filter is compared bit by bit with an independently computed one; non-trivial: at least one series with data");
            {
                cases(rep, "extreme", 7 * MIN_HASH.len() as u64, 60.0, &|_, k| min_hash_case(k as usize), e);
            }
            cases(rep, "any", MANY, tier(rep, if sub { 8.0 } else { 16.0 }, 300.0), &gen_c15, e);
            if !sub {
                let edge = critical(if rep.thorough { 140_000 } else { 30_000 });
                let by_count = |r: &mut Rng, k: u64| match k % 4 {
                    0 if rep.thorough => gen::grid(1, 60_000 + r.usize(80_000), "counts"),
                    1 => counts(r, k),
                    _ => counted(r, edge[(k / 4 * 3 + [0, 0, 1, 2][k as usize % 4]) as usize % edge.len()]),
                };
                cases(rep, "counts", MANY, tier(rep, 14.0, 300.0), &by_count, &filter_only);
                cases(rep, "grid", 2, 60.0, &|_, k| if k == 0 { gen::grid(1, 65537, "grid") } else { gen::grid(257, 9, "grid") }, e);
                checked(rep);
            }
        }
        "C16" => {
            rep.rule("schemas with redeclared names built in random order, read back from the schema, exercised on a writer with legal and illegal points and read back from the file; all 256 codes are decoded; non-trivial: each case");
            c16_codes(rep);
            cases(rep, "any", MANY, tier(rep, 15.0, 300.0), &|r, k| {
                let mut c = gen::tiny(r, if k % 2 == 0 { 300 } else { 0 });
                c.ops.retain(|o| *o != Op::Flush);
                c
            }, e);
        }
        _ => {}
    }
    if ["C01", "C03", "C04", "C05", "C06"].contains(&id) {
        cases(rep, "sizes", gen::SIZES, 60.0, &gen::sizes, e);
        cases(rep, "edges", MANY, tier(rep, if sub { 4.0 } else { 6.0 }, 150.0), &edges, e);
    }
    if !sub && ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09"].contains(&id) {
        let v = crate::bulk::judged(rep.thorough);
        let v = if rep.thorough || ["C01", "C07", "C09"].contains(&id) { v } else { v[1..2].to_vec() };
        crate::bulk::check(rep, id, &v);
    }
}

/// The same check in a build with overflow checks and debug assertions
pub fn checked(rep: &Report) {
    if std::env::var("TSV_ONLY").is_ok() {
        return;
    }
    single(rep, "checked", || {
        let exe = match std::env::var("TSV_CHECKED") {
            Ok(e) => e,
            Err(_) => return rep.problem("no build with debug assertions"),
        };
        let dir = scratch().join("sub");
        let _ = std::fs::create_dir_all(&dir);
        let o = std::process::Command::new(exe)
            .args(["run", &rep.id])
            .env("TSV_SUB", "1")
            .env("VERIF_DIR", &dir)
            .env("TSV_SCRATCH", dir.join("s"))
            .env_remove("TSV_JOURNAL")
            .output();
        match o {
            Err(e) => rep.problem(format!("checked build: {}", e)),
            Ok(o) => {
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let n = t
                    .lines()
                    .find_map(|l| l.strip_prefix(&format!("{}: ", rep.id)))
                    .and_then(|l| l.split(' ').next())
                    .and_then(|x| x.parse().ok())
                    .unwrap_or(0);
                rep.metric("evaluations_with_overflow_checks", n);
                match o.status.code() {
                    Some(0) => {}
                    Some(1) => {
                        let p = t
                            .lines()
                            .find_map(|l| l.split("replay=").nth(1))
                            .unwrap_or("")
                            .to_string();
                        let body = std::fs::read_to_string(&p).unwrap_or_default();
                        let body: String = body.lines().skip(1).map(|l| format!("{}\n", l)).collect();
                        rep.violation(
                            "",
                            &format!("in a build with overflow checks:\n{}", t.lines().filter(|l| !l.starts_with("VIOLATION")).take(4).collect::<Vec<_>>().join("\n")),
                            &body,
                        );
                    }
                    c => rep.problem(format!("checked build ended with {:?}", c)),
                }
            }
        }
    });
}
