//! Evidence, verdict lines, replays
use crate::json::{s, J};
use crate::judge::Metrics;
use crate::model::Case;
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Inner {
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub metrics: Metrics,
    pub violations: Vec<(String, String)>,
    pub known: Vec<String>,
    pub problems: Vec<String>,
    pub notes: Vec<(String, J)>,
}

pub struct Report {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub evals: AtomicU64,
    pub stop: AtomicBool,
    pub inner: Mutex<Inner>,
    pub rule: Mutex<String>,
    pub level: Mutex<&'static str>,
    pub assumptions: Mutex<Vec<String>>,
    known_list: Vec<(String, String)>,
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

impl Report {
    pub fn new(id: &str) -> Report {
        let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|x| x.parse().ok())
            .unwrap_or(1);
        let mut known_list = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
            for l in t.lines() {
                // known: property=<id> key=<key> <what>
                if let Some(r) = l.strip_prefix("known: property=") {
                    let mut p = r.splitn(3, ' ');
                    let (id2, key) = (p.next().unwrap_or(""), p.next().unwrap_or(""));
                    if id2 == id {
                        known_list.push((
                            key.trim_start_matches("key=").to_string(),
                            p.next().unwrap_or("").to_string(),
                        ));
                    }
                }
            }
        }
        Report {
            id: id.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            stop: AtomicBool::new(false),
            inner: Mutex::new(Inner {
                distinct: HashSet::new(),
                samples: vec![],
                metrics: Metrics::default(),
                violations: vec![],
                known: vec![],
                problems: vec![],
                notes: vec![],
            }),
            rule: Mutex::new(String::new()),
            level: Mutex::new("exploration"),
            assumptions: Mutex::new(vec![]),
            known_list,
        }
    }
    pub fn rule(&self, r: &str) {
        *self.rule.lock().unwrap() = r.to_string();
    }
    pub fn level(&self, l: &'static str) {
        *self.level.lock().unwrap() = l;
    }
    pub fn assume(&self, a: &str) {
        self.assumptions.lock().unwrap().push(a.to_string());
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    pub fn eval(&self, hash: Option<u64>) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if let Some(h) = hash {
            self.inner.lock().unwrap().distinct.insert(h);
        }
    }
    pub fn sample(&self, t: impl Into<String>) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 8 {
            i.samples.push(t.into());
        }
    }
    pub fn metric(&self, k: &'static str, n: u64) {
        self.inner.lock().unwrap().metrics.add(k, n);
    }
    pub fn metric_max(&self, k: &'static str, n: u64) {
        self.inner.lock().unwrap().metrics.max(k, n);
    }
    pub fn merge(&self, m: &Metrics) {
        self.inner.lock().unwrap().metrics.merge(m);
    }
    pub fn note(&self, k: &str, v: J) {
        self.inner.lock().unwrap().notes.push((k.to_string(), v));
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// Something kept the check from deciding
    pub fn problem(&self, t: impl Into<String>) {
        let t = t.into();
        eprintln!("problem: {}", t);
        self.inner.lock().unwrap().problems.push(t);
    }
    pub fn out_dir(&self) -> String {
        let d = format!("{}/out", verif_dir());
        let _ = std::fs::create_dir_all(&d);
        d
    }
    /// `key` identifies the specific failure for the known-findings file
    pub fn violation(&self, key: &str, text: &str, replay: &str) {
        if let Some((_, what)) = self.known_list.iter().find(|x| x.0 == key) {
            let l = format!("KNOWN-FINDING: property={} {} [{}]", self.id, what, key);
            let mut i = self.inner.lock().unwrap();
            if !i.known.contains(&l) {
                i.known.push(l);
            }
            return;
        }
        let d = self.out_dir();
        let mut i = self.inner.lock().unwrap();
        let path = format!("{}/{}-{}-{}.replay", d, self.id, self.seed, i.violations.len());
        let mut body = format!("property {}\n", self.id);
        for l in text.lines() {
            body.push_str(&format!("# {}\n", l));
        }
        body.push_str(replay);
        let _ = std::fs::write(&path, body);
        i.violations.push((text.to_string(), path));
        drop(i);
        self.stop.store(true, Ordering::Relaxed);
    }
    pub fn case_violation(&self, key: &str, text: &str, c: &Case) {
        self.violation(key, text, &c.text());
    }
    pub fn finish(&self) -> i32 {
        let i = self.inner.lock().unwrap();
        let wall = self.elapsed();
        let mut cov = vec![
            (
                "evaluations".to_string(),
                J::I(self.evals.load(Ordering::Relaxed) as i64),
            ),
            (
                "distinct_nontrivial".to_string(),
                J::I(i.distinct.len() as i64),
            ),
            ("rule".to_string(), s(self.rule.lock().unwrap().clone())),
            (
                "samples".to_string(),
                J::A(i.samples.iter().map(|x| s(x.clone())).collect()),
            ),
            (
                "observed".to_string(),
                J::O(i
                    .metrics
                    .0
                    .iter()
                    .map(|(k, v)| (k.to_string(), J::I(*v as i64)))
                    .collect()),
            ),
        ];
        for (k, v) in &i.notes {
            let t = match v {
                J::S(x) => s(x.clone()),
                J::I(x) => J::I(*x),
                J::N(x) => J::N(*x),
                J::B(x) => J::B(*x),
                _ => s("?"),
            };
            cov.push((k.clone(), t));
        }
        let ev = J::O(vec![
            ("property".into(), s(self.id.clone())),
            (
                "tier".into(),
                s(if self.thorough { "thorough" } else { "quick" }),
            ),
            ("seed".into(), J::I(self.seed as i64)),
            ("level".into(), s(*self.level.lock().unwrap())),
            ("coverage".into(), J::O(cov)),
            (
                "assumptions".into(),
                J::A(
                    self.assumptions
                        .lock()
                        .unwrap()
                        .iter()
                        .map(|x| s(x.clone()))
                        .collect(),
                ),
            ),
            ("wall_s".into(), J::N(wall)),
            ("violations".into(), J::I(i.violations.len() as i64)),
        ]);
        let d = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&d);
        if let Err(e) = std::fs::write(format!("{}/{}.json", d, self.id), ev.text()) {
            eprintln!("cannot write evidence: {}", e);
            return 3;
        }
        for k in &i.known {
            println!("{}", k);
        }
        println!(
            "{}: {} evaluations, {} distinct, {:.1} s",
            self.id,
            self.evals.load(Ordering::Relaxed),
            i.distinct.len(),
            wall
        );
        if !i.violations.is_empty() {
            for (t, p) in i.violations.iter().take(3) {
                println!("{}", t.lines().take(6).collect::<Vec<_>>().join("\n"));
                println!("VIOLATION property={} replay={}", self.id, p);
            }
            return 1;
        }
        if !i.problems.is_empty() {
            for p in &i.problems {
                println!("INCONCLUSIVE: {}", p);
            }
            return 3;
        }
        0
    }
}
