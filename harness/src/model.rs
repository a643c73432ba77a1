//! Schemas, histories and the reference model of the writer
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty {
    I32,
    I64,
    F32,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum En {
    Plain,
    Diff,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Co {
    None,
    Snappy,
}

impl Ty {
    pub fn code(self) -> u8 {
        match self {
            Ty::I32 => 1,
            Ty::I64 => 2,
            Ty::F32 => 3,
        }
    }
}
impl En {
    pub fn code(self) -> u8 {
        match self {
            En::Plain => 0,
            En::Diff => 4,
        }
    }
}
impl Co {
    pub fn code(self) -> u8 {
        match self {
            Co::None => 0,
            Co::Snappy => 1,
        }
    }
}

/// A value, floats as bit patterns so that equality is bit equality
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    I(i32),
    L(i64),
    F(u32),
    D(u64),
}

impl Val {
    pub fn ty(self) -> Option<Ty> {
        match self {
            Val::I(_) => Some(Ty::I32),
            Val::L(_) => Some(Ty::I64),
            Val::F(_) => Some(Ty::F32),
            Val::D(_) => None,
        }
    }
    pub fn show(self) -> String {
        match self {
            Val::I(v) => format!("I:{}", v),
            Val::L(v) => format!("L:{}", v),
            Val::F(v) => format!("F:{:08x}", v),
            Val::D(v) => format!("D:{:016x}", v),
        }
    }
    pub fn parse(t: &str) -> Val {
        let (k, v) = t.split_at(2);
        match k {
            "I:" => Val::I(v.parse().unwrap()),
            "L:" => Val::L(v.parse().unwrap()),
            "F:" => Val::F(u32::from_str_radix(v, 16).unwrap()),
            _ => Val::D(u64::from_str_radix(v, 16).unwrap()),
        }
    }
}

pub type Name = &'static str;

thread_local! {
    static ARENA: std::cell::RefCell<Option<std::collections::HashSet<Name>>> = const { std::cell::RefCell::new(None) };
}

/// Names made by this thread while this exists are freed with it. All that was
/// made from them (histories, schemas, writers) must be gone by then.
pub struct Names(());
impl Names {
    pub fn new() -> Names {
        ARENA.with(|a| *a.borrow_mut() = Some(Default::default()));
        Names(())
    }
}
impl Drop for Names {
    fn drop(&mut self) {
        if let Some(s) = ARENA.with(|a| a.borrow_mut().take()) {
            for n in s.into_iter().collect::<Vec<_>>() {
                // SAFETY: made by Box::leak in `name`, dropped once
                drop(unsafe { Box::from_raw(n as *const str as *mut str) });
            }
        }
    }
}

/// Names live as long as the current `Names`, or for the whole process, like
/// the string literals users pass
pub fn name(s: &str) -> Name {
    let own = ARENA.with(|a| {
        a.borrow_mut().as_mut().map(|h| match h.get(s) {
            Some(n) => *n,
            None => {
                let n: Name = Box::leak(s.to_string().into_boxed_str());
                h.insert(n);
                n
            }
        })
    });
    if let Some(n) = own {
        return n;
    }
    static POOL: Mutex<Option<HashMap<String, Name>>> = Mutex::new(None);
    let mut g = POOL.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    if let Some(n) = m.get(s) {
        return n;
    }
    let n: Name = Box::leak(s.to_string().into_boxed_str());
    m.insert(s.to_string(), n);
    n
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Meas {
    pub name: Name,
    pub ty: Ty,
    pub en: En,
    pub co: Co,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Spec {
    /// device, measurements; in declaration order
    pub devices: Vec<(Name, Vec<Meas>)>,
}

impl Spec {
    pub fn find(&self, d: &str, m: &str) -> Option<&Meas> {
        self.devices
            .iter()
            .find(|(n, _)| *n == d)
            .and_then(|(_, v)| v.iter().find(|x| x.name == m))
    }
    pub fn has_device(&self, d: &str) -> bool {
        self.devices.iter().any(|(n, _)| *n == d)
    }
    pub fn series(&self) -> usize {
        self.devices.iter().map(|d| d.1.len()).sum()
    }
    pub fn index(&self) -> HashMap<(Name, Name), Meas> {
        let mut m = HashMap::new();
        for (d, v) in &self.devices {
            for x in v {
                m.insert((*d, x.name), *x);
            }
        }
        m
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Write(Name, Name, i64, Val),
    Batch(Name, i64, Vec<(Name, Val)>),
    /// hook: the next accepted call flushes all chunk groups
    Flush,
    Close,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub family: &'static str,
    pub spec: Spec,
    pub ops: Vec<Op>,
    pub params: BTreeMap<String, String>,
}

impl Case {
    pub fn param(&self, k: &str) -> &str {
        self.params.get(k).map(|x| x.as_str()).unwrap_or("")
    }
    pub fn num(&self, k: &str) -> i64 {
        self.param(k).parse().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.params.insert(k.to_string(), v.to_string());
    }
    pub fn describe(&self) -> String {
        let mut s = format!(
            "{}: {} device(s), {} series, {} op(s)",
            self.family,
            self.spec.devices.len(),
            self.spec.series(),
            self.ops.len()
        );
        for (k, v) in &self.params {
            if v.len() < 60 {
                s.push_str(&format!(" {}={}", k, v));
            }
        }
        if let Some((d, ms)) = self.spec.devices.first() {
            if let Some(m) = ms.first() {
                let d: String = d.chars().take(20).collect();
                let n: String = m.name.chars().take(20).collect();
                s.push_str(&format!(
                    "; first series {:?}.{:?} {:?}/{:?}/{:?}",
                    d, n, m.ty, m.en, m.co
                ));
            }
        }
        for o in self.ops.iter().take(2) {
            match o {
                Op::Write(_, _, t, v) => s.push_str(&format!("; write t={} {}", t, v.show())),
                Op::Batch(_, t, v) => s.push_str(&format!("; batch t={} of {}", t, v.len())),
                Op::Flush => s.push_str("; flush"),
                Op::Close => s.push_str("; close"),
            }
        }
        s
    }

    pub fn text(&self) -> String {
        let mut o = String::new();
        o.push_str(&format!("family {}\n", self.family));
        for (k, v) in &self.params {
            o.push_str(&format!("param {} {}\n", k, v));
        }
        for (d, ms) in &self.spec.devices {
            o.push_str(&format!("device {}\n", hex(d)));
            for m in ms {
                o.push_str(&format!(
                    "series {} {} {} {}\n",
                    hex(m.name),
                    m.ty.code(),
                    m.en.code(),
                    m.co.code()
                ));
            }
        }
        for op in &self.ops {
            match op {
                Op::Write(d, m, t, v) => {
                    o.push_str(&format!("w {} {} {} {}\n", hex(d), hex(m), t, v.show()))
                }
                Op::Batch(d, t, ps) => {
                    o.push_str(&format!("b {} {}", hex(d), t));
                    for (m, v) in ps {
                        o.push_str(&format!(" {} {}", hex(m), v.show()));
                    }
                    o.push('\n');
                }
                Op::Flush => o.push_str("f\n"),
                Op::Close => o.push_str("c\n"),
            }
        }
        o
    }

    pub fn parse(t: &str) -> Case {
        let mut c = Case {
            family: "replay",
            spec: Spec::default(),
            ops: vec![],
            params: BTreeMap::new(),
        };
        for l in t.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            match p[0] {
                "family" => c.family = name(p[1]),
                "param" => {
                    c.params.insert(p[1].to_string(), p[2..].join(" "));
                }
                "device" => c.spec.devices.push((unhex(p[1]), vec![])),
                "series" => c.spec.devices.last_mut().unwrap().1.push(Meas {
                    name: unhex(p[1]),
                    ty: match p[2] {
                        "1" => Ty::I32,
                        "2" => Ty::I64,
                        _ => Ty::F32,
                    },
                    en: if p[3] == "0" { En::Plain } else { En::Diff },
                    co: if p[4] == "0" { Co::None } else { Co::Snappy },
                }),
                "w" => c.ops.push(Op::Write(
                    unhex(p[1]),
                    unhex(p[2]),
                    p[3].parse().unwrap(),
                    Val::parse(p[4]),
                )),
                "b" => {
                    let mut v = vec![];
                    let mut i = 3;
                    while i + 1 < p.len() {
                        v.push((unhex(p[i]), Val::parse(p[i + 1])));
                        i += 2;
                    }
                    c.ops.push(Op::Batch(unhex(p[1]), p[2].parse().unwrap(), v));
                }
                "f" => c.ops.push(Op::Flush),
                "c" => c.ops.push(Op::Close),
                _ => {}
            }
        }
        c
    }
}

fn hex(s: &str) -> String {
    let mut o = String::from("x");
    for b in s.bytes() {
        o.push_str(&format!("{:02x}", b));
    }
    o
}

fn unhex(s: &str) -> Name {
    let b: Vec<u8> = (1..s.len())
        .step_by(2)
        .map(|i| u8::from_str_radix(&s[i..i + 2], 16).unwrap())
        .collect();
    name(&String::from_utf8(b).unwrap())
}

/// Kinds of rejection
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Unknown,
    Type,
    Encoding,
    Order,
    Closed,
    Io,
    Other,
}

/// What the specification says about one point
#[derive(Clone, PartialEq, Debug)]
pub enum Verdict {
    Accept,
    /// any of these errors is a correct answer
    Reject(Vec<Kind>),
}

/// Reference model of a writer
pub struct Model {
    index: HashMap<(Name, Name), Meas>,
    devices: std::collections::HashSet<Name>,
    last: HashMap<(Name, Name), i64>,
    pub points: BTreeMap<(Name, Name), Vec<(i64, Val)>>,
    pub closed: bool,
}

impl Model {
    pub fn new(spec: &Spec) -> Model {
        Model {
            index: spec.index(),
            devices: spec.devices.iter().map(|d| d.0).collect(),
            last: HashMap::new(),
            points: BTreeMap::new(),
            closed: false,
        }
    }
    pub fn judge(&self, d: Name, m: Name, t: i64, v: Val) -> Verdict {
        if self.closed {
            return Verdict::Reject(vec![Kind::Closed]);
        }
        let meas = match self.index.get(&(d, m)) {
            None => return Verdict::Reject(vec![Kind::Unknown]),
            Some(x) => x,
        };
        let mut r = vec![];
        if v.ty() != Some(meas.ty) {
            r.push(Kind::Type);
        }
        if meas.ty == Ty::F32 && meas.en == En::Diff {
            r.push(Kind::Encoding);
        }
        if t <= *self.last.get(&(d, m)).unwrap_or(&-1) {
            r.push(Kind::Order);
        }
        if r.is_empty() {
            Verdict::Accept
        } else {
            Verdict::Reject(r)
        }
    }
    pub fn accept(&mut self, d: Name, m: Name, t: i64, v: Val) {
        self.last.insert((d, m), t);
        self.points.entry((d, m)).or_default().push((t, v));
    }
    pub fn knows_device(&self, d: Name) -> bool {
        self.devices.contains(d)
    }
    /// Applies an operation, returns the verdict of the whole call
    pub fn apply(&mut self, op: &Op) -> Verdict {
        match op {
            Op::Write(d, m, t, v) => {
                let r = self.judge(d, m, *t, *v);
                if r == Verdict::Accept {
                    self.accept(d, m, *t, *v);
                }
                r
            }
            Op::Batch(d, t, ps) => {
                if self.closed {
                    return Verdict::Reject(vec![Kind::Closed]);
                }
                if !self.knows_device(d) {
                    return Verdict::Reject(vec![Kind::Unknown]);
                }
                for (m, v) in ps {
                    let r = self.judge(d, m, *t, *v);
                    if r != Verdict::Accept {
                        return r;
                    }
                    self.accept(d, m, *t, *v);
                }
                Verdict::Accept
            }
            Op::Flush => Verdict::Accept,
            Op::Close => {
                self.closed = true;
                Verdict::Accept
            }
        }
    }
}
