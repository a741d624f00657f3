//! A scenario is everything that decides an execution: disk content, calls, schedule and faults.
use crate::drive::{self, Call};
use crate::sim::fs::{Action, FaultPlan, Image, Node, bstr};
use crate::sim::sched::{Explicit, SchedPlan};
use crate::sim::{End, Run, Spec, exec, rng};
use crate::world::{Match, StreamDamage};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Trunc(usize),
    /// flip this bit of this byte
    Flip(usize, u8),
    /// zero a block
    Zero(usize, usize),
    /// exchange two blocks of this size
    Swap(usize, usize, usize),
    /// repeat a block
    Dup(usize, usize),
    Set(usize, #[serde(with = "bstr")] Vec<u8>),
}
impl Damage {
    pub fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        if n == 0 {
            return;
        }
        match self {
            Damage::Trunc(k) => b.truncate(*k),
            Damage::Flip(i, k) => b[i % n] ^= 1 << (k & 7),
            Damage::Zero(i, l) => {
                let i = i % n;
                let e = (i + l).min(n);
                b[i..e].fill(0)
            }
            Damage::Swap(i, j, l) => {
                let (i, j) = (i % n, j % n);
                let l = (*l).min(n - i).min(n - j);
                for k in 0..l {
                    b.swap(i + k, j + k)
                }
            }
            Damage::Dup(i, l) => {
                let i = i % n;
                let e = (i + l).min(n);
                let x = b[i..e].to_vec();
                b.splice(e..e, x);
            }
            Damage::Set(i, v) => {
                for (k, x) in v.iter().enumerate() {
                    if i + k < n {
                        b[i + k] = *x
                    }
                }
            }
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Match(Box<Match>),
    Cut(Box<Match>, StreamDamage),
    Asset(String),
    Raw(#[serde(with = "bstr")] Vec<u8>),
    Text(String),
    Damaged(Box<Kind>, Vec<Damage>),
    /// archive whose streams are given as bytes: header, init, details, tracker, game, messages
    Streams(Box<Match>, Vec<(u8, Vec<Damage>)>),
    Map(Box<crate::maps::MapSpec>),
    Link(#[serde(with = "bstr")] Vec<u8>),
    Special,
    Dir,
}
impl Kind {
    pub fn node(&self) -> Node {
        match self {
            Kind::Link(t) => Node::Link(t.clone()),
            Kind::Special => Node::Special,
            Kind::Dir => Node::Dir,
            k => Node::File(k.bytes()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Kind::Match(m) => m.bytes(None),
            Kind::Cut(m, d) => m.bytes(Some(d)),
            Kind::Asset(n) => std::fs::read(format!("/repo/assets/{n}")).unwrap_or_default(),
            Kind::Map(m) => m.bytes(),
            Kind::Raw(b) => b.clone(),
            Kind::Text(s) => s.clone().into_bytes(),
            Kind::Damaged(k, ds) => {
                let mut b = k.bytes();
                for d in ds {
                    d.apply(&mut b);
                }
                b
            }
            Kind::Streams(m, ds) => m.bytes_with(|i, b| {
                for (k, d) in ds {
                    if *k == i {
                        for d in d {
                            d.apply(b);
                        }
                    }
                }
            }),
            _ => vec![],
        }
    }
    pub fn the_match(&self) -> Option<&Match> {
        match self {
            Kind::Match(m) => Some(m),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSpec {
    #[serde(with = "bstr")]
    pub path: Vec<u8>,
    pub kind: Kind,
    /// a file that is not a good replay and may be left out
    #[serde(default)]
    pub bad: bool,
}
impl FileSpec {
    pub fn new(path: impl AsRef<[u8]>, kind: Kind) -> FileSpec {
        FileSpec { path: path.as_ref().to_vec(), kind, bad: false }
    }
    pub fn bad(path: impl AsRef<[u8]>, kind: Kind) -> FileSpec {
        FileSpec { path: path.as_ref().to_vec(), kind, bad: true }
    }
    pub fn name(&self) -> String {
        bstr::enc(&self.path)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    /// which of the property's scenario shapes
    #[serde(default)]
    pub shape: String,
    #[serde(default)]
    pub files: Vec<FileSpec>,
    #[serde(default)]
    pub balance: Value,
    #[serde(default = "one")]
    pub workers: usize,
    #[serde(default)]
    pub sched: SchedPlan,
    #[serde(default)]
    pub faults: FaultPlan,
    #[serde(default)]
    pub calls: Vec<Call>,
    /// property specific
    #[serde(default)]
    pub p: Value,
}
fn one() -> usize {
    1
}
impl Scenario {
    pub fn new(prop: &str, seed: u64) -> Scenario {
        Scenario {
            prop: prop.into(),
            seed,
            shape: String::new(),
            files: vec![],
            balance: Value::Null,
            workers: 1,
            sched: SchedPlan::default(),
            faults: FaultPlan::default(),
            calls: vec![],
            p: Value::Null,
        }
    }
    pub fn image(&self) -> Image {
        self.image_of(|_| true)
    }
    pub fn image_of(&self, f: impl Fn(&FileSpec) -> bool) -> Image {
        let mut i = Image::new();
        for s in &self.files {
            if f(s) {
                i.put(&s.path, s.kind.node());
            }
        }
        i
    }
}

#[derive(Clone, Debug)]
pub enum Bad {
    Violation { sig: String, what: String },
    Harness(String),
}
pub fn bad<T>(sig: impl Into<String>, what: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Violation { sig: sig.into(), what: what.into() })
}
pub fn harness<T>(s: impl Into<String>) -> Result<T, Bad> {
    Err(Bad::Harness(s.into()))
}

/// What was covered.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Obs {
    pub execs: u64,
    pub ticks: u64,
    pub sim_ns: u64,
    pub io_ops: u64,
    pub preempts: u64,
    pub switches: u64,
    pub threads: u64,
    pub futex_waits: u64,
    pub spurious: u64,
    pub faults: BTreeMap<String, u64>,
    pub traces: BTreeSet<u64>,
    pub inter: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub counts: BTreeMap<String, u64>,
    /// hash over all executions in order: the determinism check compares it
    pub chain: u64,
    pub peak_mem: u64,
    pub fd_high: u64,
    #[serde(skip)]
    pub last: Option<Box<Last>>,
}
/// the last execution with faults or threads, for the replay file
#[derive(Clone, Debug)]
pub struct Last {
    pub trace: u64,
    pub delivered: Vec<crate::sim::fs::Fault>,
    pub rec: Explicit,
    pub log: Vec<String>,
    pub panics: Vec<String>,
    pub end: String,
}
impl Obs {
    pub fn hit(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    pub fn merge(&mut self, o: Obs) {
        self.execs += o.execs;
        self.ticks += o.ticks;
        self.sim_ns += o.sim_ns;
        self.io_ops += o.io_ops;
        self.preempts += o.preempts;
        self.switches += o.switches;
        self.threads = self.threads.max(o.threads);
        self.futex_waits += o.futex_waits;
        self.spurious += o.spurious;
        self.peak_mem = self.peak_mem.max(o.peak_mem);
        self.fd_high = self.fd_high.max(o.fd_high);
        for (k, n) in o.faults {
            *self.faults.entry(k).or_default() += n;
        }
        for (k, n) in o.counts {
            *self.counts.entry(k).or_default() += n;
        }
        self.traces.extend(o.traces);
        self.inter.extend(o.inter);
        self.states.extend(o.states);
        self.nontrivial.extend(o.nontrivial);
        self.chain ^= rng::mix(o.chain);
    }
    fn saw(&mut self, r: &Run) {
        let s = &r.st;
        self.execs += 1;
        self.ticks += s.ticks;
        self.sim_ns += s.sim_ns;
        self.io_ops += s.io_ops;
        self.preempts += s.preempts;
        self.switches += s.switches;
        self.threads = self.threads.max(s.threads as u64);
        self.futex_waits += s.futex_waits;
        self.spurious += s.spurious;
        self.peak_mem = self.peak_mem.max(s.peak_mem as u64);
        self.fd_high = self.fd_high.max(s.fd_high);
        for f in &s.delivered {
            let k = match &f.act {
                Action::Errno(e) => format!("{:?} fails errno {e}", f.op),
                Action::Short(_) => format!("{:?} short", f.op),
                Action::Torn(_, e) => format!("{:?} torn then errno {e}", f.op),
                Action::Size(_) => format!("{:?} wrong size reported", f.op),
                Action::Delay(_) => format!("{:?} delayed", f.op),
                Action::Vanish => format!("{:?} file vanished", f.op),
                Action::Shrink(_) => format!("{:?} file shrunk", f.op),
                Action::Crash(_) => "process killed".into(),
            };
            *self.faults.entry(k).or_default() += 1;
        }
        self.traces.insert(s.trace);
        if s.threads > 2 {
            self.inter.insert(s.inter);
        }
        self.chain = rng::mix(self.chain ^ s.trace);
        if r.end != End::Ok || !s.delivered.is_empty() || s.threads > 2 || self.last.is_none() {
            self.last = Some(Box::new(Last {
                trace: s.trace,
                delivered: s.delivered.clone(),
                rec: s.rec.clone(),
                log: s.log.clone(),
                panics: s.panics.clone(),
                end: format!("{:?}", r.end),
            }));
        }
    }
}

pub struct Out {
    pub run: Run,
    pub res: Vec<Value>,
}
#[derive(Clone, Debug)]
pub struct How {
    pub sched: SchedPlan,
    pub faults: FaultPlan,
    pub workers: usize,
    pub seed: u64,
    pub step_cap: u64,
    pub mem_cap: usize,
    pub want_fs: bool,
    pub fail_threads: usize,
}
impl How {
    /// undisturbed, sequential
    pub fn clean(sc: &Scenario) -> How {
        How {
            sched: SchedPlan::default(),
            faults: FaultPlan::default(),
            workers: 1,
            seed: sc.seed,
            step_cap: 400_000_000,
            mem_cap: 1 << 30,
            want_fs: false,
            fail_threads: 0,
        }
    }
    /// as the scenario says
    pub fn dirty(sc: &Scenario) -> How {
        How {
            sched: sc.sched.clone(),
            faults: sc.faults.clone(),
            workers: sc.workers,
            fail_threads: sc.p["fail_threads"].as_u64().unwrap_or(0) as usize,
            ..How::clean(sc)
        }
    }
    pub fn disk(mut self) -> How {
        self.want_fs = true;
        self
    }
}
pub fn go(sc: &Scenario, o: &mut Obs, h: &How, img: &Image, calls: &[Call]) -> Result<Out, Bad> {
    let spec = Spec {
        seed: h.seed,
        sched: h.sched.clone(),
        faults: h.faults.clone(),
        workers: h.workers,
        step_cap: h.step_cap,
        mem_cap: h.mem_cap,
        fail_threads: h.fail_threads,
    };
    let (c, b) = (calls.to_vec(), sc.balance.clone());
    let mut run = exec(&spec, img, h.want_fs, move || drive::body(c, b));
    if run.end == End::WallClock {
        // real time is the one thing not simulated: look again before believing it
        o.hit("wall clock limit, run repeated");
        let (c, b) = (calls.to_vec(), sc.balance.clone());
        run = exec(&spec, img, h.want_fs, move || drive::body(c, b));
    }
    o.saw(&run);
    if let End::Harness(s) = &run.end {
        return harness(s.clone());
    }
    if let Some(n) = run.st.notes.iter().find(|n| n.starts_with("HARNESS")) {
        return harness(n.clone());
    }
    let res = match run.json() {
        Value::Array(v) => v,
        _ => vec![],
    };
    Ok(Out { run, res })
}
impl Out {
    /// The process must have come to its end, and no call may have panicked.
    pub fn sound(&self) -> Result<(), Bad> {
        self.ended()?;
        for (i, r) in self.res.iter().enumerate() {
            no_panic(r, i)?;
        }
        Ok(())
    }
    pub fn ended(&self) -> Result<(), Bad> {
        match &self.run.end {
            End::Ok => Ok(()),
            End::Panic(p) => bad(format!("panic {}", site(p)), format!("the process panicked: {p}")),
            End::Deadlock => bad("deadlock", "no thread can ever run again"),
            End::StepCap => bad("step-cap", format!("still running after {} steps", self.run.st.ticks)),
            End::Crash => harness("unplanned crash"),
            End::OutOfMemory(n) => {
                bad("memory", format!("allocation of {n} bytes on top of {} exceeds the memory bound", self.run.st.peak_mem))
            }
            End::Signal(s) => bad(format!("signal {s}"), format!("the process died of signal {s}")),
            End::WallClock => bad("wall-clock", "still running after the real-time limit, twice"),
            End::Harness(s) => harness(s.clone()),
        }
    }
    pub fn ok(&self, i: usize) -> Option<&Value> {
        self.res.get(i).and_then(|r| r.get("ok"))
    }
    pub fn err(&self, i: usize) -> Option<String> {
        self.res.get(i).and_then(|r| r.get("err")).map(|e| e.as_str().unwrap_or("").to_string())
    }
}
/// position of a panic message, without the text
pub fn site(p: &str) -> String {
    match p.rfind(" at ") {
        Some(i) => {
            let s = &p[i + 4..];
            let k = s.rfind(':').unwrap_or(s.len());
            let f = &s[..k];
            f.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/")
        }
        None => p.chars().take(60).collect(),
    }
}
pub fn no_panic(r: &Value, i: usize) -> Result<(), Bad> {
    fn find(v: &Value) -> Option<String> {
        match v {
            Value::Object(m) => {
                if let Some(p) = m.get("panic") {
                    return p.as_str().map(|s| s.to_string());
                }
                match m.get("ok") {
                    Some(Value::Array(a)) => a.iter().find_map(find),
                    _ => None,
                }
            }
            Value::Array(a) => a.iter().find_map(find),
            _ => None,
        }
    }
    match find(r) {
        Some(p) => bad(format!("panic {}", site(&p)), format!("call {i} panicked: {p}")),
        None => Ok(()),
    }
}
/// First difference between two JSON values, as a path and both sides.
pub fn diff(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, path: &mut String) -> Option<String> {
        if a == b {
            return None;
        }
        match (a, b) {
            (Value::Array(x), Value::Array(y)) => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let n = path.len();
                    path.push_str(&format!("[{i}]"));
                    if let Some(d) = go(p, q, path) {
                        return Some(d);
                    }
                    path.truncate(n);
                }
                Some(format!("{path}: {} entries against {}", x.len(), y.len()))
            }
            (Value::Object(x), Value::Object(y)) => {
                for (k, p) in x {
                    let n = path.len();
                    path.push_str(&format!(".{k}"));
                    match y.get(k) {
                        None => return Some(format!("{path}: {} only on the left", short(p))),
                        Some(q) => {
                            if let Some(d) = go(p, q, path) {
                                return Some(d);
                            }
                        }
                    }
                    path.truncate(n);
                }
                for k in y.keys() {
                    if !x.contains_key(k) {
                        return Some(format!("{path}.{k}: {} only on the right", short(&y[k])));
                    }
                }
                None
            }
            _ => Some(format!("{path}: {} against {}", short(a), short(b))),
        }
    }
    go(a, b, &mut String::new())
}
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 240 {
        let k = (0..=240).rev().find(|k| s.is_char_boundary(*k)).unwrap();
        format!("{}...", &s[..k])
    } else {
        s
    }
}
/// The result without the descriptor list.
pub fn strip(v: &Value) -> Value {
    match v {
        Value::Object(m) if m.contains_key("fds") => {
            Value::Object(m.iter().filter(|(k, _)| *k != "fds").map(|(k, x)| (k.clone(), strip(x))).collect())
        }
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), strip(x))).collect()),
        Value::Array(a) => a.iter().map(strip).collect::<Vec<_>>().into(),
        v => v.clone(),
    }
}
