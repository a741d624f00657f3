//! Seeded search: jobs over worker processes, minimisation, replay files and evidence.
use crate::props::{Def, defs};
use crate::scenario::{Bad, Obs, Scenario};
use crate::sim::rng::{Rng, hash_bytes, mix};
use crate::sim::{self, GUARDS};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub const OUT: &str = "/verif/out";

pub struct Opt {
    pub thorough: bool,
    pub seed: u64,
    pub workers: usize,
    pub jobs: Option<u64>,
    pub secs: Option<u64>,
    /// do not write evidence
    pub dry: bool,
}

pub fn job_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(mix(seed) ^ hash_bytes(7, prop.as_bytes()) ^ mix(i.wrapping_mul(0x51ed)))
}
pub fn scenario_of(d: &Def, seed: u64, i: u64, thorough: bool) -> Scenario {
    let s = job_seed(seed, d.id, i);
    let mut r = Rng::new(s);
    let mut sc = (d.make)(&mut r, i, thorough);
    sc.prop = d.id.into();
    sc.seed = s;
    sc
}
/// A panic of the oracle is an error of the harness.
pub fn judge(d: &Def, sc: &Scenario, o: &mut Obs) -> Result<(), Bad> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (d.check)(sc, o))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(Bad::Harness(format!("the check panicked: {}", m.unwrap_or_default())))
        }
    }
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub text: String,
}
pub fn known() -> Vec<Known> {
    let t = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    let mut o = vec![];
    for l in t.lines() {
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let Some((p, r)) = r.split_once(" sig=\"") else { continue };
        let Some((s, t)) = r.split_once('"') else { continue };
        o.push(Known { prop: p.trim().into(), sig: s.into(), text: t.trim().into() });
    }
    o
}

struct Shared(*mut u64);
impl Shared {
    fn new() -> Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            Shared(p as *mut u64)
        }
    }
    fn at(&self, k: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(k) as *const AtomicU64) }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0 as *mut libc::c_void, 4096) };
    }
}
/// Forks; the child runs `f` with its standard output silenced and exits.
fn forked(f: impl FnOnce()) -> i32 {
    unsafe {
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(n, 1);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            libc::_exit(0);
        }
        pid
    }
}
fn wait(pid: i32) -> i32 {
    let mut st = 0;
    while unsafe { libc::waitpid(pid, &mut st, 0) } < 0 {}
    st
}

pub fn check(id: &str, opt: &Opt) -> i32 {
    let Some(d) = defs().into_iter().find(|d| d.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let t0 = Instant::now();
    let dir = format!("{OUT}/{id}-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(format!("{OUT}/replays")).unwrap();
    let jobs = opt.jobs.unwrap_or(if opt.thorough { u64::MAX / 2 } else { d.quick });
    let cap = Duration::from_secs(opt.secs.unwrap_or(if opt.thorough { 1500 } else { 150 }));
    // (only for experiments: leave out the first, recorded, jobs)
    let first: u64 = std::env::var("S2_FIRST").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let sh = Shared::new();
    sh.at(0).store(u64::MAX, Ordering::SeqCst); // lowest job with a violation
    sh.at(1).store(0, Ordering::SeqCst); // jobs done
    let known: Vec<Known> = known().into_iter().filter(|k| k.prop == id).collect();
    let mut pids = vec![];
    for w in 0..opt.workers as u64 {
        pids.push(forked(|| {
            let mut all = Obs::default();
            let mut found = vec![];
            let mut finds: BTreeMap<String, u64> = BTreeMap::new();
            let mut harness: Vec<Value> = vec![];
            let (mut done, mut twice, mut differ) = (0u64, 0u64, vec![]);
            let mut i = w + first;
            let mut samples = vec![];
            while i < jobs && t0.elapsed() < cap && i < sh.at(0).load(Ordering::SeqCst) {
                let sc = scenario_of(&d, opt.seed, i, opt.thorough);
                let mut o = Obs::default();
                let r = judge(&d, &sc, &mut o);
                if i < 3 {
                    samples.push(json!({"job": i, "seed": sc.seed, "shape": sc.shape, "workers": sc.workers,
                        "files": sc.files.iter().map(|f| f.name()).collect::<Vec<_>>(),
                        "sched": sc.sched, "faults": sc.faults, "events": events(&sc), "execs": o.execs,
                        "steps": o.ticks, "faults_delivered": o.faults}));
                }
                if mix(sc.seed) % 32 == 0 && r.is_ok() {
                    let mut o2 = Obs::default();
                    let _ = judge(&d, &sc, &mut o2);
                    twice += 1;
                    if o2.chain != o.chain {
                        differ.push(i);
                    }
                }
                done += 1;
                sh.at(1).fetch_add(1, Ordering::SeqCst);
                match r {
                    Ok(()) => {}
                    Err(Bad::Harness(h)) => {
                        if harness.len() < 5 {
                            harness.push(json!({"job": i, "what": h}));
                        }
                    }
                    Err(Bad::Violation { sig, what }) => {
                        if let Some(k) = known.iter().find(|k| k.sig == sig) {
                            *finds.entry(k.sig.clone()).or_default() += 1;
                        } else {
                            found.push(json!({"job": i, "sig": sig, "what": what}));
                            sh.at(0).fetch_min(i, Ordering::SeqCst);
                        }
                    }
                }
                all.merge(o);
                i += opt.workers as u64;
            }
            let v = json!({"done": done, "twice": twice, "differ": differ, "found": found, "finds": finds,
                "harness": harness, "samples": samples, "obs": all});
            std::fs::write(format!("{dir}/{w}.json"), serde_json::to_vec(&v).unwrap()).unwrap();
        }));
    }
    for p in pids {
        wait(p);
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut all = Obs::default();
    let (mut done, mut twice) = (0, 0);
    let mut differ: Vec<Value> = vec![];
    let mut found: Vec<Value> = vec![];
    let mut harness: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut finds: BTreeMap<String, u64> = BTreeMap::new();
    for w in 0..opt.workers {
        let Ok(b) = std::fs::read(format!("{dir}/{w}.json")) else {
            harness.push(json!({"job": -1, "what": format!("worker {w} died")}));
            continue;
        };
        let mut v: Value = serde_json::from_slice(&b).unwrap();
        done += v["done"].as_u64().unwrap();
        twice += v["twice"].as_u64().unwrap();
        differ.extend(v["differ"].as_array().unwrap().clone());
        found.extend(v["found"].as_array().unwrap().clone());
        harness.extend(v["harness"].as_array().unwrap().clone());
        samples.extend(v["samples"].as_array().unwrap().clone());
        for (k, n) in v["finds"].as_object().unwrap() {
            *finds.entry(k.clone()).or_default() += n.as_u64().unwrap();
        }
        all.merge(serde_json::from_value(v["obs"].take()).unwrap());
    }
    let _ = std::fs::remove_dir_all(&dir);
    samples.sort_by_key(|s| s["job"].as_u64());
    found.sort_by_key(|f| f["job"].as_u64());
    for (s, n) in &finds {
        let k = known.iter().find(|k| &k.sig == s).unwrap();
        println!("KNOWN-FINDING: property={id} {} ({n} times, sig {s})", k.text);
    }
    let mut code = 0;
    let mut viol = 0;
    if let Some(f) = found.first() {
        let i = f["job"].as_u64().unwrap();
        let sc = scenario_of(&d, opt.seed, i, opt.thorough);
        let sig = f["sig"].as_str().unwrap();
        eprintln!("job {i} seed {}: {sig}: {}", sc.seed, f["what"].as_str().unwrap());
        let min = minimise(&d, &sc, sig, Duration::from_secs(if std::env::var_os("S2_NO_MIN").is_some() { 0 } else if opt.thorough { 240 } else { 60 }));
        let path = write_replay(&d, opt, i, &sc, min);
        println!("VIOLATION property={id} replay={path}");
        code = 1;
        viol = found.len();
    } else if !harness.is_empty() {
        for h in &harness {
            eprintln!("HARNESS ERROR property={id} job {}: {}", h["job"], h["what"].as_str().unwrap_or(""));
        }
        code = 2;
    }
    if !differ.is_empty() {
        eprintln!("note: jobs {differ:?} did not repeat exactly");
    }
    let wall = t0.elapsed().as_secs_f64();
    let (hit, edges) = sim::edges_reached();
    let ev = json!({
        "property": id,
        "tier": if opt.thorough { "thorough" } else { "quick" },
        "seed": opt.seed,
        "level": d.level,
        "wall_s": (wall * 1000.0).round() / 1000.0,
        "violations": viol,
        "assumptions": crate::props::ASSUMPTIONS,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": all.nontrivial.len(),
            "rule": d.rule,
            "samples": samples,
            "simulated_runs": all.execs,
            "seeds_per_hour": (done as f64 * 3600.0 / search_s.max(0.001)).round(),
            "runs_per_hour": (all.execs as f64 * 3600.0 / search_s.max(0.001)).round(),
            "simulated_time_s": all.sim_ns as f64 / 1e9,
            "steps": all.ticks,
            "file_operations": all.io_ops,
            "faults_injected": all.faults,
            "distinct_executions": all.traces.len(),
            "distinct_interleavings": all.inter.len(),
            "interleaving_measure": "hash of the sequence of (thread, code edge or operation) at every context switch of runs with more than one library thread",
            "distinct_states": all.states.len(),
            "preemptions": all.preempts,
            "context_switches": all.switches,
            "blocking_waits": all.futex_waits,
            "spurious_wakeups": all.spurious,
            "max_threads": all.threads,
            "peak_memory_bytes": all.peak_mem,
            "max_open_files": all.fd_high,
            "cases": all.counts,
            "library_edges_reached": hit,
            "library_edges": edges,
            "edges_instrumented": GUARDS.load(Ordering::Relaxed),
            "repeated_runs": twice,
            "repeated_runs_that_differed": differ.len(),
            "known_findings_met": finds,
            "real_code": "the whole s2protocol crate, nom-mpq, arrow, rayon, serde, std (compiled from the working tree and the cargo cache)",
            "stubbed": "kernel: file system, threads' scheduling, futexes, clocks, randomness, memory limit",
        },
    });
    if !opt.dry {
        std::fs::create_dir_all("/verif/evidence").unwrap();
        std::fs::write(format!("/verif/evidence/{id}.json"), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    }
    eprintln!(
        "{id}: {done} jobs, {} runs, {} distinct non-trivial, {:.1}s, faults {:?}, cases {:?}",
        all.execs,
        all.nontrivial.len(),
        wall,
        all.faults,
        all.counts
    );
    code
}
fn events(sc: &Scenario) -> Value {
    use crate::scenario::Kind;
    sc.files
        .iter()
        .map(|f| match &f.kind {
            Kind::Match(m) | Kind::Cut(m, _) | Kind::Streams(m, _) => {
                json!({"tracker": m.tracker.len(), "game": m.game.len(), "messages": m.msgs.len(), "version": m.version()})
            }
            k => Value::String(format!("{k:?}").chars().take(60).collect()),
        })
        .collect::<Vec<_>>()
        .into()
}

// ------------------------------------------------------------------ minimisation
struct Mini<'a> {
    d: &'a Def,
    sig: String,
    end: Instant,
    tried: u64,
}
impl Mini<'_> {
    fn out_of_time(&self) -> bool {
        Instant::now() >= self.end
    }
    /// First candidate that still violates in the same way.
    fn first(&mut self, cands: &[Scenario]) -> Option<usize> {
        for (b, chunk) in cands.chunks(8).enumerate() {
            if self.out_of_time() {
                return None;
            }
            self.tried += chunk.len() as u64;
            let sh = Shared::new();
            let pids: Vec<i32> = chunk
                .iter()
                .enumerate()
                .map(|(k, c)| {
                    forked(|| {
                        let mut o = Obs::default();
                        if let Err(Bad::Violation { sig, .. }) = judge(self.d, c, &mut o)
                            && sig == self.sig
                        {
                            sh.at(k).store(1, Ordering::SeqCst);
                        }
                    })
                })
                .collect();
            for p in pids {
                wait(p);
            }
            if let Some(k) = (0..chunk.len()).find(|k| sh.at(*k).load(Ordering::SeqCst) == 1) {
                return Some(b * 8 + k);
            }
        }
        None
    }
    fn one(&mut self, sc: &mut Scenario, c: Scenario) -> bool {
        if self.first(std::slice::from_ref(&c)).is_some() {
            *sc = c;
            return true;
        }
        false
    }
    /// Removes elements of the array at this place.
    fn shrink_list(&mut self, sc: &mut Scenario, path: &str) {
        let mut v = serde_json::to_value(&*sc).unwrap();
        let Some(n) = v.pointer(path).and_then(|a| a.as_array()).map(|a| a.len()) else { return };
        let mut n = n;
        let mut size = n.div_ceil(2).max(1);
        while n > 0 && !self.out_of_time() {
            let arr = v.pointer(path).unwrap().as_array().unwrap().clone();
            let mut cands = vec![];
            let mut vals = vec![];
            let mut at = 0;
            while at < n {
                let mut a = arr.clone();
                a.drain(at..(at + size).min(n));
                let mut w = v.clone();
                *w.pointer_mut(path).unwrap() = Value::Array(a);
                if let Ok(s) = serde_json::from_value::<Scenario>(w.clone()) {
                    cands.push(s);
                    vals.push(w);
                }
                at += size;
            }
            match self.first(&cands) {
                Some(k) => {
                    *sc = cands[k].clone();
                    v = vals[k].clone();
                    n = v.pointer(path).unwrap().as_array().unwrap().len();
                    size = size.min(n.max(1));
                }
                None if size == 1 => break,
                None => size = size.div_ceil(2).max(1),
            }
        }
    }
    fn set(&mut self, sc: &mut Scenario, path: &str, to: Value) -> bool {
        let mut v = serde_json::to_value(&*sc).unwrap();
        match v.pointer_mut(path) {
            Some(x) if *x != to => *x = to,
            _ => return false,
        }
        match serde_json::from_value::<Scenario>(v) {
            Ok(c) => self.one(sc, c),
            Err(_) => false,
        }
    }
}
/// Lists worth shrinking anywhere in a scenario.
fn lists(v: &Value, path: &str, out: &mut Vec<String>) {
    const NAMES: [&str; 15] = [
        "sticky", "files", "tracker", "game", "msgs", "list", "probs", "preempt", "choice", "balance", "Damaged", "Streams", "calls", "Par", "muts",
    ];
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = format!("{path}/{}", k.replace('~', "~0").replace('/', "~1"));
                if x.is_array() && NAMES.contains(&k.as_str()) {
                    if k == "Damaged" || k == "Streams" {
                        out.push(format!("{p}/1"));
                    } else {
                        out.push(p.clone());
                    }
                }
                // event payloads are not descended into
                if !["v", "header", "details", "init"].contains(&k.as_str()) {
                    lists(x, &p, out);
                }
            }
        }
        Value::Array(a) => {
            if a.len() > 64 {
                return;
            }
            for (i, x) in a.iter().enumerate() {
                if x.is_object() || x.is_array() {
                    lists(x, &format!("{path}/{i}"), out);
                }
            }
        }
        _ => {}
    }
}
fn minimise(d: &Def, sc: &Scenario, sig: &str, budget: Duration) -> Scenario {
    let mut m = Mini { d, sig: sig.into(), end: Instant::now() + budget, tried: 0 };
    let mut s = sc.clone();
    if m.first(std::slice::from_ref(&s)).is_none() {
        eprintln!("note: the violation did not repeat in a fresh process");
        return s;
    }
    // schedule and faults first: everything after runs faster without them
    for (p, v) in [
        ("/sched", serde_json::to_value(crate::sim::sched::SchedPlan::default()).unwrap()),
        ("/workers", json!(1)),
        ("/workers", json!(2)),
        ("/faults/dir_order", json!(0)),
        ("/faults/dt_unknown", json!(false)),
        ("/faults/disk_space", Value::Null),
        ("/faults/max_fds", Value::Null),
        ("/faults/probs", json!([])),
        ("/sched/spurious", json!(0)),
        ("/sched/io_switch", json!(0)),
        ("/sched/mode", json!(1)),
        ("/balance", Value::Null),
        ("/balance", json!([])),
    ] {
        m.set(&mut s, p, v);
    }
    for round in 0..2 {
        let mut ls = vec![];
        lists(&serde_json::to_value(&s).unwrap(), "", &mut ls);
        ls.sort_by_key(|p| if p.starts_with("/faults") { 0 } else if p == "/files" { 1 } else { 2 + p.len() });
        for p in ls {
            m.shrink_list(&mut s, &p);
        }
        if round == 0 {
            // seeded faults and schedule become explicit ones
            let mut o = Obs::default();
            let _ = judge(d, &s, &mut o);
            if let Some(l) = o.last {
                if !s.faults.probs.is_empty() {
                    let mut c = s.clone();
                    c.faults.probs.clear();
                    c.faults.list.extend(l.delivered.clone());
                    m.one(&mut s, c);
                }
                if s.sched.mode != 0 || s.sched.mean != 0 {
                    let mut c = s.clone();
                    c.sched.explicit = Some(l.rec.clone());
                    m.one(&mut s, c);
                }
            }
            // plain archives
            let v = serde_json::to_value(&s).unwrap();
            let plain = serde_json::to_value(crate::mpq::MpqOpts::default()).unwrap();
            let mut at = vec![];
            fn find(v: &Value, p: &str, o: &mut Vec<String>) {
                match v {
                    Value::Object(m) => {
                        for (k, x) in m {
                            if k == "mpq" {
                                o.push(format!("{p}/mpq"));
                            } else if !["v", "header", "details", "init", "tracker", "game"].contains(&k.as_str()) {
                                find(x, &format!("{p}/{k}"), o);
                            }
                        }
                    }
                    Value::Array(a) => {
                        for (i, x) in a.iter().enumerate().take(64) {
                            find(x, &format!("{p}/{i}"), o);
                        }
                    }
                    _ => {}
                }
            }
            find(&v, "", &mut at);
            for p in at {
                m.set(&mut s, &p, plain.clone());
            }
        }
        if m.out_of_time() {
            break;
        }
    }
    eprintln!("minimised with {} candidate runs", m.tried);
    s
}

// ------------------------------------------------------------------ replay
fn write_replay(d: &Def, opt: &Opt, i: u64, orig: &Scenario, sc: Scenario) -> String {
    let mut o = Obs::default();
    let r = judge(d, &sc, &mut o);
    let (sig, what) = match r {
        Err(Bad::Violation { sig, what }) => (sig, what),
        r => ("not repeated".into(), format!("{r:?}")),
    };
    eprintln!("minimised: {sig}: {what}");
    let path = format!("{OUT}/replays/{}-{}-{i}.json", d.id, opt.seed);
    let l = o.last.as_ref();
    let v = json!({
        "property": d.id, "search_seed": opt.seed, "job": i, "job_seed": orig.seed, "thorough": opt.thorough,
        "signature": sig, "violation": what,
        "trace": o.chain,
        "faults_delivered": l.map(|l| &l.delivered), "schedule": l.map(|l| &l.rec), "end": l.map(|l| &l.end),
        "panics": l.map(|l| &l.panics), "operations": l.map(|l| &l.log),
        "scenario": sc,
    });
    std::fs::write(&path, serde_json::to_vec_pretty(&v).unwrap()).unwrap();
    path
}
pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let sc: Scenario = serde_json::from_value(v["scenario"].clone()).unwrap();
    let id = v["property"].as_str().unwrap();
    let d = defs().into_iter().find(|d| d.id == id).unwrap();
    let mut o = Obs::default();
    match judge(&d, &sc, &mut o) {
        Ok(()) => {
            println!("the property held in this replay (recorded: {})", v["signature"]);
            0
        }
        Err(Bad::Harness(h)) => {
            println!("HARNESS ERROR {h}");
            2
        }
        Err(Bad::Violation { sig, what }) => {
            println!("{sig}: {what}");
            let same = json!(sig) == v["signature"] && json!(what) == v["violation"] && json!(o.chain) == v["trace"];
            println!("{} the recorded run", if same { "identical to" } else { "DIFFERS from" });
            println!("VIOLATION property={id} replay={path}");
            1
        }
    }
}
/// Runs one job and prints what happened.
pub fn job(id: &str, seed: u64, i: u64, thorough: bool) -> i32 {
    let d = defs().into_iter().find(|d| d.id == id).unwrap();
    let sc = scenario_of(&d, seed, i, thorough);
    let mut o = Obs::default();
    let r = judge(&d, &sc, &mut o);
    println!("{} {:?}", sc.shape, events(&sc));
    println!("{r:?}\nexecs {} faults {:?} counts {:?} chain {:x}", o.execs, o.faults, o.counts, o.chain);
    if let Some(l) = &o.last {
        println!("end {} panics {:?}", l.end, l.panics);
        for x in l.log.iter().rev().take(60).rev() {
            println!("  {x}");
        }
    }
    0
}
/// Every property: the same jobs in two processes (and with another number of workers in the
/// host process) must give the same executions.
pub fn determinism(n: u64, seed: u64, only: Option<&str>) -> i32 {
    let mut bad = 0;
    for d in defs() {
        if only.is_some_and(|o| o != d.id) {
            continue;
        }
        let one = |w: u64, of: u64, off: u64| -> BTreeMap<u64, u64> {
            let f = format!("{OUT}/det-{}-{w}", std::process::id());
            std::fs::create_dir_all(OUT).unwrap();
            let p = forked(|| {
                // another heap layout
                let junk: Vec<Vec<u8>> = (0..off * 1000).map(|k| vec![0u8; (k % 300) as usize]).collect();
                let mut m = BTreeMap::new();
                let mut i = w;
                while i < n {
                    let mut o = Obs::default();
                    let _ = judge(&d, &scenario_of(&d, seed, i, false), &mut o);
                    m.insert(i, o.chain);
                    i += of;
                }
                drop(junk);
                std::fs::write(&f, serde_json::to_vec(&m).unwrap()).unwrap();
            });
            wait(p);
            let m = serde_json::from_slice(&std::fs::read(&f).unwrap_or_default()).unwrap_or_default();
            let _ = std::fs::remove_file(&f);
            m
        };
        let a = one(0, 1, 0);
        let mut b = one(0, 2, 3);
        b.extend(one(1, 2, 7));
        let diff: Vec<u64> = a.iter().filter(|(k, v)| b.get(k) != Some(v)).map(|(k, _)| *k).collect();
        println!("{}: {} jobs run in two processes, {} differ {:?}", d.id, a.len(), diff.len(), diff);
        bad += diff.len();
    }
    (bad > 0) as i32
}
