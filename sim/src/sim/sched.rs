//! The scheduler: real OS threads, but exactly one of them holds the baton. Every scheduling
//! decision is drawn from the seed (or taken from an explicit list on replay of a minimised run).
use super::rng::{Rng, mix};
use super::{RawGlobal, raw_futex_wait, raw_futex_wake, sim};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum St {
    Runnable,
    Futex { addr: usize, bits: u32, deadline: Option<u64> },
    Join(usize),
    Sleep(u64),
    Finished,
}

pub struct Th {
    pub st: St,
    pub word: Box<AtomicU32>,
    pub pthread: u64,
    pub ret: usize,
    pub wake: i32,
    pub prio: u64,
    pub start: Option<(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, usize)>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct SchedPlan {
    pub seed: u64,
    /// 0: run until blocked, 1: uniform random, 2: priorities with change points, 3: one stalled thread
    pub mode: u8,
    /// mean number of coverage edges + allocations between preemptions (0 = no preemption)
    pub mean: u64,
    /// per-mille chance of a spurious wake-up at each blocking point
    pub spurious: u64,
    /// switch also at I/O operations (per-mille)
    pub io_switch: u64,
    /// no preemption after this many
    #[serde(default)]
    pub max_preempt: Option<u64>,
    /// replay of a minimised schedule: (decision number -> thread); other decisions keep the thread
    /// running, or take the lowest runnable thread when it blocked
    #[serde(default)]
    pub explicit: Option<Explicit>,
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Explicit {
    /// tick -> thread: preempt at this tick
    pub preempt: Vec<(u64, usize)>,
    /// number of the voluntary decision -> thread
    pub choice: Vec<(u64, usize)>,
}
impl Default for SchedPlan {
    fn default() -> Self {
        SchedPlan { seed: 0, mode: 0, mean: 0, spurious: 0, io_switch: 0, max_preempt: None, explicit: None }
    }
}
impl SchedPlan {
    /// swarm: draws the shape of the schedule
    pub fn draw(r: &mut Rng) -> SchedPlan {
        let mode = *r.pick(&[0, 1, 1, 1, 2, 2, 3]);
        let mean = *r.pick(&[0, 50, 200, 1000, 1000, 5000, 20000, 100000]);
        SchedPlan {
            seed: r.next(),
            mode,
            mean,
            spurious: *r.pick(&[0, 0, 20, 200]),
            io_switch: *r.pick(&[0, 100, 500, 900]),
            max_preempt: None,
            explicit: None,
        }
    }
}

pub struct Sched {
    pub th: Vec<Th>,
    pub cur: usize,
    pub plan: SchedPlan,
    pub rng: Rng,
    pub now: u64,
    pub edges: u64,
    pub seg: u64,
    pub preempts: u64,
    pub switches: u64,
    pub choices: u64,
    pub hash: u64,
    pub rec: Explicit,
    pub ordinals: BTreeMap<usize, u64>,
    pub stalled: usize,
    pub next_explicit: usize,
    pub max_threads: usize,
    pub timeouts: u64,
    pub spurious_fired: u64,
    pub futex_waits: u64,
    pub inter_hash: u64,
}

pub static COUNTDOWN: RawGlobal<u64> = RawGlobal::new(u64::MAX);
pub const NEVER: u64 = u64::MAX / 2;

impl Sched {
    pub fn new(plan: SchedPlan) -> Sched {
        let rng = Rng::new(plan.seed ^ 0x5c4ed);
        Sched {
            th: vec![],
            cur: 0,
            rng,
            plan,
            now: 1_000_000,
            edges: 0,
            seg: NEVER,
            preempts: 0,
            switches: 0,
            choices: 0,
            hash: 0,
            rec: Explicit::default(),
            ordinals: BTreeMap::new(),
            stalled: usize::MAX,
            next_explicit: 0,
            max_threads: 1,
            timeouts: 0,
            spurious_fired: 0,
            futex_waits: 0,
            inter_hash: 0,
        }
    }
    pub fn new_thread(&mut self) -> usize {
        let prio = self.rng.next();
        self.th.push(Th {
            st: St::Runnable,
            word: Box::new(AtomicU32::new(0)),
            pthread: 0,
            ret: 0,
            wake: 0,
            prio,
            start: None,
        });
        if self.plan.mode == 3 && self.th.len() > 1 && self.rng.chance(1, 3) {
            self.stalled = self.th.len() - 1;
        }
        self.max_threads = self.max_threads.max(self.th.len());
        self.th.len() - 1
    }
    /// total ticks so far
    pub fn ticks(&self) -> u64 {
        self.edges + (self.seg - unsafe { *COUNTDOWN.get() }.min(self.seg))
    }
    /// closes the running segment and opens the next one
    pub fn arm(&mut self) {
        let cd = unsafe { &mut *COUNTDOWN.get() };
        self.edges += self.seg - (*cd).min(self.seg);
        let limit = sim().step_cap.saturating_sub(self.edges).max(1);
        let mut n = NEVER;
        if let Some(e) = &self.plan.explicit {
            while self.next_explicit < e.preempt.len() && e.preempt[self.next_explicit].0 <= self.edges {
                self.next_explicit += 1;
            }
            if let Some((t, _)) = e.preempt.get(self.next_explicit) {
                n = t - self.edges;
            }
        } else if self.plan.mean > 0
            && self.th.len() > 1
            && self.plan.max_preempt.is_none_or(|m| self.preempts < m)
        {
            // geometric-like: exponential with the mean
            let u = (self.rng.next() >> 11) as f64 / (1u64 << 53) as f64;
            n = ((-(1.0 - u).ln()) * self.plan.mean as f64) as u64 + 1;
        }
        self.seg = n.min(limit);
        *cd = self.seg;
    }
    pub fn runnable(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|i| self.th[*i].st == St::Runnable).collect()
    }
    /// chooses among runnable threads; `voluntary` = the current thread blocked or finished
    pub fn choose(&mut self, r: &[usize], voluntary: bool, tick: u64, yielding: bool) -> usize {
        let me = self.cur;
        let default = if r.contains(&me) && !yielding {
            me
        } else {
            *r.iter().find(|t| **t > me).unwrap_or(&r[0])
        };
        if let Some(e) = &self.plan.explicit {
            let want = if voluntary || yielding {
                let c = self.choices;
                self.choices += 1;
                e.choice.iter().find(|x| x.0 == c).map(|x| x.1)
            } else {
                e.preempt.iter().find(|x| x.0 == tick).map(|x| x.1)
            };
            return match want {
                Some(t) if r.contains(&t) => t,
                _ => default,
            };
        }
        let pool: Vec<usize> = {
            let mut p: Vec<usize> = r.to_vec();
            if yielding && p.len() > 1 && !self.rng.chance(1, 10) {
                p.retain(|t| *t != me);
            }
            if self.plan.mode == 3 && p.len() > 1 && !self.rng.chance(1, 200) {
                let s = self.stalled;
                p.retain(|t| *t != s);
            }
            p
        };
        let t = match self.plan.mode {
            0 => {
                if pool.contains(&default) {
                    default
                } else {
                    pool[0]
                }
            }
            2 => {
                if self.rng.chance(1, 16) || yielding {
                    // change point: the current thread drops to the lowest priority
                    let np = self.rng.below(1 << 20);
                    self.th[me].prio = np;
                }
                *pool.iter().max_by_key(|t| self.th[**t].prio).unwrap()
            }
            _ => *self.rng.pick(&pool),
        };
        if voluntary || yielding {
            let c = self.choices;
            self.choices += 1;
            if t != default {
                self.rec.choice.push((c, t));
            }
        } else if t != me {
            self.rec.preempt.push((tick, t));
        }
        t
    }
    fn switch_to(&mut self, t: usize) {
        let me = self.cur;
        self.hash = mix(self.hash ^ self.ticks() ^ ((t as u64) << 48));
        if t == me {
            return;
        }
        self.switches += 1;
        self.inter_hash = mix(self.inter_hash ^ super::last_site() ^ ((t as u64) << 40));
        self.cur = t;
        let w: *const AtomicU32 = &*self.th[t].word;
        let mine: *const AtomicU32 = &*self.th[me].word;
        let depth = super::internal_depth();
        unsafe {
            (*w).store(1, Ordering::SeqCst);
            raw_futex_wake(w);
            loop {
                if (*mine).swap(0, Ordering::SeqCst) == 1 {
                    break;
                }
                raw_futex_wait(mine, 0);
            }
            super::set_internal_depth(depth);
        }
    }
}

fn s() -> &'static mut Sched {
    unsafe { &mut *sim().sched.get() }
}

/// The current thread stays runnable; maybe another one takes over.
pub fn preempt(yielding: bool) {
    let sc = s();
    let tick = sc.ticks();
    sc.arm();
    if sc.edges >= sim().step_cap {
        super::finish(super::End::StepCap);
    }
    let r = sc.runnable();
    if r.len() <= 1 {
        if yielding {
            // nobody else can run: time passes
            sc.now += 1000;
            wake_due(sc);
        }
        return;
    }
    if !yielding {
        sc.preempts += 1;
    }
    let t = sc.choose(&r, false, tick, yielding);
    sc.switch_to(t);
}

fn wake_due(sc: &mut Sched) {
    for th in &mut sc.th {
        match th.st {
            St::Sleep(d) if d <= sc.now => th.st = St::Runnable,
            St::Futex { deadline: Some(d), .. } if d <= sc.now => {
                th.st = St::Runnable;
                th.wake = -libc::ETIMEDOUT;
            }
            _ => {}
        }
    }
}

/// The current thread has set its own state to something not runnable.
pub fn block() {
    let sc = s();
    sc.arm();
    if sc.plan.spurious > 0 && sc.plan.explicit.is_none() && sc.rng.chance(sc.plan.spurious, 1000) {
        let w: Vec<usize> =
            (0..sc.th.len()).filter(|i| matches!(sc.th[*i].st, St::Futex { .. })).collect();
        if !w.is_empty() {
            let t = *sc.rng.pick(&w);
            sc.th[t].st = St::Runnable;
            sc.th[t].wake = 0;
            sc.spurious_fired += 1;
        }
    }
    let mut r = sc.runnable();
    if r.is_empty() {
        let d = sc
            .th
            .iter()
            .filter_map(|t| match t.st {
                St::Sleep(d) => Some(d),
                St::Futex { deadline, .. } => deadline,
                _ => None,
            })
            .min();
        match d {
            None => super::finish(super::End::Deadlock),
            Some(d) => {
                sc.now = sc.now.max(d);
                sc.timeouts += 1;
                wake_due(sc);
                r = sc.runnable();
            }
        }
    }
    let tick = sc.ticks();
    let t = sc.choose(&r, true, tick, false);
    sc.switch_to(t);
}

pub fn futex_wait(addr: usize, val: u32, bits: u32, deadline: Option<u64>) -> i32 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        return -libc::EAGAIN;
    }
    let sc = s();
    sc.futex_waits += 1;
    let n = sc.ordinals.len() as u64;
    let o = *sc.ordinals.entry(addr).or_insert(n);
    sc.hash = mix(sc.hash ^ 0xf00 ^ o);
    if let Some(d) = deadline {
        if d <= sc.now {
            return -libc::ETIMEDOUT;
        }
    }
    let me = sc.cur;
    sc.th[me].wake = 0;
    sc.th[me].st = St::Futex { addr, bits, deadline };
    block();
    s().th[me].wake
}

pub fn futex_wake(addr: usize, n: i32, bits: u32) -> i32 {
    let sc = s();
    let mut w: Vec<usize> = (0..sc.th.len())
        .filter(|i| matches!(sc.th[*i].st, St::Futex { addr: a, bits: b, .. } if a == addr && b & bits != 0))
        .collect();
    let mut k = 0;
    while !w.is_empty() && k < n {
        let i = if sc.plan.explicit.is_some() || sc.plan.mode == 0 { 0 } else { sc.rng.idx(w.len()) };
        let t = w.remove(i);
        sc.th[t].st = St::Runnable;
        sc.th[t].wake = 0;
        k += 1;
    }
    k
}
