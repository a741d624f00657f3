//! One process, one seed, one execution.
pub mod fs;
pub mod interpose;
pub mod rng;
pub mod sched;

use fs::*;
use rng::Rng;
use sched::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering};

pub struct RawGlobal<T>(UnsafeCell<T>);
unsafe impl<T> Sync for RawGlobal<T> {}
impl<T> RawGlobal<T> {
    pub const fn new(v: T) -> Self {
        RawGlobal(UnsafeCell::new(v))
    }
    #[inline(always)]
    pub fn get(&self) -> *mut T {
        self.0.get()
    }
}

pub struct Sim {
    pub fs: UnsafeCell<Fs>,
    pub sched: UnsafeCell<Sched>,
    pub rand: UnsafeCell<Rng>,
    pub step_cap: u64,
    pub mem_cap: usize,
    pub mem_base: usize,
    pub out_fd: i32,
    pub want_fs: bool,
    pub panics: UnsafeCell<Vec<String>>,
    pub fail_threads: AtomicUsize,
    pub body: UnsafeCell<Option<Box<dyn FnOnce() -> Vec<u8>>>>,
    pub in_oracle: UnsafeCell<bool>,
    pub notes: UnsafeCell<Vec<String>>,
}

static SIM: RawGlobal<Option<Box<Sim>>> = RawGlobal::new(None);
static ACTIVE: RawGlobal<bool> = RawGlobal::new(false);
static INTERNAL: RawGlobal<u32> = RawGlobal::new(0);
static PAUSED: RawGlobal<u32> = RawGlobal::new(0);
static LAST_SITE: RawGlobal<u64> = RawGlobal::new(0);
static CUR_MEM: AtomicUsize = AtomicUsize::new(0);
static PEAK_MEM: AtomicUsize = AtomicUsize::new(0);

#[inline(always)]
pub fn active() -> bool {
    unsafe { *ACTIVE.get() }
}
#[inline(always)]
pub fn in_sim() -> bool {
    unsafe { *ACTIVE.get() && *INTERNAL.get() == 0 && *PAUSED.get() == 0 }
}
pub fn sim() -> &'static Sim {
    unsafe { (*SIM.get()).as_ref().unwrap() }
}
pub fn last_site() -> u64 {
    unsafe { *LAST_SITE.get() }
}
pub fn internal_depth() -> u32 {
    unsafe { *INTERNAL.get() }
}
pub fn set_internal_depth(d: u32) {
    unsafe { *INTERNAL.get() = d }
}
pub struct Internal;
impl Internal {
    #[inline]
    pub fn enter() -> Internal {
        unsafe { *INTERNAL.get() += 1 };
        Internal
    }
}
impl Drop for Internal {
    fn drop(&mut self) {
        unsafe { *INTERNAL.get() -= 1 };
    }
}

/// Bytes held by oracle values (net growth during pauses).
static ORACLE_MEM: std::sync::atomic::AtomicIsize = std::sync::atomic::AtomicIsize::new(0);

/// Runs oracle code inside a simulated thread: no faults, no preemption, not counted.
pub fn pause<T>(f: impl FnOnce() -> T) -> T {
    if !active() {
        return f();
    }
    unsafe {
        let cd = *COUNTDOWN.get();
        let first = *PAUSED.get() == 0;
        *PAUSED.get() += 1;
        *COUNTDOWN.get() = u64::MAX;
        let was = *sim().in_oracle.get();
        *sim().in_oracle.get() = true;
        let mem = CUR_MEM.load(Ordering::Relaxed);
        let r = f();
        *sim().in_oracle.get() = was;
        *PAUSED.get() -= 1;
        if first {
            *COUNTDOWN.get() = cd;
        }
        ORACLE_MEM.fetch_add(CUR_MEM.load(Ordering::Relaxed) as isize - mem as isize, Ordering::Relaxed);
        r
    }
}
pub fn last_panic() -> String {
    if !active() {
        return String::new();
    }
    unsafe { (*sim().panics.get()).last().cloned().unwrap_or_default() }
}
/// Inverse of pause: runs library code from within oracle code.
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    f()
}
pub fn note(s: impl Into<String>) {
    if active() {
        let _g = Internal::enter();
        unsafe { (*sim().notes.get()).push(s.into()) };
    }
}
pub fn sim_now() -> u64 {
    unsafe { (*sim().sched.get()).now }
}
pub fn ticks() -> u64 {
    unsafe { (*sim().sched.get()).ticks() }
}
pub fn open_fds() -> Vec<String> {
    let _g = Internal::enter();
    unsafe { (*sim().fs.get()).fds.values().map(|f| bstr::enc(&f.path)).collect() }
}
/// Direct access to the simulated disk from oracle code.
pub fn disk() -> Image {
    let _g = Internal::enter();
    unsafe { (*sim().fs.get()).dump() }
}

// ---- kernel ----
pub fn raw(n: i64, a: [usize; 6]) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
            in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
pub unsafe fn raw_futex_wait(w: *const AtomicU32, v: u32) {
    raw(libc::SYS_futex, [w as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0]);
}
pub unsafe fn raw_futex_wake(w: *const AtomicU32) {
    raw(libc::SYS_futex, [w as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, i32::MAX as usize, 0, 0, 0]);
}

pub fn thread_wait_first(tid: usize) {
    let w: *const AtomicU32 = unsafe { &*(&(*sim().sched.get()).th)[tid].word };
    unsafe {
        while (*w).swap(0, Ordering::SeqCst) != 1 {
            raw_futex_wait(w, 0);
        }
    }
    set_internal_depth(0);
}

// ---- allocator ----
pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR_MEM.fetch_sub(l.size(), Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        CUR_MEM.fetch_sub(l.size(), Ordering::Relaxed);
        on_alloc(n);
        unsafe { System.realloc(p, l, n) }
    }
}
#[inline]
fn on_alloc(n: usize) {
    let c = CUR_MEM.fetch_add(n, Ordering::Relaxed) + n;
    if in_sim() {
        let s = sim();
        let c = (c as isize - ORACLE_MEM.load(Ordering::Relaxed)).max(0) as usize;
        if c > PEAK_MEM.load(Ordering::Relaxed) {
            PEAK_MEM.store(c, Ordering::Relaxed);
            if c - s.mem_base.min(c) > s.mem_cap {
                finish(End::OutOfMemory(n));
            }
        }
        tick();
    }
}
#[inline(always)]
fn tick() {
    unsafe {
        let cd = &mut *COUNTDOWN.get();
        *cd -= 1;
        if *cd == 0 {
            edge_slow();
        }
    }
}
#[cold]
#[inline(never)]
fn edge_slow() {
    if in_sim() {
        let _g = Internal::enter();
        preempt(false);
    } else {
        unsafe { *COUNTDOWN.get() = u64::MAX };
    }
}

// ---- coverage ----
pub static GUARDS: AtomicUsize = AtomicUsize::new(0);
/// shared between processes: one byte per edge
pub static MAP: RawGlobal<*mut u8> = RawGlobal::new(std::ptr::null_mut());
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(s: *mut u32, e: *mut u32) {
    unsafe {
        if s == e || *s != 0 {
            return;
        }
        let mut p = s;
        while p < e {
            *p = GUARDS.fetch_add(1, Ordering::Relaxed) as u32 + 1;
            p = p.add(1);
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    unsafe {
        let m = *MAP.get();
        if !m.is_null() {
            *m.add(*g as usize) = 1;
        }
        *LAST_SITE.get() = *g as u64;
        let cd = &mut *COUNTDOWN.get();
        *cd = cd.wrapping_sub(1);
        if *cd == 0 {
            edge_slow();
        }
    }
}
pub fn init_map() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            1 << 20,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        *MAP.get() = p as *mut u8;
    }
}
pub fn edges_reached() -> (usize, usize) {
    let n = GUARDS.load(Ordering::Relaxed);
    let m = unsafe { *MAP.get() };
    if m.is_null() {
        return (0, n);
    }
    let c = (0..=n).filter(|i| unsafe { *m.add(*i) } != 0).count();
    (c, n)
}

// ---- executions ----
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum End {
    Ok,
    Panic(String),
    Deadlock,
    StepCap,
    Crash,
    OutOfMemory(usize),
    Signal(i32),
    WallClock,
    /// the harness itself failed
    Harness(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stats {
    pub ticks: u64,
    pub sim_ns: u64,
    pub preempts: u64,
    pub switches: u64,
    pub threads: usize,
    pub futex_waits: u64,
    pub timeouts: u64,
    pub spurious: u64,
    pub io_ops: u64,
    pub opened: u64,
    pub fd_high: u64,
    pub fds_left: Vec<String>,
    pub peak_mem: usize,
    pub trace: u64,
    pub inter: u64,
    pub delivered: Vec<Fault>,
    pub log: Vec<String>,
    pub panics: Vec<String>,
    pub notes: Vec<String>,
    pub rec: Explicit,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub end: End,
    pub out: Vec<u8>,
    pub disk: Option<Image>,
    pub st: Stats,
}
impl Run {
    pub fn json(&self) -> serde_json::Value {
        serde_json::from_slice(&self.out).unwrap_or(serde_json::Value::Null)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub seed: u64,
    pub sched: SchedPlan,
    pub faults: FaultPlan,
    pub workers: usize,
    pub step_cap: u64,
    pub mem_cap: usize,
    /// pthread_create fails once this many threads exist (0 = never)
    #[serde(default)]
    pub fail_threads: usize,
}
impl Default for Spec {
    fn default() -> Self {
        Spec {
            seed: 0,
            sched: SchedPlan::default(),
            faults: FaultPlan::default(),
            workers: 2,
            step_cap: 400_000_000,
            mem_cap: 1 << 30,
            fail_threads: 0,
        }
    }
}

fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = raw(libc::SYS_write, [fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0]);
        if r == -(libc::EINTR as isize) {
            continue;
        }
        if r <= 0 {
            break;
        }
        b = &b[r as usize..];
    }
}

/// Ends this execution from whatever simulated thread is running.
pub fn finish(end: End) -> ! {
    finish_with(end, vec![])
}
fn finish_with(end: End, out: Vec<u8>) -> ! {
    unsafe {
        *INTERNAL.get() += 1;
        *PAUSED.get() += 1;
        let s = sim();
        let fs = &mut *s.fs.get();
        let sc = &mut *s.sched.get();
        let ticks = sc.ticks();
        *COUNTDOWN.get() = u64::MAX;
        let st = Stats {
            ticks,
            sim_ns: sc.now,
            preempts: sc.preempts,
            switches: sc.switches,
            threads: sc.th.len(),
            futex_waits: sc.futex_waits,
            timeouts: sc.timeouts,
            spurious: sc.spurious_fired,
            io_ops: fs.ops,
            opened: fs.opened,
            fd_high: fs.fd_high,
            fds_left: fs.fds.values().map(|f| bstr::enc(&f.path)).collect(),
            peak_mem: PEAK_MEM.load(Ordering::Relaxed).saturating_sub(s.mem_base),
            trace: rng::mix(sc.hash ^ rng::mix(fs.hash) ^ ticks.wrapping_mul(31) ^ rng::hash_bytes(1, &out)),
            inter: sc.inter_hash,
            delivered: fs.delivered.clone(),
            log: fs.log.clone(),
            panics: (*s.panics.get()).clone(),
            notes: (*s.notes.get()).clone(),
            rec: sc.rec.clone(),
        };
        let head = serde_json::to_vec(&(end, st)).unwrap();
        let img = if s.want_fs { fs.dump().encode() } else { vec![] };
        let mut o = vec![];
        o.extend((head.len() as u32).to_le_bytes());
        o.extend((out.len() as u32).to_le_bytes());
        o.extend((img.len() as u32).to_le_bytes());
        o.extend(head);
        o.extend(out);
        o.extend(img);
        write_all(s.out_fd, &o);
        raw(libc::SYS_exit_group, [0; 6]);
        loop {}
    }
}

extern "C" fn body_thread(_: *mut libc::c_void) -> *mut libc::c_void {
    let f = unsafe { (*sim().body.get()).take().unwrap() };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe { *INTERNAL.get() += 1 };
    match r {
        Ok(v) => finish_with(End::Ok, v),
        Err(_) => {
            let p = unsafe { (*sim().panics.get()).last().cloned().unwrap_or_default() };
            if p.starts_with("oracle") {
                finish(End::Harness(p))
            }
            finish(End::Panic(p))
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if active() {
            let _g = Internal::enter();
            let o = unsafe { *sim().in_oracle.get() };
            let mut s = format!("{}{} at {}", if o { "oracle: " } else { "" }, msg, loc);
            s.truncate((0..=300.min(s.len())).rev().find(|k| s.is_char_boundary(*k)).unwrap());
            unsafe { (*sim().panics.get()).push(s) };
        } else {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
}

pub static WALL_LIMIT_MS: AtomicUsize = AtomicUsize::new(60_000);

/// Runs `body` as one simulated execution in a child process.
pub fn exec(spec: &Spec, image: &Image, want_fs: bool, body: impl FnOnce() -> Vec<u8> + 'static) -> Run {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            std::env::set_var("RAYON_NUM_THREADS", spec.workers.to_string());
            let mut sc = Sched::new(spec.sched.clone());
            sc.new_thread();
            let b: Box<dyn FnOnce() -> Vec<u8>> = Box::new(body);
            *SIM.get() = Some(Box::new(Sim {
                fs: UnsafeCell::new(Fs::load(image, spec.faults.clone())),
                sched: UnsafeCell::new(sc),
                rand: UnsafeCell::new(Rng::new(spec.seed ^ 0xa11d0)),
                step_cap: spec.step_cap,
                mem_cap: spec.mem_cap,
                mem_base: 0,
                out_fd: fds[1],
                want_fs,
                panics: UnsafeCell::new(vec![]),
                fail_threads: AtomicUsize::new(spec.fail_threads),
                body: UnsafeCell::new(Some(b)),
                in_oracle: UnsafeCell::new(false),
                notes: UnsafeCell::new(vec![]),
            }));
            let base = CUR_MEM.load(Ordering::Relaxed);
            PEAK_MEM.store(base, Ordering::Relaxed);
            (*SIM.get()).as_mut().unwrap().mem_base = base;
            // the body gets a thread of its own (fresh thread-locals, 16 MiB stack)
            let mut attr: libc::pthread_attr_t = std::mem::zeroed();
            libc::pthread_attr_init(&mut attr);
            libc::pthread_attr_setstacksize(&mut attr, 16 << 20);
            let mut t: libc::pthread_t = 0;
            extern "C" fn first(a: *mut libc::c_void) -> *mut libc::c_void {
                // thread 0 of the simulation
                unsafe {
                    *ACTIVE.get() = true;
                    (*sim().sched.get()).seg = NEVER;
                    *COUNTDOWN.get() = NEVER;
                    (*sim().sched.get()).arm();
                }
                body_thread(a)
            }
            interpose::pthread_create(&mut t, &attr, first, std::ptr::null_mut());
            loop {
                raw(libc::SYS_pause, [0; 6]);
            }
        }
        libc::close(fds[1]);
        // collect
        let mut buf: Vec<u8> = vec![];
        let start = std::time::Instant::now();
        let mut killed = false;
        let mut chunk = vec![0u8; 1 << 16];
        loop {
            let limit = WALL_LIMIT_MS.load(Ordering::Relaxed) as u128;
            let el = start.elapsed().as_millis();
            if el >= limit && !killed {
                libc::kill(pid, libc::SIGKILL);
                killed = true;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, if killed { 1000 } else { (limit - el).min(1000) as i32 });
            if r == 0 {
                continue;
            }
            let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut libc::c_void, chunk.len());
            if n < 0 {
                if *libc::__errno_location() == libc::EINTR {
                    continue;
                }
                break;
            }
            if n == 0 {
                break;
            }
            buf.extend_from_slice(&chunk[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        let dead = |end: End| Run {
            end,
            out: vec![],
            disk: None,
            st: Stats {
                ticks: 0,
                sim_ns: 0,
                preempts: 0,
                switches: 0,
                threads: 0,
                futex_waits: 0,
                timeouts: 0,
                spurious: 0,
                io_ops: 0,
                opened: 0,
                fd_high: 0,
                fds_left: vec![],
                peak_mem: 0,
                trace: 0,
                inter: 0,
                delivered: vec![],
                log: vec![],
                panics: vec![],
                notes: vec![],
                rec: Explicit::default(),
            },
        };
        if killed {
            return dead(End::WallClock);
        }
        if libc::WIFSIGNALED(status) {
            return dead(End::Signal(libc::WTERMSIG(status)));
        }
        if buf.len() < 12 {
            return dead(End::Harness(format!("no answer, status {status}")));
        }
        let u = |k: usize| u32::from_le_bytes(buf[k..k + 4].try_into().unwrap()) as usize;
        let (h, o, i) = (u(0), u(4), u(8));
        let (end, st): (End, Stats) = match serde_json::from_slice(&buf[12..12 + h]) {
            Ok(x) => x,
            Err(e) => return dead(End::Harness(format!("answer: {e}"))),
        };
        let out = buf[12 + h..12 + h + o].to_vec();
        let disk = if want_fs { Some(Image::decode(&buf[12 + h + o..12 + h + o + i])) } else { None };
        Run { end, out, disk, st }
    }
}
