//! The monitor: runs cases on worker threads, catches panics, watches CPU time and memory,
//! counts what was observed, and reports.

use crate::rng::{hash_bytes, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- memory monitor

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// A request above this is refused and ends the process; the supervisor reports it
pub static CAP: AtomicU64 = AtomicU64::new(3 << 30);

static SLOTS: std::sync::atomic::AtomicPtr<u64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub const SLOT_WORDS: usize = 4;

fn slot_write(word: usize, value: u64) {
    let s = SLOT.with(Cell::get);
    let p = SLOTS.load(Ordering::Relaxed);
    if s != usize::MAX && !p.is_null() {
        unsafe { p.add(s * SLOT_WORDS + word).write_volatile(value) }
    }
}

fn grow(n: usize) -> bool {
    if n as u64 > CAP.load(Ordering::Relaxed) {
        slot_write(2, n as u64);
        return false;
    }
    LIVE.with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    LARGEST.with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
    ALLOCS.with(|a| a.set(a.get() + 1));
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|v| v.set(v.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !grow(n) {
            return std::ptr::null_mut();
        }
        LIVE.with(|v| v.set(v.get() - l.size() as i64));
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct MemUse {
    /// highest number of live bytes above the start
    pub peak: i64,
    /// live bytes at the end above the start
    pub kept: i64,
    pub largest: usize,
    pub allocs: u64,
}

/// Memory used by this thread while running `f`
pub fn memory<T>(f: impl FnOnce() -> T) -> (T, MemUse) {
    let start = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(start));
    LARGEST.with(|p| p.set(0));
    let a = ALLOCS.with(Cell::get);
    let r = f();
    let m = MemUse {
        peak: PEAK.with(Cell::get) - start,
        kept: LIVE.with(Cell::get) - start,
        largest: LARGEST.with(Cell::get),
        allocs: ALLOCS.with(Cell::get) - a,
    };
    (r, m)
}

/// The build and way of running this process was started for
pub static STAGE: std::sync::OnceLock<String> = std::sync::OnceLock::new();

pub fn stage() -> &'static str {
    STAGE.get().map_or("plain", |s| s)
}

pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

pub fn thread_cpu() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

// ---------------------------------------------------------------- verdicts

#[derive(Clone, Debug)]
pub struct Violation {
    pub msg: String,
    pub files: Vec<(String, Vec<u8>)>,
}

impl Violation {
    pub fn new(msg: impl Into<String>) -> Violation {
        Violation { msg: msg.into(), files: Vec::new() }
    }
    pub fn with(mut self, name: &str, data: &[u8]) -> Violation {
        self.files.push((name.to_string(), data.to_vec()));
        self
    }
}

pub type Verdict = Result<(), Violation>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::mon::Violation::new(format!($($arg)*)));
        }
    };
}

#[macro_export]
macro_rules! violate {
    ($($arg:tt)*) => {
        return Err($crate::mon::Violation::new(format!($($arg)*)))
    };
}

thread_local! {
    static LAST_PANIC: RefCell<(String, bool)> = const { RefCell::new((String::new(), false)) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // files of this crate have relative names, those of the library absolute ones
        let own = at.starts_with("src/");
        LAST_PANIC.with(|p| *p.borrow_mut() = (format!("{msg:?} at {at}"), own));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().0.clone())
}

thread_local! {
    /// where the watchdog of this thread looks for the start of the current library call
    static CALL: Cell<*const AtomicU64> = const { Cell::new(std::ptr::null()) };
    static CALL_DEPTH: Cell<u32> = const { Cell::new(0) };
    static LONGEST: Cell<u64> = const { Cell::new(0) };
}

/// Marks the time spent inside the library for the watchdog
struct InCall(bool);

impl InCall {
    fn enter() -> InCall {
        let depth = CALL_DEPTH.with(|d| d.replace(d.get() + 1));
        let p = CALL.with(Cell::get);
        if depth == 0 && !p.is_null() {
            unsafe { &*p }.store((thread_cpu() * 1e3) as u64, Ordering::SeqCst);
        }
        InCall(depth == 0 && !p.is_null())
    }
}

impl Drop for InCall {
    fn drop(&mut self) {
        CALL_DEPTH.with(|d| d.set(d.get() - 1));
        if self.0 {
            let start = unsafe { &*CALL.with(Cell::get) }.swap(u64::MAX, Ordering::SeqCst);
            let used = ((thread_cpu() * 1e3) as u64).saturating_sub(start);
            LONGEST.with(|l| l.set(l.get().max(used)));
        }
    }
}

/// Call into the library. A panic is a violation of whatever is being checked.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    let call = InCall::enter();
    let r = catch_unwind(AssertUnwindSafe(f));
    drop(call);
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            let p = last_panic();
            if LAST_PANIC.with(|p| p.borrow().1) {
                std::panic::resume_unwind(e);
            }
            Err(Violation::new(format!("panic during {what}: {p}")))
        }
    }
}

// ---------------------------------------------------------------- cases

#[derive(Default)]
pub struct Obs {
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub evaluations: u64,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
}

impl Obs {
    fn merge(&mut self, o: Obs) {
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.distinct.extend(o.distinct);
        self.evaluations += o.evaluations;
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Case<'a> {
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub rng: Rng,
    pub obs: &'a mut Obs,
    /// scratch directory of this worker, removed at the end
    pub dir: &'a std::path::Path,
}

impl Case<'_> {
    /// The oracle compared something
    pub fn eval(&mut self) {
        self.obs.evaluations += 1;
    }
    pub fn event(&mut self, name: impl Into<String>) {
        *self.obs.events.entry(name.into()).or_default() += 1;
    }
    pub fn events(&mut self, name: impl Into<String>, n: u64) {
        *self.obs.events.entry(name.into()).or_default() += n;
    }
    pub fn max(&mut self, name: impl Into<String>, v: u64) {
        let e = self.obs.maxima.entry(name.into()).or_default();
        *e = (*e).max(v);
    }
    /// A non-trivial state or history the oracle judged, identified by its content
    pub fn distinct(&mut self, parts: &[&[u8]]) {
        let mut all = Vec::new();
        for p in parts {
            all.extend_from_slice(&(p.len() as u64).to_le_bytes());
            all.extend_from_slice(p);
        }
        self.obs.distinct.insert(hash_bytes(&all));
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.obs.samples.len() < 2 {
            let s = s();
            self.obs.samples.push(s.chars().take(300).collect());
        }
    }
    pub fn known(&mut self, what: impl Into<String>) {
        *self.obs.known.entry(what.into()).or_default() += 1;
    }
}

pub type CaseFn = fn(&mut Case) -> Verdict;

pub struct Prop {
    pub id: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub stack: usize,
    /// what counts as one distinct non-trivial observation
    pub rule: &'static str,
    pub level: &'static str,
    /// CPU seconds one library call may take before it counts as not terminating
    pub cpu_limit: f64,
    /// events that must have been observed, otherwise the run says nothing
    pub required: &'static [&'static str],
    /// further builds of the monitor to run it in, with the numbers of cases for quick and thorough
    pub stages: &'static [(&'static str, u64, u64)],
    pub assumptions: &'static [&'static str],
}

pub const DEFAULT: Prop = Prop {
    id: "",
    run: |_| Ok(()),
    quick: 100,
    thorough: 1000,
    threads: 8,
    stack: 16 << 20,
    rule: "",
    level: "exploration",
    cpu_limit: 120.0,
    required: &[],
    stages: &[],
    assumptions: &[],
};

#[derive(Default)]
pub struct Report {
    pub obs: Obs,
    pub violations: Vec<(u64, Violation)>,
    pub errors: Vec<(u64, String)>,
    pub cases: u64,
    pub wall: f64,
    pub stopped_early: bool,
}

impl Report {
    /// What was observed, for the supervisor
    pub fn dump(&self) -> String {
        let mut s = format!("cases {}\nearly {}\nevaluations {}\n", self.cases, self.stopped_early as u8, self.obs.evaluations);
        for (name, m) in [("event", &self.obs.events), ("maximum", &self.obs.maxima), ("known", &self.obs.known)] {
            for (k, v) in m {
                s.push_str(&format!("{name} {v} {k}\n"));
            }
        }
        for t in &self.obs.samples {
            s.push_str(&format!("sample {}\n", t.replace(['\n', '\r'], " ")));
        }
        for d in &self.obs.distinct {
            s.push_str(&format!("distinct {d}\n"));
        }
        s
    }

    pub fn load(s: &str) -> Report {
        let mut r = Report::default();
        for l in s.split('\n') {
            let (word, rest) = l.split_once(' ').unwrap_or((l, ""));
            let mut put = |m: fn(&mut Obs) -> &mut BTreeMap<String, u64>| {
                let (n, k) = rest.split_once(' ').unwrap();
                m(&mut r.obs).insert(k.to_string(), n.parse().unwrap());
            };
            match word {
                "cases" => r.cases = rest.parse().unwrap(),
                "early" => r.stopped_early = rest == "1",
                "evaluations" => r.obs.evaluations = rest.parse().unwrap(),
                "event" => put(|o| &mut o.events),
                "maximum" => put(|o| &mut o.maxima),
                "known" => put(|o| &mut o.known),
                "sample" => r.obs.samples.push(rest.to_string()),
                "distinct" => {
                    r.obs.distinct.insert(rest.parse().unwrap());
                }
                _ => {}
            }
        }
        r
    }

    pub fn merge(&mut self, o: Report) {
        self.cases += o.cases;
        self.stopped_early |= o.stopped_early;
        self.obs.merge(o.obs);
    }
}

/// The sanitizer this build has
pub const SANITIZER: Option<&str> = if cfg!(kdbxmon_asan) {
    Some("AddressSanitizer")
} else if cfg!(kdbxmon_msan) {
    Some("MemorySanitizer")
} else if cfg!(kdbxmon_tsan) {
    Some("ThreadSanitizer")
} else {
    None
};

pub fn map_slots(path: &std::path::Path, threads: usize) {
    use std::os::fd::AsRawFd;
    let len = threads * SLOT_WORDS * 8;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len(len as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    SLOTS.store(p as *mut u64, Ordering::SeqCst);
}

/// Run cases `from..to` and collect everything observed
pub fn run(
    prop: &'static Prop,
    seed: u64,
    thorough: bool,
    from: u64,
    to: u64,
    wall_limit: f64,
    dir: &std::path::Path,
    hang: &(dyn Fn(u64, f64) + Sync),
) -> Report {
    let next = AtomicU64::new(from);
    let stop = AtomicBool::new(false);
    let early = AtomicBool::new(false);
    let done = AtomicU64::new(0);
    let all = Mutex::new((Obs::default(), Vec::new(), Vec::new()));
    let threads = prop.threads.min((to - from).max(1) as usize);
    map_slots(&dir.join("slots"), threads);
    let clocks: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let starts: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let current: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let finished = AtomicBool::new(false);
    let t0 = Instant::now();
    std::thread::scope(|s| {
        let mut handles = Vec::new();
        for t in 0..threads {
            let (next, stop, early, done, all, clocks, starts, current) = (&next, &stop, &early, &done, &all, &clocks, &starts, &current);
            let h = std::thread::Builder::new()
                .stack_size(prop.stack * if SANITIZER.is_some() { 4 } else { 1 })
                .spawn_scoped(s, move || {
                    SLOT.with(|x| x.set(t));
                    CALL.with(|x| x.set(&starts[t]));
                    let mut cid: libc::clockid_t = 0;
                    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut cid) };
                    clocks[t].store(cid as u32 as u64 | 1 << 40, Ordering::SeqCst);
                    let my_dir = dir.join(format!("t{t}"));
                    std::fs::create_dir_all(&my_dir).unwrap();
                    let mut obs = Obs::default();
                    while !stop.load(Ordering::Relaxed) {
                        if t0.elapsed().as_secs_f64() > wall_limit {
                            early.store(true, Ordering::Relaxed);
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= to {
                            break;
                        }
                        slot_write(0, idx);
                        slot_write(1, 1);
                        current[t].store(idx, Ordering::SeqCst);
                        let mut case = Case {
                            idx,
                            seed,
                            thorough,
                            rng: Rng::for_case(seed, prop.id, idx),
                            obs: &mut obs,
                            dir: &my_dir,
                        };
                        let r = catch_unwind(AssertUnwindSafe(|| (prop.run)(&mut case)));
                        slot_write(1, 0);
                        done.fetch_add(1, Ordering::Relaxed);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(v)) => {
                                let mut g = all.lock().unwrap();
                                g.1.push((idx, v));
                                if g.1.len() >= 5 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            Err(_) => {
                                let mut g = all.lock().unwrap();
                                g.2.push((idx, last_panic()));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    obs.maxima.insert("CPU ms of the longest library call".into(), LONGEST.with(Cell::get));
                    all.lock().unwrap().0.merge(obs);
                })
                .unwrap();
            handles.push(h);
        }
        let watcher = {
            let (clocks, starts, current, finished) = (&clocks, &starts, &current, &finished);
            s.spawn(move || {
                while !finished.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(100));
                    for t in 0..clocks.len() {
                        let c = clocks[t].load(Ordering::SeqCst);
                        let s0 = starts[t].load(Ordering::SeqCst);
                        if c == 0 || s0 == u64::MAX {
                            continue;
                        }
                        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
                        let cid = (c & 0xffff_ffff) as u32 as libc::clockid_t;
                        if unsafe { libc::clock_gettime(cid, &mut ts) } != 0 {
                            continue;
                        }
                        let now = ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9;
                        let used = now - s0 as f64 * 1e-3;
                        if used > prop.cpu_limit && starts[t].load(Ordering::SeqCst) == s0 {
                            hang(current[t].load(Ordering::SeqCst), used);
                        }
                    }
                }
            })
        };
        for h in handles {
            h.join().unwrap();
        }
        finished.store(true, Ordering::SeqCst);
        watcher.join().unwrap();
    });
    let (obs, mut violations, errors) = all.into_inner().unwrap();
    violations.sort_by_key(|v| v.0);
    Report {
        obs,
        violations,
        errors,
        cases: done.load(Ordering::SeqCst),
        wall: t0.elapsed().as_secs_f64(),
        stopped_early: early.load(Ordering::SeqCst),
    }
}
