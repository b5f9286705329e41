//! Case context, monitors and the runner.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

use crate::rng::{hash_bytes, hash_str, mix, Rng};

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier { Quick, Thorough, Tiny }

pub struct Workload {
    pub name: &'static str,
    /// sweeps enumerate a finite space whatever the seed
    pub sweep: bool,
    pub quick: u64,
    pub thorough: u64,
    /// cases used by the memory-safety (sanitizer / interpreter) runs
    pub tiny: u64,
    pub f: fn(&mut Cx) -> Res,
}

impl Workload {
    pub fn cases(&self, t: Tier) -> u64 {
        match t { Tier::Quick => self.quick, Tier::Thorough => self.thorough, Tier::Tiny => self.tiny }
    }
}

pub fn sweep(name: &'static str, n: u64, tiny: u64, f: fn(&mut Cx) -> Res) -> Workload {
    Workload { name, sweep: true, quick: n, thorough: n, tiny, f }
}

pub fn random(name: &'static str, quick: u64, thorough: u64, tiny: u64, f: fn(&mut Cx) -> Res) -> Workload {
    Workload { name, sweep: false, quick, thorough, tiny, f }
}

pub struct Cx {
    pub r: Rng,
    pub index: u64,
    counts: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    cases: HashSet<u64>,
    case_key: u64,
    samples: Vec<String>,
    wl: u64,
}

const DISTINCT_CAP: usize = 4_000_000;

impl Cx {
    pub fn count(&mut self, k: &'static str) { self.add(k, 1); }
    pub fn add(&mut self, k: &'static str, n: u64) { *self.counts.entry(k).or_insert(0) += n; }
    /// records a fingerprint of something non-trivial that was judged
    pub fn seen(&mut self, key: u64) {
        let k = mix(key ^ self.wl);
        self.case_key = mix(self.case_key ^ k) | 1;
        if self.distinct.len() < DISTINCT_CAP { self.distinct.insert(k); }
    }
    fn end_case(&mut self) {
        if self.case_key != 0 && self.cases.len() < DISTINCT_CAP { let k = self.case_key; self.cases.insert(k); }
        self.case_key = 0;
    }
    pub fn seen_bytes(&mut self, b: &[u8]) { let h = hash_bytes(b); self.seen(h); }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.index < 2 && self.samples.len() < 64 {
            let mut s = f();
            if s.len() > 400 { let mut n = 400; while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); s.push_str("..."); }
            self.samples.push(s);
        }
    }
}

// ---- panic monitor ---------------------------------------------------------

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static NOTE: Cell<Option<&'static str>> = const { Cell::new(None) };
}

/// Ends a case from inside a monitor (e.g. a byte source that is polled
/// endlessly). The panic counts as an observed violation.
pub fn violation_panic(note: &'static str) -> ! {
    NOTE.with(|n| n.set(Some(note)));
    panic!("{}", note);
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
            else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Outcome { Ok, Violation(String), HarnessError(String) }

pub fn guarded(cx: &mut Cx, f: fn(&mut Cx) -> Res) -> Outcome {
    NOTE.with(|n| n.set(None));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Violation(e),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if let Some(n) = NOTE.with(|n| n.get()) {
                Outcome::Violation(n.to_string())
            } else if loc.starts_with("mon/") || loc.contains("/harness/mon/") {
                Outcome::HarnessError(format!("panic in the harness at {}: {}", loc, msg))
            } else {
                Outcome::Violation(format!("panic at {}: {}", loc, msg))
            }
        }
    }
}

// ---- allocation monitor ----------------------------------------------------

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// bytes a single case may request in total / hold at once
const TOTAL_BUDGET: u64 = 6 << 30;
const LIVE_BUDGET: isize = 1 << 30;

extern "C" {
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
}

#[cfg(not(miri))]
#[cold]
fn runaway() -> ! {
    let slot = SLOT.with(|s| s.get());
    let (w, i) = if slot < MAX_THREADS { (CUR_WL[slot].load(Ordering::Relaxed), CUR_IX[slot].load(Ordering::Relaxed)) } else { (0, 0) };
    let mut line = [0u8; 80];
    let mut n = 0;
    fn put(line: &mut [u8; 80], n: &mut usize, b: &[u8]) { for &c in b { line[*n] = c; *n += 1; } }
    fn num(line: &mut [u8; 80], n: &mut usize, mut v: u64) {
        let mut d = [0u8; 20]; let mut k = 0;
        loop { d[k] = b'0' + (v % 10) as u8; v /= 10; k += 1; if v == 0 { break; } }
        while k > 0 { k -= 1; line[*n] = d[k]; *n += 1; }
    }
    put(&mut line, &mut n, b"\nVH-RUNAWAY-MEMORY ");
    num(&mut line, &mut n, w);
    put(&mut line, &mut n, b" ");
    num(&mut line, &mut n, i);
    put(&mut line, &mut n, b"\n");
    unsafe { write(2, line.as_ptr() as *const std::ffi::c_void, n); _exit(77) }
}

fn note_alloc(n: usize) {
    LIVE.with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        PEAK.with(|p| if v > p.get() { p.set(v) });
        TOTAL.with(|t| {
            let tv = t.get() + n as u64;
            t.set(tv);
            #[cfg(not(miri))]
            if (tv > TOTAL_BUDGET || v > LIVE_BUDGET) && SLOT.with(|s| s.get()) != usize::MAX { runaway(); }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note_alloc(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note_alloc(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.with(|x| x.set(x.get() - l.size() as isize)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.with(|x| x.set(x.get() - l.size() as isize));
        note_alloc(n);
        System.realloc(p, l, n)
    }
}

/// runs `f` and returns the peak number of bytes it held in addition to what
/// was held before
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    let old = PEAK.with(|p| p.replace(base));
    let v = f();
    let peak = PEAK.with(|p| p.get());
    PEAK.with(|p| p.set(old.max(peak)));
    (v, (peak - base).max(0) as usize)
}

// ---- CPU-time watchdog -----------------------------------------------------

pub const MAX_THREADS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU64 = AtomicU64::new(0);
static CUR_WL: [AtomicU64; MAX_THREADS] = [Z; MAX_THREADS];
static CUR_IX: [AtomicU64; MAX_THREADS] = [Z; MAX_THREADS];
static CUR_SEQ: [AtomicU64; MAX_THREADS] = [Z; MAX_THREADS];

#[cfg(not(miri))]
mod cpu {
    #[repr(C)]
    struct Ts { s: i64, n: i64 }
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    pub fn my_clock() -> i32 {
        let mut c = 0;
        unsafe { if pthread_getcpuclockid(pthread_self(), &mut c) != 0 { return 0; } }
        c
    }
    pub fn secs(c: i32) -> f64 {
        let mut t = Ts { s: 0, n: 0 };
        if c == 0 || unsafe { clock_gettime(c, &mut t) } != 0 { return 0.0; }
        t.s as f64 + t.n as f64 * 1e-9
    }
}

pub struct Report {
    pub evaluations: u64,
    /// distinct cases in which something non-trivial was judged
    pub distinct: u64,
    /// distinct things judged over all cases
    pub observations: u64,
    pub counts: BTreeMap<String, u64>,
    pub per_workload: Vec<(String, u64)>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub errors: Vec<String>,
}

#[derive(Clone)]
pub struct Failure { pub workload: String, pub index: u64, pub what: String }

fn case_rng(prop: &str, wl: &Workload, seed: u64, index: u64) -> Rng {
    let s = if wl.sweep { 0 } else { seed };
    Rng::new(mix(hash_str(prop) ^ mix(hash_str(wl.name) ^ mix(s.wrapping_add(0x1234_5678)))) ^ mix(index.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}

fn new_cx(wl: &Workload) -> Cx {
    Cx { r: Rng::new(0), index: 0, counts: BTreeMap::new(), distinct: HashSet::new(), cases: HashSet::new(), case_key: 0, samples: Vec::new(), wl: hash_str(wl.name) }
}

/// one case, for replays
pub fn run_one(prop: &str, wl: &Workload, seed: u64, index: u64) -> Outcome {
    install_hook();
    let mut cx = new_cx(wl);
    cx.index = index;
    cx.r = case_rng(prop, wl, seed, index);
    SLOT.with(|s| s.set(0));
    TOTAL.with(|t| t.set(0));
    guarded(&mut cx, wl.f)
}

pub struct Opts { pub seed: u64, pub tier: Tier, pub threads: usize, pub keep_going: bool, pub trace: bool, pub from: u64, pub to: u64 }

pub fn run(prop: &str, wls: &[Workload], o: &Opts) -> Report {
    let (seed, tier, threads, keep_going) = (o.seed, o.tier, o.threads, o.keep_going);
    install_hook();
    let threads = threads.min(MAX_THREADS).max(1);
    let mut rep = Report {
        evaluations: 0, distinct: 0, observations: 0, counts: BTreeMap::new(), per_workload: Vec::new(), samples: Vec::new(),
        failures: Vec::new(), errors: Vec::new(),
    };
    let stop = AtomicBool::new(false);
    for (wi, wl) in wls.iter().enumerate() {
        let n = wl.cases(tier).min(o.to);
        if n <= o.from { continue; }
        let next = AtomicU64::new(o.from);
        let live = AtomicUsize::new(threads);
        #[allow(clippy::type_complexity)]
        let merged: Mutex<(u64, (HashSet<u64>, HashSet<u64>), BTreeMap<&'static str, u64>, Vec<(u64, String)>, Vec<Failure>, Vec<String>)> =
            Mutex::new((0, (HashSet::new(), HashSet::new()), BTreeMap::new(), Vec::new(), Vec::new(), Vec::new()));
        let chunk = ((n - o.from) / (threads as u64 * 16)).clamp(1, 4096);
        let worker = |slot: usize| {
            let mut cx = new_cx(wl);
            let mut evals = 0;
            let mut fails: Vec<Failure> = Vec::new();
            let mut errs: Vec<String> = Vec::new();
            SLOT.with(|s| s.set(slot));
            CUR_WL[slot].store(wi as u64, Ordering::Relaxed);
            'outer: loop {
                let a = next.fetch_add(chunk, Ordering::Relaxed);
                if a >= n { break; }
                for i in a..(a + chunk).min(n) {
                    if stop.load(Ordering::Relaxed) { break 'outer; }
                    // a reduced sweep takes cases from all over the space
                    let i = if tier == Tier::Tiny && wl.sweep { (i * (wl.quick / wl.tiny).max(1) + mix(seed) % wl.quick) % wl.quick } else { i };
                    CUR_IX[slot].store(i, Ordering::Relaxed);
                    CUR_SEQ[slot].fetch_add(1, Ordering::Relaxed);
                    cx.index = i;
                    cx.r = case_rng(prop, wl, seed, i);
                    TOTAL.with(|t| t.set(0));
                    if o.trace { eprintln!("VH-CASE {} {}", wl.name, i); }
                    let o = guarded(&mut cx, wl.f);
                    cx.end_case();
                    SLOT.with(|s| s.set(usize::MAX));
                    evals += 1;
                    match o {
                        Outcome::Ok => {}
                        Outcome::Violation(w) => {
                            fails.push(Failure { workload: wl.name.to_string(), index: i, what: w });
                            if !keep_going || fails.len() >= 200 { stop.store(true, Ordering::Relaxed); }
                        }
                        Outcome::HarnessError(e) => { errs.push(format!("{} case {}: {}", wl.name, i, e)); stop.store(true, Ordering::Relaxed); }
                    }
                    SLOT.with(|s| s.set(slot));
                }
            }
            SLOT.with(|s| s.set(usize::MAX));
            CUR_SEQ[slot].fetch_add(1, Ordering::Relaxed);
            let mut m = merged.lock().unwrap();
            m.0 += evals;
            for d in cx.distinct.drain() { if m.1.0.len() < DISTINCT_CAP { m.1.0.insert(d); } }
            for d in cx.cases.drain() { if m.1.1.len() < DISTINCT_CAP { m.1.1.insert(d); } }
            for (k, v) in &cx.counts { *m.2.entry(k).or_insert(0) += v; }
            let first = cx.samples.drain(..).map(|s| (0, s)).collect::<Vec<_>>();
            m.3.extend(first);
            m.4.extend(fails);
            m.5.extend(errs);
            live.fetch_sub(1, Ordering::SeqCst);
        };
        if threads == 1 {
            worker(0);
        } else {
            #[cfg(not(miri))]
            {
                let clocks: Vec<std::sync::atomic::AtomicI32> = (0..threads).map(|_| std::sync::atomic::AtomicI32::new(0)).collect();
                std::thread::scope(|s| {
                    for slot in 0..threads {
                        let w = &worker;
                        let clocks = &clocks;
                        std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
                            clocks[slot].store(cpu::my_clock(), Ordering::SeqCst);
                            w(slot);
                        }).expect("spawn");
                    }
                    let mut mark: Vec<(u64, f64)> = vec![(0, 0.0); threads];
                    let mut tick = 0u64;
                    while live.load(Ordering::SeqCst) > 0 {
                        std::thread::sleep(std::time::Duration::from_millis(if tick < 20 { 2 } else { 20 }));
                        tick += 1;
                        if tick % 25 != 0 { continue; }
                        for slot in 0..threads {
                            let seq = CUR_SEQ[slot].load(Ordering::Relaxed);
                            let c = clocks[slot].load(Ordering::SeqCst);
                            if live.load(Ordering::SeqCst) == 0 { break; }
                            let t = cpu::secs(c);
                            if mark[slot].0 != seq { mark[slot] = (seq, t); }
                            else if t - mark[slot].1 > 20.0 {
                                let ix = CUR_IX[slot].load(Ordering::Relaxed);
                                eprintln!("\nVH-CPU-WATCHDOG {} {}", wi, ix);
                                unsafe { _exit(78) }
                            }
                        }
                    }
                });
                
            }
            #[cfg(miri)]
            worker(0);
        }
        let mut m = merged.into_inner().unwrap();
        rep.evaluations += m.0;
        rep.per_workload.push((wl.name.to_string(), m.0));
        rep.distinct += m.1.1.len() as u64;
        rep.observations += m.1.0.len() as u64;
        for (k, v) in m.2 { *rep.counts.entry(k.to_string()).or_insert(0) += v; }
        m.3.truncate(2);
        for s in m.3 { rep.samples.push(format!("{}: {}", wl.name, s.1)); }
        m.4.sort_by_key(|f| f.index);
        rep.failures.extend(m.4);
        rep.errors.extend(m.5);
        if stop.load(Ordering::Relaxed) { break; }
    }
    rep
}
