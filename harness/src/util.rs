//! Seeded randomness, the parallel case runner, statistics and verdicts.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, Weak};

/// SplitMix64: the only source of randomness, always seeded explicitly.
#[derive(Clone)]
pub struct Rng(pub u64);
/// A bijection of 64-bit numbers (SplitMix64's finish).
#[inline]
pub fn mix(x: u64) -> u64 {
    let mut z = x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x5851_F42D_4C95_7F2D);
        r.next();
        r
    }
    pub fn of(parts: &[u64]) -> Self {
        let mut h = 0x1234_5678_9ABC_DEF1u64;
        for p in parts {
            h = Rng(h ^ p.wrapping_mul(0x9E37_79B9_7F4A_7C15)).next();
        }
        Rng(h)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (n > 0).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn f64(&mut self) -> f64 {
        ((self.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
    }
}

/// What the monitors observed in one case or run.
#[derive(Default, Clone)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    /// How many were offered to `distinct`.
    pub tried: u64,
    pub samples: Vec<String>,
    /// Named sets of things seen (table segments, ...), reported by size.
    pub marks: BTreeMap<String, HashSet<u64>>,
}
impl Stats {
    pub fn mark(&mut self, set: &str, x: u64) {
        if let Some(s) = self.marks.get_mut(set) {
            s.insert(x);
        } else {
            self.marks.entry(set.to_string()).or_default().insert(x);
        }
    }
    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(key) {
            *v += n;
        } else {
            self.counters.insert(key.to_string(), n);
        }
    }
    pub fn inc(&mut self, key: &str) {
        self.add(key, 1);
    }
    pub fn max(&mut self, key: &str, n: u64) {
        let e = self.counters.entry(format!("max {key}")).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn get(&self, key: &str) -> u64 {
        self.counters.get(key).copied().unwrap_or(0)
    }
    /// Registers a distinct non-trivial case.
    pub fn distinct(&mut self, parts: &[u64]) {
        self.tried += 1;
        self.distinct.insert(Rng::of(parts).next());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            self.samples.push(f());
        }
    }
    pub fn merge(&mut self, o: Stats) {
        for (k, v) in o.counters {
            if k.starts_with("max ") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        self.tried += o.tried;
        self.distinct.extend(o.distinct);
        for (k, v) in o.marks {
            self.marks.entry(k).or_default().extend(v);
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
    }
}

/// The result of one monitored case: Err carries the witness.
pub type Verdict = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

thread_local! {
    static IN_LIB: Cell<u32> = Cell::new(0);
    static LAST_PANIC: RefCell<Option<(bool, String)>> = RefCell::new(None);
}

/// Marks the dynamic extent of a call into the code under test: a panic inside
/// is an observation about that code, a panic outside is a harness error.
#[inline]
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            IN_LIB.with(|c| {
                c.set(c.get() - 1);
                if c.get() == 0 {
                    step();
                }
            });
        }
    }
    IN_LIB.with(|c| {
        c.set(c.get() + 1);
        if c.get() == 1 {
            step();
        }
    });
    let _g = G;
    f()
}

/// Calls into the library begun and ended by one thread: odd inside a call.
struct Pulse {
    calls: AtomicU64,
    case: AtomicU64,
    hog: AtomicBool,
}
static PULSES: Mutex<Vec<Weak<Pulse>>> = Mutex::new(Vec::new());
thread_local! {
    static PULSE: Arc<Pulse> = {
        let p = Arc::new(Pulse { calls: AtomicU64::new(0), case: AtomicU64::new(CASE_UNKNOWN), hog: AtomicBool::new(false) });
        let mut all = PULSES.lock().unwrap();
        all.retain(|w| w.strong_count() > 0);
        all.push(Arc::downgrade(&p));
        p
    };
}
/// The current thread holds far more memory than any case needs.
pub fn hog() {
    let _ = PULSE.try_with(|p| p.hog.store(true, Ordering::Relaxed));
}
const CASE_UNKNOWN: u64 = u64::MAX;
#[inline]
fn step() {
    let _ = PULSE.try_with(|p| {
        // Only this thread writes.
        p.calls.store(p.calls.load(Ordering::Relaxed) + 1, Ordering::Relaxed)
    });
}

/// Seconds after which a single library call counts as one that never
/// returns (they take microseconds to milliseconds).
pub const HANG: u32 = 150;

/// Watches all threads; calls `report` with the case in which a library call
/// has been running for `HANG` seconds.
pub fn watchdog(report: impl Fn(u64, String) + Send + 'static) {
    std::thread::spawn(move || {
        const TICK: u64 = 200;
        let mut seen: Vec<(Weak<Pulse>, u64, u32)> = Vec::new();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(TICK));
            let all: Vec<Weak<Pulse>> = PULSES.lock().unwrap().clone();
            seen.retain(|(w, _, _)| w.strong_count() > 0);
            for w in all {
                let Some(p) = w.upgrade() else { continue };
                let now = p.calls.load(Ordering::Relaxed);
                if now % 2 == 1 && p.hog.load(Ordering::Relaxed) {
                    report(p.case.load(Ordering::Relaxed), "a library call holds more than 3 GB of heap memory".into());
                }
                match seen.iter_mut().find(|(v, _, _)| v.ptr_eq(&w)) {
                    None => seen.push((w.clone(), now, 0)),
                    Some(e) if e.1 == now && now % 2 == 1 => {
                        e.2 += 1;
                        if e.2 >= HANG * (1000 / TICK) as u32 {
                            report(p.case.load(Ordering::Relaxed), format!("a library call has not returned for {HANG} s"));
                        }
                    },
                    Some(e) => {
                        e.1 = now;
                        e.2 = 0;
                    },
                }
            }
        }
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let inlib = IN_LIB.with(|c| c.get() > 0);
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = payload(info.payload());
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = Some((inlib, format!("panic at {loc}: {msg}")))
        });
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

pub enum Outcome {
    Ok,
    Violation(String),
    HarnessError(String),
}

/// Runs a closure; panics inside library calls become violations.
pub fn guarded(f: impl FnOnce() -> Verdict) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Ok,
        Ok(Err(e)) => Outcome::Violation(e),
        Err(_) => match LAST_PANIC.with(|p| p.borrow_mut().take()) {
            Some((true, m)) => {
                Outcome::Violation(format!("a library call panicked: {m}"))
            },
            Some((false, m)) => Outcome::HarnessError(m),
            None => Outcome::HarnessError("unknown panic".into()),
        },
    }
}

pub struct Run {
    pub stats: Stats,
    pub evaluations: u64,
    pub violation: Option<(u64, String)>,
    pub error: Option<String>,
}

/// Runs cases 0..n in parallel (each a deterministic function of its index),
/// stops at the first violation or harness error. With `only`, runs that case
/// alone. The reported violation is the one with the smallest index found.
pub fn run_cases(
    n: u64,
    threads: usize,
    only: Option<u64>,
    budget: f64,
    case: &(dyn Fn(u64, &mut Stats) -> Verdict + Sync),
) -> Run {
    let t0 = std::time::Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Run {
        stats: Stats::default(),
        evaluations: 0,
        violation: None,
        error: None,
    });
    let one = |i: u64, st: &mut Stats| -> bool {
        PULSE.with(|p| p.case.store(i, Ordering::Relaxed));
        let out = guarded(|| case(i, st));
        let mut bad = true;
        match out {
            Outcome::Ok => bad = false,
            Outcome::Violation(m) => {
                let mut t = total.lock().unwrap();
                if t.violation.as_ref().map_or(true, |(j, _)| i < *j) {
                    t.violation = Some((i, m));
                }
            },
            Outcome::HarnessError(m) => {
                total.lock().unwrap().error = Some(format!("case {i}: {m}"));
            },
        }
        bad
    };
    if let Some(i) = only {
        let mut st = Stats::default();
        one(i, &mut st);
        let mut t = total.into_inner().unwrap();
        t.stats = st;
        t.evaluations = 1;
        return t;
    }
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut st = Stats::default();
                let mut done = 0;
                while !stop.load(Ordering::Relaxed) {
                    let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                    if i >= n || t0.elapsed().as_secs_f64() > budget {
                        break;
                    }
                    done += 1;
                    if one(i, &mut st) {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
                let mut t = total.lock().unwrap();
                t.evaluations += done;
                t.stats.merge(st);
            });
        }
    });
    total.into_inner().unwrap()
}

/// What rounding can do to linear counting over 2^25 registers, which is
/// ill-conditioned for few elements (2^25 times the rounding of a logarithm,
/// however the formula is written); a single element makes a difference of 1.
pub const SLACK: f64 = 4e-7;

/// Relative closeness of two estimates.
#[inline]
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    // Not a number is C09's business; here it equals itself.
    a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= tol * a.abs().max(b.abs()) + SLACK
}

/// Tolerance between two runs of the real code on the same abstract state.
pub const SAME: f64 = 1e-11;
/// Tolerance between the real code and the reference estimator.
pub const MODEL: f64 = 1e-10;
