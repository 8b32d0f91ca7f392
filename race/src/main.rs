//! A small multi-threaded program for Miri, which checks for data races under
//! a different schedule (and different outcomes of weak memory) per seed.
//! Prints one line: digest of the interleaving, switches between threads,
//! estimates compared.
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use std::hash::{BuildHasher, Hasher};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex};

#[derive(Clone)]
struct Pass;
struct PassHasher(u64);
impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}
impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}

fn mix(x: u64) -> u64 {
    let mut z = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

trait Sk: Clone + Send + Sync {
    fn make(p: u8) -> Self;
    fn ins(&mut self, x: u64);
    fn cnt(&mut self) -> f64;
    fn join(&mut self, o: &Self);
}
macro_rules! sk {
    ($t:ty) => {
        impl Sk for $t {
            fn make(p: u8) -> Self {
                <$t>::new(p, Pass).unwrap()
            }
            fn ins(&mut self, x: u64) {
                self.insert(&x)
            }
            fn cnt(&mut self) -> f64 {
                self.count()
            }
            fn join(&mut self, o: &Self) {
                self.merge(o).unwrap()
            }
        }
    };
}
sk!(HyperLogLogPF<u64, Pass>);
sk!(HyperLogLogPlus<u64, Pass>);

struct Trace {
    next: AtomicUsize,
    slots: Vec<AtomicU64>,
}
impl Trace {
    // Relaxed: the trace must not order the threads.
    fn tick(&self, who: u64) {
        let i = self.next.fetch_add(1, Ordering::Relaxed);
        if let Some(s) = self.slots.get(i) {
            s.store(who + 1, Ordering::Relaxed)
        }
    }
}

fn agree(what: &str, got: f64, want: f64) {
    if (got - want).abs() > 1e-9 * want.abs() + 4e-7 {
        eprintln!("MISMATCH {what}: {got:?} concurrently, {want:?} sequentially");
        std::process::exit(3);
    }
}

/// What one thread does: a sketch of its own, and one it shares.
fn work<S: Sk>(base: &S, p: u8, k: u64, n: u64, t: Option<&Trace>) -> (S, Vec<f64>) {
    let tick = || {
        if let Some(t) = t {
            t.tick(k)
        }
    };
    let mut own = S::make(p);
    let mut seen = vec![];
    for j in 0..n {
        own.ins(mix(1000 * (k + 1) + j / 2 * 2));
        tick();
        if j == n / 2 || j + 1 == n {
            seen.push(own.cnt());
            tick();
        }
    }
    let mut copy = base.clone();
    tick();
    copy.ins(mix(77 + k));
    tick();
    seen.push(copy.cnt());
    tick();
    own.join(base);
    tick();
    seen.push(own.cnt());
    drop(copy);
    tick();
    (own, seen)
}

/// The threads come first: nothing the library sets up on first use has been
/// set up when they start, except that a shared sketch (if any) is built.
fn scene<S: Sk>(name: &str, threads: u64, p: u8, base_n: u64, n: u64, t: &Trace) -> u64 {
    let filled = || {
        let mut s = S::make(p);
        for j in 0..base_n {
            s.ins(mix(9_000_000 + j));
        }
        s
    };
    let mut base = filled();
    let total = Mutex::new(S::make(p));
    let start = Barrier::new(threads as usize);
    let got: Vec<(S, Vec<f64>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (base, total, start) = (&base, &total, &start);
                s.spawn(move || {
                    start.wait();
                    let r = work(base, p, k, n, Some(t));
                    total.lock().unwrap().join(&r.0);
                    t.tick(k);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let want: Vec<(S, Vec<f64>)> = (0..threads).map(|k| work(&base, p, k, n, None)).collect();
    let mut all = S::make(p);
    let mut n = 0;
    for (k, ((_, b), (w, a))) in got.iter().zip(&want).enumerate() {
        for (x, y) in b.iter().zip(a) {
            agree(&format!("{name} p={p} base={base_n} thread {k}"), *x, *y);
            n += 1;
        }
        all.join(w);
    }
    let mut total = total.into_inner().unwrap();
    agree(&format!("{name} p={p} base={base_n} merged by the threads"), total.cnt(), all.cnt());
    agree(&format!("{name} p={p} base={base_n} shared"), base.cnt(), filled().cnt());
    n + 2
}

/// race [THREADS SIZE]: SIZE multiplies the number of elements.
fn main() {
    let arg = |k: usize, d: u64| std::env::args().nth(k).map_or(d, |a| a.parse().unwrap());
    let (threads, f) = (arg(1, 3), arg(2, 1));
    // Which scene meets a library never used before is left to the seed.
    let first = std::collections::hash_map::RandomState::new().hash_one(1) % 4;
    let t = Trace { next: AtomicUsize::new(0), slots: (0..600 * f).map(|_| AtomicU64::new(0)).collect() };
    let mut n = 0;
    for k in first..first + 4 {
        n += match k % 4 {
            0 => scene::<HyperLogLogPF<u64, Pass>>("HyperLogLogPF", threads, 4, 9, 8 * f, &t),
            1 => scene::<HyperLogLogPlus<u64, Pass>>("HyperLogLogPlus", threads, 4, 0, 12 * f, &t),
            2 => scene::<HyperLogLogPlus<u64, Pass>>("HyperLogLogPlus", threads, 4, 20, 8 * f, &t),
            _ => scene::<HyperLogLogPlus<u64, Pass>>("HyperLogLogPlus", threads, 8, 5, 10 * f, &t),
        };
    }
    let v: Vec<u64> = t.slots.iter().map(|s| s.load(Ordering::Relaxed)).collect();
    let digest = v.iter().fold(7u64, |h, x| mix(h ^ x));
    let switches = v.windows(2).filter(|w| w[1] != 0 && w[0] != w[1]).count();
    println!("INTERLEAVING {digest:016x} {switches} {n}");
}
