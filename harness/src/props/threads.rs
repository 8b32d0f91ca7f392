//! C15: many threads. Compiled only with the feature "threads", so that a
//! sketch that is no longer Send or Sync is told apart from other failures.
use super::*;
use crate::fail;
use crate::gen::{many, size, KINDS};
use crate::model::Ref;
use crate::probe::{fingerprint, same, Depth};
use crate::sk::{round, Fmt, Pf, Plus, Sk};
use crate::util::{guarded, Outcome, Rng, Stats, Verdict};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Barrier, Mutex, RwLock};

pub trait Par: Sk + Send + Sync {}
impl Par for Pf {}
impl Par for Plus {}

/// Send and Sync for any thread-safe parameters, owned and shared.
#[allow(dead_code)]
fn bounds<H, B>()
where
    H: std::hash::Hash + Send + Sync,
    B: std::hash::BuildHasher + Send + Sync,
{
    fn both<T: Send + Sync>() {}
    both::<hyperloglogplus::HyperLogLogPF<H, B>>();
    both::<hyperloglogplus::HyperLogLogPlus<H, B>>();
    both::<hyperloglogplus::HyperLogLogError>();
    both::<hyperloglogplus::HyperLogLogPlus<String, std::collections::hash_map::RandomState>>();
}

/// A pause between two operations of a thread: nothing, spinning, yielding.
fn pause(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(200) {
                std::hint::spin_loop()
            }
        },
        2 => {
            if r.chance(1, 40) {
                std::thread::sleep(std::time::Duration::from_micros(r.below(60)))
            }
        },
        _ => {},
    }
}

/// Order in which the operations of the threads took effect.
struct Trace {
    next: AtomicUsize,
    slots: Vec<AtomicU64>,
}
impl Trace {
    fn new(n: usize) -> Self {
        Trace { next: AtomicUsize::new(0), slots: (0..n).map(|_| AtomicU64::new(0)).collect() }
    }
    // Relaxed: the trace must not order the threads under the race detector.
    fn tick(&self, who: u64) {
        let i = self.next.fetch_add(1, Ordering::Relaxed);
        if i < self.slots.len() {
            self.slots[i].store(who + 1, Ordering::Relaxed);
        }
    }
    fn hash(&self) -> (u64, u64) {
        let v: Vec<u64> = self.slots.iter().map(|s| s.load(Ordering::Relaxed)).collect();
        let switches = v.windows(2).filter(|w| w[0] != w[1] && w[1] != 0).count() as u64;
        (Rng::of(&v).next(), switches)
    }
}

pub fn c15(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    let mut r = Rng::of(&[cx.seed, 150, i]);
    // Small and medium precisions get most of the schedules.
    let p = if p > 14 && r.chance(3, 4) { 4 + r.below(9) as u8 } else { p };
    match (i / 28) % 3 {
        0 => dispatch!(plus, shards, i, p, cx, st),
        1 => dispatch!(plus, shared, i, p, cx, st),
        _ => dispatch!(plus, lonely, i, p, cx, st),
    }
}

/// Runs one closure per thread, all released together; collects verdicts.
fn together<T: Send>(
    t: usize,
    f: impl Fn(usize) -> Result<T, String> + Sync,
) -> Result<Vec<T>, String> {
    let barrier = Barrier::new(t);
    let out: Mutex<Vec<(usize, T)>> = Mutex::new(Vec::new());
    let err: Mutex<Option<String>> = Mutex::new(None);
    let harness: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for k in 0..t {
            let (barrier, out, err, harness, f) = (&barrier, &out, &err, &harness, &f);
            s.spawn(move || {
                barrier.wait();
                match guarded(|| {
                    let v = f(k)?;
                    out.lock().unwrap().push((k, v));
                    Ok(())
                }) {
                    Outcome::Ok => {},
                    Outcome::Violation(m) => *err.lock().unwrap() = Some(m),
                    Outcome::HarnessError(m) => *harness.lock().unwrap() = Some(m),
                }
            });
        }
    });
    if let Some(m) = harness.into_inner().unwrap() {
        panic!("{m}");
    }
    if let Some(m) = err.into_inner().unwrap() {
        return Err(m);
    }
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    Ok(v.into_iter().map(|x| x.1).collect())
}

fn load<S: Sk>(p: u8, r: &mut Rng, cap: usize) -> Vec<u64> {
    let n = size::<S>(p, r).min(cap);
    let k = *r.pick(&KINDS);
    many::<S>(k, p, r, n)
}

fn note<S: Par>(st: &mut Stats, p: u8, h: &[u64], t: usize, tr: &Trace) {
    let mut m = Ref::new(S::PLUS, p);
    for x in h {
        m.ins(*x);
    }
    m.settle();
    st.inc(&format!("result state {} {}", S::NAME, state_label(&m, false)));
    let (x, sw) = tr.hash();
    st.mark("schedules", x);
    st.add("context switches between operations", sw);
    st.distinct(&[S::PLUS as u64, p as u64, t as u64, x]);
}

/// Threads build shards; shards are merged concurrently, in arrival order.
fn shards<S: Par>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 151, i]);
    let t = r.range(2, 16) as usize;
    let parts: Vec<Vec<u64>> = (0..t).map(|_| load::<S>(p, &mut r, 12_000)).collect();
    let all: Vec<u64> = parts.iter().flatten().copied().collect();
    let want: S = build(p, &all);
    let fw = fingerprint(&want, p, i, &all, Depth::Normal);
    let tr = Trace::new(t * 12);
    let target = Mutex::new(S::mk(p));
    let bag: RwLock<Vec<S>> = RwLock::new(Vec::new());
    let seed = r.next();
    together(t, |k| {
        let mut r = Rng::of(&[seed, k as u64]);
        let mut s = S::mk(p);
        for c in parts[k].chunks((parts[k].len() / 8).max(1)) {
            tr.tick(k as u64);
            for x in c {
                s.ins(*x);
            }
            if r.chance(1, 3) {
                s.cnt();
            }
            pause(&mut r);
        }
        tr.tick(k as u64);
        target.lock().unwrap().join(&s)?;
        bag.write().unwrap().push(s);
        Ok(())
    })?;
    let f = fingerprint(&target.into_inner().unwrap(), p, i, &all, Depth::Normal);
    same(&fw, &f).map_err(|e| format!("{} p={p}: {t} shards built and merged by threads differ from one sequential sketch: {e}", S::NAME))?;
    let bag = bag.into_inner().unwrap();
    // Sketches built by other threads, used here.
    let mut m = bag[0].dup();
    for s in &bag[1..] {
        m.join(s)?;
    }
    let f = fingerprint(&m, p, i, &all, Depth::Normal);
    same(&fw, &f).map_err(|e| format!("{} p={p}: shards moved between threads: {e}", S::NAME))?;
    note::<S>(st, p, &all, t, &tr);
    st.inc("shard runs");
    st.sample(|| format!("{} p={p}: {t} threads, {} elements", S::NAME, all.len()));
    Ok(())
}

/// Threads read one shared sketch: merge from it, clone it, serialize it.
fn shared<S: Par>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 152, i]);
    let t = r.range(2, 12) as usize;
    let h = load::<S>(p, &mut r, 30_000);
    let src: S = wander(p, &h, &mut r);
    let f0 = fingerprint(&src, p, i, &h, Depth::Normal);
    let own: Vec<Vec<u64>> = (0..t).map(|_| load::<S>(p, &mut r, 3_000)).collect();
    let tr = Trace::new(t * 10);
    let seed = r.next();
    let src_ref = &src;
    let got = together(t, |k| {
        let mut r = Rng::of(&[seed, k as u64]);
        let mut s: S = build(p, &own[k]);
        let mut clones = Vec::new();
        for _ in 0..6 {
            tr.tick(k as u64);
            match r.below(4) {
                0 => clones.push(src_ref.dup()),
                1 => clones.push(round(src_ref, *r.pick(&[Fmt::Bincode, Fmt::Json]))?),
                2 => {
                    let mut c = src_ref.dup();
                    c.cnt();
                    c.ins(r.next());
                    c.cnt();
                },
                _ => s.join(src_ref)?,
            }
            pause(&mut r);
        }
        s.join(src_ref)?;
        tr.tick(k as u64);
        let c = s.cnt();
        Ok((s, clones, c))
    })?;
    let f1 = fingerprint(&src, p, i, &h, Depth::Normal);
    same(&f0, &f1).map_err(|e| format!("{} p={p}: {t} concurrent readers changed the shared sketch: {e}", S::NAME))?;
    for (k, (s, clones, c)) in got.into_iter().enumerate() {
        let mut u = own[k].clone();
        u.extend_from_slice(&h);
        let mut w: S = build(p, &u);
        let fw = fingerprint(&w, p, i, &u, Depth::Normal);
        let f = fingerprint(&s, p, i, &u, Depth::Normal);
        same(&fw, &f).map_err(|e| format!("{} p={p}: thread {k} of {t} merged from the shared sketch and got something else than sequentially: {e}", S::NAME))?;
        if !crate::util::close(w.cnt(), c, crate::util::SAME) {
            fail!("{} p={p}: thread {k} counted {c:?}, sequentially it is {:?}", S::NAME, w.cnt());
        }
        for c in clones.iter().take(2) {
            let f = fingerprint(c, p, i, &h, Depth::Normal);
            same(&f0, &f).map_err(|e| format!("{} p={p}: a clone taken by thread {k} of {t} differs: {e}", S::NAME))?;
        }
        st.add("reads of a shared sketch", 7);
    }
    note::<S>(st, p, &h, t, &tr);
    st.inc("shared reader runs");
    Ok(())
}

/// Threads use sketches of their own: no interference.
fn lonely<S: Par>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 153, i]);
    let t = r.range(2, 16) as usize;
    let seed = r.next();
    // The same program with different data on every thread; precisions differ
    // as well, so that anything shared would be seen.
    let program = |k: usize, tr: Option<&Trace>| -> Result<Vec<f64>, String> {
        let mut r = Rng::of(&[seed, k as u64]);
        let p = if k % 3 == 2 { 4 + (p - 4 + k as u8) % (S::MAXP.min(13) - 3) } else { p };
        let h = load::<S>(p, &mut r, 6_000);
        let g = load::<S>(p, &mut r, 1_000);
        let mut jitter = Rng::new(seed ^ k as u64);
        let mut s = S::mk(p);
        let mut o = S::mk(p);
        let mut out = Vec::new();
        for c in h.chunks((h.len() / 10).max(1)) {
            if let Some(tr) = tr {
                tr.tick(k as u64);
                pause(&mut jitter);
            }
            for x in c {
                s.ins(*x);
            }
            out.push(s.cnt());
        }
        for x in &g {
            o.ins(*x);
        }
        s.join(&o)?;
        out.push(s.cnt());
        let mut c = round(&s, Fmt::Bincode)?.dup();
        for x in &h {
            c.ins(x.rotate_left(7));
        }
        out.push(c.cnt());
        out.push(o.cnt());
        Ok(out)
    };
    let tr = Trace::new(t * 12);
    let par = together(t, |k| program(k, Some(&tr)))?;
    for (k, got) in par.iter().enumerate() {
        let want = program(k, None)?;
        same(&want, got).map_err(|e| format!("{} p={p}: thread {k} of {t} with a sketch of its own got other estimates than alone: {e}", S::NAME))?;
        st.add("estimates compared with a sequential run", want.len() as u64);
    }
    let (x, sw) = tr.hash();
    st.mark("schedules", x);
    st.add("context switches between operations", sw);
    st.distinct(&[S::PLUS as u64, p as u64, t as u64, x]);
    st.inc("independent runs");
    Ok(())
}
