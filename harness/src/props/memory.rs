//! C12: the heap held by one sketch, metered by the global allocator.
use super::*;
use crate::fail;
use crate::gen::{many, Kind, KINDS};
use crate::model::Ref;
use crate::sk::{round, Sk, FMTS};
use crate::util::{Rng, Stats, Verdict};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Meter;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}
fn track(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        if v > 3 << 30 {
            crate::util::hog();
        }
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = EVENTS.try_with(|e| e.set(e.get() + 1));
}
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            track(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        track(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            track(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            track(n as i64 - l.size() as i64);
        }
        q
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
fn reset_peak() {
    PEAK.with(|p| p.set(live()))
}
fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

/// Bytes of the dense register array.
pub fn dense_bytes<S: Sk>(p: u8) -> i64 {
    let m = 1i64 << p;
    let per = if S::PLUS { 5 } else { 6 };
    4 * ((m + per - 1) / per)
}

/// Allowed heap: insertions only, and after merges (which may buffer all the
/// codes of the other sketch).
pub fn bound<S: Sk>(p: u8, merged: bool) -> i64 {
    let d = dense_bytes::<S>(p);
    if !S::PLUS {
        2 * d + 512
    } else if merged {
        32 * d + 4096
    } else {
        6 * d + 2048
    }
}
/// While an operation runs it may need temporary copies, with a word or more
/// per register or code.
pub fn peak_bound<S: Sk>(p: u8, merged: bool) -> i64 {
    2 * bound::<S>(p, merged) + 24 * dense_bytes::<S>(p) + 8192
}

/// Sparse sketches of ever new elements merged into one that is neither
/// inserted into nor counted: it has to keep itself small.
fn merge_stream<S: Sk>(p: u8, d: i64, r: &mut Rng) -> Result<(u64, i64), String> {
    // A few codes each: below, at and above the number that causes a flush.
    let flush = (d as usize / 100).max(1);
    let size = *r.pick(&[1, flush / 2 + 1, flush, flush + 1, 4 * flush]);
    let size = size.max(if p > 12 { 500 } else { 1 });
    let close = r.chance(1, 3);
    let total = 10 * d as u64;
    let counted = r.chance(1, 2);
    let (mut merges, mut done) = (0u64, 0u64);
    let mut worst = 0;
    let start = r.next();
    let base = live();
    let mut s = S::mk(p);
    while done < total {
        let mut o = S::mk(p);
        for _ in 0..size {
            // Close together, the codes take a byte each.
            let h = if close { done << 39 } else { r.next() };
            o.ins(h.wrapping_add(start));
            done += 1;
        }
        if counted {
            o.cnt();
        }
        if s.mrg(&o).is_err() {
            fail!("merge of equal precisions failed");
        }
        drop(o);
        merges += 1;
        let l = live() - base;
        if l > bound::<S>(p, true) {
            fail!("{} p={p}: {l} heap bytes after merging {merges} sketches of {size} elements, allowed are {} (dense registers take {d})", S::NAME, bound::<S>(p, true));
        }
        worst = worst.max(l);
    }
    drop(s);
    if live() != base {
        fail!("{} p={p}: {} heap bytes left after dropping the receiver of {merges} merges", S::NAME, live() - base);
    }
    Ok((merges, worst))
}

/// The other operations, one after the other for long: whatever a sketch keeps
/// of its past shows.
fn long_life<S: Sk>(p: u8, dense: bool, r: &mut Rng) -> Result<u64, String> {
    let q = if p > 4 { p - 1 } else { 5 };
    let mut wrong = S::mk(q);
    let mut o = S::mk(p);
    for _ in 0..3 {
        wrong.ins(r.next());
        o.ins(r.next());
    }
    let base = live();
    let mut s = S::mk(p);
    for _ in 0..if dense { 3usize << p } else { 3 } {
        s.ins(r.next());
    }
    let b = bound::<S>(p, true);
    let times = if p <= 10 { 4000u64 } else { 40_000 >> (p - 6) };
    let mut done = 0;
    for what in ["clones, each of the one before", "counts", "rejected merges", "clone_from back and forth", "round trips", "merges of one small sketch"] {
        for k in 0..times {
            match what {
                "clones, each of the one before" => s = s.dup(),
                "counts" => {
                    s.cnt();
                },
                "rejected merges" => {
                    if s.mrg(&wrong).is_ok() {
                        fail!("{} p={p}: merged with precision {q}", S::NAME);
                    }
                },
                "clone_from back and forth" => {
                    let mut c = S::mk(p);
                    crate::util::lib(|| c.clone_from(&s));
                    crate::util::lib(|| s.clone_from(&c));
                },
                "round trips" => {
                    if k % 8 == 0 {
                        s = round(&s, FMTS[k as usize / 8 % FMTS.len()])?;
                    }
                },
                _ => s.join(&o)?,
            }
            done += 1;
            let l = live() - base;
            if l > b + 256 {
                fail!("{} p={p}: {l} heap bytes after {} {what}, allowed are {b}", S::NAME, k + 1);
            }
        }
    }
    drop(s);
    if live() != base {
        fail!("{} p={p}: {} heap bytes left after dropping a sketch with a long life", S::NAME, live() - base);
    }
    Ok(done)
}

pub fn c12(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    dispatch!(plus, c12_t, i, p, cx, st)
}
fn c12_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 12, i]);
    let d = dense_bytes::<S>(p);
    let m = 1usize << p;
    let mode = (i / 28) % 4;
    let k = match mode {
        0 => Kind::Uniform,
        1 => *r.pick(&[Kind::Clustered, Kind::Flagged, Kind::Spread]),
        _ => *r.pick(&KINDS),
    };
    // Everything the case itself needs is allocated up front.
    let n = (3 * m).max(if r.chance(1, 3) { 30_000 } else { 400 });
    let h = many::<S>(k, p, &mut r, n);
    let others: Vec<S> = if mode >= 2 {
        (0..4)
            .map(|j| {
                let n = match j {
                    0 => m / 2 + 1,
                    1 => m / 3 + 1,
                    2 => 10,
                    _ => (4 * m / 5) / 100 + 1,
                };
                let kk = *r.pick(&KINDS);
                let hh = many::<S>(kk, p, &mut r, n);
                wander(p, &hh, &mut r)
            })
            .collect()
    } else {
        Vec::new()
    };
    let base0 = live();
    let mut worst = 0i64;
    let mut worst_peak = 0i64;
    let mut samples = 0u64;
    let mut merged = false;
    let mut bad: Option<(&'static str, usize, i64, i64)> = None;
    reset_peak();
    let mut s = S::mk(p);
    let base = base0;
    let mut after = |what: &'static str, at: usize, merged: bool, bad: &mut Option<(&'static str, usize, i64, i64)>| {
        let l = live() - base;
        let pk = peak() - base;
        worst = worst.max(l);
        worst_peak = worst_peak.max(pk);
        samples += 1;
        if bad.is_none() {
            if l > bound::<S>(p, merged) {
                *bad = Some((what, at, l, bound::<S>(p, merged)));
            } else if pk > peak_bound::<S>(p, merged) {
                *bad = Some(("peak", at, pk, peak_bound::<S>(p, merged)));
            }
        }
    };
    after("new", 0, false, &mut bad);
    let every = (h.len() / 600).max(1);
    for (j, x) in h.iter().enumerate() {
        s.ins(*x);
        after("insert", j + 1, merged, &mut bad);
        if mode % 2 == 1 && j % every == 0 {
            s.cnt();
            after("count", j + 1, merged, &mut bad);
        }
        if !others.is_empty() && r.below(h.len() as u64) < 6 {
            let o = &others[r.below(others.len() as u64) as usize];
            // No allocation of ours in between.
            if s.mrg(o).is_err() {
                fail!("merge of equal precisions failed");
            }
            merged = true;
            after("merge", j + 1, merged, &mut bad);
        }
    }
    // Elements already present: no growth, for as long as it goes on.
    s.cnt();
    after("count", h.len(), merged, &mut bad);
    let settled = live() - base;
    let again = (2 * h.len()).min(if cx.thorough { 2_000_000 } else { 150_000 });
    for j in 0..again {
        s.ins(h[j % h.len()]);
        if j % 64 == 0 {
            after("re-insert", h.len() + j, merged, &mut bad);
        }
        if j % (every * 16) == 0 {
            s.cnt();
            after("count", h.len() + j, merged, &mut bad);
        }
    }
    let mut repeated = 0;
    // Merging, for as long as it goes on.
    if !others.is_empty() {
        let times = if p <= 10 { 400 } else { 24 };
        for j in 0..times {
            if s.mrg(&others[j % others.len()]).is_err() {
                fail!("merge of equal precisions failed");
            }
            merged = true;
            after("repeated merge", h.len() + again, merged, &mut bad);
            if j % 7 == 0 {
                s.cnt();
            }
        }
        repeated = times as u64;
    }
    s.cnt();
    let regrown = live() - base;
    if let Some((what, at, l, b)) = bad {
        fail!("{} p={p} {k:?}: {l} heap bytes at {what} after {at} insertions, allowed are {b} (dense registers take {d})", S::NAME);
    }
    let stream = if S::PLUS && mode == 3 && (p <= 12 || (i / 112) % 6 == 0) {
        merge_stream::<S>(p, d, &mut r)?
    } else {
        (0, 0)
    };
    let long = if mode == 1 { long_life::<S>(p, i / 112 % 2 == 0, &mut r)? } else { 0 };
    // A clone and a restored copy are bounded in the same way.
    let before = live();
    let c = s.dup();
    let cl = live() - before;
    if cl > bound::<S>(p, merged) {
        fail!("{} p={p} {k:?}: a clone takes {cl} heap bytes", S::NAME);
    }
    drop(c);
    if live() != before {
        fail!("{} p={p} {k:?}: dropping a clone leaves {} heap bytes", S::NAME, live() - before);
    }
    let f = *r.pick(&FMTS);
    let c: S = round(&s, f)?;
    let cl = live() - before;
    if cl > bound::<S>(p, merged) + 256 {
        fail!("{} p={p} {k:?}: a copy restored from {f:?} takes {cl} heap bytes", S::NAME);
    }
    drop(c);
    drop(s);
    let left = live() - base;
    if left > 0 {
        fail!("{} p={p} {k:?}: {left} heap bytes left after dropping the sketch", S::NAME);
    }
    st.add("repeated merges", repeated);
    st.add("operations of long lives", long);
    st.add("merges of a stream of sparse sketches", stream.0);
    if p >= 8 && stream.0 > 0 {
        st.max("percent of dense size held, Plus in a merge stream", (stream.1 * 100 / d) as u64);
    }
    st.add("allocator samples", samples);
    st.add("allocator events", EVENTS.with(|e| e.replace(0)));
    let tag = if !S::PLUS { "PF" } else if merged { "Plus with merges" } else { "Plus insert only" };
    if p >= 8 {
        st.max(&format!("percent of dense size held, {tag}"), (worst * 100 / d) as u64);
        st.max(&format!("percent of dense size at peak, {tag}"), (worst_peak * 100 / d) as u64);
    } else {
        st.max(&format!("bytes held at p<8, {tag}"), worst as u64);
        st.max(&format!("bytes at peak at p<8, {tag}"), worst_peak as u64);
    }
    st.max("bytes grown by re-inserting", (regrown - settled).max(0) as u64);
    let mut md = Ref::new(S::PLUS, p);
    for x in &h {
        md.ins(*x);
    }
    md.settle();
    st.inc(&format!("final state {}", state_label(&md, false)));
    st.distinct(&[S::PLUS as u64, p as u64, i, worst as u64]);
    st.sample(|| format!("{} p={p} {k:?} n={n} mode={mode}: held {worst}, peak {worst_peak}, dense array {d}", S::NAME));
    Ok(())
}
