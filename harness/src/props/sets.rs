//! C01, C02, C03, C08, C13, C18: histories compared with other histories.
use super::*;
use super::pool::{pool, wear, wear_ways, Focus};
use crate::fail;
use crate::gen::{many, size, special_index, Kind, KINDS};
use crate::model::Ref;
use crate::probe::{fingerprint, flood_rank, flooded, same, Depth};
use crate::sk::{round, Fmt, Sk, FMTS};
use crate::util::{close, Rng, Stats, Verdict, SAME};
use hyperloglogplus::HyperLogLogError;

fn kind(r: &mut Rng) -> Kind {
    *r.pick(&KINDS)
}

/// Hash list for one case: one or two kinds glued together.
fn workload<S: Sk>(p: u8, r: &mut Rng) -> (Vec<u64>, Kind) {
    let n = size::<S>(p, r);
    let k = kind(r);
    let mut h = many::<S>(k, p, r, n);
    if r.chance(1, 3) {
        let k2 = kind(r);
        let n2 = size::<S>(p, r).min(5000);
        h.extend(many::<S>(k2, p, r, n2));
    }
    (h, k)
}

fn note<S: Sk>(st: &mut Stats, p: u8, h: &[u64], what: &str) -> Ref {
    let mut m = Ref::new(S::PLUS, p);
    for x in h {
        m.ins(*x);
    }
    m.settle();
    let lbl = state_label(&m, false);
    st.inc(&format!("{what} state {} {}", S::NAME, lbl));
    m
}

/// C01
pub fn c01(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    dispatch!(plus, c01_t, i, p, cx, st)
}
fn c01_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 1, i]);
    let (h, k) = workload::<S>(p, &mut r);
    let m = note::<S>(st, p, &h, "C01");
    let mut base: S = canonical(p, &h);
    let c0 = base.cnt();
    let depth = Depth::Normal;
    let f0 = fingerprint(&base, p, i, &h, depth);
    if !close(c0, f0[0], SAME) {
        fail!("{} p={p} {k:?} n={}: count {c0:?}, then {:?}", S::NAME, h.len(), f0[0]);
    }
    st.distinct(&[plus_id::<S>(), p as u64, c0.to_bits(), h.len() as u64]);
    let variants = if h.len() > 50_000 { 2 } else { 4 };
    for v in 0..variants {
        let mut o = h.clone();
        let mut desc = String::new();
        match v {
            0 => {
                desc.push_str("reversed sorted");
                o.sort_unstable_by(|a, b| b.cmp(a));
            },
            1 => {
                desc.push_str("shuffled");
                r.shuffle(&mut o);
            },
            2 => {
                desc.push_str("each element twice in a row");
                o = o.iter().flat_map(|x| [*x, *x]).collect();
            },
            _ => {
                desc.push_str("whole stream twice, shuffled");
                o.extend_from_slice(&h);
                r.shuffle(&mut o);
            },
        }
        let s: S = wander(p, &o, &mut r);
        st.add("insertions observed", o.len() as u64);
        let f = fingerprint(&s, p, i, &h, depth);
        if let Err(e) = same(&f0, &f) {
            fail!(
                "{} p={p} {k:?} n={} elements ({} inserts, {desc}): {e}",
                S::NAME, h.len(), o.len()
            );
        }
        st.inc("history pairs compared");
        // Re-inserting known elements changes nothing, however often.
        let mut s = s;
        let before = s.cnt();
        let reps = (3 * h.len()).min(30_000);
        for j in 0..reps {
            let x = h[r.below(h.len() as u64) as usize];
            s.ins(x);
            if j < 8 || j % 4096 == 0 {
                let c = s.cnt();
                if !close(c, before, SAME) {
                    fail!("{} p={p} {k:?} n={}: re-inserting {x:#x} changed the estimate from {before:?} to {c:?}", S::NAME, h.len());
                }
            }
        }
        st.add("re-insertions observed", reps as u64);
        let f = fingerprint(&s, p, i, &h, depth);
        if let Err(e) = same(&f0, &f) {
            fail!("{} p={p} {k:?} n={} after re-insertions: {e}", S::NAME, h.len());
        }
    }
    st.sample(|| format!("{} p={p} {k:?} n={} dense={} estimate={c0}", S::NAME, h.len(), m.dense));
    Ok(())
}

fn plus_id<S: Sk>() -> u64 {
    S::PLUS as u64
}

/// C02
pub fn c02(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    if (28..28 + 4 * wear_ways(Focus::Merges)).contains(&i) {
        dispatch!(i % 2 == 0, wear, i - 28, cx, st, Focus::Merges)?;
    }
    dispatch!(plus, pool, i, p, cx, st, Focus::Merges)?;
    dispatch!(plus, c02_t, i, p, cx, st)
}
fn c02_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 2, i]);
    let (a, ka) = workload::<S>(p, &mut r);
    let (mut b, kb) = workload::<S>(p, &mut r);
    match r.below(5) {
        // Overlap, subset, equal sets, empty.
        0 => b.extend(a.iter().take(r.below(a.len() as u64 + 1) as usize)),
        1 => b = a.iter().copied().filter(|x| x & 64 == 0).collect(),
        2 => {
            if r.chance(1, 2) {
                b = a.clone()
            } else {
                b.clear()
            }
        },
        _ => {},
    }
    let ctx = |s: &str| {
        format!("{} p={p} A={}x{ka:?} B={}x{kb:?}: {s}", S::NAME, a.len(), b.len())
    };
    let mut ab = a.clone();
    ab.extend_from_slice(&b);
    let ma = note::<S>(st, p, &a, "C02 left");
    let mb = note::<S>(st, p, &b, "C02 right");
    let mu = note::<S>(st, p, &ab, "C02 union");
    st.inc(&format!("C02 pair {} + {}", state_label(&ma, false), state_label(&mb, false)));
    if S::PLUS && !ma.dense && !mb.dense && mu.dense {
        st.inc("C02 merge triggers conversion");
    }
    // Random histories, so that either side may hold pending elements.
    let sa: S = wander(p, &a, &mut r);
    let sb: S = wander(p, &b, &mut r);
    let union: S = canonical(p, &ab);
    let fu = fingerprint(&union, p, i, &ab, Depth::Normal);
    let fb0 = fingerprint(&sb, p, i, &b, Depth::Normal);
    let mut m1 = sa.dup();
    m1.join(&sb).map_err(|e| ctx(&e))?;
    let f1 = fingerprint(&m1, p, i, &ab, Depth::Normal);
    same(&fu, &f1).map_err(|e| ctx(&format!("merge(A,B) differs from inserting A and B: {e}")))?;
    let fb1 = fingerprint(&sb, p, i, &b, Depth::Normal);
    same(&fb0, &fb1).map_err(|e| ctx(&format!("merge changed the source: {e}")))?;
    st.distinct(&[plus_id::<S>(), p as u64, fu[0].to_bits(), fb0[0].to_bits()]);
    // Commutative.
    let mut m2 = sb.dup();
    m2.join(&sa).map_err(|e| ctx(&e))?;
    let f2 = fingerprint(&m2, p, i, &ab, Depth::Normal);
    same(&fu, &f2).map_err(|e| ctx(&format!("merge(B,A) differs from inserting A and B: {e}")))?;
    // Idempotent, in several ways.
    let mut m3 = m1.dup();
    m3.join(&sb).map_err(|e| ctx(&e))?;
    if r.chance(1, 2) {
        m3.cnt();
    }
    m3.join(&sa).map_err(|e| ctx(&e))?;
    m3.join(&m2).map_err(|e| ctx(&e))?;
    let twin = m3.dup();
    m3.join(&twin).map_err(|e| ctx(&e))?;
    let f3 = fingerprint(&m3, p, i, &ab, Depth::Normal);
    same(&fu, &f3).map_err(|e| ctx(&format!("repeated merging changed the estimate: {e}")))?;
    // Empty is neutral on both sides.
    let empty = S::mk(p);
    let mut m4 = m1.dup();
    m4.join(&empty).map_err(|e| ctx(&e))?;
    let mut m5 = S::mk(p);
    m5.join(&m1).map_err(|e| ctx(&e))?;
    for (m, n) in [(&m4, "empty source"), (&m5, "empty target")] {
        let f = fingerprint(m, p, i, &ab, Depth::Normal);
        same(&fu, &f).map_err(|e| ctx(&format!("{n}: {e}")))?;
    }
    st.add("merges observed", 8);
    // A source of other element and hasher types.
    let mut m6 = sa.dup();
    m6.mrg_foreign(p, &b, r.chance(1, 2))
        .map_err(|e| ctx(&format!("merge with other type parameters: {e:?}")))?;
    let f6 = fingerprint(&m6, p, i, &ab, Depth::Normal);
    same(&fu, &f6).map_err(|e| ctx(&format!("other type parameters: {e}")))?;
    // A tree of shards, insertions and counts in between (associativity).
    let k = r.range(2, 6) as usize;
    let mut parts: Vec<Vec<u64>> = vec![Vec::new(); k];
    for x in &ab {
        for _ in 0..1 + r.chance(1, 8) as usize {
            let j = r.below(k as u64) as usize;
            parts[j].push(*x);
        }
    }
    let mut shards: Vec<S> = parts.iter().map(|q| wander(p, q, &mut r)).collect();
    let late = r.below(ab.len() as u64 / 4 + 1) as usize;
    while shards.len() > 1 {
        let j = r.below(shards.len() as u64) as usize;
        let s = shards.swap_remove(j);
        let j = r.below(shards.len() as u64) as usize;
        if r.chance(1, 3) {
            shards[j].cnt();
        }
        shards[j].join(&s).map_err(|e| ctx(&e))?;
        st.inc("merges observed");
        for _ in 0..late.min(50) {
            let x = ab[r.below(ab.len() as u64) as usize];
            shards[j].ins(x);
        }
    }
    let ft = fingerprint(&shards[0], p, i, &ab, Depth::Normal);
    same(&fu, &ft).map_err(|e| ctx(&format!("merge tree of {k} shards: {e}")))?;
    // The estimate straight after the merge, before and after more elements.
    let mut m7 = sa.dup();
    let mut un = canonical::<S>(p, &a);
    m7.join(&sb).map_err(|e| ctx(&e))?;
    for x in &b {
        un.ins(*x);
    }
    let extra = many::<S>(Kind::Mixed, p, &mut r, 40);
    for x in &extra {
        m7.ins(*x);
        un.ins(*x);
        let (x, y) = (m7.cnt(), un.cnt());
        if !close(x, y, SAME) {
            fail!("{}", ctx(&format!("inserting after the merge: {x:?} vs {y:?}")));
        }
    }
    st.sample(|| ctx(&format!("estimate {}", fu[0])));
    Ok(())
}

/// C03, one case per (constructor | pair of precisions).
pub fn c03(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let whole = i;
    if i < 4 * wear_ways(Focus::Rejections) {
        dispatch!(i % 2 == 0, wear, i, cx, st, Focus::Rejections)?;
    }
    let i = i % C03_CASES;
    if i < 256 {
        let p = i as u8;
        c03_new::<crate::sk::Pf>(p, st)?;
        return c03_new::<crate::sk::Plus>(p, st);
    }
    let j = i - 256;
    if j < 169 {
        c03_pair::<crate::sk::Pf>(whole, 4 + (j / 13) as u8, 4 + (j % 13) as u8, cx, st)
    } else {
        let j = j - 169;
        c03_pair::<crate::sk::Plus>(whole, 4 + (j / 15) as u8, 4 + (j % 15) as u8, cx, st)
    }
}
pub const C03_CASES: u64 = 256 + 169 + 225;

/// The message, as a boxed error shows it.
fn named(e: &HyperLogLogError, reason: &str) -> Verdict {
    let boxed: &dyn std::error::Error = e;
    let text = crate::util::lib(|| boxed.to_string());
    if text != reason {
        fail!("the message of {e:?} is {text:?}, not {reason:?}");
    }
    Ok(())
}

fn c03_new<S: Sk>(p: u8, st: &mut Stats) -> Verdict {
    let ok = p >= S::MINP && p <= S::MAXP;
    match S::try_new(p) {
        Ok(mut s) => {
            if !ok {
                fail!("{}::new({p}) was accepted", S::NAME);
            }
            let c = s.cnt();
            if c != 0.0 {
                fail!("{}::new({p}) counts {c}", S::NAME);
            }
            st.inc("constructions accepted");
        },
        Err(e) => {
            if ok {
                fail!("{}::new({p}) was rejected: {e:?}", S::NAME);
            }
            if e != HyperLogLogError::InvalidPrecision {
                fail!("{}::new({p}) failed with {e:?}", S::NAME);
            }
            named(&e, "precision is out of bounds")?;
            st.inc("constructions rejected");
        },
    }
    st.distinct(&[9, plus_id::<S>(), p as u64]);
    Ok(())
}

fn c03_pair<S: Sk>(i: u64, p: u8, q: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 3, i]);
    // Empty, few (pending), few (flushed), dense.
    let make = |p: u8, k: u64, r: &mut Rng| -> (S, Vec<u64>) {
        let n = match k {
            0 => 0,
            1 | 2 => r.range(1, 40) as usize,
            _ => (1usize << p) + 10,
        };
        let h = many::<S>(Kind::Uniform, p, r, n);
        let mut s: S = build(p, &h);
        if k == 2 {
            s.cnt();
        }
        (s, h)
    };
    for ka in 0..4 {
        for kb in 0..4 {
            let (mut a, ha) = make(p, ka, &mut r);
            let (b, hb) = make(q, kb, &mut r);
            let d = if p.max(q) > 12 && (ka + kb) % 3 != 0 { Depth::Light } else { Depth::Normal };
            let fa = fingerprint(&a, p, i, &ha, d);
            let fb = fingerprint(&b, q, i, &hb, d);
            let res = a.mrg(&b);
            st.inc("merges of two precisions attempted");
            st.distinct(&[plus_id::<S>(), p as u64, q as u64, ka, kb]);
            let ctx = format!("{} p={p} state {ka} merged with p={q} state {kb}", S::NAME);
            if p == q {
                if res != Ok(()) {
                    fail!("{ctx}: {res:?}");
                }
            } else {
                if res != Err(HyperLogLogError::IncompatiblePrecision) {
                    fail!("{ctx}: {res:?} instead of IncompatiblePrecision");
                }
                named(&res.unwrap_err(), "precisions must be equal")?;
                let fa1 = fingerprint(&a, p, i, &ha, d);
                same(&fa, &fa1).map_err(|e| format!("{ctx}: receiver changed: {e}"))?;
                st.inc("rejected merges observed");
            }
            let fb1 = fingerprint(&b, q, i, &hb, d);
            same(&fb, &fb1).map_err(|e| format!("{ctx}: source changed: {e}"))?;
        }
    }
    st.sample(|| format!("{} {p} vs {q}, 16 state combinations", S::NAME));
    Ok(())
}

/// C08
pub fn c08(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    if (28..28 + 4 * wear_ways(Focus::Trips)).contains(&i) {
        dispatch!(i % 2 == 0, wear, i - 28, cx, st, Focus::Trips)?;
    }
    dispatch!(plus, pool, i, p, cx, st, Focus::Trips)?;
    dispatch!(plus, c08_t, i, p, cx, st)
}
fn c08_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 8, i]);
    let (h, k) = workload::<S>(p, &mut r);
    let m = note::<S>(st, p, &h, "C08");
    let s: S = if r.chance(1, 4) {
        // Reached through a merge.
        let cut = r.below(h.len() as u64 + 1) as usize;
        let mut a: S = wander(p, &h[..cut], &mut r);
        let b: S = wander(p, &h[cut..], &mut r);
        a.join(&b)?;
        a
    } else {
        wander(p, &h, &mut r)
    };
    let f0 = fingerprint(&s, p, i, &h, Depth::Normal);
    let fmts: Vec<Fmt> = if h.len() > 40_000 {
        vec![Fmt::Json, *r.pick(&FMTS)]
    } else {
        FMTS.to_vec()
    };
    for f in fmts {
        let ctx = |e: String| format!("{} p={p} {k:?} n={} {f:?}: {e}", S::NAME, h.len());
        let d: S = round(&s, f).map_err(ctx)?;
        st.inc(&format!("round trips {f:?}"));
        let f1 = fingerprint(&d, p, i, &h, Depth::Normal);
        same(&f0, &f1).map_err(|e| ctx(format!("restored sketch differs: {e}")))?;
        let f2 = fingerprint(&s, p, i, &h, Depth::Normal);
        same(&f0, &f2).map_err(|e| ctx(format!("serializing changed the original: {e}")))?;
        // Lockstep continuation of original and restored sketch.
        let mut a = s.dup();
        let mut b = d;
        let mut seen = h.clone();
        for step in 0..12 {
            match r.below(6) {
                0 => {
                    let (x, y) = (a.cnt(), b.cnt());
                    if !close(x, y, SAME) {
                        fail!("{}", ctx(format!("step {step}: original counts {x:?}, restored {y:?}")));
                    }
                },
                1 | 2 => {
                    let n = r.range(1, 300.max(h.len() as u64 / 16)) as usize;
                    let kk = kind(&mut r);
                    for x in many::<S>(kk, p, &mut r, n) {
                        a.ins(x);
                        b.ins(x);
                        seen.push(x);
                    }
                },
                3 => {
                    let n = r.range(1, 200) as usize;
                    let o: S = build(p, &many::<S>(Kind::Mixed, p, &mut r, n));
                    a.join(&o)?;
                    b.join(&o)?;
                },
                4 => {
                    b = round(&b, *r.pick(&FMTS)).map_err(ctx)?;
                    st.inc("repeated round trips");
                },
                _ => {
                    // Elements already present add nothing to either.
                    for x in h.iter().take(200) {
                        b.ins(*x);
                    }
                },
            }
            st.inc("continuation steps");
        }
        let fa = fingerprint(&a, p, i, &seen, Depth::Normal);
        let fb = fingerprint(&b, p, i, &seen, Depth::Normal);
        same(&fa, &fb).map_err(|e| ctx(format!("after continuing: {e}")))?;
        // Restored and original merge into the same set.
        let mut c = s.dup();
        c.join(&round(&s, f).map_err(ctx)?)?;
        let fc = fingerprint(&c, p, i, &h, Depth::Normal);
        same(&f0, &fc).map_err(|e| ctx(format!("merging the restored copy: {e}")))?;
        let mut c: S = round(&s, f).map_err(ctx)?;
        c.join(&s)?;
        let fc = fingerprint(&c, p, i, &h, Depth::Normal);
        same(&f0, &fc).map_err(|e| ctx(format!("merging into the restored copy: {e}")))?;
    }
    st.distinct(&[plus_id::<S>(), p as u64, f0[0].to_bits(), h.len() as u64]);
    st.sample(|| format!("{} p={p} {k:?} n={} dense={}", S::NAME, h.len(), m.dense));
    Ok(())
}

/// C13
pub fn c13(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    if (28..28 + 4 * wear_ways(Focus::Clones)).contains(&i) {
        dispatch!(i % 2 == 0, wear, i - 28, cx, st, Focus::Clones)?;
    }
    dispatch!(plus, pool, i, p, cx, st, Focus::Clones)?;
    dispatch!(plus, c13_t, i, p, cx, st)
}
fn c13_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 13, i]);
    let (h, k) = workload::<S>(p, &mut r);
    let m = note::<S>(st, p, &h, "C13");
    let ctx = |e: String| format!("{} p={p} {k:?} n={}: {e}", S::NAME, h.len());
    // a: many counts; b: none until the end. Same operations otherwise.
    let (mut a, mut b) = (S::mk(p), S::mk(p));
    let budget = if h.len() > 20_000 { 60 } else { 400 };
    let mut other = S::mk(p);
    for x in many::<S>(Kind::Mixed, p, &mut r, 60) {
        other.ins(x);
    }
    for (j, x) in h.iter().enumerate() {
        a.ins(*x);
        b.ins(*x);
        if (h.len() <= budget && r.chance(1, 2)) || r.below(h.len() as u64) < budget as u64 {
            let c1 = a.cnt();
            let c2 = a.cnt();
            let c3 = a.dup().cnt();
            st.add("interleaved counts", 3);
            if !close(c1, c2, SAME) || !close(c1, c3, SAME) {
                fail!("{}", ctx(format!("after {} inserts count gives {c1:?}, then {c2:?}, a clone {c3:?}", j + 1)));
            }
        }
        if r.below(h.len() as u64) < 2 {
            a.join(&other)?;
            b.join(&other)?;
        }
    }
    let fb = fingerprint(&b, p, i, &h, Depth::Normal);
    let fa = fingerprint(&a, p, i, &h, Depth::Normal);
    same(&fa, &fb).map_err(|e| ctx(format!("interleaved counts changed later estimates: {e}")))?;
    // The merge of a counted and of an uncounted sketch are the same.
    let (mut x, mut y) = (other.dup(), other.dup());
    b.cnt();
    x.join(&a)?;
    y.join(&b)?;
    let fx = fingerprint(&x, p, i, &h, Depth::Normal);
    let fy = fingerprint(&y, p, i, &h, Depth::Normal);
    same(&fx, &fy).map_err(|e| ctx(format!("counting before a merge matters: {e}")))?;
    // Clones, taken with and without pending elements.
    for pending in [false, true] {
        let mut o: S = wander(p, &h, &mut r);
        if !pending {
            o.cnt();
        }
        let f0 = fingerprint(&o, p, i, &h, Depth::Normal);
        let mut c = o.dup();
        let fc = fingerprint(&c, p, i, &h, Depth::Normal);
        same(&f0, &fc).map_err(|e| ctx(format!("clone differs: {e}")))?;
        // Mutate the clone heavily, observe the original; then the reverse.
        let extra = (h.len() + 200).min(30_000);
        let ke = kind(&mut r);
        for x in many::<S>(ke, p, &mut r, extra) {
            c.ins(x);
        }
        c.join(&other)?;
        c.cnt();
        let fo = fingerprint(&o, p, i, &h, Depth::Normal);
        same(&f0, &fo).map_err(|e| ctx(format!("changing a clone changed the original: {e}")))?;
        let c2 = o.dup();
        for x in many::<S>(Kind::Uniform, p, &mut r, extra) {
            o.ins(x);
        }
        o.cnt();
        o.join(&other)?;
        let f2 = fingerprint(&c2, p, i, &h, Depth::Normal);
        same(&f0, &f2).map_err(|e| ctx(format!("changing the original changed a clone: {e}")))?;
        drop(o);
        drop(c);
        let f2 = fingerprint(&c2, p, i, &h, Depth::Normal);
        same(&f0, &f2).map_err(|e| ctx(format!("dropping the original changed a clone: {e}")))?;
        // clone_from keeps nothing of the previous value.
        let q = if r.chance(1, 2) { p } else { r.range(4, if S::PLUS { 18 } else { 16 }) as u8 };
        let k = *r.pick(&[0, 5, 500, 3 << q.min(12)]);
        let mut t: S = build(q, &many::<S>(Kind::Mixed, q, &mut r, k));
        crate::util::lib(|| t.clone_from(&c2));
        let f3 = fingerprint(&t, p, i, &h, Depth::Normal);
        same(&f0, &f3).map_err(|e| ctx(format!("clone_from differs: {e}")))?;
        st.add("clones observed", 4);
    }
    st.distinct(&[plus_id::<S>(), p as u64, fa[0].to_bits(), h.len() as u64]);
    st.sample(|| format!("{} p={p} {k:?} n={} dense={}", S::NAME, h.len(), m.dense));
    Ok(())
}

fn all_single_is_partial(p: u8, cx: &Cx) -> bool {
    p > 7 && !(cx.thorough && p <= 9)
}

/// C18
pub fn c18(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    dispatch!(plus, c18_t, i, p, cx, st)
}
fn c18_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 18, i]);
    let m = 1usize << p;
    let mut model = Ref::new(S::PLUS, p);
    model.dense = true;
    let f = flood_rank::<S>(p);
    let round_no = i / 28;
    let mut touched: Vec<u64> = Vec::new();
    // Reach the state through a random mixture of operations.
    let mut s = S::mk(p);
    let steps = r.range(1, 6);
    for _ in 0..steps {
        let n = match r.below(4) {
            0 => r.range(1, 8) as usize,
            1 => r.range(1, m as u64 / 4 + 1) as usize,
            _ => r.range(1, m as u64) as usize,
        };
        let k = *r.pick(&[
            Kind::Ranked,
            Kind::Ranked,
            Kind::Boundary,
            Kind::Flagged,
            Kind::Uniform,
            Kind::Mixed,
            Kind::Band,
        ]);
        let mut h = many::<S>(k, p, &mut r, n.min(20_000));
        if r.chance(1, 4) {
            // Increasing and decreasing ranks into neighbouring buckets.
            let b = special_index(p, &mut r);
            for d in 0..4 {
                let mut rk: Vec<u8> = (1..=S::maxrank(p)).collect();
                match r.below(3) {
                    0 => rk.reverse(),
                    1 => r.shuffle(&mut rk),
                    _ => {},
                }
                rk.truncate(r.range(1, 40) as usize);
                for x in rk {
                    h.push(S::craft(p, (b + d) % m, x, r.next()));
                }
            }
        }
        for x in &h {
            model.ins(*x);
        }
        match r.below(5) {
            0 | 1 => {
                for x in &h {
                    s.ins(*x);
                }
                st.inc("via inserts");
            },
            2 => {
                let o: S = wander(p, &h, &mut r);
                s.join(&o)?;
                st.inc("via merge from");
            },
            3 => {
                let mut o: S = wander(p, &h, &mut r);
                o.join(&s)?;
                s = o;
                st.inc("via merge into");
            },
            _ => {
                for x in &h {
                    s.ins(*x);
                }
                s = round(&s, *r.pick(&FMTS))?.dup();
                st.inc("via round trip and clone");
            },
        }
        if r.chance(1, 3) {
            s.cnt();
        }
        touched.extend_from_slice(&h[h.len().saturating_sub(50)..]);
    }
    // Calibrate: the factor K = alpha m^2, as this build applies it.
    let mut cal = S::mk(p);
    for j in 0..m {
        cal.ins(S::craft(p, j, f, r.next()));
    }
    let cal_count = cal.cnt();
    let k = cal_count * (m as f64 * (-(f as f64)).exp2());
    // Which buckets to read out one by one.
    let all: Vec<usize> = if p <= 7 || (cx.thorough && p <= 9) {
        (0..m).collect()
    } else {
        let want = match p {
            8..=10 => 100,
            11..=13 => 32,
            _ => if cx.thorough { 24 } else { 6 },
        };
        let mut v: Vec<usize> = (0..want)
            .map(|_| match r.below(4) {
                0 => special_index(p, &mut r),
                1 => r.below(m as u64) as usize,
                _ => S::route(p, *r.pick(&touched)).0,
            })
            .collect();
        if round_no == 0 {
            v.extend([0, 1, m - 1]);
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    let mut hist = [0u64; 66];
    for x in &model.regs {
        hist[(*x).max(f) as usize] += 1;
    }
    let others: f64 = (0..66).map(|x| hist[x] as f64 * (-(x as f64)).exp2()).sum();
    for idx in all {
        let c = flooded(&s, p, &[idx]);
        if !S::PLUS && c >= 4294967296.0 / 31.0 {
            // Inside the large range correction: not readable this way.
            st.inc("unreadable");
            continue;
        }
        let truth = model.regs[idx];
        let rest = others - (-(truth.max(f) as f64)).exp2();
        let got = k / c - rest; // 2^-rank
        let want = (-(truth as f64)).exp2();
        // Resolution: relative error of c times the whole sum.
        let eps = (k / c + rest) * 1e-11;
        if (got - want).abs() > eps.max(want * 0.2) {
            fail!(
                "{} p={p}: bucket {idx} should hold rank {truth}, the estimate {c:?} of the flooded clone implies 2^-rank = {got:e}, i.e. rank {:.2}",
                S::NAME, -got.log2()
            );
        }
        if eps < want * 0.4 {
            st.inc("buckets read out");
            st.inc(&format!("rank group {:02}", truth / 8 * 8));
        } else {
            st.inc("readouts without resolution");
        }
        st.distinct(&[plus_id::<S>(), p as u64, idx as u64, truth as u64]);
    }
    // Many buckets at once: coarse resolution, but no bucket is left out.
    if all_single_is_partial(p, cx) {
        let parts = 8usize;
        let sel = r.next();
        for g in 0..parts {
            let keep: Vec<usize> = (0..m)
                .filter(|j| Rng::of(&[sel, *j as u64]).next() as usize % parts == g)
                .collect();
            let c = flooded(&s, p, &keep);
            if !S::PLUS && c >= 4294967296.0 / 31.0 {
                st.inc("unreadable");
                continue;
            }
            if !S::PLUS && c <= 2.6 * m as f64 || c <= 6.0 * m as f64 {
                // Another estimator range.
                st.inc("groups outside the plain range");
                continue;
            }
            let mut sum = 0.0;
            let mut kk = 0;
            for j in 0..m {
                if kk < keep.len() && keep[kk] == j {
                    kk += 1;
                    sum += (-(model.regs[j] as f64)).exp2();
                } else {
                    sum += (-(model.regs[j].max(f) as f64)).exp2();
                }
            }
            if !crate::util::close(k / c, sum, 1e-10) {
                fail!("{} p={p}: {} buckets should sum to {sum:e}, the estimate of the flooded clone implies {:e}", S::NAME, keep.len(), k / c);
            }
            st.add("buckets read out in groups", keep.len() as u64);
        }
    }
    st.add("buckets written", model.regs.iter().filter(|x| **x > 0).count() as u64);
    st.sample(|| format!("{} p={p}: {} steps, {} non-empty buckets", S::NAME, steps, model.regs.iter().filter(|x| **x > 0).count()));
    Ok(())
}
