//! C04, C05, C06, C19: estimates against the reference estimator.
use super::*;
use crate::fail;
use crate::gen::{many, size, Kind, KINDS};
use crate::model::{agree, linear, pf_candidates, plus_candidates, sparse_limit, unsorted_near, raw_of, Cand, Ref, SATURATED, THRESHOLDS};
use crate::probe::{fingerprint, same, Depth};
use crate::sk::{Pf, Plus, Sk};
use crate::util::{close, Rng, Stats, Verdict, MODEL, SAME};

fn note_cand(st: &mut Stats, p: u8, c: &Cand) {
    st.inc(&format!("branch {}", c.branch));
    if c.branch.starts_with("corrected") {
        st.mark(&format!("bias segments p{p:02}"), c.segment as u64);
    }
}

/// Observes one estimate of the PF sketch.
fn look_pf(s: &mut Pf, m: &Ref, what: &str, st: &mut Stats) -> Verdict {
    let got = s.cnt();
    let c = pf_candidates(&m.regs);
    st.inc("estimates compared");
    st.distinct(&[m.p as u64, got.to_bits()]);
    match agree(got, &c, MODEL) {
        Some(x) => {
            note_cand(st, m.p, x);
            Ok(())
        },
        None => Err(format!("HyperLogLogPF p={} {what}: count() = {got:?}, the published estimator gives {}", m.p, show(&c))),
    }
}
fn show(c: &[Cand]) -> String {
    c.iter()
        .map(|c| format!("{}{:?} ({})", if c.branch == SATURATED { "at least " } else { "" }, c.val, c.branch))
        .collect::<Vec<_>>()
        .join(" or ")
}

/// Observes one estimate of the Plus sketch, if the model says it is dense.
fn look_plus(s: &mut Plus, m: &mut Ref, what: &str, st: &mut Stats) -> Verdict {
    m.settle();
    let got = s.cnt();
    if !m.dense {
        st.inc("sparse states passed over");
        return Ok(());
    }
    let c = plus_candidates(&m.regs);
    st.inc("estimates compared");
    st.distinct(&[m.p as u64, got.to_bits()]);
    match agree(got, &c, MODEL) {
        Some(x) => {
            note_cand(st, m.p, x);
            Ok(())
        },
        None => Err(format!("HyperLogLogPlus p={} {what}: count() = {got:?}, the published estimator gives {}", m.p, show(&c))),
    }
}

/// Fills chosen registers: (fraction empty, lowest rank, band width).
fn profile<S: Sk>(p: u8, empty: f64, lo: u64, width: u64, r: &mut Rng) -> Vec<u64> {
    let m = 1usize << p;
    let maxr = S::maxrank(p) as u64;
    let k = (m as f64 * empty).round() as usize;
    let mut idx: Vec<usize> = (0..m).collect();
    r.shuffle(&mut idx);
    let mut h = Vec::new();
    for i in &idx[k.min(m)..] {
        let mut d = 0;
        while d < width && r.chance(1, 2) {
            d += 1;
        }
        let rk = (lo + d).clamp(1, maxr) as u8;
        h.push(S::craft(p, *i, rk, r.next()));
        if r.chance(1, 6) {
            // A lower rank for the same register, before or after.
            let low = 1 + r.below(rk as u64) as u8;
            let x = S::craft(p, *i, low, r.next());
            if r.chance(1, 2) {
                h.push(x);
            } else {
                let l = h.len();
                h.insert(l - 1, x);
            }
        }
    }
    h
}

pub fn c04(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let p = pf_p(i);
    let mut r = Rng::of(&[cx.seed, 4, i]);
    let m = 1u64 << p;
    let mode = i / 13;
    match mode % 8 {
        0 => {
            // One stream, observed as it grows past every correction range
            // boundary it can reach.
            let n = (7 * m).max(200);
            let points = if p <= 10 { n } else { 1500 };
            let (mut s, mut md) = (Pf::mk(p), Ref::new(false, p));
            for j in 0..n {
                let h = r.next();
                s.ins(h);
                md.ins(h);
                if r.below(n) < points || j < 20 {
                    look_pf(&mut s, &md, &format!("after {} uniform inserts", j + 1), st)?;
                }
            }
        },
        1 | 2 | 3 => {
            // Register profiles over the whole range of ranks.
            let reps = if p <= 10 { 60 } else if p <= 13 { 12 } else { 4 };
            for k in 0..reps {
                let maxr = Pf::maxrank(p) as u64;
                let empty = match r.below(4) {
                    0 => 0.0,
                    1 => 1.0 / m as f64,
                    2 => r.f64() * 0.2,
                    _ => r.f64(),
                };
                let lo = if mode % 8 == 3 {
                    // Large range correction and saturation.
                    maxr - r.below(8).min(maxr - 1)
                } else {
                    r.range(1, maxr)
                };
                let (w, rank) = (r.below(6), lo);
                let h = profile::<Pf>(p, empty, lo, w, &mut r);
                let (mut s, mut md) = (Pf::mk(p), Ref::new(false, p));
                for x in &h {
                    s.ins(*x);
                    md.ins(*x);
                }
                look_pf(&mut s, &md, &format!("profile {k}: {:.3} empty, ranks from {rank}", empty), st)?;
                // Then grow slowly from there.
                for _ in 0..6 {
                    let rk = r.range(1, maxr) as u8;
                    let x = Pf::craft(p, r.below(m) as usize, rk, r.next());
                    s.ins(x);
                    md.ins(x);
                    look_pf(&mut s, &md, &format!("profile {k} grown"), st)?;
                }
            }
        },
        4 => {
            // Around raw = 2.5 m with empty registers: mixtures of empty
            // registers and ranks that put the raw estimate there.
            let reps = if p <= 10 { 80 } else { 8 };
            for _ in 0..reps {
                let e = 0.02 + 0.3 * r.f64();
                let h = profile::<Pf>(p, e, 1 + r.below(3), 1 + r.below(8), &mut r);
                let (mut s, mut md) = (Pf::mk(p), Ref::new(false, p));
                for x in &h {
                    s.ins(*x);
                    md.ins(*x);
                }
                // Walk the raw estimate across the boundary.
                let steps = if p <= 10 { 200 } else { 60 };
                let chunk = (m / 32).max(1);
                for _ in 0..steps {
                    for _ in 0..chunk {
                        let rk = 1 + r.below(12) as u8;
                        let x = Pf::craft(p, r.below(m) as usize, rk, r.next());
                        s.ins(x);
                        md.ins(x);
                    }
                    look_pf(&mut s, &md, "near 2.5m", st)?;
                    if raw_of(&md.regs) > 4.0 * m as f64 {
                        break;
                    }
                }
            }
        },
        5 => {
            // Around 2^32/30: ranks about 27 - p.
            let reps = if p <= 10 { 60 } else { 6 };
            for _ in 0..reps {
                let lo = (27 - p as i64 + r.below(3) as i64 - 2).max(1) as u64;
                let e = if r.chance(1, 2) { 0.0 } else { 0.001 };
                let h = profile::<Pf>(p, e, lo, 3, &mut r);
                let (mut s, mut md) = (Pf::mk(p), Ref::new(false, p));
                for x in &h {
                    s.ins(*x);
                    md.ins(*x);
                }
                for _ in 0..40 {
                    let rk = (lo + r.below(3)).min(Pf::maxrank(p) as u64) as u8;
                    for _ in 0..(m / 16).max(1) {
                        let x = Pf::craft(p, r.below(m) as usize, rk, r.next());
                        s.ins(x);
                        md.ins(x);
                    }
                    look_pf(&mut s, &md, "near 2^32/30", st)?;
                }
            }
        },
        _ => {
            let reps = if p <= 12 { 6 } else { 2 };
            for _ in 0..reps {
                let k = *r.pick(&KINDS);
                let n = size::<Pf>(p, &mut r).min(60_000);
                let h = many::<Pf>(k, p, &mut r, n);
                let (mut s, mut md) = (Pf::mk(p), Ref::new(false, p));
                for (j, x) in h.iter().enumerate() {
                    s.ins(*x);
                    md.ins(*x);
                    if r.below(h.len() as u64) < 40 {
                        look_pf(&mut s, &md, &format!("{k:?} after {}", j + 1), st)?;
                    }
                }
                look_pf(&mut s, &md, &format!("{k:?} n={}", h.len()), st)?;
            }
        },
    }
    st.sample(|| format!("p={p} mode {}", mode % 8));
    Ok(())
}

/// Adds elements that change no register until the sketch must be dense.
fn force_dense(s: &mut Plus, m: &mut Ref, r: &mut Rng) {
    let p = m.p;
    let full: Vec<usize> = (0..m.regs.len()).filter(|i| m.regs[*i] > 0).collect();
    if full.is_empty() {
        return;
    }
    let mut tries = 0;
    loop {
        m.settle();
        if m.dense || tries > 40 {
            return;
        }
        tries += 1;
        for _ in 0..sparse_limit(p) / 4 + 4 {
            let i = *r.pick(&full);
            let rk = 1 + r.below(m.regs[i].min(25 - p + 1) as u64) as u8;
            let h = Plus::craft(p, i, rk, r.next());
            s.ins(h);
            m.ins(h);
        }
    }
}

pub fn c05(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let p = plus_p(i);
    let mut r = Rng::of(&[cx.seed, 5, i]);
    let m = 1u64 << p;
    let mode = i / 15;
    match mode % 6 {
        0 | 1 => {
            // A growing stream sampled so that every segment of the bias
            // table is visited several times.
            let n = 6 * m + 400;
            let points = if p <= 9 { n } else if cx.thorough { 8000 } else { 2500 };
            let reps = if p <= 9 { (30_000 / n).max(1) } else { 1 };
            for rep in 0..reps {
                let (mut s, mut md) = (Plus::mk(p), Ref::new(true, p));
                let step = (n / points).max(1);
                for j in 0..n {
                    let h = r.next();
                    s.ins(h);
                    md.ins(h);
                    if md.dense || j % (64 * step) == 0 {
                        if j % step == 0 {
                            look_plus(&mut s, &mut md, &format!("stream {rep} after {} uniform inserts", j + 1), st)?;
                        }
                    }
                }
            }
        },
        2 => {
            // The linear counting threshold, from both sides, exactly.
            let thr = THRESHOLDS[p as usize - 4];
            let mf = m as f64;
            let reps = if p <= 12 { 12 } else { 2 };
            for _ in 0..reps {
                // Largest number of used registers with linear <= threshold.
                let mut k = 0;
                while k + 1 < m && linear(mf, mf - (k + 1) as f64) <= thr {
                    k += 1;
                }
                let (mut s, mut md) = (Plus::mk(p), Ref::new(true, p));
                let mut idx: Vec<usize> = (0..m as usize).collect();
                r.shuffle(&mut idx);
                let lo = r.range(1, 4);
                let margin = 4.min(k as usize);
                let start = k as usize - margin;
                let ins = |s: &mut Plus, md: &mut Ref, i: usize, r: &mut Rng| {
                    let rk = (lo + r.below(3)) as u8;
                    let h = Plus::craft(p, i, rk, r.next());
                    s.ins(h);
                    md.ins(h);
                };
                for j in &idx[..start] {
                    ins(&mut s, &mut md, *j, &mut r);
                }
                force_dense(&mut s, &mut md, &mut r);
                look_plus(&mut s, &mut md, "below the threshold", st)?;
                for j in &idx[start..(k as usize + 6).min(m as usize)] {
                    ins(&mut s, &mut md, *j, &mut r);
                    look_plus(&mut s, &mut md, &format!("{} of {m} registers used (threshold between {k} and {})", j, k + 1), st)?;
                    st.inc("estimates around the threshold");
                }
            }
        },
        3 | 4 => {
            // Register profiles: full sketches inside the corrected range,
            // huge ranks with empty registers, and everything between.
            let reps = if p <= 10 { 60 } else if p <= 13 { 12 } else { 3 };
            let maxr = Plus::maxrank(p) as u64;
            for k in 0..reps {
                let (empty, lo, w) = match r.below(5) {
                    0 => (0.0, 1, 1 + r.below(4)),
                    1 => (0.0, 1 + r.below(3), 6),
                    2 => (r.f64() * 0.3, 1, r.below(8)),
                    3 => (0.02, r.range(1, maxr), 3),
                    _ => (r.f64() * 0.5, r.range(1, maxr), r.below(4)),
                };
                let h = profile::<Plus>(p, empty, lo, w, &mut r);
                let (mut s, mut md) = (Plus::mk(p), Ref::new(true, p));
                for x in &h {
                    s.ins(*x);
                    md.ins(*x);
                }
                force_dense(&mut s, &mut md, &mut r);
                look_plus(&mut s, &mut md, &format!("profile {k}: {empty:.3} empty, ranks from {lo}"), st)?;
                for _ in 0..8 {
                    let rk = r.range(1, maxr) as u8;
                    let x = Plus::craft(p, r.below(m) as usize, rk, r.next());
                    s.ins(x);
                    md.ins(x);
                    look_plus(&mut s, &mut md, &format!("profile {k} grown"), st)?;
                }
            }
        },
        _ => {
            let reps = if p <= 12 { 8 } else { 2 };
            for _ in 0..reps {
                let k = *r.pick(&KINDS);
                let n = size::<Plus>(p, &mut r);
                let h = many::<Plus>(k, p, &mut r, n);
                let (mut s, mut md) = (Plus::mk(p), Ref::new(true, p));
                for (j, x) in h.iter().enumerate() {
                    s.ins(*x);
                    md.ins(*x);
                    if md.dense && r.below(h.len() as u64) < 40 {
                        look_plus(&mut s, &mut md, &format!("{k:?} after {}", j + 1), st)?;
                    }
                }
                look_plus(&mut s, &mut md, &format!("{k:?} n={}", h.len()), st)?;
                for x in many::<Plus>(Kind::Uniform, p, &mut r, 30) {
                    s.ins(x);
                    md.ins(x);
                    look_plus(&mut s, &mut md, "grown", st)?;
                }
            }
        },
    }
    st.sample(|| format!("p={p} mode {}", mode % 6));
    Ok(())
}

/// C06
pub fn c06(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let p = plus_p(i);
    let mut r = Rng::of(&[cx.seed, 6, i]);
    let limit = sparse_limit(p);
    let k = *r.pick(&[
        Kind::Uniform,
        Kind::Uniform,
        Kind::Clustered,
        Kind::Clustered,
        Kind::Spread,
        Kind::Spread,
        Kind::Flagged,
        Kind::Ranked,
        Kind::Boundary,
        Kind::Mixed,
        Kind::Extreme,
    ]);
    // Long enough to convert, when the kind has enough distinct codes.
    let n = (limit + limit / 8 + 30).max(60);
    let mut h = many::<Plus>(k, p, &mut r, n);
    if r.chance(1, 3) {
        r.shuffle(&mut h);
    }
    let ctx = |e: String| format!("HyperLogLogPlus p={p} {k:?} n={n}: {e}");
    let dense_after = |t: usize| -> bool {
        let mut m = Ref::new(true, p);
        for x in &h[..t] {
            m.ins(*x);
        }
        m.settle();
        m.dense
    };
    // First prefix length whose code list no longer fits.
    let (mut lo, mut hi) = (0usize, h.len() + 1);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if dense_after(mid) {
            hi = mid
        } else {
            lo = mid
        }
    }
    let t = hi; // h[..t-1] fits, h[..t] does not (t = len + 1: never)
    if t <= h.len() {
        st.inc("conversions located");
    }
    // Estimates along the sparse part of the history.
    let (mut s, mut md) = (Plus::mk(p), Ref::new(true, p));
    let budget = if n <= 500 { n } else { 150 };
    let look = |s: &mut Plus, md: &mut Ref, at: usize, st: &mut Stats| -> Verdict {
        let got = s.cnt();
        let c = md.candidates();
        if c.iter().all(|c| c.branch == "sparse") {
            st.inc("sparse estimates compared");
            if agree(got, &c, MODEL).is_none() {
                fail!("{}", ctx(format!("after {at} inserts ({} codes, list of {} of {limit} bytes) count() = {got:?}, linear counting over 2^25 registers gives {}", md.codes.len(), md.encoded_len(), show(&c))));
            }
        }
        Ok(())
    };
    for (j, x) in h[..t - 1].iter().enumerate() {
        s.ins(*x);
        md.ins(*x);
        if (r.below(n as u64) as usize) < budget || j < 3 {
            look(&mut s, &mut md, j + 1, st)?;
        }
    }
    look(&mut s, &mut md, t - 1, st)?;
    st.max("codes in a sparse sketch", md.codes.len() as u64);
    st.distinct(&[p as u64, md.codes.len() as u64, md.encoded_len() as u64]);
    // The same point, reached without counting and by merging.
    let mut u: Plus = build(p, &h[..t - 1]);
    look(&mut u, &mut md.clone(), t - 1, st)?;
    let cut = r.below(t as u64) as usize;
    let mut a: Plus = build(p, &h[..cut.min(t - 1)]);
    let b: Plus = build(p, &h[cut.min(t - 1)..t - 1]);
    a.join(&b)?;
    look(&mut a, &mut md.clone(), t - 1, st)?;
    if t <= h.len() {
        // One element later the sketch must be dense, however it got there.
        let sparse_val = {
            let mut m = md.clone();
            m.ins(h[t - 1]);
            let mm = (1u64 << 25) as f64;
            linear(mm, mm - m.codes.len() as f64)
        };
        let mut w: Plus = build(p, &h[..t]);
        let mut one: Plus = build(p, &h[t - 1..t]);
        one.join(&build(p, &h[..t - 1]))?;
        let mut two = u.dup();
        two.join(&build(p, &h[t - 1..t]))?;
        s.ins(h[t - 1]);
        md.ins(h[t - 1]);
        md.settle();
        for (name, x) in [("insert", &mut s), ("insert without counting", &mut w), ("merge into", &mut one), ("merge from", &mut two)] {
            let c = x.cnt();
            st.inc("conversions observed");
            let dense_ok = agree(c, &plus_candidates(&md.regs), MODEL).is_some();
            if close(c, sparse_val, MODEL) && !dense_ok {
                fail!("{}", ctx(format!("still sparse ({c:?}) after {t} inserts via {name}, when the encoded list exceeds {limit} bytes")));
            }
        }
        // Nothing is lost: elements that went through the sparse list and
        // elements inserted into a dense sketch end in the same state.
        let extra = many::<Plus>(Kind::Uniform, p, &mut r, 2 * limit + 40);
        let mut through = s.dup();
        for x in &extra {
            through.ins(*x);
        }
        let mut direct: Plus = build(p, &extra);
        direct.cnt();
        for x in &h[..t] {
            direct.ins(*x);
        }
        let f1 = fingerprint(&through, p, i, &h[..t], Depth::Normal);
        let f2 = fingerprint(&direct, p, i, &h[..t], Depth::Normal);
        same(&f1, &f2).map_err(|e| ctx(format!("elements converted from sparse differ from elements inserted into a dense sketch: {e}")))?;
        st.inc("lossless conversions observed");
        // Against the reference registers, bucket by bucket, with the scale
        // calibrated on this build.
        read_back(&s, &md, &h[..t], &mut r, st).map_err(ctx)?;
    }
    st.sample(|| ctx(format!("conversion at {t}")));
    Ok(())
}

fn read_back(s: &Plus, md: &Ref, h: &[u64], r: &mut Rng, st: &mut Stats) -> Verdict {
    let p = md.p;
    let m = 1usize << p;
    let f = Plus::maxrank(p);
    let mut cal = Plus::mk(p);
    for j in 0..m {
        cal.ins(Plus::craft(p, j, f, 0));
    }
    let full = m as f64 * (-(f as f64)).exp2();
    let k = cal.cnt() * full;
    let picks = if p <= 6 { m } else if p <= 12 { 12 } else { 3 };
    for j in 0..picks {
        let idx = if p <= 6 { j } else { Plus::route(p, *r.pick(h)).0 };
        let c = crate::probe::flooded(s, p, &[idx]);
        let truth = md.regs[idx];
        let got = k / c - (full - (-(f as f64)).exp2());
        let want = (-(truth as f64)).exp2();
        let eps = (k / c) * 1e-11;
        if (got - want).abs() > eps.max(want * 0.2) {
            fail!("after the conversion bucket {idx} should hold rank {truth}, 2^-rank is {got:e}");
        }
        st.inc("buckets read back after conversion");
    }
    Ok(())
}

/// C19
pub fn c19(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    dispatch!(plus, c19_t, i, p, cx, st)
}
fn c19_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 19, i]);
    let m = 1usize << p;
    let k = *r.pick(&[Kind::Uniform, Kind::Uniform, Kind::Ranked, Kind::Band, Kind::Mixed, Kind::Clustered, Kind::Flagged]);
    let n = match r.below(3) {
        0 => m,
        1 => 3 * m,
        _ => 8 * m,
    }
    .max(150)
    .min(1_500_000);
    let h = many::<S>(k, p, &mut r, n);
    let watch = match p {
        4..=8 => n as u64,
        9..=12 => 3000,
        _ => if cx.thorough { 1500 } else { 500 },
    };
    let (mut s, mut md) = (S::mk(p), Ref::new(S::PLUS, p));
    // Windows of consecutive insertions, observed one by one.
    let windows = (watch / 100).max(1);
    let width = (watch / windows) as usize;
    let mut starts: Vec<usize> = (0..windows)
        .map(|_| r.below(n as u64) as usize)
        .collect();
    if watch == n as u64 {
        starts = vec![0];
    }
    starts.sort_unstable();
    let width = if watch == n as u64 { n } else { width };
    let mut end = 0;
    let mut w = 0;
    let mut last: Option<(f64, Vec<&'static str>)> = None;
    for (j, x) in h.iter().enumerate() {
        s.ins(*x);
        md.ins(*x);
        while w < starts.len() && starts[w] <= j {
            end = starts[w] + width;
            w += 1;
        }
        if j >= end {
            last = None;
            continue;
        }
        let got = s.cnt();
        let mut br: Vec<&'static str> = md.candidates().iter().map(|c| c.branch).collect();
        br.dedup();
        if br.len() == 1 && br[0].starts_with("corrected") && unsorted_near(p as usize, raw_of(&md.regs)) {
            br = vec!["unsorted"];
            st.inc("observations in unsorted calibration stretches");
        }
        if let Some((prev, pbr)) = &last {
            // "with and without empty registers" is the same estimator.
            let cut = |b: &str| b.split(',').next().unwrap().to_string();
            let same_branch = br.len() == 1 && pbr.len() == 1 && cut(br[0]) == cut(pbr[0]) && br[0] != "unsorted";
            st.inc("consecutive estimates observed");
            if same_branch {
                st.inc(&format!("within {}", cut(br[0])));
                if got < *prev && !close(got, *prev, SAME) {
                    fail!("{} p={p} {k:?}: inserting element {} ({x:#x}) lowered the estimate from {prev:?} to {got:?} within the {} estimator", S::NAME, j + 1, br[0]);
                }
            } else {
                st.inc("estimator switches passed over");
            }
        }
        last = Some((got, br));
    }
    st.distinct(&[S::PLUS as u64, p as u64, i]);
    st.sample(|| format!("{} p={p} {k:?} n={n}", S::NAME));
    Ok(())
}
