//! C09: hostile histories. C17: sketches persisted by version 0.4.1.
use super::*;
use crate::fail;
use crate::gen::{many, one, special_index, Kind, KINDS};
use crate::probe::{fingerprint, same, Depth};
use crate::sk::{round, Fmt, Pf, Plus, Sk, FMTS};
use crate::util::{close, lib, Rng, Stats, Verdict};

fn sane<S: Sk>(c: f64, empty: bool, p: u8, what: &str) -> Verdict {
    if !c.is_finite() || c < 0.0 {
        fail!("{} p={p}: the estimate is {c:?} {what}", S::NAME);
    }
    if empty != (c == 0.0) {
        fail!("{} p={p}: the estimate is {c:?} {what}, the sketch is {}", S::NAME, if empty { "empty" } else { "not empty" });
    }
    Ok(())
}

pub fn c09(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    if i < 28 && p % 7 == 4 {
        // Once for some precisions of each type.
        dispatch!(plus, repeated, i, p, cx, st)?;
    }
    match (i / 28) % 4 {
        0 => dispatch!(plus, saturate, i, p, cx, st),
        _ => dispatch!(plus, hostile, i, p, cx, st),
    }
}

/// Every operation more often on one sketch than a 16-bit counter counts.
fn repeated<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    const N: u64 = 67_000;
    let mut r = Rng::of(&[cx.seed, 92, i]);
    let m = 1usize << p;
    for (dense, trips) in [(false, false), (true, false), (false, true), (true, true)] {
        let mut s = S::mk(p);
        let filled = if dense { m * 6 } else { 3 };
        for _ in 0..filled {
            s.ins(r.next());
        }
        let x = r.next();
        let mut o = S::mk(p);
        o.ins(x);
        let n = if trips || (m > 4096 && dense) { N / 40 } else { N };
        for k in 0..n {
            s.cnt();
            s.join(&o)?;
            if k % 2 == 0 {
                s = s.dup();
            }
            s.ins(x);
            if trips {
                // Forgets whatever is not serialized.
                s = round(&s, Fmt::Bincode)?;
            }
        }
        sane::<S>(s.cnt(), false, p, &format!("after {n} counts, merges and clones"))?;
        st.add("repeated operations", 4 * n);
    }
    Ok(())
}

/// Registers driven to every extreme profile, saturation included.
fn saturate<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 90, i]);
    let m = 1usize << p;
    let maxr = S::maxrank(p);
    let mut s = S::mk(p);
    sane::<S>(s.cnt(), true, p, "of a new sketch")?;
    let mut order: Vec<usize> = (0..m).collect();
    if r.chance(1, 2) {
        r.shuffle(&mut order);
    }
    let looks = if p <= 9 { m } else { 40 };
    for (j, x) in order.iter().enumerate() {
        s.ins(S::craft(p, *x, maxr, r.next()));
        if j < 20 || j + 20 > m || (r.below(m as u64) as usize) < looks {
            sane::<S>(s.cnt(), false, p, &format!("with {} of {m} registers at the maximum rank {maxr}", j + 1))?;
            st.inc("estimates observed");
        }
    }
    st.inc("fully saturated sketches");
    st.distinct(&[S::PLUS as u64, p as u64, s.cnt().to_bits()]);
    // Everything at one rank, for every rank.
    let ranks: Vec<u8> = if p <= 12 { (1..=maxr).collect() } else { vec![1, 2, maxr / 2, maxr - 1, maxr] };
    for k in ranks {
        let mut s = S::mk(p);
        for x in 0..m {
            s.ins(S::craft(p, x, k, r.next()));
        }
        let c = s.cnt();
        sane::<S>(c, false, p, &format!("with all registers at rank {k}"))?;
        let mut t = round(&s, *r.pick(&FMTS))?;
        sane::<S>(t.cnt(), false, p, "after a round trip")?;
        // All but one, then the last one.
        let mut s = S::mk(p);
        for x in 1..m {
            s.ins(S::craft(p, x, k, 0));
        }
        sane::<S>(s.cnt(), false, p, &format!("with all but one register at rank {k}"))?;
        s.ins(S::craft(p, 0, 1 + r.below(maxr as u64) as u8, 0));
        sane::<S>(s.cnt(), false, p, &format!("with nearly all registers at rank {k}"))?;
        st.add("estimates observed", 4);
    }
    st.sample(|| format!("{} p={p} saturation", S::NAME));
    Ok(())
}

/// Random histories over a pool of sketches, adversarial elements.
fn hostile<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 91, i]);
    let mut pool: Vec<(S, bool)> = (0..4).map(|_| (S::mk(p), true)).collect();
    let steps = if cx.thorough { 700 } else { 250 };
    let m = 1u64 << p;
    let mut big = 3;
    for step in 0..steps {
        let a = r.below(4) as usize;
        let b = r.below(4) as usize;
        match r.below(16) {
            0..=3 => {
                let k = *r.pick(&[Kind::Extreme, Kind::Extreme, Kind::Boundary, Kind::Flagged, Kind::Ranked, Kind::Mixed, Kind::Spread, Kind::Clustered, Kind::Few]);
                let n = r.range(1, 60) as usize;
                for x in many::<S>(k, p, &mut r, n) {
                    pool[a].0.ins(x);
                }
                pool[a].1 = false;
                st.add("insertions", n as u64);
            },
            4 if big > 0 => {
                big -= 1;
                let k = *r.pick(&KINDS);
                let n = r.range(m / 4, m.min(60_000) * 2) as usize;
                for x in many::<S>(k, p, &mut r, n) {
                    pool[a].0.ins(x);
                }
                pool[a].1 = false;
                st.add("insertions", n as u64);
            },
            5 | 6 => {
                let salt = r.next();
                let x = one::<S>(Kind::Extreme, p, &mut r, step, salt);
                pool[a].0.ins(x);
                pool[a].1 = false;
            },
            7 => {
                let idx = special_index(p, &mut r);
                for k in 1..=S::maxrank(p) {
                    pool[a].0.ins(S::craft(p, idx, k, !0));
                }
                pool[a].1 = false;
            },
            8 | 9 => {
                let o = pool[b].0.dup();
                let e = pool[b].1;
                pool[a].0.join(&o)?;
                pool[a].1 &= e;
                st.inc("merges");
            },
            10 => {
                let o = pool[b].0.dup();
                let e = pool[b].1;
                pool[a] = (o, e);
                st.inc("clones");
            },
            11 => {
                let f = *r.pick(&FMTS);
                pool[a].0 = round(&pool[a].0, f)?;
                st.inc("round trips");
            },
            12 => {
                let mut q = 4 + r.below((S::MAXP - 3) as u64) as u8;
                if q == p {
                    q = if p == 4 { 5 } else { p - 1 };
                }
                let mut o = S::mk(q);
                for x in many::<S>(Kind::Extreme, q, &mut r, 20) {
                    o.ins(x);
                }
                if pool[a].0.mrg(&o).is_ok() {
                    fail!("{} p={p}: merged with precision {q}", S::NAME);
                }
                let h = many::<S>(Kind::Mixed, p, &mut r, 30);
                pool[a].0.mrg_foreign(p, &h, r.chance(1, 2)).map_err(|e| format!("merge across hasher types failed: {e:?}"))?;
                pool[a].1 = false;
            },
            13 => {
                if r.chance(1, 3) {
                    pool[a] = (S::mk(p), true);
                } else {
                    let o = pool[b].0.dup();
                    lib(|| pool[a].0.clone_from(&o));
                    pool[a].1 = pool[b].1;
                }
            },
            14 => {
                if p <= 10 {
                    let s = lib(|| format!("{:?}", pool[a].0));
                    st.add("debug bytes", s.len() as u64);
                }
            },
            _ => {
                let x = r.next();
                let o = pool[a].0.dup();
                pool[a].0.ins(x);
                pool[a].0.join(&o)?;
                pool[a].1 = false;
            },
        }
        st.inc("operations");
        if r.chance(1, 2) {
            let c = pool[a].0.cnt();
            sane::<S>(c, pool[a].1, p, &format!("at step {step}"))?;
            st.inc("estimates observed");
            st.distinct(&[S::PLUS as u64, p as u64, c.to_bits()]);
        }
    }
    // Construction errors are values, not panics.
    for q in [0u8, 1, 2, 3, S::MAXP + 1, 19, 24, 25, 26, 32, 64, 128, 255] {
        if q >= 4 && q <= S::MAXP {
            continue;
        }
        match S::try_new(q) {
            Ok(_) => fail!("{}::new({q}) was accepted", S::NAME),
            Err(e) => {
                let t = lib(|| format!("{e} {e:?}"));
                st.add("debug bytes", t.len() as u64);
            },
        }
    }
    st.sample(|| format!("{} p={p}: {steps} operations on 4 sketches", S::NAME));
    Ok(())
}

// ---------------------------------------------------------------- C17

/// One recorded payload.
#[derive(serde::Serialize, serde::Deserialize)]
pub struct Golden {
    pub plus: bool,
    pub p: u8,
    /// How the recorded sketch was made, see `golden_hashes`.
    pub seed: u64,
    pub n: u64,
    pub shape: u8,
    /// Was count() called before recording (nothing pending)?
    pub counted: bool,
    /// The second half was merged in instead of inserted.
    pub merged: bool,
    pub json: String,
}

/// The elements of a recorded sketch. Never change this function.
pub fn golden_hashes(plus: bool, p: u8, seed: u64, n: u64, shape: u8) -> Vec<u64> {
    let mut x = seed;
    let mut next = || {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    };
    let w = if plus { 64 } else { 32 };
    (0..n)
        .map(|i| {
            let a = next();
            match (shape, i % 4) {
                (0, _) => a,
                // Long zero runs after the index bits.
                (_, 0) => {
                    let idx = a >> (64 - p);
                    let bits = w - p as u32;
                    let k = next() % (bits as u64 + 1);
                    (idx << bits) | if k == bits as u64 { 0 } else { 1u64 << k }
                },
                // Neighbouring sparse codes.
                (_, 1) => {
                    if plus { ((a >> 39 & !0xff) + i % 256) << 39 | 1 << 20 } else { a & 0xffff_ff00 | i % 256 }
                },
                _ => a,
            }
        })
        .collect()
}

pub fn golden_plan() -> Vec<(bool, u8, u64, u64, u8, bool, bool)> {
    let mut v = Vec::new();
    for plus in [false, true] {
        for p in 4..=(if plus { 18u8 } else { 16 }) {
            let m = 1u64 << p;
            let mut sizes = vec![0, 1, 9, m / 9 + 2];
            if p <= 12 {
                sizes.push(m / 2 + 3);
                sizes.push(2 * m);
            } else if plus && (p == 16 || p == 18) || !plus && p == 16 {
                sizes.push(2 * m);
            }
            for (k, n) in sizes.into_iter().enumerate() {
                let n = n.min(if p > 14 && k == 3 { 3000 } else { u64::MAX });
                for counted in [false, true] {
                    if counted && (k == 0 || n > 10_000 || !plus) {
                        continue;
                    }
                    let shape = ((k as u8 + p) % 2) as u8;
                    let merged = !counted && (p as u64 + k as u64) % 3 == 0;
                    v.push((plus, p, 1000 * p as u64 + 10 * k as u64 + counted as u64, n, shape, counted, merged));
                }
            }
        }
    }
    v
}

fn make_golden<S: Sk>(h: &[u64], p: u8, counted: bool, merged: bool) -> S {
    let mut s: S;
    if merged {
        let (a, b) = h.split_at(h.len() / 2);
        s = build(p, a);
        s.join(&build(p, b)).unwrap();
    } else {
        s = build(p, h);
    }
    if counted {
        s.cnt();
    }
    s
}

/// Writes the payloads (run once, against the published version).
pub fn record(path: &str) {
    let mut out = Vec::new();
    for (plus, p, seed, n, shape, counted, merged) in golden_plan() {
        let h = golden_hashes(plus, p, seed, n, shape);
        let json = if plus {
            serde_json::to_string(&make_golden::<Plus>(&h, p, counted, merged)).unwrap()
        } else {
            serde_json::to_string(&make_golden::<Pf>(&h, p, counted, merged)).unwrap()
        };
        out.push(Golden { plus, p, seed, n, shape, counted, merged, json });
    }
    let mut s = String::new();
    for g in out {
        s.push_str(&serde_json::to_string(&g).unwrap());
        s.push('\n');
    }
    std::fs::write(path, s).unwrap();
}

pub fn goldens() -> &'static [Golden] {
    use std::sync::OnceLock;
    static G: OnceLock<Vec<Golden>> = OnceLock::new();
    G.get_or_init(|| {
        include_str!("../../golden/payloads-0.4.1.jsonl")
            .lines()
            .map(|l| serde_json::from_str(l).expect("golden file"))
            .collect()
    })
}

pub fn c17(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let g = &goldens()[(i as usize) % goldens().len()];
    dispatch!(g.plus, c17_t, i, g, cx, st)
}
fn c17_t<S: Sk>(i: u64, g: &Golden, cx: &Cx, st: &mut Stats) -> Verdict {
    let p = g.p;
    let mut r = Rng::of(&[cx.seed, 17, i]);
    let h = golden_hashes(g.plus, p, g.seed, g.n, g.shape);
    let ctx = |e: String| format!("payload recorded by 0.4.1: {} p={p} seed={} n={} counted={} merged={}: {e}", S::NAME, g.seed, g.n, g.counted, g.merged);
    let load = || -> Result<S, String> {
        lib(|| serde_json::from_str(&g.json)).map_err(|e: serde_json::Error| ctx(format!("cannot be read: {e}")))
    };
    let old = load()?;
    let fresh: S = build(p, &h);
    let ff = fingerprint(&fresh, p, i, &h, Depth::Normal);
    let check = |s: &S, want: &[f64], what: &str| -> Verdict {
        let f = fingerprint(s, p, i, &h, Depth::Normal);
        same(want, &f).map_err(|e| ctx(format!("{what}: {e}")))
    };
    // Neither more nor fewer elements than recorded.
    let mut a = fresh.dup();
    a.join(&old).map_err(ctx)?;
    check(&a, &ff, "merging it into a sketch of the same elements changes that")?;
    let mut b = S::mk(p);
    b.join(&old).map_err(ctx)?;
    check(&b, &ff, "an empty sketch merged with it differs from a sketch of the same elements")?;
    let fo = fingerprint(&old, p, i, &h, Depth::Normal);
    // Its own estimate; 0.4.1 stored the size of the sparse linear counter,
    // which was too small, with the sketch: at most one percent.
    if !close(fo[0], ff[0], 0.01) {
        fail!("{}", ctx(format!("counts {:?}, a sketch of the same elements {:?}", fo[0], ff[0])));
    }
    let mut c = load()?;
    for x in &h {
        c.ins(*x);
    }
    check(&c, &fo, "re-inserting its elements changes it")?;
    let mut c = load()?;
    c.join(&fresh).map_err(ctx)?;
    check(&c, &fo, "merging its elements into it changes it")?;
    let mut c = load()?;
    c.cnt();
    check(&c, &fo, "counting changes it")?;
    // It goes on growing like any other sketch (far into the dense range).
    let m = 1usize << p;
    let extra = many::<S>(Kind::Uniform, p, &mut r, (2 * m).max(50));
    let (mut c, mut d) = (load()?, fresh.dup());
    for x in &extra {
        c.ins(*x);
        d.ins(*x);
    }
    let fd = fingerprint(&d, p, i, &extra, Depth::Normal);
    let fc = fingerprint(&c, p, i, &extra, Depth::Normal);
    same(&fd, &fc).map_err(|e| ctx(format!("after inserting {} more elements it differs from a new sketch: {e}", extra.len())))?;
    let mut n = load()?;
    let before = n.cnt();
    for x in many::<S>(Kind::Uniform, p, &mut r, 40) {
        n.ins(x);
    }
    if n.cnt() <= before && g.n < m as u64 / 2 {
        fail!("{}", ctx(format!("40 new elements did not raise the estimate {before:?}")));
    }
    // And can be written and read again, in every format.
    for f in FMTS {
        let n: S = round(&old, f)?;
        check(&n, &fo, &format!("writing it as {f:?} and reading it again changes it"))?;
    }
    let _ = Fmt::Json;
    st.inc("payloads read");
    st.inc(&format!("payloads {}{}", S::NAME, if g.counted { ", settled" } else { "" }));
    st.distinct(&[g.plus as u64, p as u64, g.seed, g.n]);
    st.sample(|| ctx(format!("{} bytes of JSON", g.json.len())));
    Ok(())
}
