//! Long random histories of several sketches that are each other's clones,
//! sources and successors (C02, C08, C13), and operations repeated more often
//! than a 16-bit counter counts.
use super::*;
use crate::fail;
use crate::gen::{many, special_index, Kind, KINDS};
use crate::model::{agree, Ref};
use crate::sk::{round, Sk, FMTS};
use crate::util::{close, lib, Rng, Stats, Verdict, SAME};
use hyperloglogplus::HyperLogLogError;
use std::collections::BTreeSet;

/// What most of the operations are.
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Merges,
    Trips,
    Clones,
    Rejections,
}

/// A sketch, its reference, and the numbers of the element groups in it.
struct Slot<S> {
    s: S,
    m: Ref,
    groups: BTreeSet<usize>,
}
impl<S: Sk> Slot<S> {
    fn new(p: u8) -> Self {
        Slot { s: S::mk(p), m: Ref::new(S::PLUS, p), groups: BTreeSet::new() }
    }
}

struct Pool<S> {
    p: u8,
    slots: Vec<Slot<S>>,
    /// Every group of elements ever inserted.
    log: Vec<Vec<u64>>,
    last: String,
}
impl<S: Sk> Pool<S> {
    fn insert(&mut self, a: usize, h: Vec<u64>) {
        let t = &mut self.slots[a];
        for x in &h {
            t.s.ins(*x);
            t.m.ins(*x);
        }
        t.groups.insert(self.log.len());
        self.log.push(h);
    }
    fn two(&mut self, a: usize, b: usize) -> (&mut Slot<S>, &mut Slot<S>) {
        assert!(a != b);
        if a < b {
            let (x, y) = self.slots.split_at_mut(b);
            (&mut x[a], &mut y[0])
        } else {
            let (x, y) = self.slots.split_at_mut(a);
            (&mut y[0], &mut x[b])
        }
    }
    fn merge(&mut self, a: usize, b: usize) -> Verdict {
        let (x, y) = self.two(a, b);
        x.s.join(&y.s)?;
        x.m.mrg(&y.m);
        x.groups.extend(y.groups.iter().copied());
        Ok(())
    }
    /// Slot b becomes a clone of slot a.
    fn dup(&mut self, a: usize, b: usize, from: bool) {
        let (x, y) = self.two(a, b);
        if from {
            lib(|| y.s.clone_from(&x.s));
        } else {
            y.s = x.s.dup();
        }
        y.m = x.m.clone();
        y.groups = x.groups.clone();
    }
    fn check(&mut self, a: usize, step: usize, st: &mut Stats) -> Verdict {
        let t = &mut self.slots[a];
        let c = t.s.cnt();
        st.inc("pool estimates");
        if agree(c, &t.m.candidates(), 1e-10).is_some() {
            return Ok(());
        }
        // Against the code itself: what the estimator should be is not the
        // subject here.
        let all: Vec<u64> = t.groups.iter().flat_map(|g| self.log[*g].iter().copied()).collect();
        let mut f: S = canonical(self.p, &all);
        let want = f.cnt();
        if !close(c, want, SAME) {
            fail!(
                "{} p={}: after step {step} ({}) a sketch of {} elements estimates {c:?}, one into which they are inserted {want:?}",
                S::NAME, self.p, self.last, all.iter().collect::<BTreeSet<_>>().len()
            );
        }
        Ok(())
    }
}

pub fn pool<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats, focus: Focus) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 200 + focus as u64, i]);
    // Small sketches: every register shows, and coincidences are frequent.
    let p = if r.chance(7, 8) { 4 + p % 5 } else { 4 + p % 9 };
    const K: usize = 6;
    let mut w = Pool::<S> { p, slots: (0..K).map(|_| Slot::new(p)).collect(), log: Vec::new(), last: String::new() };
    let m = 1u64 << p;
    let few = |r: &mut Rng| -> Vec<u64> {
        let n = *r.pick(&[1usize, 1, 1, 2, 3]);
        match r.below(3) {
            0 => {
                let k = *r.pick(&KINDS);
                many::<S>(k, p, r, n)
            },
            // Bits of one bucket, which later only show if nothing is lost.
            1 => (0..n).map(|_| S::craft(p, special_index(p, r), 1 + r.below(S::maxrank(p) as u64) as u8, r.next())).collect(),
            _ => (0..n).map(|_| r.next()).collect(),
        }
    };
    let steps = if cx.thorough { 500 } else { 260 };
    for step in 0..steps {
        let a = r.below(K as u64) as usize;
        let b = (a + 1 + r.below(K as u64 - 1) as usize) % K;
        let c = (0..K).find(|c| *c != a && *c != b && r.chance(1, 3)).unwrap_or_else(|| (0..K).find(|c| *c != a && *c != b).unwrap());
        // One operation in three is of the kind in focus.
        let op = if r.chance(1, 3) {
            match focus {
                Focus::Merges => *r.pick(&[3, 3, 3, 4, 4, 10]),
                Focus::Trips => *r.pick(&[7, 7, 7, 8]),
                Focus::Clones => *r.pick(&[4, 5, 5, 6]),
                Focus::Rejections => 12,
            }
        } else {
            r.below(13)
        };
        let what;
        match op {
            0 | 1 => {
                let h = few(&mut r);
                what = format!("{} insertions", h.len());
                w.insert(a, h);
            },
            2 => {
                let k = *r.pick(&[Kind::Mixed, Kind::Uniform, Kind::Spread, Kind::Clustered, Kind::Ranked]);
                let n = *r.pick(&[m / 16 + 1, m / 4, m, 3 * m, 6 * m]) as usize;
                let h = many::<S>(k, p, &mut r, n.min(4000));
                what = format!("{} insertions", h.len());
                w.insert(a, h);
            },
            3 => {
                what = "merge".into();
                w.merge(a, b)?;
                st.inc("pool merges");
            },
            4 => {
                // Clones that went separate ways by equally long paths,
                // merged one after the other.
                what = "diverged clones merged".into();
                w.dup(a, b, r.chance(1, 4));
                let alike = r.chance(2, 3);
                let h = few(&mut r);
                let mut g = few(&mut r);
                if alike {
                    g = (0..h.len()).map(|_| r.next()).collect();
                }
                let counted = r.chance(1, 3);
                w.insert(a, h);
                w.insert(b, g);
                if counted {
                    w.slots[a].s.cnt();
                    w.slots[b].s.cnt();
                }
                w.merge(c, a)?;
                w.merge(c, b)?;
                if r.chance(1, 4) {
                    let g = few(&mut r);
                    w.insert(b, g);
                    w.merge(c, b)?;
                }
                st.inc("diverged clones merged");
                w.last = what.clone();
                w.check(c, step, st)?;
            },
            5 => {
                what = "clone".into();
                w.dup(a, b, false);
                st.inc("pool clones");
            },
            6 => {
                what = "clone_from".into();
                w.dup(a, b, true);
                st.inc("pool clones");
            },
            7 => {
                let f = *r.pick(&FMTS);
                what = format!("round trip {f:?}");
                let t = &mut w.slots[a];
                t.s = round(&t.s, f)?;
                st.inc("pool round trips");
            },
            8 => {
                // The copy replaces another sketch, the original goes on.
                what = "restored over another sketch".into();
                let f = *r.pick(&FMTS);
                let s = round(&w.slots[a].s, f)?;
                w.dup(a, b, true);
                w.slots[b].s = s;
                st.inc("pool round trips");
            },
            9 => {
                what = "count".into();
                w.slots[a].s.cnt();
            },
            10 => {
                // A new sketch at the old place, as old as the previous one.
                what = "merge, replaced, merge".into();
                w.merge(a, b)?;
                w.slots[b] = Slot::new(p);
                let h = few(&mut r);
                w.insert(b, h);
                w.merge(a, b)?;
                w.last = what.clone();
                w.check(a, step, st)?;
            },
            11 => {
                what = "swap".into();
                w.slots.swap(a, b);
            },
            _ => {
                what = "rejected merge".into();
                let q = if p < S::MAXP && r.chance(1, 2) { p + 1 } else if p > 4 { p - 1 } else { p + 1 };
                let mut o = S::mk(q);
                for _ in 0..r.below(40) {
                    o.ins(r.next());
                }
                if w.slots[a].s.mrg(&o).is_ok() {
                    fail!("{} p={p}: merged with precision {q}", S::NAME);
                }
            },
        }
        w.last = what;
        st.inc("pool operations");
        if r.chance(1, 2) {
            w.check(a, step, st)?;
        }
        if r.chance(1, 8) {
            w.check(b, step, st)?;
        }
        // Not everything shall end up full.
        if r.chance(1, 40) {
            w.slots[c] = Slot::new(p);
        }
    }
    w.last = "the end".into();
    for a in 0..K {
        w.check(a, steps, st)?;
    }
    Ok(())
}

/// The number of ways to wear a sketch out.
pub fn wear_ways(focus: Focus) -> u64 {
    match focus {
        Focus::Merges => 3,
        Focus::Trips => FMTS.len() as u64,
        Focus::Clones => 4,
        Focus::Rejections => 1,
    }
}

/// One operation on one sketch, more often than a 16-bit counter counts.
pub fn wear<S: Sk>(i: u64, cx: &Cx, st: &mut Stats, focus: Focus) -> Verdict {
    const N: u64 = 66_000;
    let mut r = Rng::of(&[cx.seed, 210 + focus as u64, i]);
    let p = 4 + r.below(2) as u8;
    let dense = i / 2 % 2 == 1;
    let mut h: Vec<u64> = (0..if dense { 300 } else { 2 }).map(|_| r.next()).collect();
    let start: S = build(p, &h);
    let mut s = start.dup();
    let mut n = s.cnt();
    // What is compared with must not be worn itself.
    let fresh = |h: &[u64]| canonical::<S>(p, h).cnt();
    let mut other = S::mk(p);
    let wrong: S = build(p + 1, &h);
    let way = (i / 4) as usize;
    let how = match focus {
        Focus::Merges => ["merges from new sketches", "merges from the same sketch", "merges into new sketches"][way % 3].to_string(),
        Focus::Trips => format!("round trips {:?}", FMTS[way % FMTS.len()]),
        Focus::Clones => ["clones, each of the one before", "clones of one sketch", "clone_from", "counts"][way % 4].to_string(),
        Focus::Rejections => "rejected merges".into(),
    };
    for k in 1..=N {
        match (focus, way) {
            (Focus::Merges, w) => match w % 3 {
                0 => {
                    let mut o = S::mk(p);
                    o.ins(h[(k % h.len() as u64) as usize]);
                    s.join(&o)?;
                },
                1 => s.join(&start)?,
                _ => {
                    let mut o = S::mk(p);
                    o.join(&s)?;
                    s = o;
                },
            },
            (Focus::Rejections, _) => {},
            (Focus::Trips, w) => s = round(&s, FMTS[w % FMTS.len()])?,
            (Focus::Clones, w) => match w % 4 {
                0 => s = s.dup(),
                1 => s = start.dup(),
                2 => {
                    lib(|| other.clone_from(&s));
                    std::mem::swap(&mut s, &mut other);
                },
                _ => {
                    s.cnt();
                },
            },
        }
        if focus == Focus::Rejections {
            match s.mrg(&wrong) {
                Err(HyperLogLogError::IncompatiblePrecision) => {},
                e => fail!("{} p={p}: merge number {k} with a sketch of precision {} gives {e:?}", S::NAME, p + 1),
            }
        }
        // Counted at every power of two, and around it, and now and then.
        if k % 997 == 0 || (k + 1) & k == 0 || k & (k - 1) == 0 || (k - 1) & (k.wrapping_sub(2)) == 0 {
            let c = s.dup().cnt();
            st.inc("estimates of worn sketches");
            if !close(c, n, SAME) {
                fail!("{} p={p} {}: after {k} {how} the estimate is {c:?}, it was {n:?}", S::NAME, if dense { "dense" } else { "sparse" });
            }
        }
    }
    for _ in 0..40 {
        let x = r.next();
        h.push(x);
        s.ins(x);
        n = fresh(&h);
        let c = s.cnt();
        if !close(c, n, SAME) {
            fail!("{} p={p}: after {N} {how} and {} more elements the estimate is {c:?} instead of {n:?}", S::NAME, h.len());
        }
    }
    st.add("repetitions", N);
    Ok(())
}
