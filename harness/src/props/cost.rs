//! C21: the processor time of single operations.
use super::*;
use crate::fail;
use crate::sk::{round, Fmt, Sk};
use crate::util::{Rng, Stats, Verdict};

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// Nanoseconds of processor time used by this thread: waiting for a processor
/// does not count.
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // SAFETY: the pointer is valid; 3 is CLOCK_THREAD_CPUTIME_ID.
    let e = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(e, 0);
    t.s as f64 * 1e9 + t.ns as f64
}

/// What is allowed, in nanoseconds; observed values are 10 to 50 times less.
const INSERT_DENSE: f64 = 800.0;
const INSERT_SPARSE: f64 = 8_000.0;
/// Includes more merging of the pending codes into long lists.
const REINSERT_SPARSE: f64 = 30_000.0;
const FIXED: f64 = 100_000.0;
const PER_REGISTER: f64 = 200.0;

struct Watch<'a> {
    name: &'static str,
    p: u8,
    st: &'a mut Stats,
}
impl Watch<'_> {
    /// Runs `n` operations at most three times: the fastest run counts, so
    /// that a disturbance has to come back every time to matter.
    fn time(
        &mut self,
        what: &str,
        allowed: f64,
        n: usize,
        run: &mut dyn FnMut() -> Result<(), String>,
    ) -> Verdict {
        let mut best = f64::INFINITY;
        for _ in 0..3 {
            let t = cpu();
            run()?;
            best = best.min((cpu() - t) / n as f64);
            if best <= allowed {
                break;
            }
        }
        self.st.inc("timings");
        self.st.add("operations timed", n as u64);
        self.st.max(&format!("per mille of the allowed time: {what}"), (1000.0 * best / allowed) as u64);
        if best > allowed {
            fail!("{} p={}: {what} takes {best:.0} ns of processor time on average ({n} operations), allowed are {allowed:.0}", self.name, self.p);
        }
        Ok(())
    }
}

/// Ways by which a sketch with the same elements comes about.
const ORIGINS: [&str; 7] = ["as inserted", "restored from JSON", "restored from bincode", "cloned", "clone_from", "merged", "after rejected merges"];
fn reborn<S: Sk>(mut s: S, p: u8, origin: usize) -> Result<S, String> {
    Ok(match origin {
        0 => s,
        1 => round(&s, Fmt::Json)?,
        2 => round(&s, Fmt::Bincode)?,
        3 => s.dup(),
        4 => {
            let mut t = S::mk(p);
            t.ins(1);
            crate::util::lib(|| t.clone_from(&s));
            t
        },
        5 => {
            let mut t = S::mk(p);
            t.join(&s)?;
            t
        },
        _ => {
            let o = S::mk(if p == 4 { 5 } else { p - 1 });
            for _ in 0..100 {
                if s.mrg(&o).is_ok() {
                    fail!("{} p={p}: merged with another precision", S::NAME);
                }
            }
            s
        },
    })
}

pub fn c21(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    dispatch!(plus, c21_t, i, p, cx, st)
}

fn c21_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 21, i]);
    let m = 1usize << p;
    let size = PER_REGISTER * m as f64 + FIXED;
    let n = 20_000;
    let mut w = Watch { name: S::NAME, p, st };
    w.time("creating a sketch", size, 1, &mut || {
        S::mk(p);
        Ok(())
    })?;
    // Filling from empty; for the sparse list at its most expensive too.
    let fill = (2 * m / 5).max(2000);
    let kind = (i / 28) % 6;
    let salt = r.next();
    let hashes: Vec<u64> = (0..fill.max(n) as u64)
        .map(|j| match kind {
            0 => r.next(),
            // Ascending and descending codes, one byte each, some of which
            // carry a rank and are therefore far away.
            1 => (j << 39).wrapping_add(salt),
            2 => salt.wrapping_sub(j << 39),
            // Without those: every new code comes last, or first.
            3 => (2 * j + 1) << 39,
            4 => (2 * ((1 << 24) - j) - 1) << 39,
            // Only those.
            _ => S::craft(p, (j >> 4) as usize & (m - 1), (26 - p + (j & 15) as u8).min(S::maxrank(p)), salt),
        })
        .collect();
    let origin = r.below(ORIGINS.len() as u64) as usize;
    w.st.inc(&format!("filled: {}", ORIGINS[origin]));
    let empty = reborn(S::mk(p), p, origin)?;
    w.time("filling an empty sketch, per insertion", INSERT_SPARSE, fill, &mut || {
        let mut s = if origin == 0 { S::mk(p) } else { empty.dup() };
        for h in &hashes[..fill] {
            s.ins(*h);
        }
        Ok(())
    })?;
    let states = [
        ("nearly empty", 3),
        ("sparse, small", (m / 50).max(1)),
        ("as sparse as it gets", (2 * m / 11).max(1)),
        ("dense", 3 * m),
    ];
    for (label, k) in states {
        let mut s: S = S::mk(p);
        let mut seen = Vec::new();
        for _ in 0..k {
            let h = r.next();
            s.ins(h);
            seen.push(h);
        }
        if r.chance(1, 2) {
            s.cnt();
        }
        // Wherever it comes from.
        let origin = r.below(ORIGINS.len() as u64) as usize;
        w.st.inc(&format!("timed: {}", ORIGINS[origin]));
        let mut fresh = Vec::new();
        for _ in 0..3 {
            fresh.push(reborn(s.dup(), p, origin)?);
        }
        s = reborn(s, p, origin)?;
        // The first insertions, counted or not before.
        w.time(&format!("first insertions into a {label} sketch"), if S::PLUS { REINSERT_SPARSE } else { INSERT_DENSE }, 300, &mut || {
            let mut t = fresh.pop().unwrap();
            for _ in 0..300 {
                t.ins(r.next());
            }
            Ok(())
        })?;
        let dense = !S::PLUS || label == "dense";
        let each = if dense { INSERT_DENSE } else { REINSERT_SPARSE };
        w.time(&format!("re-insertion, {}", if dense { "dense" } else { "sparse" }), each, n, &mut || {
            for j in 0..n {
                s.ins(seen[j % k]);
            }
            Ok(())
        })?;
        w.time("count", size, 4, &mut || {
            for _ in 0..4 {
                s.cnt();
            }
            Ok(())
        })?;
        w.time("clone and drop", size, 2, &mut || {
            s.dup();
            s.dup();
            Ok(())
        })?;
        // A sketch of each size as the other operand.
        for (_, k2) in states {
            let mut o = S::mk(p);
            for _ in 0..k2 {
                o.ins(r.next());
            }
            w.time("merge", 2.0 * size, 2, &mut || {
                let mut t = s.dup();
                for _ in 0..2 {
                    t.join(&o)?;
                }
                Ok(())
            })?;
        }
        // Very small ones: their merges are as cheap as insertions.
        let small: Vec<S> = (0..500)
            .map(|_| {
                let mut o = S::mk(p);
                o.ins(r.next());
                o
            })
            .collect();
        if S::PLUS {
            w.time("merging one element", if dense { 2.0 * INSERT_DENSE } else { INSERT_SPARSE }, 2000, &mut || {
                let mut t = s.dup();
                for j in 0..2000 {
                    t.join(&small[j % 500])?;
                }
                Ok(())
            })?;
        }
        if dense {
            // However many elements there were.
            for round in 0..2 {
                w.time("insertion of new elements, dense", INSERT_DENSE, n, &mut || {
                    for _ in 0..n {
                        s.ins(r.next());
                    }
                    Ok(())
                })?;
                if round == 0 {
                    for _ in 0..300_000 {
                        s.ins(r.next());
                    }
                }
            }
            w.time("count", size, 4, &mut || {
                for _ in 0..4 {
                    s.cnt();
                }
                Ok(())
            })?;
        }
        st_state(w.st, label, S::PLUS);
    }
    st.distinct(&[S::PLUS as u64, p as u64, i]);
    st.sample(|| format!("{} p={p}: every operation timed in {} states", S::NAME, states.len()));
    Ok(())
}
fn st_state(st: &mut Stats, label: &str, plus: bool) {
    st.inc(&format!("timed {}, {label}", type_name(plus)));
}
