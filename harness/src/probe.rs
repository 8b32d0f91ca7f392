//! Black-box observation of the whole state of a sketch: the estimate alone
//! hides most registers, so clones are driven into states in which chosen
//! registers dominate the estimate.
use crate::sk::Sk;
use crate::util::{close, Rng, SAME};

/// Rank used to flood the registers that are not under observation.
pub fn flood_rank<S: Sk>(p: u8) -> u8 {
    if S::PLUS {
        S::maxrank(p)
    } else {
        // The estimate stays below the large range correction.
        26 - p
    }
}

/// Estimate of a clone in which all registers but `keep` (sorted) are flooded.
pub fn flooded<S: Sk>(s: &S, p: u8, keep: &[usize]) -> f64 {
    let mut c = s.dup();
    let f = flood_rank::<S>(p);
    let mut k = 0;
    for i in 0..1usize << p {
        if k < keep.len() && keep[k] == i {
            k += 1;
        } else {
            c.ins(S::craft(p, i, f, 0));
        }
    }
    c.cnt()
}

/// How much effort to spend on one fingerprint.
#[derive(Clone, Copy, PartialEq)]
pub enum Depth {
    /// Estimates only.
    Light,
    /// A few flooded clones.
    Normal,
}

/// A vector of estimates that two indistinguishable sketches must share.
pub fn fingerprint<S: Sk>(
    s: &S,
    p: u8,
    seed: u64,
    touched: &[u64],
    d: Depth,
) -> Vec<f64> {
    let mut v = Vec::new();
    let mut c = s.dup();
    v.push(c.cnt());
    v.push(c.cnt());
    if d == Depth::Light {
        return v;
    }
    let mut r = Rng::of(&[seed, p as u64, 77]);
    let m = 1usize << p;
    if m <= 32 {
        for i in 0..m {
            v.push(flooded(s, p, &[i]));
        }
        return v;
    }
    let groups: &[usize] = if p <= 12 { &[1, 3, 12] } else { &[4, 24] };
    for g in groups {
        let mut keep: Vec<usize> = (0..*g)
            .map(|_| {
                if !touched.is_empty() && r.chance(3, 4) {
                    S::route(p, *r.pick(touched)).0
                } else {
                    r.below(m as u64) as usize
                }
            })
            .collect();
        keep.sort_unstable();
        keep.dedup();
        v.push(flooded(s, p, &keep));
    }
    // Continue with fresh elements: later estimates must agree as well.
    for _ in 0..3 {
        c.ins(r.next());
    }
    v.push(c.cnt());
    for _ in 0..(m / 2).min(3000) {
        c.ins(r.next());
    }
    v.push(c.cnt());
    v
}

pub fn same(a: &[f64], b: &[f64]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!("{} vs {} observations", a.len(), b.len()));
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !close(*x, *y, SAME) {
            return Err(format!("observation {i}: {x:?} vs {y:?}"));
        }
    }
    Ok(())
}
