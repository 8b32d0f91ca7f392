pub mod accuracy;
pub mod cost;
pub mod estimators;
pub mod failures;
pub mod identity;
pub mod memory;
pub mod misc;
pub mod pool;
pub mod sets;
pub mod tamper;
#[cfg(feature = "threads")]
pub mod threads;

use crate::sk::{Pf, Plus, Sk};
use crate::util::Rng;

/// Case context.
pub struct Cx {
    pub seed: u64,
    pub thorough: bool,
}

/// Picks type and precision so that all pairs come round.
pub fn which(i: u64) -> (bool, u8) {
    let k = i % 28;
    if k < 13 {
        (false, 4 + k as u8)
    } else {
        (true, 4 + (k - 13) as u8)
    }
}
pub fn plus_p(i: u64) -> u8 {
    4 + (i % 15) as u8
}
pub fn pf_p(i: u64) -> u8 {
    4 + (i % 13) as u8
}

/// Representation a sketch is expected to be in, for coverage statistics.
pub fn state_label(r: &crate::model::Ref, pending: bool) -> &'static str {
    if !r.plus {
        "dense"
    } else if r.dense {
        "dense"
    } else if r.codes.is_empty() {
        "empty"
    } else if pending {
        "sparse with pending"
    } else {
        "sparse"
    }
}

/// Builds a sketch by inserting every hash in the given order.
pub fn build<S: Sk>(p: u8, h: &[u64]) -> S {
    let mut s = S::mk(p);
    for x in h {
        s.ins(*x);
    }
    s
}

/// Canonical history of a set: sorted, no duplicates, no counts in between.
pub fn canonical<S: Sk>(p: u8, h: &[u64]) -> S {
    let mut v = h.to_vec();
    v.sort_unstable();
    v.dedup();
    build(p, &v)
}

/// A sketch reached through a random history over the given hashes.
pub fn wander<S: Sk>(p: u8, h: &[u64], r: &mut Rng) -> S {
    let mut s = S::mk(p);
    let every = *r.pick(&[0usize, 0, 1, 7, 100, 5000]);
    let every = if h.len() > 3000 { every.max(if every == 0 { 0 } else { h.len() / 20 }) } else { every };
    for (i, x) in h.iter().enumerate() {
        s.ins(*x);
        if every != 0 && i % every == every - 1 {
            s.cnt();
        }
        if r.chance(1, 64) {
            // Repeat an earlier element.
            let j = r.below(i as u64 + 1) as usize;
            s.ins(h[j]);
        }
    }
    s
}

pub fn type_name(plus: bool) -> &'static str {
    if plus {
        Plus::NAME
    } else {
        Pf::NAME
    }
}
