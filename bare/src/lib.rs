//! The no_std configuration, built for a target that has no standard library
//! at all: whatever needs std, directly or through a dependency, fails here.
#![no_std]
extern crate alloc;
use core::hash::BuildHasher;
use hyperloglogplus::{HyperLogLog, HyperLogLogError, HyperLogLogPF};

pub fn estimate<B: BuildHasher + Clone>(
    p: u8,
    b: B,
    xs: &[u64],
) -> Result<f64, HyperLogLogError> {
    let mut s: HyperLogLogPF<u64, B> = HyperLogLogPF::new(p, b.clone())?;
    let mut t: HyperLogLogPF<u64, B> = HyperLogLogPF::new(p, b)?;
    for x in xs {
        s.insert(x);
        t.insert_any(x);
    }
    s.merge(&t)?;
    Ok(s.count())
}
