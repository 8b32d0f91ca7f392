//! C07: error statistics over many random streams.
use super::*;
use crate::fail;
use crate::model::{pf_candidates, plus_candidates, sparse_limit, Ref};
use crate::sk::{Pf, Plus, Sk};
use crate::util::{lib, Rng, Stats, Verdict};
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use std::collections::hash_map::DefaultHasher;
use std::hash::BuildHasherDefault;

const RATIOS: [f64; 17] = [
    0.02, 0.05, 0.1, 0.2, 0.35, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 6.0, 8.0, 12.0,
];
const SIM: [f64; 9] = [30.0, 100.0, 1e3, 1e4, 1e5, 1e6, 1e8, 1e10, 1e12];
const SMALL: [u64; 4] = [1, 2, 5, 20];

/// One unit: sketch type, precision, cardinality.
#[derive(Clone, Copy, Debug)]
pub struct Unit {
    plus: bool,
    p: u8,
    n: f64,
    how: How,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    /// n random 64-bit hashes are inserted.
    Stream,
    /// Registers drawn from their distribution for cardinality n.
    Drawn,
    /// Sequential keys through SipHash.
    Sip,
    /// More than 2^32 random hashes into one sketch.
    Endless,
}

pub fn units() -> Vec<Unit> {
    // The longest first, so that the others run beside them.
    let mut v = vec![
        Unit { plus: true, p: 0, n: 4.6e9, how: How::Endless },
        Unit { plus: false, p: 0, n: 4.6e9, how: How::Endless },
    ];
    for plus in [false, true] {
        for p in 4..=(if plus { 18u8 } else { 16 }) {
            let m = (1u64 << p) as f64;
            for n in SMALL {
                v.push(Unit { plus, p, n: n as f64, how: How::Stream });
            }
            for r in RATIOS {
                let n = (m * r).round();
                if n >= 2.0 {
                    v.push(Unit { plus, p, n, how: How::Stream });
                }
            }
            let sigma = 1.04 / m.sqrt();
            for r in SIM {
                let n = (m * r).round();
                // The published large range correction of the original
                // HyperLogLog (above 2^32/30) is itself biased.
                let cap = if plus { 1.1e15 } else { 4294967296.0 / 30.0 / (1.0 + 6.0 * sigma) };
                if n <= cap {
                    v.push(Unit { plus, p, n, how: How::Drawn });
                }
            }
            if !plus {
                v.push(Unit { plus, p, n: (4294967296.0 / 30.0 / (1.0 + 6.0 * sigma)).round(), how: How::Drawn });
            } else {
                v.push(Unit { plus, p, n: 1e9, how: How::Drawn });
                v.push(Unit { plus, p, n: 1e15, how: How::Drawn });
            }
            for r in [0.1, 0.6, 3.0, 9.0] {
                v.push(Unit { plus, p, n: (m * r).round(), how: How::Sip });
            }
        }
    }
    v
}

/// Rank of a register that received Poisson(n/m) elements.
fn draw(p: u8, n: f64, cap: u8, r: &mut Rng) -> u8 {
    let u = r.f64();
    // P(M <= k) = exp(-n 2^-(p+k)); smallest k with P >= u.
    let x = n / -u.ln(); // 2^(p+k) >= n / -ln u
    let k = x.log2() - p as f64;
    if k <= 0.0 {
        0
    } else if k >= cap as f64 {
        cap
    } else {
        k.ceil() as u8
    }
}

#[derive(Default)]
struct Acc {
    n: f64,
    s: f64,
    s2: f64,
    worst: f64,
}
impl Acc {
    fn push(&mut self, e: f64) {
        self.n += 1.0;
        self.s += e;
        self.s2 += e * e;
        self.worst = self.worst.max(e.abs());
    }
    fn mean(&self) -> f64 {
        self.s / self.n
    }
    fn rmse(&self) -> f64 {
        (self.s2 / self.n).sqrt()
    }
}

pub fn c07(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let us = units();
    let u = us[(i as usize) % us.len()];
    match (u.how, u.plus) {
        (How::Sip, false) => sip::<HyperLogLogPF<u64, BuildHasherDefault<DefaultHasher>>>(i, u, cx, st),
        (How::Sip, true) => sip::<HyperLogLogPlus<u64, BuildHasherDefault<DefaultHasher>>>(i, u, cx, st),
        (How::Endless, _) => dispatch!(u.plus, endless, i, u, cx, st),
        _ => dispatch!(u.plus, unit, i, u, cx, st),
    }
}

/// One sketch, more insertions than fit in 32 bits, against a model that sees
/// the same hashes: the estimate is watched all along.
fn endless<S: Sk>(i: u64, u: Unit, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 71, i]);
    let p = 4 + r.below((S::MAXP - 3) as u64) as u8;
    let m = 1usize << p;
    let mut regs = vec![0u8; m];
    let mut s = S::mk(p);
    let mut x = r.next();
    let batch = 1u64 << 20;
    let mut n = 0u64;
    while (n as f64) < u.n {
        // Between calls of count there are ever more insertions.
        let k = if n < 4 * batch { batch / 16 } else { batch * (n / (64 * batch) + 1).min(64) };
        // Counters of any width are at zero at powers of two.
        let k = if n.is_power_of_two() { k } else { k.min(n.next_power_of_two().max(batch / 16) - n) };
        for _ in 0..k.div_ceil(batch) {
            let k = k.min(batch);
            let from = x;
            for _ in 0..k {
                x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let (j, z) = S::route(p, crate::util::mix(x));
                if regs[j] < z {
                    regs[j] = z;
                }
            }
            s.ins_many(k, from);
            n += k;
        }
        let e = s.cnt();
        st.inc("estimates along endless streams");
        if S::PLUS && n <= 4 * batch {
            // It may still be sparse.
            continue;
        }
        let c = if S::PLUS { plus_candidates(&regs) } else { pf_candidates(&regs) };
        if crate::model::agree(e, &c, 1e-10).is_none() {
            fail!("{} p={p}: after {n} insertions count() = {e:?}, the published estimator gives {:?}", S::NAME, c[0].val);
        }
        let sigma = 1.04 / (m as f64).sqrt();
        if (S::PLUS || (n as f64) < 1e8) && n as f64 > 8.0 * m as f64 && (e / n as f64 - 1.0).abs() > 8.0 * sigma {
            fail!("{} p={p}: after {n} insertions of distinct elements count() = {e:?}", S::NAME);
        }
    }
    st.add("insertions of endless streams", n);
    st.sample(|| format!("{} p={p}: {n} insertions, the last estimate {:?}", S::NAME, s.cnt()));
    Ok(())
}

/// Standard error of linear counting over 2^25 registers, generously.
const SPARSE_SIGMA: f64 = 1.3e-4;

fn unit<S: Sk>(i: u64, u: Unit, cx: &Cx, st: &mut Stats) -> Verdict {
    let p = u.p;
    let m = 1usize << p;
    let mut r = Rng::of(&[cx.seed, 7, i]);
    let budget = if cx.thorough { 24e6 } else { 2.4e6 };
    let cost = if u.how == How::Drawn { m as f64 * 1.5 } else { u.n };
    let samples = ((budget / (cost + 60.0)) as u64).clamp(3, if cx.thorough { 200_000 } else { 20_000 });
    let (mut a, mut b, mut d) = (Acc::default(), Acc::default(), Acc::default());
    let mut sparse = 0u64;
    let limit = sparse_limit(p);
    for _ in 0..samples {
        let mut s = S::mk(p);
        let reference = if u.how == How::Drawn {
            let cap = S::maxrank(p);
            let mut regs = vec![0u8; m];
            for j in 0..m {
                let k = draw(p, u.n, cap, &mut r);
                if k > 0 {
                    regs[j] = k;
                    s.ins(S::craft(p, j, k, r.next()));
                }
            }
            if S::PLUS {
                plus_candidates(&regs)[0].val
            } else {
                pf_candidates(&regs)[0].val
            }
        } else {
            let mut md = Ref::new(S::PLUS, p);
            for _ in 0..u.n as u64 {
                let h = r.next();
                s.ins(h);
                md.ins(h);
                if !md.dense && md.codes.len() > limit {
                    md.settle();
                }
            }
            let c = md.candidates();
            if c[0].branch == "sparse" {
                sparse += 1;
            }
            c[0].val
        };
        let e = s.cnt() / u.n - 1.0;
        let f = reference / u.n - 1.0;
        a.push(e);
        b.push(f);
        d.push(e - f);
        st.distinct(&[S::PLUS as u64, p as u64, e.to_bits()]);
    }
    st.add("streams observed", samples);
    let sigma = if sparse == samples { SPARSE_SIGMA } else { 1.04 / (m as f64).sqrt() };
    st.inc(if sparse == samples { "cells sparse" } else if sparse > 0 { "cells mixed" } else { "cells dense" });
    if u.how == How::Drawn {
        st.inc("cells with drawn registers");
    }
    let se = sigma / (samples as f64).sqrt();
    let ctx = || {
        format!(
            "{} p={p} n={} over {samples} {}: mean relative error {:.3e}, RMSE {:.3e} (1.04/sqrt(m) = {:.3e}; published estimator on the same streams: mean {:.3e}, RMSE {:.3e})",
            S::NAME, u.n, if u.how == How::Drawn { "drawn sketches" } else { "streams" }, a.mean(), a.rmse(), sigma, b.mean(), b.rmse()
        )
    };
    if !a.mean().is_finite() {
        fail!("{}: not finite", ctx());
    }
    // Not less accurate than the published estimator on the same streams.
    let dse = (d.s2 / d.n - (d.s / d.n).powi(2)).max(0.0).sqrt() / d.n.sqrt();
    if a.mean().abs() > b.mean().abs() + 0.04 * sigma + 4.0 * dse {
        fail!("{}: biased", ctx());
    }
    if a.rmse() > 1.03 * b.rmse() + 0.02 * sigma + 4.0 * dse {
        fail!("{}: errors too large", ctx());
    }
    // And within the promised error in absolute terms.
    let collisions = samples as f64 * u.n * u.n / (1u64 << 26) as f64;
    let (bias_allowed, rmse_allowed) = if sparse == samples {
        // Errors come from rare collisions only.
        (0.15 * sigma, if collisions > 50.0 { 1.5 * sigma } else { 0.0 })
    } else if S::PLUS {
        (0.3 * sigma, 1.15 * sigma)
    } else if u.n > 1.2 * m as f64 && u.n < 4.5 * m as f64 {
        // Without bias correction the original estimator is known to be
        // biased by up to 2.4 % around 2.5 m.
        (0.35 * sigma + 0.03, 1.3 * sigma + 0.03)
    } else {
        (0.3 * sigma, 1.15 * sigma)
    };
    let noise = 1.0 + 6.0 / (2.0 * samples as f64).sqrt();
    st.max("permille of sigma, absolute bias beyond noise, Plus", if S::PLUS && sparse == 0 { ((a.mean().abs() - 4.0 * se).max(0.0) / sigma * 1000.0) as u64 } else { 0 });
    st.max("permille of sigma, RMSE, Plus", if S::PLUS && sparse == 0 && samples > 300 { (a.rmse() / sigma * 1000.0) as u64 } else { 0 });
    if std::env::var("HLLMON_CALIBRATE").is_ok() {
        eprintln!("CAL {} {p} {} {:.2} {:?} {samples} bias/s {:.3} se/s {:.3} rmse/s {:.3} sparse {sparse}", S::NAME, u.n, u.n / m as f64, u.how, a.mean() / sigma, se / sigma, a.rmse() / sigma);
        return Ok(());
    }
    if a.mean().abs() > bias_allowed + 6.0 * se {
        fail!("{}: biased", ctx());
    }
    if rmse_allowed > 0.0 && a.rmse() > rmse_allowed * noise {
        fail!("{}: errors too large", ctx());
    }
    st.sample(ctx);
    Ok(())
}

trait SipSk {
    fn mk(p: u8) -> Self;
    fn ins(&mut self, x: u64);
    fn cnt(&mut self) -> f64;
}
macro_rules! sips {
    ($t:ident) => {
        impl SipSk for $t<u64, BuildHasherDefault<DefaultHasher>> {
            fn mk(p: u8) -> Self {
                lib(|| $t::new(p, BuildHasherDefault::default()).expect("valid precision"))
            }
            fn ins(&mut self, x: u64) {
                lib(|| self.insert(&x))
            }
            fn cnt(&mut self) -> f64 {
                lib(|| self.count())
            }
        }
    };
}
sips!(HyperLogLogPF);
sips!(HyperLogLogPlus);

fn sip<S: SipSk>(i: u64, u: Unit, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 70, i]);
    let reps = ((1e6 / (u.n + 50.0)) as u64).clamp(1, 300);
    let m = (1u64 << u.p) as f64;
    let sigma = 1.04 / m.sqrt();
    let mut a = Acc::default();
    for _ in 0..reps {
        let start = r.next() >> r.below(40);
        let mut s = S::mk(u.p);
        for x in 0..u.n as u64 {
            s.ins(start.wrapping_add(x));
        }
        a.push(s.cnt() / u.n - 1.0);
    }
    st.add("streams observed", reps);
    st.inc("cells with SipHash on sequential keys");
    let ctx = format!("{} p={} {} sequential keys hashed by SipHash, {reps} streams: mean relative error {:.3e}, worst {:.3e}", type_name(u.plus), u.p, u.n, a.mean(), a.worst);
    // Heavy upper tail at small precisions.
    let tail = if u.p <= 7 { 9.0 } else { 7.0 };
    if !(a.worst <= tail * sigma) || !(a.mean().abs() <= 0.35 * sigma + if u.plus { 0.0 } else { 0.03 } + 6.0 * sigma / (reps as f64).sqrt()) {
        fail!("{ctx}");
    }
    st.distinct(&[u.plus as u64, u.p as u64, a.s.to_bits()]);
    st.sample(|| ctx);
    Ok(())
}
