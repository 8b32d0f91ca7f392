//! Hash workloads: benign, structured, adversarial.
use crate::sk::Sk;
use crate::util::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Uniform 64-bit values.
    Uniform,
    /// Uniform register, uniform rank (long zero runs are common).
    Ranked,
    /// Registers at word boundaries and ends; extreme ranks.
    Boundary,
    /// Adjacent sparse codes (one-byte differences).
    Clustered,
    /// Sparse codes whose differences sit at varint length boundaries.
    Spread,
    /// Codes that carry an explicit rank (all bits between p and 25 zero).
    Flagged,
    /// Few distinct values, many repetitions.
    Few,
    /// 0, !0, single bits and their complements, small integers.
    Extreme,
    /// A mixture of all of the above.
    Mixed,
    /// Ranks in a narrow band, so that every register is visible in the sum.
    Band,
}
pub const KINDS: [Kind; 10] = [
    Kind::Uniform,
    Kind::Ranked,
    Kind::Boundary,
    Kind::Clustered,
    Kind::Spread,
    Kind::Flagged,
    Kind::Few,
    Kind::Extreme,
    Kind::Mixed,
    Kind::Band,
];

const GAPS: [u64; 14] = [
    1,
    2,
    31,
    63,
    64,
    65,
    127,
    8191,
    8192,
    8193,
    (1 << 20) - 1,
    1 << 20,
    (1 << 20) + 1,
    1 << 23,
];

pub fn special_index(p: u8, r: &mut Rng) -> usize {
    let m = 1u64 << p;
    let w = *r.pick(&[5u64, 6, 10, 30, 32, 64]);
    let k = r.below(m / w + 1) * w;
    let c = [
        0,
        1,
        m - 1,
        m - 2,
        m / 2,
        m / 2 - 1,
        k,
        k + 1,
        k.wrapping_sub(1),
        r.below(m),
    ];
    (r.pick(&c) % m) as usize
}

pub fn one<S: Sk>(k: Kind, p: u8, r: &mut Rng, i: u64, salt: u64) -> u64 {
    let maxr = S::maxrank(p) as u64;
    match k {
        Kind::Uniform => r.next(),
        Kind::Ranked => {
            let (idx, rk, t) =
                (r.below(1 << p), r.range(1, maxr), r.next());
            S::craft(p, idx as usize, rk as u8, t)
        },
        Kind::Boundary => {
            let idx = special_index(p, r);
            let rk = *r.pick(&[
                1,
                2,
                maxr,
                maxr - 1,
                (32u64).min(maxr),
                (31u64).min(maxr),
                (16u64).min(maxr),
                (26u64 - p as u64).min(maxr),
                (27u64 - p as u64).min(maxr),
                (25u64 - p as u64).max(1).min(maxr),
            ]);
            let t = *r.pick(&[0, !0, 1, salt]);
            S::craft(p, idx, rk as u8, t)
        },
        Kind::Clustered => {
            if S::PLUS {
                let base = Rng(salt).next() >> 39;
                (((base + i) & 0x1ff_ffff) << 39) | (r.next() >> 25)
            } else {
                (r.next() << 32) | (Rng(salt).next() as u32).wrapping_add((i as u32) << 3) as u64
            }
        },
        Kind::Spread => {
            let g = GAPS[(salt % 14) as usize];
            let base = if salt & 64 == 0 { 0 } else { 0x1ff_ffff - (i * g & 0xff_ffff) };
            let x = (base + i * g) & 0x1ff_ffff;
            if S::PLUS {
                (x << 39) | (r.next() >> 25)
            } else {
                (r.next() << 32) | ((x << 7) & 0xffff_ffff) | (r.next() & 0x7f)
            }
        },
        Kind::Flagged => {
            let idx = if r.chance(1, 2) {
                r.below(1 << p)
            } else {
                (Rng(salt).next().wrapping_add(i / 8)) & ((1 << p) - 1)
            };
            let lo = (26 - p as u64).min(maxr);
            let rk = r.range(lo, maxr);
            let t = r.next();
            S::craft(p, idx as usize, rk as u8, t)
        },
        Kind::Few => {
            let j = r.below(1 + salt % 37);
            Rng(salt ^ j.wrapping_mul(0x1234_5678_9)).next()
        },
        Kind::Extreme => match r.below(7) {
            0 => 0,
            1 => !0,
            2 => 1u64 << r.below(64),
            3 => !(1u64 << r.below(64)),
            4 => r.below(64),
            5 => !0 << r.below(64),
            _ => !0 >> r.below(64),
        },
        Kind::Band => {
            let base = 1 + salt % (maxr - 2);
            let rk = (base + r.below(6)).min(maxr);
            let (idx, t) = (r.below(1 << p), r.next());
            S::craft(p, idx as usize, rk as u8, t)
        },
        Kind::Mixed => {
            let k = KINDS[r.below(8) as usize];
            one::<S>(k, p, r, i, salt)
        },
    }
}

pub fn many<S: Sk>(k: Kind, p: u8, r: &mut Rng, n: usize) -> Vec<u64> {
    let salt = r.next();
    (0..n as u64).map(|i| one::<S>(k, p, r, i, salt)).collect()
}

/// A size that puts a sketch of precision p in an interesting state:
/// tiny, pending only, around the flush and conversion points, dense.
pub fn size<S: Sk>(p: u8, r: &mut Rng) -> usize {
    let m = 1usize << p;
    let limit = 4 * m / 5;
    let n = match r.below(9) {
        0 => r.below(4),
        1 => r.below(20),
        2 => limit as u64 / 100 + r.below(4),
        3 => r.range(1, limit as u64 / 50 + 2),
        4 => r.range(limit as u64 / 5, limit as u64 / 2 + 1),
        5 => r.range(limit as u64 / 3, limit as u64 + 4),
        6 => r.range(limit as u64, 2 * limit as u64),
        7 => r.range(1, 3 * m as u64),
        _ => r.range(1, 6 * m as u64).min(400_000),
    };
    n as usize
}
