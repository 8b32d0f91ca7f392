//! Reference model: what the published algorithms compute for a set of hashes.
//! Written from the papers; shares no code with the library.
use crate::golden::{BIAS_DATA, RAW_ESTIMATE_DATA};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x9E37_79B9_7F4A_7C15)
    }
}
pub type FxSet<T> = HashSet<T, BuildHasherDefault<Fx>>;

pub const SPARSE_BITS: u32 = 25;
const NEAR: f64 = 1e-9;

/// Published linear counting thresholds for precisions 4..=18.
pub const THRESHOLDS: [f64; 15] = [
    10.0, 20.0, 40.0, 80.0, 220.0, 400.0, 900.0, 1800.0, 3100.0, 6500.0,
    11500.0, 20000.0, 50000.0, 120000.0, 350000.0,
];

pub fn alpha(m: usize) -> f64 {
    match m {
        16 => 0.673,
        32 => 0.697,
        64 => 0.709,
        _ => 0.7213 / (1.0 + 1.079 / m as f64),
    }
}

/// An admissible estimate and the branch of the estimator it came from.
#[derive(Clone, Debug)]
pub struct Cand {
    pub val: f64,
    pub branch: &'static str,
    pub segment: usize,
}

/// Sum of 2^-rank over all registers and the number of empty ones.
pub fn sums(regs: &[u8]) -> (f64, usize) {
    let mut hist = [0u64; 66];
    for r in regs {
        hist[*r as usize] += 1;
    }
    let mut s = 0.0;
    for r in (0..66).rev() {
        s += hist[r] as f64 * (-(r as f64)).exp2();
    }
    (s, hist[0] as usize)
}

pub fn raw_of(regs: &[u8]) -> f64 {
    let m = regs.len();
    alpha(m) * (m as f64) * (m as f64) / sums(regs).0
}

fn below(a: f64, b: f64) -> bool {
    a <= b * (1.0 + NEAR)
}
fn above(a: f64, b: f64) -> bool {
    a >= b * (1.0 - NEAR)
}

pub const TWO32: f64 = 4294967296.0;
/// Marks "any finite value of at least this size" (the saturated range).
pub const SATURATED: &str = "saturated";

pub fn linear(m: f64, zeros: f64) -> f64 {
    m * (m / zeros).ln()
}

pub fn pf_candidates(regs: &[u8]) -> Vec<Cand> {
    let m = regs.len() as f64;
    let (_, zeros) = sums(regs);
    let raw = raw_of(regs);
    let mut v = Vec::new();
    let mut push = |val, branch| v.push(Cand { val, branch, segment: 0 });
    if below(raw, 2.5 * m) && zeros != 0 {
        push(linear(m, zeros as f64), "linear");
    }
    if zeros == 0 || !(raw <= 2.5 * m * (1.0 - NEAR)) {
        if below(raw, TWO32 / 30.0) {
            push(raw, "raw");
        }
        if above(raw, TWO32 / 30.0) {
            // Conditioning of ln(1 - x) near x = 1.
            if raw >= TWO32 * (1.0 - 1e-5) {
                push(TWO32 * 10.0, SATURATED);
            } else {
                push(-TWO32 * (-raw / TWO32).ln_1p(), "large");
            }
        }
    }
    v
}

pub fn plus_candidates(regs: &[u8]) -> Vec<Cand> {
    let m = regs.len() as f64;
    let p = regs.len().trailing_zeros() as usize;
    let (_, zeros) = sums(regs);
    let thr = THRESHOLDS[p - 4];
    let mut v = Vec::new();
    let lc = if zeros != 0 { linear(m, zeros as f64) } else { f64::INFINITY };
    if below(lc, thr) {
        v.push(Cand { val: lc, branch: "linear", segment: 0 });
    }
    if above(lc, thr) {
        let raw = raw_of(regs);
        let z = zeros != 0;
        if above(raw, 5.0 * m) {
            v.push(Cand {
                val: raw,
                branch: if z { "raw, empty registers" } else { "raw, full" },
                segment: 0,
            });
        }
        if below(raw, 5.0 * m) {
            for (bias, seg) in biases(p, raw) {
                v.push(Cand {
                    val: raw - bias,
                    branch: if z {
                        "corrected, empty registers"
                    } else {
                        "corrected, full"
                    },
                    segment: seg,
                });
            }
        }
    }
    v
}

/// All biases obtained by interpolating between neighbouring calibration
/// points that bracket `raw`. The published points of precisions 5 and 6 are
/// not sorted everywhere, there several pairs may bracket a value.
pub fn biases(p: usize, raw: f64) -> Vec<(f64, usize)> {
    let (e, b) = (RAW_ESTIMATE_DATA[p - 4], BIAS_DATA[p - 4]);
    let n = e.len();
    let mut v = Vec::new();
    if below(raw, e[0]) {
        v.push((b[0], 0));
    }
    if above(raw, e[n - 1]) {
        v.push((b[n - 1], n));
    }
    if raw >= e[0] && raw <= e[n - 1] {
        for i in 1..n {
            let (lo, hi) = (e[i - 1].min(e[i]), e[i - 1].max(e[i]));
            if above(raw, lo) && below(raw, hi) && e[i] != e[i - 1] {
                let t = (raw - e[i - 1]) / (e[i] - e[i - 1]);
                v.push((b[i - 1] + t * (b[i] - b[i - 1]), i));
            }
        }
    }
    v
}

/// Is the calibration curve locally unsorted around raw?
pub fn unsorted_near(p: usize, raw: f64) -> bool {
    let e = RAW_ESTIMATE_DATA[p - 4];
    (1..e.len()).any(|i| {
        e[i] < e[i - 1] && raw >= e[i].min(e[i - 1]) - 8.0
            && raw <= e[i].max(e[i - 1]) + 8.0
    })
}

/// 32-bit code of a 64-bit hash in the sparse representation.
pub fn code(p: u8, h: u64) -> u32 {
    let idx = (h >> 39) as u32;
    let low = (1u32 << (25 - p as u32)) - 1;
    if idx & low == 0 {
        let rest = h << 25;
        let z = if rest == 0 { 40 } else { rest.leading_zeros() + 1 };
        (idx << 7) | (z << 1) | 1
    } else {
        idx << 1
    }
}
pub fn code_index(c: u32) -> u32 {
    if c & 1 == 1 {
        c >> 7
    } else {
        c >> 1
    }
}

pub fn varint_len(d: u32) -> usize {
    match d {
        0..=0x7f => 1,
        0x80..=0x3fff => 2,
        0x4000..=0x1f_ffff => 3,
        0x20_0000..=0xfff_ffff => 4,
        _ => 5,
    }
}

pub fn sparse_limit(p: u8) -> usize {
    4 * (1usize << p) / 5
}

/// Reference state of one sketch.
#[derive(Clone)]
pub struct Ref {
    pub plus: bool,
    pub p: u8,
    pub regs: Vec<u8>,
    pub codes: FxSet<u32>,
    pub dense: bool,
}

impl Ref {
    pub fn new(plus: bool, p: u8) -> Self {
        Ref {
            plus,
            p,
            regs: vec![0; 1 << p],
            codes: FxSet::default(),
            dense: !plus,
        }
    }
    #[inline]
    pub fn ins(&mut self, h: u64) {
        let (i, r) = if self.plus {
            let x = h << self.p;
            (
                (h >> (64 - self.p)) as usize,
                if x == 0 {
                    65 - self.p
                } else {
                    x.leading_zeros() as u8 + 1
                },
            )
        } else {
            let h = h as u32;
            let x = h << self.p;
            (
                (h >> (32 - self.p)) as usize,
                if x == 0 {
                    33 - self.p
                } else {
                    x.leading_zeros() as u8 + 1
                },
            )
        };
        if r > self.regs[i] {
            self.regs[i] = r;
        }
        if !self.dense {
            self.codes.insert(code(self.p, h));
        }
    }
    pub fn mrg(&mut self, o: &Ref) {
        for (a, b) in self.regs.iter_mut().zip(&o.regs) {
            *a = (*a).max(*b);
        }
        if o.dense {
            self.dense = true;
        }
        if self.dense {
            self.codes = FxSet::default();
        } else {
            self.codes.extend(o.codes.iter().copied());
        }
    }
    /// Length of the encoded list of codes.
    pub fn encoded_len(&self) -> usize {
        let mut v: Vec<u32> = self.codes.iter().copied().collect();
        v.sort_unstable();
        let mut last = 0;
        let mut len = 0;
        for c in v {
            len += varint_len(c - last);
            last = c;
        }
        len
    }
    /// Decides the representation (as observable at a count).
    pub fn settle(&mut self) {
        if !self.dense
            && (self.codes.len() > sparse_limit(self.p)
                || self.encoded_len() > sparse_limit(self.p))
        {
            self.dense = true;
            self.codes = FxSet::default();
        }
    }
    pub fn candidates(&mut self) -> Vec<Cand> {
        self.settle();
        if !self.plus {
            return pf_candidates(&self.regs);
        }
        if self.dense {
            return plus_candidates(&self.regs);
        }
        let m = (1u64 << SPARSE_BITS) as f64;
        let n = self.codes.len() as f64;
        let mut v = vec![Cand {
            val: linear(m, m - n),
            branch: "sparse",
            segment: 0,
        }];
        // Codes that agree in all 25 index bits may also be counted once, as
        // in the paper.
        let idx: FxSet<u32> = self.codes.iter().map(|c| code_index(*c)).collect();
        if idx.len() != self.codes.len() {
            v.push(Cand {
                val: linear(m, m - idx.len() as f64),
                branch: "sparse",
                segment: 0,
            });
        }
        v
    }
}

/// Does `got` agree with one of the admissible estimates?
pub fn agree(got: f64, c: &[Cand], tol: f64) -> Option<&Cand> {
    c.iter().find(|c| {
        if c.branch == SATURATED {
            got.is_finite() && got >= c.val
        } else {
            got == c.val || (got - c.val).abs() <= tol * got.abs().max(c.val.abs()) + crate::util::SLACK
        }
    })
}
