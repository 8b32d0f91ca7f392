//! A deterministic program over the sketches that leaves a log of estimates.
//! The same program is run under different build configurations and on
//! different targets; the logs must agree.
use hyperloglogplus::{HyperLogLog, HyperLogLogPF};
#[cfg(feature = "std")]
use hyperloglogplus::HyperLogLogPlus;
use serde::{Deserialize, Serialize};
use std::fmt::Write;
use std::hash::{BuildHasher, Hasher};

pub struct PassHasher(u64);
impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 << 8) | *b as u64;
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pass;
impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}

pub type Pf = HyperLogLogPF<u64, Pass>;
#[cfg(feature = "std")]
pub type Plus = HyperLogLogPlus<u64, Pass>;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// How much work one run may do.
#[derive(Clone, Copy, PartialEq)]
pub enum Depth {
    /// Native speed.
    Full,
    /// Under an interpreter.
    Small,
}

pub trait Sketch: Clone + Serialize + for<'a> Deserialize<'a> {
    const NAME: &'static str;
    const WIDTH: u32;
    const MAXP: u8;
    fn mk(p: u8) -> Self;
    fn ins(&mut self, h: u64);
    fn cnt(&mut self) -> f64;
    fn join(&mut self, o: &Self);
    fn craft(p: u8, idx: u64, rank: u32, tail: u64) -> u64 {
        let w = Self::WIDTH - p as u32;
        let low = if rank > w {
            0
        } else {
            let one = 1u64 << (w - rank);
            one | (tail & (one - 1))
        };
        (idx << w) | low
    }
    fn maxrank(p: u8) -> u32 {
        Self::WIDTH + 1 - p as u32
    }
}
macro_rules! sketch {
    ($t:ident, $n:expr, $w:expr, $m:expr) => {
        impl Sketch for $t {
            const NAME: &'static str = $n;
            const WIDTH: u32 = $w;
            const MAXP: u8 = $m;
            fn mk(p: u8) -> Self {
                <$t>::new(p, Pass).expect("valid precision")
            }
            fn ins(&mut self, h: u64) {
                self.insert(&h)
            }
            fn cnt(&mut self) -> f64 {
                self.count()
            }
            fn join(&mut self, o: &Self) {
                self.merge(o).expect("equal precisions")
            }
        }
    };
}
sketch!(Pf, "PF", 32, 16);
#[cfg(feature = "std")]
sketch!(Plus, "Plus", 64, 18);

pub struct Log(pub String);
impl Log {
    fn put(&mut self, key: std::fmt::Arguments, v: f64) {
        writeln!(self.0, "{key}\t{:016x}\t{v:?}", v.to_bits()).unwrap();
    }
}

/// Estimates at every stage of histories of one type and precision.
pub fn program<S: Sketch>(p: u8, d: Depth, seed: u64, l: &mut Log) {
    let m = 1u64 << p;
    let name = S::NAME;
    let small = d == Depth::Small;
    if small && p > 12 {
        return brief::<S>(p, seed, l);
    }
    let mut r = Rng(seed ^ (p as u64) << 8 ^ S::WIDTH as u64);
    let mut s = S::mk(p);
    l.put(format_args!("{name} {p} empty"), s.cnt());
    // A growing stream.
    let n = if small {
        match p {
            4..=6 => 7 * m,
            7 => m + 40,
            8..=12 => 150,
            _ => 50,
        }
    } else {
        (7 * m).max(500)
    };
    let looks = if small { 8 } else if p <= 10 { n } else { 150 };
    for j in 0..n {
        let h = r.next();
        s.ins(h);
        if r.below(n) < looks {
            l.put(format_args!("{name} {p} stream {j}"), s.cnt());
        }
    }
    l.put(format_args!("{name} {p} stream end"), s.cnt());
    // Ranks of every size, in every kind of place.
    let mut t = S::mk(p);
    let maxr = S::maxrank(p);
    for k in 1..=maxr {
        let idx = r.below(m);
        t.ins(S::craft(p, idx, k, r.next()));
        if !small || p <= 10 && k % 8 == 0 {
            l.put(format_args!("{name} {p} rank {k}"), t.cnt());
        }
    }
    for idx in [0, 1, m - 1, m / 2, m / 2 - 1, 5, 6] {
        t.ins(S::craft(p, idx % m, 1 + r.below(maxr as u64) as u32, !0));
    }
    l.put(format_args!("{name} {p} edges"), t.cnt());
    for x in [0u64, !0, 1, 1 << 63, 1 << 31, 1 << 32, 0xffff_ffff, !0 << 39] {
        t.ins(x);
        t.ins(x);
    }
    l.put(format_args!("{name} {p} extremes"), t.cnt());
    // Merging.
    let mut u = s.clone();
    u.join(&t);
    l.put(format_args!("{name} {p} merged"), u.cnt());
    let mut v = t.clone();
    v.join(&s);
    l.put(format_args!("{name} {p} merged back"), v.cnt());
    // Every register at one rank, for many ranks: all three estimator ranges.
    let ranks: Vec<u32> = if small && p > 7 {
        vec![]
    } else if small && p > 5 {
        vec![3, maxr - 1]
    } else if p > 12 {
        vec![1, 2, 3, 27 - p as u32, 28 - p as u32, maxr - 1, maxr]
    } else {
        (1..=maxr).collect()
    };
    for k in ranks {
        let mut s = S::mk(p);
        for i in 0..m {
            s.ins(S::craft(p, i, k, r.next()));
            if !small && (i + 2 == m || i == m / 2) {
                l.put(format_args!("{name} {p} level {k} partly {i}"), s.cnt());
            }
        }
        l.put(format_args!("{name} {p} level {k}"), s.cnt());
        // Saturated or not, it can still be merged and grown.
        if !small {
            for _ in 0..m / 4 {
                let (a, b, c) = (r.below(m), 1 + r.below(maxr as u64), r.next());
                s.ins(S::craft(p, a, b as u32, c));
            }
            l.put(format_args!("{name} {p} level {k} grown"), s.cnt());
        }
    }
}

/// Large precisions under an interpreter: a single look.
fn brief<S: Sketch>(p: u8, seed: u64, l: &mut Log) {
    let m = 1u64 << p;
    let mut r = Rng(seed ^ (p as u64) << 9 ^ S::WIDTH as u64);
    let mut s = S::mk(p);
    let mut t = S::mk(p);
    for j in 0..40 {
        s.ins(r.next());
        t.ins(S::craft(p, m - 1 - j * (m / 64), S::maxrank(p), 0));
    }
    if S::WIDTH == 64 {
        s.join(&t);
    }
    l.put(format_args!("{} {p} brief", S::NAME), s.cnt());
}

/// Sketches to be written here and read elsewhere.
fn shelf<S: Sketch>(p: u8, d: Depth, seed: u64) -> Vec<(String, S)> {
    let mut r = Rng(seed ^ 0xABCD ^ (p as u64) << 16 ^ S::WIDTH as u64);
    let m = 1u64 << p;
    let mut v = Vec::new();
    let sizes: Vec<u64> = match d {
        Depth::Full => vec![0, 3, m / 9 + 1, 2 * m],
        // Large arrays take an interpreter too long to parse.
        Depth::Small if S::WIDTH == 32 && p > 13 => vec![],
        Depth::Small if S::WIDTH == 32 && p > 11 => vec![3],
        Depth::Small => vec![0, 3, (m / 9 + 1).min(60)],
    };
    for n in sizes {
        let mut s = S::mk(p);
        for j in 0..n {
            let h = r.next();
            s.ins(if j % 3 == 0 {
                S::craft(p, h >> (64 - p), 1 + r.below(S::maxrank(p) as u64) as u32, h)
            } else {
                h
            });
        }
        v.push((format!("{} {p} shelf {n}", S::NAME), s.clone()));
        if n > 3 {
            s.cnt();
            v.push((format!("{} {p} shelf {n} counted", S::NAME), s));
        }
    }
    v
}

/// What a reader does with a sketch from the shelf.
fn use_up<S: Sketch>(key: &str, p: u8, mut s: S, l: &mut Log) {
    let mut r = Rng(p as u64);
    let t = s.clone();
    l.put(format_args!("{key} read"), s.cnt());
    for j in 0..30 {
        let h = r.next();
        s.ins(if j % 2 == 0 { h } else { S::craft(p, r.below(1 << p), S::maxrank(p), 0) });
    }
    l.put(format_args!("{key} continued"), s.cnt());
    let mut e = S::mk(p);
    for _ in 0..5 {
        e.ins(r.next());
    }
    e.join(&t);
    l.put(format_args!("{key} merged"), e.cnt());
}

macro_rules! each {
    ($d:expr, $f:ident $(, $a:expr)*) => {{
        for p in 4..=16u8 {
            $f::<Pf>(p $(, $a)*);
        }
        #[cfg(feature = "std")]
        for p in 4..=18u8 {
            $f::<Plus>(p $(, $a)*);
        }
    }};
}

fn one<S: Sketch>(p: u8, part: u64, parts: u64, d: Depth, seed: u64, l: &mut Log) {
    if (p as u64 + S::WIDTH as u64 / 8) % parts == part {
        program::<S>(p, d, seed, l);
    }
}

/// The log of one part of the work.
pub fn run(part: u64, parts: u64, d: Depth, seed: u64) -> String {
    let mut l = Log(String::new());
    each!(d, one, part, parts, d, seed, &mut l);
    l.0
}

fn write_one<S: Sketch>(p: u8, part: u64, parts: u64, d: Depth, seed: u64, out: &mut String) {
    if (p as u64 + S::WIDTH as u64 / 8) % parts != part {
        return;
    }
    for (k, s) in shelf::<S>(p, d, seed) {
        writeln!(out, "{k}\t{}", serde_json::to_string(&s).unwrap()).unwrap();
    }
}
/// Serialized sketches, one per line.
pub fn write(part: u64, parts: u64, d: Depth, seed: u64) -> String {
    let mut out = String::new();
    each!(d, write_one, part, parts, d, seed, &mut out);
    out
}

/// Reads serialized sketches and logs how they go on. With a part given, only
/// those of that part.
pub fn read(text: &str, part: u64, parts: u64) -> String {
    let mut l = Log(String::new());
    for line in text.lines() {
        let (key, json) = line.split_once('\t').unwrap();
        let mut w = key.split(' ');
        let (name, p) = (w.next().unwrap(), w.next().unwrap().parse::<u8>().unwrap());
        let width = if name == "PF" { 32 } else { 64 };
        if (p as u64 + width / 8) % parts != part {
            continue;
        }
        if name == "PF" {
            use_up::<Pf>(key, p, serde_json::from_str(json).expect("payload"), &mut l);
        } else {
            #[cfg(feature = "std")]
            use_up::<Plus>(key, p, serde_json::from_str(json).expect("payload"), &mut l);
        }
    }
    l.0
}
