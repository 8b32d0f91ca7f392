//! The sketches under test behind one trait, with an element type whose hash
//! is the value itself, so that workloads choose hashes freely.
use crate::util::lib;
use hyperloglogplus::{
    HyperLogLog, HyperLogLogError, HyperLogLogPF, HyperLogLogPlus,
};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::hash::{BuildHasher, Hasher};

pub struct PassHasher(u64);
impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 << 8) | *b as u64;
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
/// Pass-through hashing: the hash of a u64 is the u64.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Pass;
impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}
/// The same hash function under another type, for merges across hasher types.
#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Pass2;
impl BuildHasher for Pass2 {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}

/// Pass-through hashing that panics on demand.
#[derive(Debug, Serialize, Deserialize, Default)]
pub struct Moody;
impl Moody {
    pub const CALM: u8 = 0;
    pub const BUILD: u8 = 1;
    pub const WRITE: u8 = 2;
    pub const FINISH: u8 = 3;
    pub const CLONE: u8 = 4;
    fn fit(mood: u8) {
        if MOOD.with(|m| m.get()) == mood {
            panic!("moody hasher");
        }
    }
}
thread_local! {
    pub static MOOD: Cell<u8> = const { Cell::new(Moody::CALM) };
}
impl Clone for Moody {
    fn clone(&self) -> Self {
        Moody::fit(Moody::CLONE);
        Moody
    }
}
pub struct MoodyHasher(PassHasher);
impl Hasher for MoodyHasher {
    fn finish(&self) -> u64 {
        Moody::fit(Moody::FINISH);
        self.0.finish()
    }
    fn write(&mut self, bytes: &[u8]) {
        Moody::fit(Moody::WRITE);
        self.0.write(bytes)
    }
    fn write_u64(&mut self, i: u64) {
        Moody::fit(Moody::WRITE);
        self.0.write_u64(i)
    }
}
impl BuildHasher for Moody {
    type Hasher = MoodyHasher;
    fn build_hasher(&self) -> MoodyHasher {
        Moody::fit(Moody::BUILD);
        MoodyHasher(PassHasher(0))
    }
}

pub type Pf = HyperLogLogPF<u64, Pass>;
pub type Plus = HyperLogLogPlus<u64, Pass>;
pub type PfM = HyperLogLogPF<u64, Moody>;
pub type PlusM = HyperLogLogPlus<u64, Moody>;
pub type Pf2 = HyperLogLogPF<[u8; 3], Pass2>;
pub type Plus2 = HyperLogLogPlus<[u8; 3], Pass2>;

pub trait Sk:
    Clone + Serialize + DeserializeOwned + std::fmt::Debug + 'static
{
    const NAME: &'static str;
    const PLUS: bool;
    const MINP: u8 = 4;
    const MAXP: u8;
    fn try_new(p: u8) -> Result<Self, HyperLogLogError>;
    fn ins(&mut self, h: u64);
    /// Inserts k hashes, mix(x) for x = from + g, from + 2 g, ...
    fn ins_many(&mut self, k: u64, from: u64);
    fn cnt(&mut self) -> f64;
    fn mrg(&mut self, o: &Self) -> Result<(), HyperLogLogError>;
    /// Builds a sketch of another element and hasher type from hashes, and
    /// merges it into self.
    fn mrg_foreign(
        &mut self,
        p: u8,
        hashes: &[u64],
        count: bool,
    ) -> Result<(), HyperLogLogError>;
    fn mk(p: u8) -> Self {
        match Self::try_new(p) {
            Ok(s) => s,
            Err(e) => {
                lib(|| panic!("new({p}) of {} failed: {e:?}", Self::NAME))
            },
        }
    }
    /// Merge that must succeed (equal precision).
    fn join(&mut self, o: &Self) -> Result<(), String> {
        self.mrg(o)
            .map_err(|e| format!("merge of equal precisions failed: {e:?}"))
    }
    fn dup(&self) -> Self {
        lib(|| self.clone())
    }
    /// Largest rank (position of the first one bit) for precision p.
    fn maxrank(p: u8) -> u8 {
        (if Self::PLUS { 65 } else { 33 }) - p
    }
    /// Register index and rank of a hash.
    fn route(p: u8, h: u64) -> (usize, u8) {
        if Self::PLUS {
            let r = h << p;
            (
                (h >> (64 - p)) as usize,
                if r == 0 { 65 - p } else { r.leading_zeros() as u8 + 1 },
            )
        } else {
            let h = h as u32;
            let r = h << p;
            (
                (h >> (32 - p)) as usize,
                if r == 0 { 33 - p } else { r.leading_zeros() as u8 + 1 },
            )
        }
    }
    /// A hash for register `idx` with rank `r`; the bits below come from tail.
    fn craft(p: u8, idx: usize, r: u8, tail: u64) -> u64 {
        if Self::PLUS {
            let w = 64 - p; // bits below the index
            let base = (idx as u64) << w;
            let low = if r > w {
                0
            } else {
                let one = 1u64 << (w - r);
                one | (tail & (one - 1))
            };
            base | low
        } else {
            let w = 32 - p;
            let base = (idx as u64) << w;
            let low = if r > w {
                0
            } else {
                let one = 1u64 << (w - r);
                one | (tail & (one - 1))
            };
            // The high 32 bits are noise, they must not matter.
            ((tail.rotate_left(17) ^ 0xA5A5_5A5A_1234_8765) << 32)
                | base
                | low
        }
    }
}

macro_rules! sk {
    ($t:ident, $b:expr, $t2:ident, $name:expr, $plus:expr, $maxp:expr) => {
        impl Sk for $t {
            const NAME: &'static str = $name;
            const PLUS: bool = $plus;
            const MAXP: u8 = $maxp;
            fn try_new(p: u8) -> Result<Self, HyperLogLogError> {
                lib(|| <$t>::new(p, $b))
            }
            #[inline]
            fn ins(&mut self, h: u64) {
                lib(|| self.insert(&h))
            }
            fn ins_many(&mut self, k: u64, from: u64) {
                let mut x = from;
                lib(|| {
                    for _ in 0..k {
                        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
                        self.insert(&crate::util::mix(x));
                    }
                })
            }
            fn cnt(&mut self) -> f64 {
                lib(|| self.count())
            }
            fn mrg(&mut self, o: &Self) -> Result<(), HyperLogLogError> {
                lib(|| self.merge(o))
            }
            fn mrg_foreign(
                &mut self,
                p: u8,
                hashes: &[u64],
                count: bool,
            ) -> Result<(), HyperLogLogError> {
                lib(|| {
                    let mut o = <$t2>::new(p, Pass2)?;
                    for h in hashes {
                        o.insert_any(h);
                    }
                    if count {
                        o.count();
                    }
                    self.merge(&o)
                })
            }
        }
    };
}
sk!(Pf, Pass, Pf2, "HyperLogLogPF", false, 16);
sk!(Plus, Pass, Plus2, "HyperLogLogPlus", true, 18);

sk!(PfM, Moody, Pf2, "HyperLogLogPF", false, 16);
sk!(PlusM, Moody, Plus2, "HyperLogLogPlus", true, 18);

/// Calls a generic function for the sketch type chosen at run time.
#[macro_export]
macro_rules! dispatch {
    ($plus:expr, $f:ident, $($a:expr),*) => {
        if $plus { $f::<$crate::sk::Plus>($($a),*) } else { $f::<$crate::sk::Pf>($($a),*) }
    };
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    Json,
    JsonPretty,
    JsonValue,
    Bincode,
    Cbor,
}
pub const FMTS: [Fmt; 5] =
    [Fmt::Json, Fmt::JsonPretty, Fmt::JsonValue, Fmt::Bincode, Fmt::Cbor];

/// One serialize / deserialize round trip.
pub fn round<T: Serialize + DeserializeOwned>(
    s: &T,
    f: Fmt,
) -> Result<T, String> {
    lib(|| match f {
        Fmt::Json => {
            let t = serde_json::to_string(s).map_err(|e| e.to_string())?;
            serde_json::from_str(&t).map_err(|e| e.to_string())
        },
        Fmt::JsonPretty => {
            let t =
                serde_json::to_vec_pretty(s).map_err(|e| e.to_string())?;
            serde_json::from_reader(&t[..]).map_err(|e| e.to_string())
        },
        Fmt::JsonValue => {
            let t = serde_json::to_value(s).map_err(|e| e.to_string())?;
            serde_json::from_value(t).map_err(|e| e.to_string())
        },
        Fmt::Bincode => {
            let t = bincode::serialize(s).map_err(|e| e.to_string())?;
            bincode::deserialize(&t).map_err(|e| e.to_string())
        },
        Fmt::Cbor => {
            let mut t = Vec::new();
            ciborium::into_writer(s, &mut t).map_err(|e| e.to_string())?;
            ciborium::from_reader(&t[..]).map_err(|e| e.to_string())
        },
    })
    .map_err(|e: String| format!("round trip through {f:?} failed: {e}"))
}
