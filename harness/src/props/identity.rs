//! C14: the element's hash decides, whatever way the element comes in.
use super::*;
use crate::fail;
use crate::gen::{many, Kind};
use crate::probe::{fingerprint, flooded, same, Depth};
use crate::sk::{Pf, Plus, Sk};
use crate::util::{close, lib, Rng, Stats, Verdict, SAME};
use hyperloglogplus::{HyperLogLog, HyperLogLogPF, HyperLogLogPlus};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::rc::Rc;

/// A keyed hasher (FNV-like with finalisation): order and length sensitive.
#[derive(Clone)]
pub struct KeyHasher {
    s: u64,
    log: Option<Rc<RefCell<Vec<Vec<u8>>>>>,
    mine: Vec<u8>,
}
impl Hasher for KeyHasher {
    fn finish(&self) -> u64 {
        if let Some(l) = &self.log {
            l.borrow_mut().push(self.mine.clone());
        }
        crate::util::Rng(self.s).next()
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.s = (self.s ^ *x as u64).wrapping_mul(0x100_0000_01b3).rotate_left(9);
        }
        self.s = self.s.wrapping_add(0x9E37);
        if self.log.is_some() {
            self.mine.extend_from_slice(b);
        }
    }
}
/// Builder with a key; optionally logs what its hashers were fed.
#[derive(Clone)]
pub struct Keyed {
    key: u64,
    log: Option<Rc<RefCell<Vec<Vec<u8>>>>>,
}
impl BuildHasher for Keyed {
    type Hasher = KeyHasher;
    fn build_hasher(&self) -> KeyHasher {
        KeyHasher { s: self.key, log: self.log.clone(), mine: Vec::new() }
    }
}

/// The other hashers of the standard library.
#[derive(Clone)]
pub struct Sip;
impl BuildHasher for Sip {
    type Hasher = DefaultHasher;
    fn build_hasher(&self) -> DefaultHasher {
        DefaultHasher::new()
    }
}

/// Types that users insert, from the whole range of Hash implementations.
#[derive(Hash, Clone)]
struct Rec {
    id: u32,
    name: String,
    tags: Vec<Option<char>>,
}
/// Writes nothing at all.
#[derive(Clone)]
struct Silent;
impl Hash for Silent {
    fn hash<H: Hasher>(&self, _: &mut H) {}
}
/// Looks at the hasher in the middle of hashing.
#[derive(Clone)]
struct Peek(u64);
impl Hash for Peek {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64(self.0);
        let x = h.finish();
        h.write_u64(x);
        h.write_u8(0xff);
    }
}

/// The typed sketches, so that one generic check covers both.
trait Typed<T: Hash + ?Sized, B: BuildHasher + Clone>: Sized {
    type Base: Sk;
    fn make(p: u8, b: B) -> Self;
    fn insert_v<Q: Hash + ?Sized>(&mut self, v: &Q)
    where
        T: Borrow<Q>;
    fn any<R: Hash + ?Sized>(&mut self, v: &R);
    fn add_v(&mut self, v: &T);
    fn into_base(&self, p: u8) -> Result<Self::Base, String>;
    fn count_v(&mut self) -> f64;
}
macro_rules! typed {
    ($t:ident, $base:ident $(, $any:tt)?) => {
        impl<T: Hash $(+ $any Sized)?, B: BuildHasher + Clone> Typed<T, B> for $t<T, B> {
            type Base = $base;
            fn make(p: u8, b: B) -> Self {
                lib(|| $t::new(p, b).expect("valid precision"))
            }
            fn insert_v<Q: Hash + ?Sized>(&mut self, v: &Q)
            where
                T: Borrow<Q>,
            {
                lib(|| self.insert(v))
            }
            fn any<R: Hash + ?Sized>(&mut self, v: &R) {
                lib(|| self.insert_any(v))
            }
            #[allow(deprecated)]
            fn add_v(&mut self, v: &T) {
                lib(|| self.add(v))
            }
            fn into_base(&self, p: u8) -> Result<$base, String> {
                let mut b = $base::mk(p);
                lib(|| b.merge(self)).map_err(|e| format!("merge into a sketch with another hasher type failed: {e:?}"))?;
                Ok(b)
            }
            fn count_v(&mut self) -> f64 {
                lib(|| self.count())
            }
        }
    };
}
#[cfg(feature = "unsized")]
typed!(HyperLogLogPF, Pf, ?);
#[cfg(feature = "unsized")]
typed!(HyperLogLogPlus, Plus, ?);
#[cfg(not(feature = "unsized"))]
typed!(HyperLogLogPF, Pf);
#[cfg(not(feature = "unsized"))]
typed!(HyperLogLogPlus, Plus);

/// Inserts `vals` of one type through every entry point and compares with a
/// sketch of the hashes that the builder itself computes.
fn entry<T, B, Y>(
    p: u8,
    seed: u64,
    what: &str,
    vals: &[T],
    b: &B,
    extra: &dyn Fn(&mut Y, &T),
    st: &mut Stats,
) -> Verdict
where
    T: Hash + Clone,
    B: BuildHasher + Clone,
    Y: Typed<T, B>,
{
    let hashes: Vec<u64> = vals.iter().map(|v| b.hash_one(v)).collect();
    let want: Y::Base = build(p, &hashes);
    let fw = fingerprint(&want, p, seed, &hashes, Depth::Normal);
    let name = <Y::Base as Sk>::NAME;
    let mut r = Rng::of(&[seed, p as u64, 5]);
    for way in 0..5 {
        let mut s = Y::make(p, b.clone());
        for v in vals {
            match if way == 4 { r.below(4) } else { way } {
                0 => s.insert_v::<T>(v),
                1 => s.any(v),
                2 => s.add_v(v),
                _ => extra(&mut s, v),
            }
            st.inc("insertions observed");
        }
        let name_way = ["insert", "insert_any", "add", "borrowed or foreign form", "mixed entry points"][way as usize];
        let c = s.count_v();
        let base = s.into_base(p)?;
        let f = fingerprint(&base, p, seed, &hashes, Depth::Normal);
        if !close(c, fw[0], SAME) {
            fail!("{name} p={p} {what} x{} via {name_way}: count {c:?}, inserting the builder's hashes gives {:?}", vals.len(), fw[0]);
        }
        same(&fw, &f).map_err(|e| format!("{name} p={p} {what} x{} via {name_way} differs from inserting the builder's hashes: {e}", vals.len()))?;
        st.inc("entry point comparisons");
    }
    st.inc(&format!("type {what}"));
    st.distinct(&[<Y::Base as Sk>::PLUS as u64, p as u64, Rng::of(&[what.len() as u64, hashes.first().copied().unwrap_or(0)]).next()]);
    Ok(())
}

pub fn c14(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    dispatch!(plus, c14_bits, i, p, cx, st)?;
    let mut r = Rng::of(&[cx.seed, 14, i]);
    let key = r.next();
    match (plus, r.below(3)) {
        (false, 0) => c14_types::<Sip>(i, p, Sip, cx, st, false),
        (false, _) => c14_types::<Keyed>(i, p, Keyed { key, log: None }, cx, st, false),
        (true, 0) => c14_types::<Sip>(i, p, Sip, cx, st, true),
        (true, _) => c14_types::<Keyed>(i, p, Keyed { key, log: None }, cx, st, true),
    }?;
    #[cfg(feature = "unsized")]
    match plus {
        false => c14_unsized::<HyperLogLogPF<str, Keyed>, HyperLogLogPF<[u16], Keyed>, HyperLogLogPF<dyn Key, Keyed>>(i, p, cx, st),
        true => c14_unsized::<HyperLogLogPlus<str, Keyed>, HyperLogLogPlus<[u16], Keyed>, HyperLogLogPlus<dyn Key, Keyed>>(i, p, cx, st),
    }?;
    c14_fresh(i, p, plus, cx, st)
}

/// Sketches of elements without a size known to the compiler. Compiled only
/// with the feature "unsized", so that others do not depend on it.
#[cfg(feature = "unsized")]
trait Key {
    fn feed(&self, h: &mut dyn Hasher);
}
#[cfg(feature = "unsized")]
impl<T: Hash> Key for T {
    fn feed(&self, mut h: &mut dyn Hasher) {
        self.hash(&mut h)
    }
}
#[cfg(feature = "unsized")]
impl Hash for dyn Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.feed(h)
    }
}
#[cfg(feature = "unsized")]
fn c14_unsized<A, C, D>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict
where
    A: Typed<str, Keyed>,
    C: Typed<[u16], Keyed>,
    D: Typed<dyn Key, Keyed>,
{
    let mut r = Rng::of(&[cx.seed, 144, i]);
    let b = Keyed { key: r.next(), log: None };
    fn one<T: Hash + ?Sized, Y: Typed<T, Keyed>>(p: u8, i: u64, what: &str, b: &Keyed, vals: &[Box<T>], r: &mut Rng, st: &mut Stats) -> Verdict {
        let hashes: Vec<u64> = vals.iter().map(|v| b.hash_one(&**v)).collect();
        let want: Y::Base = build(p, &hashes);
        let mut s = Y::make(p, b.clone());
        for v in vals {
            match r.below(3) {
                0 => s.insert_v::<T>(v),
                1 => s.any::<T>(v),
                _ => s.add_v(v),
            }
        }
        let got = s.into_base(p)?;
        let (fw, f) = (fingerprint(&want, p, i, &hashes, Depth::Normal), fingerprint(&got, p, i, &hashes, Depth::Normal));
        same(&fw, &f).map_err(|e| format!("{} p={p} of {what} x{} differs from inserting the builder's hashes: {e}", Y::Base::NAME, vals.len()))?;
        st.inc("sketches of unsized elements");
        Ok(())
    }
    let n = r.range(1, 200) as usize;
    let (mut x, mut y, mut z) = (Vec::new(), Vec::new(), Vec::<Box<dyn Key>>::new());
    for j in 0..n {
        x.push(format!("{:x}", r.next() >> r.below(63)).into_boxed_str());
        y.push(vec![r.next() as u16; r.below(5) as usize].into_boxed_slice());
        z.push(if j % 2 == 0 { Box::new(r.next()) } else { Box::new(x[j].to_string()) });
    }
    one::<str, A>(p, i, "str", &b, &x, &mut r, st)?;
    one::<[u16], C>(p, i, "[u16]", &b, &y, &mut r, st)?;
    one::<dyn Key, D>(p, i, "dyn Key", &b, &z, &mut r, st)
}

/// Which bits of the hash count.
fn c14_bits<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 141, i]);
    let w = if S::PLUS { 64u32 } else { 32 };
    let m = 1usize << p;
    let keep = r.below(m as u64) as usize;
    let base = S::craft(p, keep, S::maxrank(p), r.next());
    let mut zero = S::mk(p);
    zero.ins(base);
    // The whole scale: every bit of the rank part is told apart. Compare with
    // neighbouring bits (position b and b+1).
    let bits = w - p as u32;
    let want = if p <= 10 || cx.thorough { bits } else { 6 };
    for j in 0..want {
        let b = if want == bits { j } else { (r.below(bits as u64 / 6) as u32 + j * (bits / 6)).min(bits - 1) };
        let mut s = S::mk(p);
        s.ins(base | 1u64 << b);
        let c = flooded(&s, p, &[keep]);
        if !S::PLUS && c > 4294967296.0 / 31.0 {
            continue;
        }
        let rank = bits - b;
        // Resolution: a rank r changes the sum by 2^-r against m 2^-flood.
        let f = crate::probe::flood_rank::<S>(p) as f64;
        let sum = (m - 1) as f64 * (-f).exp2();
        let a = (-(rank as f64)).exp2();
        let z = (-((S::maxrank(p)) as f64)).exp2();
        if (a - z) / (sum + a) > 1e-9 && f >= rank as f64 {
            let c0 = flooded(&zero, p, &[keep]);
            if close(c0, c, 1e-10) {
                fail!("{} p={p}: bit {b} of the hash has no effect (bucket {keep})", S::NAME);
            }
            st.inc("rank bits shown to matter");
        }
    }
    for b in 0..p as u32 {
        // Index bits: another bucket.
        let mut s = S::mk(p);
        s.ins(base ^ 1u64 << (w - 1 - b));
        s.ins(base);
        let mut t = S::mk(p);
        t.ins(base);
        if s.cnt() <= t.cnt() * 1.5 {
            fail!("{} p={p}: index bit {} of the hash has no effect", S::NAME, w - 1 - b);
        }
        st.inc("index bits shown to matter");
    }
    if !S::PLUS {
        let n = (3 * m).min(20_000);
        let h = many::<S>(Kind::Mixed, p, &mut r, n);
        let other: Vec<u64> = h.iter().map(|x| (x & 0xffff_ffff) | (r.next() << 32)).collect();
        let (a, b): (S, S) = (build(p, &h), build(p, &other));
        let (fa, fb) = (fingerprint(&a, p, i, &h, Depth::Normal), fingerprint(&b, p, i, &h, Depth::Normal));
        same(&fa, &fb).map_err(|e| format!("{} p={p}: bits above the low 32 of the hash have an effect: {e}", S::NAME))?;
        st.add("hashes with changed high half", n as u64);
    }
    Ok(())
}

fn c14_types<B: BuildHasher + Clone>(i: u64, p: u8, b: B, cx: &Cx, st: &mut Stats, plus: bool) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 142, i]);
    let n = *r.pick(&[1usize, 3, 40, 400]);
    macro_rules! go {
        ($what:expr, $t:ty, $gen:expr, $extra:expr) => {{
            let vals: Vec<$t> = (0..n).map(|j| { let _ = j; $gen(&mut r) }).collect();
            if plus {
                entry::<$t, B, HyperLogLogPlus<$t, B>>(p, i, $what, &vals, &b, &$extra, st)?;
            } else {
                entry::<$t, B, HyperLogLogPF<$t, B>>(p, i, $what, &vals, &b, &$extra, st)?;
            }
        }};
    }
    // The closure for "extra" must work for both sketch types: use insert_any
    // with another form of the same value, or the trait's borrowed insert.
    let word = |r: &mut Rng| -> String {
        let l = r.below(12) as usize;
        (0..l).map(|_| char::from_u32(97 + r.below(26) as u32).unwrap()).collect()
    };
    match (i / 28) % 6 {
        0 => {
            go!("u64", u64, |r: &mut Rng| r.next() >> r.below(64), |s, v| s.any(&Box::new(*v)));
            go!("String", String, word, |s, v| s.insert_v::<str>(v.as_str()));
        },
        1 => {
            go!("Vec<u8>", Vec<u8>, |r: &mut Rng| word(r).into_bytes(), |s, v| s.insert_v::<[u8]>(&v[..]));
            go!("(u32, String)", (u32, String), |r: &mut Rng| (r.below(9) as u32, word(r)), |s, v| s.any(&(v.0, v.1.as_str())));
        },
        2 => {
            go!("u128", u128, |r: &mut Rng| (r.next() as u128) << r.below(64), |s, v| s.any(v));
            go!("Rec", Rec, |r: &mut Rng| Rec { id: r.below(100) as u32, name: word(r), tags: vec![None, Some('x'), None][..r.below(4) as usize].to_vec() }, |s, v| s.any(&&*v));
        },
        3 => {
            go!("()", (), |_: &mut Rng| (), |s, v| s.any(v));
            go!("Silent", Silent, |_: &mut Rng| Silent, |s, v| s.any(v));
            go!("Box<str>", Box<str>, |r: &mut Rng| word(r).into_boxed_str(), |s, v| s.insert_v::<str>(v));
        },
        4 => {
            go!("Peek", Peek, |r: &mut Rng| Peek(r.next()), |s, v| s.any(&Peek(v.0)));
            go!("Option<i8>", Option<i8>, |r: &mut Rng| if r.chance(1, 3) { None } else { Some(r.next() as i8) }, |s, v| s.any(v));
            go!("[u16; 5]", [u16; 5], |r: &mut Rng| [r.next() as u16, 0, 1, 2, r.next() as u16], |s, v| s.insert_v::<[u16]>(&v[..]));
        },
        _ => {
            go!("BTreeMap", BTreeMap<u8, Vec<String>>, |r: &mut Rng| (0..r.below(4)).map(|k| (k as u8, vec![word(r); r.below(3) as usize])).collect(), |s, v| s.any(&v.clone()));
            go!("char", char, |r: &mut Rng| char::from_u32(r.below(0xd800) as u32).unwrap(), |s, v| s.any(&(*v as u32)));
            go!("bool", bool, |r: &mut Rng| r.chance(1, 2), |s, v| s.any(&(*v as u8)));
        },
    }
    st.sample(|| format!("{} p={p} type group {} x{n}", type_name(plus), (i / 28) % 6));
    Ok(())
}

/// Every element is hashed from a fresh hasher of the sketch's own builder,
/// and hasher feeds are exactly those of the element.
fn c14_fresh(i: u64, p: u8, plus: bool, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 143, i]);
    let log = Rc::new(RefCell::new(Vec::new()));
    let b = Keyed { key: r.next(), log: Some(log.clone()) };
    let plain = Keyed { key: b.key, log: None };
    let n = r.range(2, 60) as usize;
    let vals: Vec<String> = (0..n).map(|j| format!("{}-{}", j, r.next() >> r.below(60))).collect();
    fn feed(v: &String) -> Vec<u8> {
        let l = Rc::new(RefCell::new(Vec::new()));
        let k = Keyed { key: 0, log: Some(l.clone()) };
        k.hash_one(v);
        let f = (*l).borrow()[0].clone();
        f
    }
    let mut pf = lib(|| HyperLogLogPF::<String, Keyed>::new(p.min(16), b.clone()).expect("valid precision"));
    let mut pl = lib(|| HyperLogLogPlus::<String, Keyed>::new(p, b.clone()).expect("valid precision"));
    for v in &vals {
        log.borrow_mut().clear();
        if plus {
            lib(|| pl.insert(v));
        } else {
            lib(|| pf.insert(v));
        }
        let want = feed(v);
        let got = (*log).borrow();
        if !got.iter().any(|g| *g == want) {
            fail!("{} p={p}: inserting {v:?} did not hash it from a fresh hasher: the hasher was fed {:?}, not {want:?}", type_name(plus), got.first());
        }
        st.inc("hasher feeds observed");
    }
    // Two sketches with different keys see different elements.
    let h: Vec<u64> = vals.iter().map(|v| plain.hash_one(v)).collect();
    let (got, want) = if plus {
        let want: Plus = build(p, &h);
        (fingerprint(&Typed::<String, Keyed>::into_base(&pl, p)?, p, i, &h, Depth::Normal), fingerprint(&want, p, i, &h, Depth::Normal))
    } else {
        let want: Pf = build(p, &h);
        (fingerprint(&Typed::<String, Keyed>::into_base(&pf, p)?, p, i, &h, Depth::Normal), fingerprint(&want, p, i, &h, Depth::Normal))
    };
    same(&want, &got).map_err(|e| format!("{} p={p}: a sketch with key {:#x} does not hold the hashes of that key: {e}", type_name(plus), plain.key))
}
