//! C22: failures of the user's own code, and incomplete payloads.
use super::*;
use crate::fail;
use crate::gen::{many, size, KINDS};
use crate::probe::{fingerprint, same, Depth};
use crate::sk::{Fmt, Moody, Pf, PfM, Plus, PlusM, Sk, MOOD};
use crate::util::{lib, Rng, Stats, Verdict};
use hyperloglogplus::HyperLogLog;
use std::cell::RefCell;
use std::hash::{Hash, Hasher};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An element whose hashing ends in a panic.
struct Bomb {
    h: u64,
    after: bool,
}
impl Hash for Bomb {
    fn hash<H: Hasher>(&self, state: &mut H) {
        if self.after {
            state.write_u64(self.h);
        }
        panic!("bomb");
    }
}

thread_local! {
    static INNER: RefCell<Option<(Pf, Plus)>> = const { RefCell::new(None) };
}
/// An element that uses sketches of its own to compute its hash.
struct Nested(u64);
impl Hash for Nested {
    fn hash<H: Hasher>(&self, state: &mut H) {
        let h = self.0;
        INNER.with(|i| {
            let mut i = i.borrow_mut();
            let (a, b) = i.as_mut().unwrap();
            a.insert(&h);
            b.insert(&h.rotate_left(7));
            if h % 16 == 0 {
                a.count();
                b.count();
            }
            if h % 64 == 1 {
                let c = b.clone();
                b.merge(&c).unwrap();
            }
        });
        state.write_u64(h);
    }
}

/// What the sketches offer besides `Sk`.
pub trait Open: Sk {
    fn any<T: Hash>(&mut self, v: &T);
}
impl Open for Pf {
    fn any<T: Hash>(&mut self, v: &T) {
        lib(|| self.insert_any(v))
    }
}
impl Open for Plus {
    fn any<T: Hash>(&mut self, v: &T) {
        lib(|| self.insert_any(v))
    }
}
impl Open for PfM {
    fn any<T: Hash>(&mut self, v: &T) {
        lib(|| self.insert_any(v))
    }
}
impl Open for PlusM {
    fn any<T: Hash>(&mut self, v: &T) {
        lib(|| self.insert_any(v))
    }
}

/// Accepts a number of bytes, then fails.
struct Short(usize);
impl io::Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn bytes<S: Sk>(s: &S, f: Fmt) -> Vec<u8> {
    lib(|| match f {
        Fmt::Bincode => bincode::serialize(s).expect("serializable"),
        Fmt::Cbor => {
            let mut v = Vec::new();
            ciborium::into_writer(s, &mut v).expect("serializable");
            v
        },
        _ => serde_json::to_vec(s).expect("serializable"),
    })
}
fn write<S: Sk>(s: &S, f: Fmt, w: Short) -> bool {
    lib(|| match f {
        Fmt::Bincode => bincode::serialize_into(w, s).is_ok(),
        Fmt::Cbor => ciborium::into_writer(s, w).is_ok(),
        _ => serde_json::to_writer(w, s).is_ok(),
    })
}
fn read<S: Sk>(b: &[u8], f: Fmt) -> bool {
    lib(|| match f {
        Fmt::Bincode => bincode::deserialize::<S>(b).is_ok(),
        Fmt::Cbor => ciborium::from_reader::<S, _>(b).is_ok(),
        _ => serde_json::from_slice::<S>(b).is_ok(),
    })
}

pub fn c22(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    if plus {
        c22_t::<Plus, PlusM>(i, p, cx, st)
    } else {
        c22_t::<Pf, PfM>(i, p, cx, st)
    }
}

fn c22_t<S: Open, M: Open>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 22, i]);
    let k = *r.pick(&KINDS);
    let n = size::<S>(p, &mut r);
    let h = many::<S>(k, p, &mut r, n);
    let ctx = |e: String| format!("{} p={p} {k:?} n={n}: {e}", S::NAME);
    let mut md = crate::model::Ref::new(S::PLUS, p);
    for x in &h {
        md.ins(*x);
    }
    md.settle();
    let pending = r.chance(1, 2);
    let probe = r.next();

    // Panics in the hash function of an element, in between others.
    {
        let mut s = S::mk(p);
        for (j, x) in h.iter().enumerate() {
            s.ins(*x);
            if j % 97 == 5 || j + 1 == n {
                bomb(&mut s, &mut r, &h, st).map_err(ctx)?;
            }
        }
        if n == 0 {
            bomb(&mut s, &mut r, &h, st).map_err(ctx)?;
        }
        if !pending {
            s.cnt();
        }
        bomb(&mut s, &mut r, &h, st).map_err(ctx)?;
        let t: S = canonical(p, &h);
        let (a, b) = (fingerprint(&s, p, probe, &h, Depth::Normal), fingerprint(&t, p, probe, &h, Depth::Normal));
        same(&a, &b).map_err(|e| ctx(format!("after panics in the elements' hash function it differs from a sketch that never saw them: {e}")))?;
        st.inc(&format!("C22 state {} {}", S::NAME, state_label(&md, pending)));
        // Failing writers, incomplete payloads.
        let f = [Fmt::Json, Fmt::Bincode, Fmt::Cbor][(i / 28 % 3) as usize];
        let b = bytes(&s, f);
        let cuts: Vec<usize> = if b.len() <= 200 { (0..b.len()).collect() } else { (0..24).map(|_| r.below(b.len() as u64) as usize).chain([0, 1, b.len() - 1, b.len() - 2]).collect() };
        for c in &cuts {
            if write(&s, f, Short(*c)) {
                return Err(ctx(format!("serializing to {f:?} into a writer that fails after {c} of {} bytes succeeds", b.len())));
            }
            if read::<S>(&b[..*c], f) {
                return Err(ctx(format!("the first {c} of {} bytes of {f:?} are read as a sketch", b.len())));
            }
            st.inc("incomplete payloads");
        }
        if !read::<S>(&b, f) {
            return Err(ctx(format!("a complete payload in {f:?} is rejected")));
        }
        let c = fingerprint(&s, p, probe, &h, Depth::Normal);
        same(&a, &c).map_err(|e| ctx(format!("failed serialization changes the sketch: {e}")))?;
    }

    // Panics in the hasher and its builder.
    {
        let mut s = M::mk(p);
        let mut t = M::mk(p);
        for (j, x) in h.iter().enumerate() {
            s.ins(*x);
            t.ins(*x);
            if j % 61 == 3 || j + 1 == n {
                for mood in [Moody::BUILD, Moody::WRITE, Moody::FINISH] {
                    let v = r.next();
                    MOOD.with(|m| m.set(mood));
                    let e = catch_unwind(AssertUnwindSafe(|| s.ins(v)));
                    MOOD.with(|m| m.set(Moody::CALM));
                    if e.is_ok() {
                        return Err(ctx("a panic of the hasher does not reach the caller of insert".into()));
                    }
                    st.inc("panics in hashers");
                }
            }
        }
        if !pending {
            s.cnt();
        }
        MOOD.with(|m| m.set(Moody::CLONE));
        let e = catch_unwind(AssertUnwindSafe(|| s.dup()));
        MOOD.with(|m| m.set(Moody::CALM));
        if e.is_ok() {
            return Err(ctx("the builder of the hasher is not cloned with the sketch".into()));
        }
        let (a, b) = (fingerprint(&s, p, probe, &h, Depth::Normal), fingerprint(&t, p, probe, &h, Depth::Normal));
        same(&a, &b).map_err(|e| ctx(format!("after panics in the hasher it differs from a sketch without: {e}")))?;
    }

    // More failures in one sketch than a 16-bit counter counts.
    if [28, 29, 41, 42].contains(&i) {
        let mut h: Vec<u64> = (0..if i % 2 == 0 { 3 } else { 6 << p }).map(|_| r.next()).collect();
        let (mut s, mut t): (S, M) = (build(p, &h), build(p, &h));
        for _ in 0..33_000 {
            bomb(&mut s, &mut r, &h, st).map_err(ctx)?;
            for mood in [Moody::BUILD, Moody::FINISH] {
                let v = r.next();
                MOOD.with(|m| m.set(mood));
                let e = catch_unwind(AssertUnwindSafe(|| t.ins(v)));
                MOOD.with(|m| m.set(Moody::CALM));
                if e.is_ok() {
                    return Err(ctx("a panic of the hasher does not reach the caller of insert".into()));
                }
            }
        }
        for _ in 0..20 {
            let x = r.next();
            h.push(x);
            s.ins(x);
            t.ins(x);
        }
        let f = fingerprint(&canonical::<S>(p, &h), p, probe, &h, Depth::Normal);
        for (f2, what) in [(fingerprint(&s, p, probe, &h, Depth::Normal), "elements"), (fingerprint(&t, p, probe, &h, Depth::Normal), "the hasher")] {
            same(&f, &f2).map_err(|e| ctx(format!("after 66,000 panics in {what} it differs from a sketch without: {e}")))?;
        }
        st.inc("sketches with 66,000 panics");
    }

    // Elements that use sketches themselves.
    {
        let q = *r.pick(&[4u8, 7, 12]);
        let hh = &h[..n.min(4000)];
        INNER.with(|x| *x.borrow_mut() = Some((Pf::mk(q), Plus::mk(q))));
        let mut s = S::mk(p);
        for x in hh {
            s.any(&Nested(*x));
            st.inc("nested uses");
        }
        let (a, b) = INNER.with(|x| x.borrow_mut().take().unwrap());
        let t: S = canonical(p, hh);
        let turned: Vec<u64> = hh.iter().map(|x| x.rotate_left(7)).collect();
        let check = |ok: Result<(), String>, what: &str| ok.map_err(|e| ctx(format!("nested use, {what} sketch: {e}")));
        check(same(&fingerprint(&s, p, probe, hh, Depth::Normal), &fingerprint(&t, p, probe, hh, Depth::Normal)), "outer")?;
        check(same(&fingerprint(&a, q, probe, hh, Depth::Normal), &fingerprint(&canonical::<Pf>(q, hh), q, probe, hh, Depth::Normal)), "inner PF")?;
        check(same(&fingerprint(&b, q, probe, &turned, Depth::Normal), &fingerprint(&canonical::<Plus>(q, &turned), q, probe, &turned, Depth::Normal)), "inner Plus")?;
    }
    let mut s: S = canonical(p, &h);
    st.distinct(&[S::PLUS as u64, p as u64, n as u64, s.cnt().to_bits()]);
    st.sample(|| format!("{} p={p} {k:?} n={n} pending={pending}", S::NAME));
    Ok(())
}

fn bomb<S: Open>(s: &mut S, r: &mut Rng, h: &[u64], st: &mut Stats) -> Verdict {
    for after in [false, true] {
        let v = if h.is_empty() || r.chance(1, 2) { r.next() } else { *r.pick(h) };
        let e = catch_unwind(AssertUnwindSafe(|| s.any(&Bomb { h: v, after })));
        if e.is_ok() {
            fail!("a panic in an element's hash function does not reach the caller of insert_any");
        }
        st.inc("panics in hash functions");
    }
    Ok(())
}

