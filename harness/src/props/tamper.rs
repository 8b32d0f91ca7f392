//! C23: memory safety when sketches come from corrupted data.
//!
//! The oracle is outside: a sanitizer, an interpreter, the checks that the
//! compiler adds to unchecked operations, or a crash. Errors, panics and
//! meaningless estimates are all fine here.
use super::*;
use crate::gen::{many, size, KINDS};
use crate::sk::{Fmt, Sk, FMTS};
use crate::util::{lib, Rng, Stats, Verdict};
use serde_json::Value;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn c23(i: u64, cx: &Cx, st: &mut Stats) -> Verdict {
    let (plus, p) = which(i);
    dispatch!(plus, c23_t, i, p, cx, st)
}

/// Runs a call that may panic; tells whether it did.
fn tried<T>(st: &mut Stats, f: impl FnOnce() -> T) -> Option<T> {
    st.inc("operations on tampered sketches");
    match catch_unwind(AssertUnwindSafe(|| lib(f))) {
        Ok(v) => Some(v),
        Err(_) => {
            st.inc("panics");
            None
        },
    }
}

const SMALL: u64 = if cfg!(miri) { 1 << 9 } else { 1 << 21 };
/// Buffers hold any value; anything else may become the size of an allocation
/// and is kept small, or so large that no allocator is asked.
fn number(buffer: bool, old: u64, p: u8, r: &mut Rng) -> u64 {
    let m = 1u64 << p;
    if buffer {
        return match r.below(8) {
            0 => 0,
            1 => 0x80 | r.below(128),
            2 => 255,
            3 => u32::MAX as u64,
            4 => r.next() >> 32,
            5 => old ^ (1 << r.below(32)),
            6 => r.below(128),
            _ => r.below(256),
        };
    }
    let v = match r.below(10) {
        0 => 0,
        1 => old.saturating_add(1),
        2 => old.saturating_sub(1),
        3 => old.saturating_mul(2),
        4 => old / 2,
        5 => r.below(80),
        6 => r.below(300),
        7 => m + r.below(3),
        8 => u64::MAX - r.below(3),
        _ => r.below(SMALL),
    };
    if v > SMALL && v < 0xf << 60 { r.below(SMALL) } else { v }
}

/// Changes a value somewhere in the tree.
fn tamper(v: &mut Value, donor: &Value, p: u8, r: &mut Rng) {
    match v {
        Value::Object(o) => {
            let k = r.below(o.len().max(1) as u64) as usize;
            let Some(key) = o.keys().nth(k).cloned() else { return };
            match r.below(24) {
                0 => {
                    o.remove(&key);
                },
                1 => {
                    o.insert(key, Value::Null);
                },
                // The same field of another sketch.
                2..=7 => {
                    if let Some(d) = donor.get(&key) {
                        o.insert(key, d.clone());
                    }
                },
                _ => {
                    let d = donor.get(&key).cloned().unwrap_or(Value::Null);
                    tamper(o.get_mut(&key).unwrap(), &d, p, r);
                },
            }
        },
        Value::Array(a) => {
            let long = a.len() > 3;
            let n = a.len() as u64;
            if !long || r.chance(1, 3) {
                if n > 0 {
                    let k = r.below(n) as usize;
                    let x = a[k].as_u64().unwrap_or(0);
                    match &mut a[k] {
                        Value::Number(_) => a[k] = number(long, x, p, r).into(),
                        other => tamper(other, &Value::Null, p, r),
                    }
                }
                return;
            }
            match r.below(7) {
                0 => a.clear(),
                1 => a.truncate(r.below(n) as usize),
                2 => a.truncate(n as usize - 1),
                3 => {
                    for _ in 0..1 + r.below(5) {
                        let k = r.below(n) as usize;
                        let x = a[k].clone();
                        a.push(x);
                    }
                },
                4 => {
                    // The tail: an item that does not end.
                    let k = a.len() - 1;
                    a[k] = number(true, 0, p, r).into();
                },
                5 => {
                    let from = r.below(n) as usize;
                    let upto = (from + r.range(1, 9) as usize).min(a.len());
                    for x in &mut a[from..upto] {
                        *x = number(true, x.as_u64().unwrap_or(0), p, r).into();
                    }
                },
                _ => {
                    for x in a.iter_mut() {
                        if r.chance(1, 4) {
                            *x = number(true, x.as_u64().unwrap_or(0), p, r).into();
                        }
                    }
                },
            }
        },
        Value::Number(x) => {
            let x = x.as_u64().unwrap_or(0);
            *v = number(false, x, p, r).into();
        },
        Value::Null => *v = donor.clone(),
        Value::Bool(b) => *v = Value::Bool(!*b),
        Value::String(_) => *v = Value::String("\u{0}".into()),
    }
}

fn read<S: Sk>(v: &Value, f: Fmt) -> Option<S> {
    match f {
        Fmt::Cbor => {
            let mut t = Vec::new();
            ciborium::into_writer(v, &mut t).ok()?;
            ciborium::from_reader(&t[..]).ok()
        },
        Fmt::JsonValue => serde_json::from_value(v.clone()).ok(),
        _ => serde_json::from_slice(&serde_json::to_vec(v).ok()?).ok(),
    }
}

fn c23_t<S: Sk>(i: u64, p: u8, cx: &Cx, st: &mut Stats) -> Verdict {
    let mut r = Rng::of(&[cx.seed, 23, i]);
    // Small ones mostly: everything is close to an end there.
    let make = |r: &mut Rng, q: u8| -> S {
        let most = if cfg!(miri) { 25 } else { 4000 };
        let n = size::<S>(q, r).min(most);
        let k = *r.pick(&KINDS);
        let h = many::<S>(k, q, r, n);
        let mut s: S = wander(q, &h, r);
        if r.chance(1, 2) {
            s.cnt();
        }
        s
    };
    let p = if cfg!(miri) { p.min(6) } else { p };
    let (q, mut good) = (4 + r.below(S::MAXP as u64 - 3) as u8, make(&mut r, p));
    let q = if cfg!(miri) { q.min(6) } else { q };
    let healthy = serde_json::to_value(&make(&mut r, p)).unwrap();
    let rounds = if cfg!(miri) { 6 } else { 24 };
    for _ in 0..rounds {
        let donor_p = if r.chance(1, 3) { q } else { p };
        let donor = serde_json::to_value(&make(&mut r, donor_p)).unwrap();
        let mut v = healthy.clone();
        for _ in 0..r.range(1, 3) {
            tamper(&mut v, &donor, p, &mut r);
        }
        let f = if cfg!(miri) { Fmt::JsonValue } else { *r.pick(&[Fmt::Json, Fmt::JsonValue, Fmt::Cbor]) };
        let read = match catch_unwind(|| lib(|| read::<S>(&v, f))) {
            Ok(s) => s,
            Err(_) => {
                st.inc("panics");
                continue;
            },
        };
        let Some(mut s) = read else {
            st.inc("tampered payloads rejected");
            continue;
        };
        st.inc("tampered payloads accepted");
        st.distinct(&[S::PLUS as u64, p as u64, r.next()]);
        for _ in 0..r.range(3, 16) {
            match r.below(9) {
                0 => {
                    tried(st, || s.cnt());
                },
                1 => {
                    for _ in 0..r.range(1, 60) {
                        let x = r.next();
                        tried(st, || s.ins(x));
                    }
                },
                2 => {
                    // Every bucket, the last one above all.
                    let n = if cfg!(miri) { 16 } else if p <= 8 { 1u64 << p } else { 40 };
                    for j in 0..n {
                        let x = !(j << (64 - p)) ^ (r.next() >> p);
                        tried(st, || s.ins(x));
                    }
                    tried(st, || s.ins(u64::MAX));
                },
                3 => {
                    if let Some(c) = tried(st, || s.clone()) {
                        s = c;
                    }
                },
                4 => {
                    let _ = tried(st, || s.mrg(&good));
                },
                5 => {
                    let mut g = good.dup();
                    let _ = tried(st, || g.mrg(&s));
                    tried(st, || g.cnt());
                },
                6 => {
                    let mut c = make(&mut r, q);
                    let _ = tried(st, || c.mrg(&s));
                    let _ = tried(st, || s.mrg(&c));
                    tried(st, || c.cnt());
                },
                7 => {
                    let f = if cfg!(miri) { Fmt::Bincode } else { *r.pick(&FMTS) };
                    let back = tried(st, || crate::sk::round(&s, f));
                    if let Some(Ok(c)) = back {
                        s = c;
                    }
                },
                _ => {
                    let _ = tried(st, || format!("{s:?}").len());
                },
            }
        }
        drop(s);
    }
    good.cnt();
    st.sample(|| format!("{} p={p}, donors p={q}: {rounds} tampered payloads", S::NAME));
    Ok(())
}
