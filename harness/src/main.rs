//! Runtime monitors for the sketches: generates workloads, drives the real
//! library, compares what it observes with the oracles of each property.
#![allow(clippy::all)]
#[macro_use]
mod util;
#[macro_use]
mod sk;
mod gen;
#[allow(dead_code)]
mod golden;
mod model;
mod probe;
mod props;

use props::*;
use std::time::Instant;
use util::{run_cases, Stats, Verdict};

#[global_allocator]
static METER: memory::Meter = memory::Meter;

struct Prop {
    id: &'static str,
    quick: u64,
    thorough: u64,
    case: fn(u64, &Cx, &mut Stats) -> Verdict,
    rule: &'static str,
    /// What a run must have observed for its verdict to count.
    need: &'static [(&'static str, u64)],
}

fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            quick: 28 * 100,
            thorough: 28 * 3000,
            case: sets::c01,
            rule: "one case = one element set (10 workload kinds, sizes around every representation change) and 4 random histories of it, compared by fingerprints (count, flooded clones, continuations); non-trivial = distinct (type, precision, size, estimate)",
            need: &[
                ("history pairs compared", 500),
                ("C01 state HyperLogLogPlus sparse", 20),
                ("C01 state HyperLogLogPlus dense", 20),
                ("C01 state HyperLogLogPF dense", 50),
            ],
        },
        Prop {
            id: "C02",
            quick: 28 * 80,
            thorough: 28 * 2400,
            case: sets::c02,
            rule: "one case = two random element sets with chosen overlap, merged in both orders, repeatedly, with empty sketches, across hasher types and as a tree of shards, all compared with direct insertion of the union; non-trivial = distinct (type, precision, union estimate, source estimate)",
            need: &[
                ("merges observed", 2000),
                ("diverged clones merged", 10_000),
                ("repetitions", 12 * 66_000),
                ("C02 pair sparse + sparse", 10),
                ("C02 pair sparse + dense", 10),
                ("C02 pair dense + sparse", 10),
                ("C02 pair dense + dense", 10),
                ("C02 merge triggers conversion", 3),
            ],
        },
        Prop {
            id: "C03",
            quick: sets::C03_CASES,
            thorough: sets::C03_CASES * 60,
            case: sets::c03,
            rule: "all 256 precision values for both constructors, and all ordered pairs of valid precisions in 4 x 4 states of receiver and source; non-trivial = distinct (type, p, q, states)",
            need: &[
                ("constructions accepted", 28),
                ("constructions rejected", 484),
                ("rejected merges observed", 5000),
                ("repetitions", 4 * 66_000),
            ],
        },
        Prop {
            id: "C04",
            quick: 13 * 320,
            thorough: 13 * 10000,
            case: estimators::c04,
            rule: "one case = one register history of HyperLogLogPF (uniform streams, crafted register profiles, boundaries of the three ranges), every estimate compared with an independent reference estimator; non-trivial = distinct (precision, estimate)",
            need: &[
                ("branch linear", 2000),
                ("branch raw", 2000),
                ("branch large", 1000),
                ("branch saturated", 5),
            ],
        },
        Prop {
            id: "C05",
            quick: 15 * 48,
            thorough: 15 * 1500,
            case: estimators::c05,
            rule: "one case = one dense HyperLogLogPlus history (growing streams over the whole bias table, threshold walks, crafted profiles), every estimate compared with an independent reference estimator and a separate copy of the published calibration data; non-trivial = distinct (precision, estimate)",
            need: &[
                ("branch linear", 1000),
                ("branch corrected, empty registers", 2000),
                ("branch corrected, full", 1000),
                ("branch raw, full", 1000),
                ("branch raw, empty registers", 50),
                ("estimates around the threshold", 300),
            ],
        },
        Prop {
            id: "C06",
            quick: 15 * 72,
            thorough: 15 * 2500,
            case: estimators::c06,
            rule: "one case = one element sequence (uniform, clustered, varint-boundary, flagged codes), observed while sparse, exactly at the element that makes the encoded list too long, and after the conversion; non-trivial = distinct (precision, number of codes, encoded length at the switch)",
            need: &[
                ("sparse estimates compared", 3000),
                ("conversions located", 60),
                ("lossless conversions observed", 60),
                ("buckets read back after conversion", 500),
            ],
        },
        Prop {
            id: "C07",
            quick: 0,
            thorough: 0,
            case: accuracy::c07,
            rule: "one case = one cell (type, precision, cardinality): error statistics over many random streams (or registers drawn from their exact distribution for huge cardinalities) against 1.04/sqrt(m) and against the published estimator on the same streams; non-trivial = distinct (type, precision, observed error)",
            need: &[
                ("streams observed", 100_000),
                ("cells sparse", 20),
                ("cells dense", 200),
                ("cells with drawn registers", 100),
                ("cells with SipHash on sequential keys", 50),
                ("insertions of endless streams", 9_200_000_000),
            ],
        },
        Prop {
            id: "C08",
            quick: 28 * 48,
            thorough: 28 * 1500,
            case: sets::c08,
            rule: "one case = one sketch at a random point of a random history, round-tripped through JSON (three ways), bincode and CBOR, compared at once and in lockstep with the original over random continuations; non-trivial = distinct (type, precision, size, estimate)",
            need: &[
                ("round trips Json", 100),
                ("pool round trips", 10_000),
                ("repetitions", 20 * 66_000),
                ("round trips Bincode", 100),
                ("round trips Cbor", 100),
                ("continuation steps", 3000),
                ("C08 state HyperLogLogPlus sparse", 20),
                ("C08 state HyperLogLogPlus dense", 20),
            ],
        },
        Prop {
            id: "C09",
            quick: 28 * 160,
            thorough: 28 * 5000,
            case: misc::c09,
            rule: "one case = one random API history over a pool of four sketches with adversarial hashes, or one saturation profile, in a build with overflow checks and debug assertions; every estimate checked for range; non-trivial = distinct (type, precision, estimate)",
            need: &[
                ("estimates observed", 20_000),
                ("operations", 20_000),
                ("fully saturated sketches", 28),
                ("round trips", 500),
            ],
        },
        Prop {
            id: "C12",
            quick: 28 * 96,
            thorough: 28 * 2400,
            case: memory::c12,
            rule: "one case = one sketch driven through insertions, counts, merges and re-insertions under a metering allocator, the bytes it holds sampled after every operation; non-trivial = distinct (type, precision, workload, largest size)",
            need: &[("merges of a stream of sparse sketches", 10_000), ("allocator samples", 100_000), ("operations of long lives", 1_000_000), ("final state dense", 50), ("final state sparse", 1)],
        },
        Prop {
            id: "C13",
            quick: 28 * 64,
            thorough: 28 * 2000,
            case: sets::c13,
            rule: "one case = one history run with and without interleaved counts, and clones mutated and dropped on either side; non-trivial = distinct (type, precision, size, estimate)",
            need: &[("interleaved counts", 20_000), ("clones observed", 1000), ("pool clones", 10_000), ("repetitions", 16 * 66_000)],
        },
        Prop {
            id: "C14",
            quick: 28 * 54,
            thorough: 28 * 1600,
            case: identity::c14,
            rule: "one case = one element type group through every entry point against the hashes the builder computes, plus bit-by-bit influence of the hash; non-trivial = distinct (type, precision, values)",
            need: &[
                ("entry point comparisons", 2000),
                ("rank bits shown to matter", 2000),
                ("index bits shown to matter", 2000),
                ("hasher feeds observed", 2000),
                #[cfg(feature = "unsized")]
                ("sketches of unsized elements", 2000),
            ],
        },
        #[cfg(feature = "threads")]
        Prop {
            id: "C15",
            quick: 28 * 90,
            thorough: 28 * 2700,
            case: threads::c15,
            rule: "one case = one concurrent program (shards merged by threads, readers of one shared sketch, independent sketches) with injected pauses, compared with its sequential execution; non-trivial = distinct (type, precision, threads, observed order of operations)",
            need: &[
                ("shard runs", 20),
                ("shared reader runs", 20),
                ("independent runs", 20),
                ("context switches between operations", 500),
            ],
        },
        Prop {
            id: "C17",
            quick: 0,
            thorough: 0,
            case: misc::c17,
            rule: "one case = one JSON payload recorded from version 0.4.1, read by the current code and compared with a sketch built from the same elements; non-trivial = distinct (type, precision, recorded sketch)",
            need: &[("payloads read", 200)],
        },
        Prop {
            id: "C18",
            quick: 28 * 120,
            thorough: 28 * 2400,
            case: sets::c18,
            rule: "one case = one dense state reached by a random mixture of insertions, merges, clones and round trips; buckets read out one by one (and in groups) by flooding all others; non-trivial = distinct (type, precision, bucket, rank)",
            need: &[("buckets read out", 5000), ("buckets read out in groups", 10_000)],
        },
        Prop {
            id: "C19",
            quick: 28 * 42,
            thorough: 28 * 1200,
            case: estimators::c19,
            rule: "one case = one insertion sequence, the estimate observed after every insertion (in windows for large precisions); non-trivial = distinct sequences",
            need: &[
                ("consecutive estimates observed", 50_000),
                ("within linear", 2000),
                ("within corrected", 1000),
                ("within raw", 1000),
                ("within sparse", 1000),
            ],
        },
        Prop {
            id: "C21",
            quick: 28 * 6,
            thorough: 28 * 200,
            case: cost::c21,
            rule: "one case = one sketch type and precision: every operation timed (processor time of the thread) in every representation; non-trivial = distinct (type, precision, workload)",
            need: &[("timings", 3000), ("operations timed", 3_000_000)],
        },
        Prop {
            id: "C22",
            quick: 28 * 36,
            thorough: 28 * 1200,
            case: failures::c22,
            rule: "one case = one history with panics in hash functions, hashers and builders, failing writers, incomplete payloads and elements that use sketches themselves, compared with the same history without; non-trivial = distinct (type, precision, size, estimate)",
            need: &[
                ("panics in hash functions", 5000),
                ("panics in hashers", 5000),
                ("incomplete payloads", 5000),
                ("nested uses", 50_000),
                ("sketches with 66,000 panics", 4),
                ("C22 state HyperLogLogPlus sparse", 20),
                ("C22 state HyperLogLogPlus sparse with pending", 20),
                ("C22 state HyperLogLogPlus dense", 20),
            ],
        },
        Prop {
            id: "C23",
            quick: 28 * 100,
            thorough: 28 * 20000,
            case: tamper::c23,
            rule: "one case = 24 payloads with fields exchanged, cut, extended and overwritten, and random operations on every sketch they are accepted as; non-trivial = distinct accepted payloads",
            need: &[
                ("tampered payloads accepted", 20_000),
                ("tampered payloads rejected", 500),
                ("operations on tampered sketches", 500_000),
                ("panics", 5_000),
            ],
        },
    ]
}

fn main() {
    util::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: hllmon PROPERTY [--seed N] [--tier quick|thorough] [--case N] [--cases N] [--threads N] [--out FILE]");
        std::process::exit(2);
    }
    if args[1] == "record" {
        misc::record(&args[2]);
        return;
    }
    if args[1] == "hashes" {
        // Estimates for every prefix of a hash list on stdin.
        return prefixes(&args[2], args[3].parse().unwrap());
    }
    let get = |k: &str| {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone())
    };
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let only = get("--case").map(|s| s.parse::<u64>().unwrap());
    let threads: usize = get("--threads").map(|s| s.parse().unwrap()).unwrap_or(8);
    let budget: f64 = get("--budget").map(|s| s.parse().unwrap()).unwrap_or(1e9);
    let ps = props();
    let p = match ps.iter().find(|p| p.id == args[1]) {
        Some(p) => p,
        None => {
            eprintln!("no such property here: {}", args[1]);
            std::process::exit(2);
        },
    };
    let mut n = if thorough { p.thorough } else { p.quick };
    if p.id == "C07" {
        n = accuracy::units().len() as u64 * if thorough { 3 } else { 1 };
    }
    if p.id == "C17" {
        n = misc::goldens().len() as u64 * if thorough { 120 } else { 6 };
    }
    let partial = get("--cases").is_some();
    if let Some(c) = get("--cases") {
        n = c.parse().unwrap();
    }
    let cx = Cx { seed, thorough };
    let t0 = Instant::now();
    let case = p.case;
    if !cfg!(miri) {
        // A call that never returns: the verdict is written from outside.
        let (id, file, rule) = (p.id, get("--out"), p.rule);
        util::watchdog(move |case, what| {
            let case = if case == u64::MAX { 0 } else { case };
            let out = serde_json::json!({
                "property": id, "seed": seed, "rule": rule,
                "tier": if thorough { "thorough" } else { "quick" },
                "evaluations": 0, "cases": 0, "planned": n,
                "distinct_nontrivial": 0, "samples": [], "observed": {},
                "distinct_seen": {}, "missing": [], "error": null,
                "violation": {"case": case, "what": what},
                "wall_s": t0.elapsed().as_secs_f64(),
            });
            let text = serde_json::to_string_pretty(&out).unwrap();
            match &file {
                Some(f) => std::fs::write(f, text).unwrap(),
                None => println!("{text}"),
            }
            std::process::exit(1);
        });
    }
    let run = run_cases(n, threads, only, budget, &|i, st| case(i, &cx, st));
    let wall = t0.elapsed().as_secs_f64();
    let mut missing = Vec::new();
    if only.is_none() && !partial && run.violation.is_none() && run.error.is_none() {
        for (k, min) in p.need {
            if run.stats.get(k) < *min {
                missing.push(format!("{k}: {} < {min}", run.stats.get(k)));
            }
        }
    }
    let counters: serde_json::Map<String, serde_json::Value> = run
        .stats
        .counters
        .iter()
        .map(|(k, v)| (k.clone(), (*v).into()))
        .collect();
    let marks: serde_json::Map<String, serde_json::Value> = run
        .stats
        .marks
        .iter()
        .map(|(k, v)| (k.clone(), v.len().into()))
        .collect();
    let out = serde_json::json!({
        "property": p.id,
        "seed": seed,
        "tier": if thorough { "thorough" } else { "quick" },
        "evaluations": run.evaluations.max(run.stats.tried),
        "cases": run.evaluations,
        "planned": n,
        "distinct_nontrivial": run.stats.distinct.len(),
        "rule": p.rule,
        "samples": run.stats.samples,
        "observed": counters,
        "distinct_seen": marks,
        "missing": missing,
        "violation": run.violation.as_ref().map(|(i, m)| serde_json::json!({"case": i, "what": m})),
        "error": run.error,
        "wall_s": wall,
    });
    if let Some(f) = get("--out") {
        std::fs::write(f, serde_json::to_string_pretty(&out).unwrap()).unwrap();
    } else {
        println!("{}", serde_json::to_string_pretty(&out).unwrap());
    }
    let code = if run.violation.is_some() {
        1
    } else if run.error.is_some() || !missing.is_empty() {
        3
    } else {
        0
    };
    std::process::exit(code);
}

/// One line per prefix of the decimal hashes on stdin: the estimate.
fn prefixes(kind: &str, p: u8) {
    use sk::{Pf, Plus, Sk};
    use std::io::{Read, Write};
    let mut t = String::new();
    std::io::stdin().read_to_string(&mut t).unwrap();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    fn go<S: Sk>(t: &str, p: u8, out: &mut dyn Write) {
        let mut s = S::mk(p);
        for l in t.split_whitespace() {
            s.ins(l.parse().unwrap());
            writeln!(out, "{:?}", s.cnt()).unwrap();
        }
    }
    if kind == "hll" {
        go::<Pf>(&t, p, &mut out)
    } else {
        go::<Plus>(&t, p, &mut out)
    }
}
