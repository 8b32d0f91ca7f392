#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
T = {
 'C01': ('runtime monitor: histories of one element set compared by estimate fingerprints', 'Held on the sets and histories generated (counts in the evidence); the oracle is the sketch itself on another history, so it trusts no model.'),
 'C02': ('runtime monitor: merged sketches against direct insertion of the union', 'Held on the pairs and trees generated, in all four representation combinations and with pending insertions; compared on estimates, flooded clones and continuations.'),
 'C03': ('runtime monitor: exhaustive precisions and precision pairs, side effects observed by fingerprints', 'All 256 precisions and all ordered pairs of valid ones are tried; the states of the sketches are sampled.'),
 'C04': ('runtime monitor: online comparison with an independent reference estimator', 'Estimates within 1e-10 of a reference written from the published formulas, on every range and its boundaries.'),
 'C05': ('runtime monitor: online comparison with an independent reference estimator and a recorded copy of the calibration data', 'Estimates within 1e-10 of the reference; trusts that the calibration data of the base commit are the published ones (no network to compare with the source).'),
 'C06': ('runtime monitor: independent model of the code list (size, codes, switch) compared after every step', 'The switch is located to the element; registers read back through the public API after it.'),
 'C07': ('statistical runtime monitor with exact sampling of registers for huge cardinalities', 'Bounds chosen for a false-alarm rate far below 1e-6 per run; detects systematic errors of a few per cent of the standard error or more, not smaller ones.'),
 'C08': ('runtime monitor: lockstep of original and round-tripped sketches in three formats', 'Held on the histories and continuations generated.'),
 'C09': ('sanitizers (AddressSanitizer, Miri, overflow checks, debug assertions) under hostile workloads, range monitor on every estimate', 'Held on the executions observed; hand-made serialized data is the subject of C23.'),
 'C10': ('differential runtime monitor over all build configurations, one of them for a target without std', 'Twelve builds of one deterministic program, logs compared line by line; two builds for a bare-metal target.'),
 'C11': ('differential runtime monitor over targets interpreted by Miri, exchange of serialized sketches', 'i686 and s390x are interpreted, not run on hardware; workloads are small (Miri is slow).'),
 'C12': ('metering allocator: held bytes sampled after every operation', 'Bounds hold on the histories generated; leaks are seen as bytes not returned after drop.'),
 'C13': ('runtime monitor: runs with and without interleaved counts, clones mutated on either side', 'Held on the histories generated.'),
 'C14': ('runtime monitor: entry points against the hashes the builder computes; recording hashers; bit-influence probes', 'Held on the element types and hashers listed in the evidence.'),
 'C15': ('ThreadSanitizer, Miri (data races under a seeded scheduler with weak memory) and a concurrent-against-sequential monitor with injected pauses', 'Held on the interleavings observed (counted in the evidence).'),
 'C16': ('runtime monitor: output files of the program against the sketches, job counts varied', 'Held on the invocations made; random streams of cardinalities mode are judged statistically.'),
 'C17': ('golden payloads recorded from 0.4.1, read and continued by the current code', '214 recorded payloads over all precisions and representations.'),
 'C18': ('runtime monitor: every bucket read out through the public API by flooding the others', 'Held on the states generated; the read-out needs no access to private state.'),
 'C19': ('online monitor of the estimate after every insertion', 'Held on the sequences generated; drops are allowed only where the statement allows them.'),
 'C20': ('runtime monitor: the script run with a recording stand-in for the program and for matplotlib, results recomputed exactly', 'Held on the inputs generated; the drawing itself is not judged.'),
 'C21': ('runtime monitor: processor time of every operation in every representation', 'Bounds are constants 10 to 50 times above what is observed, the fastest of three runs counts; a slowdown by a small constant factor is not seen, nor one that shows only beyond the sizes tried.'),
 'C23': ('AddressSanitizer, Miri and compiler-inserted checks of unchecked operations under structure-aware tampering with serialized sketches', 'Held on the payloads generated; sizes that would exhaust memory are not tried.'),
 'C22': ('fault injection: panicking hash functions, hashers and builders, failing writers, truncated payloads, with the sketch compared to one that saw no fault', 'Held on the histories and faults injected.'),
}
checks = [dict(property=p, quick_cmd='python3 check.py ' + p,
               thorough_cmd='python3 check.py %s --tier thorough' % p,
               evidence_file='evidence/%s.json' % p, technique=t,
               level='exploration', level_note=n) for p, (t, n) in sorted(T.items())]
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks,
               not_applicable=[],
               notes='No hooks in /repo: every monitor works through the '
               'public API, the allocator, the compiler and the command '
               'line. KNOWN_FINDINGS.txt lists the defects found; all of '
               'them are repaired.'),
          open('MANIFEST.json', 'w'), indent=1)
