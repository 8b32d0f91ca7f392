"""Checks carried out by the Rust monitors (harness/)."""
import json
import os
import re

from common import (BUILD, CPUS, ROOT, Inconclusive, Violation, cargo, errors,
                    fails_in_repo, fresh, left, sh)

CRATE = os.path.join(ROOT, 'harness')
TRIPLE = 'x86_64-unknown-linux-gnu'


# The library as users build it: overflow wraps, no debug assertions.
LIB = 'profile.release.package.hyperloglogplus.'
WRAPPING = ['--config', LIB + 'overflow-checks=false',
            '--config', LIB + 'debug-assertions=false']


def build(features=(), sanitizer=None, wrapping=False):
    """Builds the monitors; returns the path of the program."""
    name = 'harness' + ('-' + sanitizer if sanitizer else '')
    target = os.path.join(BUILD, name)
    fresh(target)
    args = ['build', '--release', '--offline'] + (WRAPPING if wrapping else [])
    env = {}
    tc = None
    where = os.path.join(target, 'release')
    if features:
        args += ['--features', ','.join(features)]
    if wrapping:
        # Unchecked operations of the standard library check themselves.
        tc = 'nightly'
        env['RUSTFLAGS'] = '-Zub-checks=yes'
        target += '-wrapping'
        where = os.path.join(target, 'release')
        fresh(target)
    if sanitizer:
        tc = 'nightly'
        args += ['--target', TRIPLE, '-Zbuild-std']
        env['RUSTFLAGS'] = (env.get('RUSTFLAGS', '') + ' -Zsanitizer='
                            + sanitizer).strip()
        where = os.path.join(target, TRIPLE, 'release')
    r = cargo(args, CRATE, target, tc, env)
    if r.code != 0:
        raise BuildFailed(r)
    return os.path.join(where, 'hllmon')


class BuildFailed(Inconclusive):
    def __init__(self, ran):
        super().__init__('the monitors do not build against this tree:\n'
                         + errors(ran))
        self.ran = ran
        self.in_repo = fails_in_repo(ran)


def monitor(exe, prop, tier, seed, cases=None, env=None, tag='', threads=None,
            budget=None):
    """Runs one monitor; returns what it observed or raises the verdict."""
    out = os.path.join(BUILD, 'out-%s%s.json' % (prop, tag))
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, prop, '--seed', str(seed), '--tier', tier, '--out', out,
           '--threads', str(threads or CPUS)]
    if cases:
        cmd += ['--cases', str(cases)]
    if budget:
        cmd += ['--budget', str(int(budget))]
    r = sh(cmd, env=env)
    how = 'hllmon %s --seed %d --tier %s' % (prop, seed, tier)
    sig = r.crashed
    rep = re.search(r'(WARNING|ERROR): (Thread|Address|Leak)Sanitizer: .*',
                    r.err)
    if rep:
        if 'out of memory' in rep.group(0) or 'failed to' in rep.group(0):
            raise Inconclusive(rep.group(0))
        i = r.err.index(rep.group(0))
        raise Violation('a sanitizer reports: ' + rep.group(0),
                        dict(command=how + tag, report=r.err[i:i + 6000]))
    if 'memory allocation of' in r.err:
        raise Inconclusive('%s ran out of memory: %s' % (how, r.tail()))
    if sig:
        raise Violation('the program crashed with %s: %s' % (sig, r.tail(600)),
                        dict(command=how + tag, stderr=r.tail(4000)))
    if not os.path.exists(out):
        raise Inconclusive('%s ended with code %d: %s'
                           % (how, r.code, r.tail()))
    o = json.load(open(out))
    if o['violation']:
        v = o['violation']
        raise Violation(
            v['what'],
            dict(case=v['case'],
                 replay='cd /verif/harness && cargo run --release --offline '
                 '-- %s --seed %d --tier %s --case %d'
                 % (prop, seed, tier, v['case']), observed=o['observed']))
    if o['error']:
        raise Inconclusive('the monitor failed: ' + o['error'])
    if o['missing'] and not cases:
        raise Inconclusive('too little was observed: '
                           + '; '.join(o['missing']))
    return o


def absorb(cov, o, tag=''):
    cov.evaluations += o['evaluations']
    cov.count(tag + 'cases', o['cases'])
    cov.distinct_extra += o['distinct_nontrivial'] if not tag else 0
    if not tag:
        cov.rule = o['rule'] + ('; ' + cov.rule if cov.rule else '')
    for s in o['samples']:
        cov.sample(tag + s if isinstance(s, str) else s)
    for k, n in o['observed'].items():
        cov.count(tag + k, n)
    for k, n in o['distinct_seen'].items():
        cov.count(tag + 'distinct ' + k, n)


def budget(tier):
    return None if tier == 'quick' else max(60.0, left() - 120)


def simple(prop, tier, seed, cov):
    """The monitor of one property, and nothing else."""
    exe = build()
    absorb(cov, monitor(exe, prop, tier, seed, budget=budget(tier)))
    if tier == 'thorough':
        # The other implementation of the harmonic mean as well.
        exe = build(['const-loop'])
        absorb(cov, monitor(exe, prop, 'quick', seed + 1, tag=' const-loop'),
               'const-loop: ')


def c09(prop, tier, seed, cov):
    """Overflow checks, debug assertions, AddressSanitizer and Miri."""
    import portab
    exe = build()
    absorb(cov, monitor(exe, prop, tier, seed, budget=budget(tier)))
    exe = build(['const-loop'])
    absorb(cov, monitor(exe, prop, 'quick', seed + 1, cases=1400,
                        tag=' const-loop'), 'const-loop: ')
    asan = build(sanitizer='address')
    env = dict(ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=77')
    n = {'C09': 1400, 'C02': 560, 'C08': 560, 'C18': 560}
    for other, cases in n.items():
        try:
            o = monitor(asan, other, tier, seed, env=env,
                        cases=cases * (1 if tier == 'quick' else 8),
                        tag=' under AddressSanitizer')
            absorb(cov, o, 'AddressSanitizer %s: ' % other)
        except Violation as v:
            # The other properties have checks of their own; here only what
            # concerns memory and panics counts.
            if other == 'C09' or 'sanitizer reports' in v.what \
                    or 'crashed with' in v.what or 'panicked' in v.what:
                raise
            cov.notes.append('%s fails: see its own check' % other)
    portab.miri_host(tier, seed, cov)


def c23(prop, tier, seed, cov):
    """Tampered payloads: checked unsafe operations, ASan and Miri."""
    exe = build(wrapping=True)
    absorb(cov, monitor(exe, prop, tier, seed,
                        budget=budget(tier) and budget(tier) / 3))
    exe = build(['const-loop'], wrapping=True)
    absorb(cov, monitor(exe, prop, 'quick', seed + 1, cases=700,
                        tag=' const-loop'), 'const-loop: ')
    asan = build(sanitizer='address', wrapping=True)
    env = dict(ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=77')
    for other, cases in (('C23', 840), ('C22', 280), ('C14', 280),
                         ('C13', 140)):
        try:
            o = monitor(asan, other, 'quick', seed + 2, env=env,
                        cases=cases * (1 if tier == 'quick' else 8),
                        tag=' under AddressSanitizer')
            absorb(cov, o, 'AddressSanitizer %s: ' % other)
        except Violation as v:
            # What the other monitors say is for their own checks.
            if 'sanitizer reports' in v.what or 'crashed with' in v.what:
                raise
            cov.notes.append('%s fails: see its own check' % other)
    import portab
    portab.miri_tampered(tier, seed, cov)


def c14(prop, tier, seed, cov):
    """Entry points, with elements of unsized types too."""
    try:
        exe = build(['unsized'])
    except BuildFailed as e:
        if not e.in_repo and re.search(
                r'the size for values of type .* cannot be known', e.ran.err):
            build()  # It is not that nothing builds.
            raise Violation(
                'there are no sketches of unsized elements: '
                + errors(e.ran, 700),
                dict(replay='cd /verif/harness && cargo build --release '
                     '--offline --features unsized'))
        raise
    absorb(cov, monitor(exe, prop, tier, seed, budget=budget(tier)))


def c15(prop, tier, seed, cov):
    """Threads against the sequential execution, plainly and under TSan."""
    try:
        exe = build(['threads'])
    except BuildFailed as e:
        if not e.in_repo and re.search(
                r'cannot be (sent|shared) between threads safely', e.ran.err):
            build()  # It is not that nothing builds.
            raise Violation(
                'sketches are not Send and Sync: ' + errors(e.ran, 700),
                dict(replay='cd /verif/harness && cargo build --release '
                     '--offline --features threads'))
        raise
    # Several rounds: what a race does varies from run to run.
    rounds = 3 if tier == 'quick' else 12
    for k in range(rounds):
        o = monitor(exe, prop, 'quick' if k else tier, seed + 1000 * k,
                    threads=4, budget=budget(tier) and budget(tier) / 6)
        absorb(cov, o, '' if k == 0 else 'round %d: ' % (k + 1))
        if k:
            cov.distinct_extra += o['distinct_nontrivial']
    tsan = build(['threads'], sanitizer='thread')
    env = dict(TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_bugs=1')
    for k in range(2 if tier == 'quick' else 8):
        o = monitor(tsan, prop, 'quick', seed + 77 + k, cases=560, env=env,
                    tag=' under ThreadSanitizer', threads=4)
        absorb(cov, o, 'ThreadSanitizer: ')
    import portab
    portab.miri_threads(tier, seed, cov)
