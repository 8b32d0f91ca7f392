"""Build configurations (C10) and target platforms (C11): one deterministic
program, run in every configuration, leaves a log of estimates; the logs are
compared line by line."""
import json
import os
import re
from concurrent.futures import ThreadPoolExecutor

from common import (BUILD, CPUS, ROOT, Inconclusive, Violation, cargo, close,
                    environment, errors, fresh, left, sh)

CRATE = os.path.join(ROOT, 'portable')
BARE = os.path.join(ROOT, 'bare')
HOST = 'x86_64-unknown-linux-gnu'
TOL = 1e-12

CONFIGS = {
    'default': (['--features', 'std'], True),
    'const-loop': (['--features', 'std,const-loop'], True),
    'std+alloc': (['--features', 'std,alloc'], True),
    'std+alloc+const-loop': (['--features', 'std,alloc,const-loop'], True),
    'no_std+alloc': (['--features', 'alloc'], False),
    'no_std+alloc+const-loop': (['--features', 'alloc,const-loop'], False),
}


def parse(text):
    log = {}
    for line in text.splitlines():
        key, bits, _ = line.split('\t')
        if key in log:
            raise Inconclusive('the program logged %r twice' % key)
        log[key] = unbits(bits)
    return log


def unbits(h):
    import struct
    return struct.unpack('>d', bytes.fromhex(h))[0]


def compare(name, log, ref_name, ref, plus, cov, tol=TOL):
    """Two logs of one program; `plus`: whether HyperLogLog++ is included."""
    want = [k for k in ref if plus or not k.startswith('Plus')]
    if set(want) != set(log):
        odd = sorted(set(want) ^ set(log))[:3]
        raise Inconclusive('%s and %s logged different things: %s'
                           % (name, ref_name, odd))
    for k in want:
        cov.evaluations += 1
        # Rounding of the logarithm in linear counting, times the number of
        # registers (2^25 and 2^16), whatever the formula.
        slack = 2e-7 if k.startswith('Plus') else 3e-10
        if not close(log[k], ref[k], tol) and \
                not abs(log[k] - ref[k]) <= slack:
            raise Violation('the estimate after %r is %r in the configuration '
                            '%s but %r in %s'
                            % (k, log[k], name, ref[k], ref_name))
        if log[k] != ref[k]:
            cov.count('estimates equal up to rounding only')
        cov.distinct.add((k, round(ref[k], 6)))
    cov.count('estimates compared: ' + name, len(want))


def died(what, r):
    """A run of the program that did not end well."""
    if r.crashed or 'panicked at' in r.err:
        raise Violation('%s fails: %s' % (what, r.tail(1500)))
    raise Inconclusive('%s ended with code %d: %s' % (what, r.code, r.tail()))


def c10(prop, tier, seed, cov):
    cov.rule = ('one case = one estimate of a deterministic program (growing '
                'streams, every rank, register levels through every estimator '
                'range, merges, all precisions) in one build configuration '
                'against the default one; non-trivial = distinct (history, '
                'estimate)')

    def build(job):
        name, profile = job
        flags, _ = CONFIGS[name]
        target = os.path.join(BUILD, 'portable-' + name)
        args = ['build', '--offline', '--no-default-features'] + flags
        if profile == 'release':
            args.append('--release')
        r = cargo(args, CRATE, target)
        path = os.path.join(target, profile, 'portable')
        return name, profile, r, path

    def bare(job):
        triple, feats = job
        target = os.path.join(BUILD, 'bare')
        args = ['build', '--offline', '-Zbuild-std=core,alloc',
                '--target', triple] + feats
        return job, cargo(args, BARE, target, 'nightly')

    for name in CONFIGS:
        fresh(os.path.join(BUILD, 'portable-' + name))
    fresh(os.path.join(BUILD, 'bare'))
    with ThreadPoolExecutor(CPUS) as ex:
        # The two profiles of one configuration share a target directory.
        jobs = [ex.submit(lambda n: [build((n, 'debug')),
                                     build((n, 'release'))], n)
                for n in CONFIGS]
        triples = ['x86_64-unknown-none']
        if tier == 'thorough':
            triples.append('thumbv7m-none-eabi')
        bares = ex.submit(lambda: [
            bare((t, f)) for t in triples
            for f in ([], ['--features', 'const-loop'])])
        builds = [b for j in jobs for b in j.result()]
        bares = bares.result()
    bad = [(n, p, r) for n, p, r, _ in builds if r.code != 0]
    if len(bad) == len(builds):
        raise Inconclusive('nothing builds against this tree:\n'
                           + errors(bad[0][2]))
    for n, p, r in bad:
        if 'error' not in r.err:
            raise Inconclusive('cargo failed: ' + r.tail())
        raise Violation('the configuration %s does not build (%s): %s'
                        % (n, p, errors(r)),
                        dict(replay='cd /verif/portable && cargo build '
                             '--offline --no-default-features '
                             + ' '.join(CONFIGS[n][0])))
    for (t, f), r in bares:
        if r.code != 0:
            if 'could not compile `hyperloglogplus`' in r.err or \
                    'could not compile `bare`' in r.err or \
                    'could not compile `serde' in r.err:
                raise Violation('the no_std configuration does not build for '
                                '%s, which has no standard library: %s'
                                % (t, errors(r)),
                                dict(replay='cd /verif/bare && cargo +nightly '
                                     'build --offline -Zbuild-std=core,alloc '
                                     '--target %s %s' % (t, ' '.join(f))))
            raise Inconclusive('cargo failed for %s: %s' % (t, r.tail()))
        cov.count('no_std builds for targets without std')
    cov.count('configurations built', len(builds))
    seeds = [seed] if tier == 'quick' else range(seed, seed + 12)
    paths = {(n, p): x for n, p, _, x in builds}
    for s in seeds:
        one = (lambda path: sh([path, 'log', 'full', str(s), '0', '1'],
                               timeout=1200))
        with ThreadPoolExecutor(CPUS) as ex:
            runs = {k: ex.submit(one, x) for k, x in paths.items()}
            runs = {k: f.result() for k, f in runs.items()}
        for (n, p), r in runs.items():
            if r.code != 0:
                died('the configuration %s (%s)' % (n, p), r)
        ref = parse(runs[('default', 'debug')].out)
        for (n, p), r in sorted(runs.items()):
            if (n, p) != ('default', 'debug'):
                compare('%s (%s)' % (n, p), parse(r.out),
                        'default (debug)', ref, CONFIGS[n][1], cov)
        for k in list(ref)[::len(ref) // 6]:
            cov.sample('%s: %r' % (k, ref[k]))
    cov.need({'configurations built': 12,
              'no_std builds for targets without std': 2,
              'estimates compared: no_std+alloc (release)': 2000,
              'estimates compared: const-loop (release)': 10000})


# --- Targets, under Miri ---

def miri_env(target):
    return dict(CARGO_TARGET_DIR=os.path.join(BUILD, 'miri-' + target),
                XDG_CACHE_HOME=os.path.join(BUILD, 'cache'),
                MIRIFLAGS='-Zmiri-disable-isolation'
                # Aliasing is checked on the host's own target (C09).
                + ('' if target == HOST else
                   ' -Zmiri-disable-stacked-borrows'))


def miri_prepare(target):
    """Sysroot and program for one target."""
    e = miri_env(target)
    fresh(e['CARGO_TARGET_DIR'])
    r = sh(['cargo', '+nightly', 'miri', 'setup', '--target', target],
           cwd=CRATE, env=e)
    if r.code != 0:
        raise Inconclusive('no Miri for %s: %s' % (target, r.tail()))
    # Builds the program, and runs it on nothing.
    r = miri(target, ['log', 'small', '1', '97', '98'])
    if r.code != 0:
        if target != HOST and ('could not compile `hyperloglogplus`' in r.err
                               or 'could not compile `portable`' in r.err):
            # It did build for the host.
            raise Violation('the library does not build for %s: %s'
                            % (target, errors(r)),
                            dict(replay='cd /verif/portable && cargo +nightly '
                                 'miri run --offline --target %s -- log small '
                                 '1 97 98' % target))
        if 'could not compile' in r.err:
            raise Inconclusive('the program does not build for %s:\n%s'
                               % (target, errors(r)))
        died('the program on ' + target, r)


def miri(target, args, timeout=None):
    return sh(['cargo', '+nightly', 'miri', 'run', '-q', '--offline',
               '--target', target, '--'] + args, cwd=CRATE,
              env=miri_env(target), timeout=timeout)


def judge(target, args, r):
    if r.code == 0:
        return r.out
    how = 'cargo +nightly miri run --target %s -- %s' % (target,
                                                         ' '.join(args))
    replay = dict(command=how, stderr=r.tail(4000))
    if 'Undefined Behavior' in r.err or 'data race' in r.err:
        i = r.err.index('error:') if 'error:' in r.err else 0
        raise Violation('undefined behaviour on %s: %s'
                        % (target, r.err[i:i + 700]), replay)
    if 'panicked at' in r.err:
        i = r.err.index('panicked at')
        raise Violation('the program panics on %s: %s'
                        % (target, r.err[i:i + 400]), replay)
    if 'memory leaked' in r.err:
        raise Violation('memory leaked on %s: %s' % (target, r.tail(700)),
                        replay)
    raise Inconclusive('Miri ended with code %d on %s: %s'
                       % (r.code, target, r.tail()))


def native_small():
    target = os.path.join(BUILD, 'portable-small')
    fresh(target)
    r = cargo(['build', '--release', '--offline'], CRATE, target)
    if r.code != 0:
        raise Inconclusive('the program does not build:\n' + errors(r))
    return os.path.join(target, 'release', 'portable')


PARTS = 16


def c11(prop, tier, seed, cov):
    cov.rule = ('one case = one estimate of a deterministic program on one '
                'target (interpreted by Miri, which also watches for '
                'overflow and undefined behaviour) against the native host, '
                'or of a sketch written on one target and continued on '
                'another; non-trivial = distinct (history, estimate)')
    exe = native_small()
    targets = ['i686-unknown-linux-gnu', 's390x-unknown-linux-gnu']
    if tier == 'thorough':
        targets += ['powerpc-unknown-linux-gnu', 'aarch64-unknown-linux-gnu']
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(miri_prepare, t) for t in targets]:
            f.result()
    seeds = [seed] if tier == 'quick' else range(seed, seed + 6)
    for s in seeds:
        def native(*a):
            r = sh([exe] + list(a))
            if r.code != 0:
                died('the program on the host', r)
            return r.out
        ref = parse(native('log', 'small', str(s), '0', '1'))
        shelf = native('write', 'small', str(s), '0', '1')
        # What takes an interpreter too long to parse stays out.
        shelf = '\n'.join(l for l in shelf.splitlines()
                          if len(l) < 40000) + '\n'
        books = os.path.join(BUILD, 'shelf.txt')
        with open(books, 'w') as f:
            f.write(shelf)
        ref_read = parse(native('read', 'small', str(s), '0', '1', books))
        with ThreadPoolExecutor(CPUS) as ex:
            jobs = {}
            for what in ('log', 'read', 'write'):
                for t in targets:
                    for part in range(PARTS):
                        args = [what, 'small', str(s), str(part), str(PARTS)]
                        if what == 'read':
                            args.append(books)
                        jobs[(what, t, part)] = (args, ex.submit(
                            miri, t, args))
            outs = {}
            for (what, t, part), (args, f) in jobs.items():
                outs.setdefault((what, t), []).append(
                    judge(t, args, f.result()))
        for t in targets:
            compare(t, parse(''.join(outs[('log', t)])), 'the host', ref,
                    True, cov)
            cov.count('estimates on ' + t, len(ref))
            compare('%s (sketches written on the host)' % t,
                    parse(''.join(outs[('read', t)])), 'the host', ref_read,
                    True, cov)
            written = ''.join(outs[('write', t)])
            path = os.path.join(BUILD, 'shelf-%s.txt' % t)
            with open(path, 'w') as f:
                f.write(written)
            full = parse(native('read', 'small', str(s), '0', '1', path))
            path_h = os.path.join(BUILD, 'shelf-host.txt')
            with open(path_h, 'w') as f:
                f.write(native('write', 'small', str(s), '0', '1'))
            mine = parse(native('read', 'small', str(s), '0', '1', path_h))
            compare('the host (sketches written on %s)' % t, full,
                    'the host alone', mine, True, cov)
            cov.count('sketches carried from %s' % t,
                      len(written.splitlines()))
            cov.count('sketches carried to %s' % t, len(shelf.splitlines()))
        for k in list(ref)[::max(1, len(ref) // 6)]:
            cov.sample('%s: %r' % (k, ref[k]))
    cov.need({'estimates on ' + t: 200 for t in targets})
    cov.need({'sketches carried from ' + t: 80 for t in targets})


def cold_starts(crate, tier, seed, cov):
    """The threaded program natively, in many fresh processes: what happens
    only once per process happens concurrently in each of them."""
    target = os.path.join(BUILD, 'race')
    fresh(target)
    r = cargo(['build', '--release', '--offline'], crate, target)
    if r.code != 0:
        raise Inconclusive('the threaded program does not build:\n'
                           + errors(r))
    exe = os.path.join(target, 'release', 'race')

    def one(k):
        # A small one every other time: the threads then start closer together.
        args = [str(2 + k % 15), str(1 if k % 2 else 40)]
        return args, sh([exe] + args, timeout=120)

    with ThreadPoolExecutor(2) as ex:
        for args, r in ex.map(one, range(600 if tier == 'quick' else 20000)):
            how = 'the threaded program (race %s)' % ' '.join(args)
            if r.code == 3 or 'panicked at' in r.err or r.crashed:
                raise Violation('%s fails: %s' % (how, r.tail(700)), dict(
                    command='cd /verif/race && cargo build --release '
                    '--offline && while target/release/race %s; do :; done'
                    % ' '.join(args)))
            found = INTERLEAVING.findall(r.out)
            if r.code != 0 or not found:
                raise Inconclusive('%s ended with code %d: %s'
                                   % (how, r.code, r.tail()))
            digest, switches, m = found[0]
            cov.evaluations += int(m)
            cov.distinct.add(('cold start', digest))
            cov.count('cold starts')
            cov.count('cold starts: switches between threads', int(switches))
    cov.need({'cold starts': 500})


INTERLEAVING = re.compile(r'INTERLEAVING ([0-9a-f]{16}) (\d+) (\d+)')


def miri_threads(tier, seed, cov):
    """Many schedules of a small threaded program, watched by Miri's race
    detector and its emulation of weak memory, for C15."""
    crate = os.path.join(ROOT, 'race')
    cold_starts(crate, tier, seed, cov)
    e = miri_env(HOST)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'miri-race')
    fresh(e['CARGO_TARGET_DIR'])
    r = sh(['cargo', '+nightly', 'miri', 'setup', '--target', HOST],
           cwd=crate, env=e)
    if r.code != 0:
        raise Inconclusive('no Miri for %s: %s' % (HOST, r.tail()))
    n, step = (48, 48) if tier == 'quick' else (4000, 400)
    first = seed * 100000
    while n > 0 and left() > 120:
        e['MIRIFLAGS'] = (
            '-Zmiri-preemption-rate=0.05 -Zmiri-disable-stacked-borrows '
            '-Zmiri-many-seeds=%d..%d' % (first, first + step))
        r = sh(['cargo', '+nightly', 'miri', 'run', '-q', '--offline',
                '--target', HOST], cwd=crate, env=e)
        how = 'the threaded program under Miri (%s)' % e['MIRIFLAGS']
        replay = dict(command='cd /verif/race && MIRIFLAGS="%s" cargo '
                      '+nightly miri run --offline' % e['MIRIFLAGS'],
                      stderr=r.tail(4000))
        if r.code != 0:
            if 'could not compile' in r.err:
                raise Inconclusive('%s does not build:\n%s'
                                   % (how, errors(r)))
            for sign in ('Undefined Behavior', 'Data race', 'MISMATCH',
                         'panicked at', 'memory leaked', 'deadlock'):
                if sign in r.err:
                    i = max(0, r.err.index(sign) - 60)
                    raise Violation('%s fails: %s' % (how, r.err[i:i + 700]),
                                    replay)
            raise Inconclusive('%s ended with code %d: %s'
                               % (how, r.code, r.tail()))
        for digest, switches, m in INTERLEAVING.findall(r.out):
            cov.evaluations += int(m)
            cov.distinct.add(('interleaving', digest))
            cov.count('Miri: schedules')
            cov.count('Miri: switches between threads', int(switches))
        first += step
        n -= step
    cov.need({'Miri: schedules': 40})


def miri_tampered(tier, seed, cov):
    """The monitor of C23, every case in a Miri of its own."""
    from native import WRAPPING
    crate = os.path.join(ROOT, 'harness')
    e = miri_env(HOST)
    e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'miri-harness')
    fresh(e['CARGO_TARGET_DIR'])
    r = sh(['cargo', '+nightly', 'miri', 'setup', '--target', HOST],
           cwd=crate, env=e)
    if r.code != 0:
        raise Inconclusive('no Miri for %s: %s' % (HOST, r.tail()))

    def one(case):
        out = os.path.join(BUILD, 'miri-case-%d.json' % case)
        if os.path.exists(out):
            os.remove(out)
        r = sh(['cargo', '+nightly', 'miri', 'run', '-q', '--offline',
                '--target', HOST] + WRAPPING
               + ['--', 'C23', '--seed', str(seed), '--case', str(case),
                  '--threads', '1', '--out', out],
               cwd=crate, env=e, timeout=600)
        o = None
        if os.path.exists(out):
            o = json.load(open(out))
            os.remove(out)
        return case, r, o

    def look(case, r, o):
        i = r.err.find('Undefined Behavior')
        if i >= 0:
            raise Violation(
                'undefined behaviour: ' + r.err[i:i + 700],
                dict(command='cd /verif/harness && MIRIFLAGS=-Zmiri-disable-'
                     'isolation cargo +nightly miri run --offline -- C23 '
                     '--seed %d --case %d --threads 1' % (seed, case),
                     stderr=r.err[i:i + 5000]))
        if o is None or r.code != 0 or o['error']:
            raise Inconclusive('Miri ended with code %d on case %d: %s'
                               % (r.code, case, r.tail()))
        for k, n in o['observed'].items():
            cov.count('Miri: ' + k, n)
        cov.count('Miri: cases')

    look(*one(0))  # Builds.
    with ThreadPoolExecutor(CPUS) as ex:
        upto, case = (28, 1) if tier == 'quick' else (28 * 100, 1)
        while case < upto and (tier == 'quick' or left() > 120):
            batch = range(case, min(case + 27, upto))
            for x in list(ex.map(one, batch)):
                look(*x)
            case += len(batch)
    cov.need({'Miri: cases': 20, 'Miri: tampered payloads accepted': 50})


def miri_host(tier, seed, cov):
    """The same program on the host's own target, for C09."""
    miri_prepare(HOST)
    seeds = [seed] if tier == 'quick' else range(seed, seed + 6)
    for s in seeds:
        with ThreadPoolExecutor(CPUS) as ex:
            jobs = []
            for part in range(PARTS):
                args = ['log', 'small', str(s), str(part), str(PARTS)]
                jobs.append((args, ex.submit(miri, HOST, args)))
            for args, f in jobs:
                log = parse(judge(HOST, args, f.result()))
                for k, v in log.items():
                    cov.evaluations += 1
                    cov.count('estimates under Miri')
                    if not 0 <= v < float('inf'):
                        raise Violation('the estimate after %r is %r' % (k, v))
