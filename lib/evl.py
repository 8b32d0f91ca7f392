"""C16: the evaluation program, driven as a command line tool in a scratch
directory and compared with the sketches themselves."""
import math
import os
import random
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

import native
from common import (BUILD, CPUS, REPO, ROOT, Inconclusive, TimedOut, Violation,
                    cargo, errors, fresh, sh)

LOCK = '/opt/vp/locks/evaluation.lock'


def build():
    """The evaluation program, built from a copy of /repo's current tree, so
    that cargo writes nothing into /repo."""
    src = os.path.join(BUILD, 'evl-src')
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    shutil.copytree(REPO + '/src', src + '/src')
    shutil.copy(REPO + '/Cargo.toml', src)
    if os.path.exists(REPO + '/README.md'):
        shutil.copy(REPO + '/README.md', src)
    os.makedirs(src + '/evaluation')
    shutil.copytree(REPO + '/evaluation/src', src + '/evaluation/src')
    shutil.copy(REPO + '/evaluation/Cargo.toml', src + '/evaluation')
    for lock in (os.path.join(ROOT, 'locks', 'evaluation.lock'), LOCK,
                 REPO + '/evaluation/Cargo.lock'):
        if os.path.exists(lock):
            shutil.copy(lock, src + '/evaluation/Cargo.lock')
            break
    target = os.path.join(BUILD, 'evl')
    fresh(target)
    r = cargo(['build', '--release', '--offline'], src + '/evaluation', target)
    if r.code != 0:
        raise Inconclusive('the evaluation program does not build:\n'
                           + errors(r))
    return os.path.join(target, 'release', 'evl')


def call(exe, args, timeout=300):
    try:
        r = sh([exe] + args, timeout=timeout)
    except TimedOut as e:
        if e.whole:  # What takes it seconds at most.
            raise Violation('evl %s does not end within %d s'
                            % (' '.join(args)[:300], timeout))
        raise
    if r.code != 0:
        how = 'evl ' + ' '.join(args)
        if r.crashed or 'panicked at' in r.err or r.code in (1, 2):
            raise Violation('%s fails (code %d): %s'
                            % (how[:300], r.code, r.tail(600)))
        raise Inconclusive('%s ended with code %d: %s'
                           % (how, r.code, r.tail()))
    return r


def listing(d):
    return sorted(os.listdir(d))


def lines(path):
    """The lines of an output file, which must each end with a newline."""
    with open(path) as f:
        text = f.read()
    if text and not text.endswith('\n'):
        raise Violation('%s does not end with a newline'
                        % os.path.basename(path))
    return text.split('\n')[:-1]


def pair(line, where):
    w = line.split(' ')
    if len(w) != 2 or not all(x.isdigit() for x in w):
        raise Violation('%s: the line %r is not "number estimate"'
                        % (where, line))
    return int(w[0]), int(w[1])


def hash_files(rng, bits, where, big):
    """Input files of many shapes; returns {path: hashes}."""
    top = (1 << bits) - 1
    out = {}

    def put(name, hs):
        path = os.path.join(where, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(''.join('%d\n' % h for h in hs))
        out[path] = hs

    rnd = lambda: rng.getrandbits(bits)
    put('hashes-s%d-r0.dat' % bits, [rnd() for _ in range(big)])
    put('hashes-s%d-r1.dat' % bits, [rnd() for _ in range(rng.randint(1, 900))])
    put('one.dat', [rnd()])
    put('empty.dat', [])
    put('edges.dat', [0, top, 1, top - 1, 1 << (bits - 1), top >> 1, 0, top]
        + [1 << k for k in range(bits)] + [top >> k for k in range(bits)])
    few = [rnd() for _ in range(20)]
    put('deep/er/repeats.txt', [rng.choice(few) for _ in range(300)])
    put('no extension & space', [rnd() for _ in range(50)])
    # More than one read buffer, with the same prefix as another file.
    put('long.dat', [rnd() for _ in range(10_000 + rng.randint(1, 2500))])
    # Few registers, many elements: past linear counting.
    put('sequence.dat', [((i * 0x9E3779B97F4A7C15) >> (64 - bits)) & top
                         for i in range(1, 3000)])
    for k in range(5):
        put('more/part-%d.dat' % k,
            [rnd() for _ in range(rng.randint(5, 400))])
    return out


def reference(mon, kind, p, hashes, memo={}):
    key = (kind, p, tuple(hashes))
    if key not in memo:
        r = sh([mon, 'hashes', kind, str(p)],
               stdin=''.join('%d\n' % h for h in hashes))
        if r.code != 0:
            raise Inconclusive('the reference run failed: ' + r.tail())
        memo[key] = [float(x) for x in r.out.split()]
    return memo[key]


def same_estimate(got, est):
    """got is est without its fraction, up to rounding right at a number."""
    if math.isnan(est):
        return got == 0
    if got == int(est):
        return True
    near = round(est)
    return abs(est - near) <= 1e-9 * max(1.0, est) and got in (near, near - 1)


def leftovers(out, names, cov):
    """Longer files of earlier runs, to be replaced."""
    for name in names:
        with open(os.path.join(out, name), 'w') as f:
            f.write('9999999 8888888\n' * 1000 + '77777777\n' * 20000)
        cov.count('files of earlier runs replaced')


def run_hashes(exe, mon, kind, bits, p, files, jobs, scratch, cov, order):
    out = tempfile.mkdtemp(dir=scratch)
    names = list(files)
    order.shuffle(names)
    if len(names) < 50 and order.random() < 0.5:
        leftovers(out, ['est-p%d-%s' % (p, os.path.basename(f))
                        for f in names], cov)
    args = (['-j', str(jobs)] if jobs else []) + [
        'run', '-t', kind, '-m', 'hashes', '-p', str(p), '-o', out, '-i']
    call(exe, args + names)
    want = sorted('est-p%d-%s' % (p, os.path.basename(f)) for f in files)
    if listing(out) != want:
        raise Violation('evl run -t %s -p %d -j %s wrote the files %s, not %s'
                        % (kind, p, jobs, listing(out)[:20], want[:20]))
    for f, hashes in files.items():
        base = os.path.basename(f)
        where = 'evl run -t %s -p %d -j %s, file %s' % (kind, p, jobs, base)
        got = lines(os.path.join(out, 'est-p%d-%s' % (p, base)))
        if len(got) != len(hashes):
            raise Violation('%s: %d lines for %d hashes'
                            % (where, len(got), len(hashes)))
        ref = reference(mon, kind, p, hashes)
        for i, line in enumerate(got):
            n, e = pair(line, where)
            cov.evaluations += 1
            if n != i + 1:
                raise Violation('%s: line %d is for the prefix of length %d'
                                % (where, i + 1, n))
            if not same_estimate(e, ref[i]):
                raise Violation('%s: the estimate of the first %d hashes is '
                                'written as %d, but the sketch says %r'
                                % (where, n, e, ref[i]))
        cov.count('prefix estimates compared', len(got))
        cov.distinct.add((kind, p, base, len(hashes), got[-1] if got else ''))
    cov.count('runs in hashes mode')
    cov.sample('run -t %s -p %d -j %s on %d files: last line of long.dat %r'
               % (kind, p, jobs, len(files),
                  lines(os.path.join(out, 'est-p%d-long.dat' % p))[-1:]
                  if any(f.endswith('long.dat') for f in files) else '-'), 4)
    return {x: open(os.path.join(out, x)).read() for x in want}


def gen(exe, bits, count, runs, jobs, scratch, cov):
    out = tempfile.mkdtemp(dir=scratch)
    how = 'evl gen -s %d -c %d -r %d -j %s' % (bits, count, runs, jobs)
    if runs < 50:
        leftovers(out, ['hashes-s%d-r%d.dat' % (bits, r)
                        for r in range(runs)], cov)
    call(exe, (['-j', str(jobs)] if jobs else []) + [
        'gen', '-s', str(bits), '-c', str(count), '-r', str(runs), '-o', out])
    want = sorted('hashes-s%d-r%d.dat' % (bits, r) for r in range(runs))
    if listing(out) != want:
        raise Violation('%s wrote the files %s, not %s'
                        % (how, listing(out)[:20], want[:20]))
    everything = []
    for name in want:
        got = lines(os.path.join(out, name))
        cov.evaluations += 1
        if len(got) != count:
            raise Violation('%s: %s has %d lines' % (how, name, len(got)))
        for l in got:
            if not l.isdigit() or l != str(int(l)) or int(l) >> bits:
                raise Violation('%s: %s contains %r' % (how, name, l))
        everything += map(int, got)
        cov.count('generated hashes', len(got))
        cov.distinct.add((bits, count, runs, name))
    n = len(everything)
    if n >= 4000:
        # All bits are used, and nothing repeats more than by chance.
        for b in range(bits):
            ones = sum(h >> b & 1 for h in everything)
            if abs(ones - n / 2) > 8 * math.sqrt(n) / 2:
                raise Violation('%s: bit %d is set in %d of %d hashes'
                                % (how, b, ones, n))
        twice = n - len(set(everything))
        expect = n * n / 2.0 / 2.0 ** bits
        if twice > expect + 10 * math.sqrt(expect) + 3:
            raise Violation('%s: %d of %d hashes are repeated'
                            % (how, twice, n))
        cov.count('generated sets examined')
    cov.count('gen runs')


def cardinalities(exe, kind, bits, p, cards, runs, jobs, scratch, cov,
                  apart=False):
    out = tempfile.mkdtemp(dir=scratch)
    path = os.path.join(scratch, 'cards-%d.txt' % len(os.listdir(scratch)))
    with open(path, 'w') as f:
        f.write(''.join('%d\n' % c for c in cards))
    how = 'evl run -m cardinalities -t %s -p %d -r %d -j %s' % (kind, p, runs,
                                                               jobs)
    if runs < 50:
        leftovers(out, ['est-p%d-cards-s%d-r%d.dat' % (p, bits, r)
                        for r in range(runs)], cov)
    call(exe, (['-j', str(jobs)] if jobs else []) + [
        'run', '-t', kind, '-m', 'cardinalities', '-p', str(p), '-r',
        str(runs), '-c', path, '-o', out])
    want = sorted('est-p%d-cards-s%d-r%d.dat' % (p, bits, r)
                  for r in range(runs))
    if listing(out) != want:
        raise Violation('%s wrote the files %s, not %s'
                        % (how, listing(out)[:20], want[:20]))
    table = []
    for name in want:
        got = [pair(l, how + ' ' + name)
               for l in lines(os.path.join(out, name))]
        cov.evaluations += 1
        if [c for c, _ in got] != list(cards):
            raise Violation('%s: %s is for the cardinalities %s..., not %s...'
                            % (how, name, [c for c, _ in got][:12],
                               list(cards)[:12]))
        table.append([e for _, e in got])
        cov.distinct.add((kind, p, name, tuple(table[-1])))
        cov.count('cardinality estimates observed', len(got))
    m = 2.0 ** p
    for j, c in enumerate(cards):
        col = [row[j] for row in table]
        mean = sum(col) / len(col)
        # How far the average of independent sketches can be from the truth.
        sparse = kind == 'hllp' and c * 14 < m  # Surely still sparse.
        regs = 2.0 ** 25 if sparse else m
        if c > 20 * m:
            sd = 1.1 * c / math.sqrt(m)
        else:
            # Linear counting of c elements in m registers, and above.
            sd = min(1.1 * c / math.sqrt(m),
                     math.sqrt(regs * max(0.0, math.expm1(min(c / regs, 3))
                                          - c / regs)) + 1e-9
                     if c < 2 * regs else 1e300)
        bias = (0.0 if sparse else 0.04 * c if c > 1.5 * m else 0.01 * c)
        slack = 1 + bias + 7 * sd / math.sqrt(len(col)) \
            + (7 * 3 / len(col) if c < 100 else 0)
        if abs(mean - c) > slack:
            raise Violation('%s: after %d random elements the average of %d '
                            'estimates is %r (at most %.1f off expected)'
                            % (how, c, len(col), mean, slack))
        if c == 0 and any(col):
            raise Violation('%s: %r for no elements' % (how, col))
        if sparse and 0 < c <= 100:
            # 2^25 registers: the truncated estimate is the number itself
            # unless two elements collided.
            right = sum(e == c for e in col)
            if right * 2 <= len(col):
                raise Violation('%s: the sparse estimates of %d elements are '
                                '%r' % (how, c, col))
            cov.count('exact small cardinalities')
    if apart:
        # Errors of hundreds either way: two equal rows among all of them
        # have a probability of about one in 10^7.
        seen = {}
        for r, row in enumerate(table):
            if tuple(row) in seen:
                raise Violation('%s: runs %d and %d give the same estimates '
                                '%r' % (how, seen[tuple(row)], r, row))
            seen[tuple(row)] = r
        cov.count('runs all different')
    # Independent streams do not give the same list of estimates.
    if runs > 1 and cards and max(cards) > 5 * m ** .5 * 8:
        tail = [tuple(r) for r in table]
        if len(set(tail)) == 1:
            raise Violation('%s: all runs give the same estimates' % how)
        cov.count('independent runs compared')
    cov.count('runs in cardinalities mode')


def c16(prop, tier, seed, cov):
    cov.rule = ('one case = one line of output of one invocation of the '
                'program (both types and modes, all precisions, many shapes '
                'of input file, 1 to 16 jobs), compared with the sketch '
                'itself; non-trivial = distinct (type, precision, file, last '
                'line)')
    exe = build()
    mon = native.build(['const-loop'])
    for round_ in range(1 if tier == 'quick' else 12):
        one_round(exe, mon, random.Random(seed * 1000 + round_), cov)
    cov.need({'prefix estimates compared': 100000, 'runs in hashes mode': 30,
              'gen runs': 8, 'generated sets examined': 4,
              'runs in cardinalities mode': 20,
              'independent runs compared': 4,
              'exact small cardinalities': 20,
              'files of earlier runs replaced': 50})


def one_round(exe, mon, rng, cov):
    scratch = tempfile.mkdtemp(prefix='evl-', dir=BUILD)
    try:
        for kind, bits, top in (('hll', 32, 16), ('hllp', 64, 18)):
            inputs = os.path.join(scratch, 'in-' + kind)
            files = hash_files(rng, bits, inputs, 1500)
            small = {f: h for f, h in files.items() if len(h) <= 1500}
            for p in range(4, top + 1):
                some = files if p <= 12 else small
                run_hashes(exe, mon, kind, bits, p, some,
                           rng.choice([1, 2, 3, 8, 16]), scratch, cov, rng)
            # Any number of jobs, and any split of the files over runs.
            p = rng.choice([4, 8, 11])
            outs = {}
            for jobs in (None, 1, 2, 5, 16):
                outs[jobs] = run_hashes(exe, mon, kind, bits, p, files, jobs,
                                        scratch, cov, rng)
                if outs[jobs] != outs[None]:
                    diff = [x for x in outs[None]
                            if outs[jobs][x] != outs[None][x]]
                    raise Violation('evl run -t %s -p %d: the output %s '
                                    'depends on the number of jobs (%s)'
                                    % (kind, p, diff[:3], jobs))
                cov.count('job counts compared')
            f = rng.choice(sorted(files))
            run_hashes(exe, mon, kind, bits, p, {f: files[f]}, 4, scratch,
                       cov, rng)
            # A very long file, and very many files.
            huge = {os.path.join(inputs, 'huge.dat'):
                    [rng.getrandbits(bits) for _ in range(140_000)]}
            crowd = {os.path.join(inputs, 'crowd-%d.dat' % k):
                     [rng.getrandbits(bits) for _ in range(rng.randint(0, 30))]
                     for k in range(300)}
            for part in (huge, crowd):
                for path, hs in part.items():
                    with open(path, 'w') as out:
                        out.write(''.join('%d\n' % h for h in hs))
            run_hashes(exe, mon, kind, bits, rng.choice([4, 6, 8]), huge, 2,
                       scratch, cov, rng)
            run_hashes(exe, mon, kind, bits, rng.choice([4, 9, 12]), crowd,
                       rng.choice([1, 7, 16]), scratch, cov, rng)
            # The largest file first read, then nothing.
            cards = sorted(set([0, 1, 2, 3, 5, 10, 17, 50, 99, 100, 101, 250,
                                1000, 2600, 6000]
                               + [rng.randint(1, 4000) for _ in range(10)]))
            for p in range(4, top + 1):
                top_c = 6000 if p < 12 else 2600
                cardinalities(exe, kind, bits, p,
                              [c for c in cards if c <= top_c],
                              rng.choice([6, 9, 12]),
                              rng.choice([None, 1, 4, 16]), scratch, cov)
            cardinalities(exe, kind, bits, 10, [5, 5, 7, 7, 7, 40], 3, 2,
                          scratch, cov)
            cardinalities(exe, kind, bits, 10, [], 2, 2, scratch, cov)
            cardinalities(exe, kind, bits, 12, [20000, 60000, 140000], 8, 8,
                          scratch, cov)
            cardinalities(exe, kind, bits, 7, [1, 30, 900], 70,
                          rng.choice([3, 16]), scratch, cov)
            # No run repeats another one.
            cardinalities(exe, kind, bits, 14, [6000, 25000, 90000, 400000],
                          300, None, scratch, cov, apart=True)
        for bits in (32, 64):
            for count, runs, jobs in ((0, 2, 1), (1, 3, 2), (7, 0, 1),
                                      (4000, 3, 8), (70001, 1, None),
                                      (100, 60, 16), (1, 1, None)):
                gen(exe, bits, count, runs, jobs, scratch, cov)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
