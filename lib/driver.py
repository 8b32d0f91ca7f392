"""C20: the experiment script, run as a command line tool with a recording
stand-in for the evaluation program and for matplotlib."""
import argparse
import json
import math
import os
import random
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal, getcontext
from fractions import Fraction

from common import (BUILD, CPUS, PYTHON, REPO, ROOT, Coverage, Inconclusive,
                    TimedOut, Violation, sh)

SCRIPT = REPO + '/evaluation/exp.py'
RECORDER = '''#!%s
import json, os, sys
with open(os.environ['HLL_CALLS'], 'a') as f:
    f.write(json.dumps(sys.argv) + '\\n')
sys.exit(int(os.environ.get('HLL_FAIL', '0')))
'''


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='exp-', dir=BUILD)
        self.exe = os.path.join(self.dir, 'fake evl')
        with open(self.exe, 'w') as f:
            f.write(RECORDER % PYTHON)
        os.chmod(self.exe, 0o755)
        self.calls = os.path.join(self.dir, 'calls')
        self.plots = os.path.join(self.dir, 'plots')
        self.env = dict(PYTHONPATH=os.path.join(ROOT, 'stubs'),
                        PYTHONDONTWRITEBYTECODE='1', HLL_CALLS=self.calls,
                        HLL_PLOT_LOG=self.plots, MPLBACKEND='Agg',
                        OPENBLAS_NUM_THREADS='1')
        self.n = 0

    def folder(self):
        self.n += 1
        d = os.path.join(self.dir, 'd%d' % self.n)
        os.makedirs(d)
        return d

    def exp(self, args):
        for f in (self.calls, self.plots):
            if os.path.exists(f):
                os.remove(f)
        try:
            r = sh([PYTHON, SCRIPT] + args, cwd=self.dir, env=self.env,
                   timeout=200)
        except TimedOut as e:
            if e.whole:  # What takes it seconds at most.
                raise Violation('exp.py %s does not end within 200 s'
                                % ' '.join(args)[:300])
            raise
        if r.code != 0:
            if 'No module named' in r.err and 'numpy' in r.err:
                raise Inconclusive('numpy is missing: ' + r.tail())
            raise Violation('exp.py %s fails (code %d): %s'
                            % (' '.join(args)[:300], r.code, r.tail(800)))
        if os.path.exists(self.calls):
            return [json.loads(l) for l in open(self.calls)]
        return []


def program_options(argv):
    """What the evaluation program makes of an argument list."""
    top = argparse.ArgumentParser(prog='evl', allow_abbrev=False)
    top.add_argument('-j', '--jobs', default='1')
    subs = top.add_subparsers(dest='sub')
    g = subs.add_parser('gen', allow_abbrev=False)
    for s, l in (('s', 'size'), ('c', 'count'), ('r', 'runs'),
                 ('o', 'output')):
        g.add_argument('-' + s, '--' + l, required=True)
    r = subs.add_parser('run', allow_abbrev=False)
    for s, l in (('t', 'type'), ('m', 'mode'), ('p', 'precision'),
                 ('o', 'output')):
        r.add_argument('-' + s, '--' + l, required=True)
    r.add_argument('-i', '--input', nargs='+', action='append', default=None)
    r.add_argument('-r', '--runs')
    r.add_argument('-c', '--cardinalities')
    try:
        o = vars(top.parse_args(argv))
    except SystemExit:
        raise Violation('exp.py calls the evaluation program with arguments '
                        'it does not accept: %r' % argv)
    if o.get('input'):
        o['input'] = sorted(sum(o['input'], []))
    return {k: v for k, v in o.items() if v is not None}


def expect_call(calls, exe, want, how):
    if len(calls) != 1:
        raise Violation('%s calls the evaluation program %d times'
                        % (how, len(calls)))
    if calls[0][0] != exe:
        raise Violation('%s calls %r' % (how, calls[0][0]))
    got = program_options(calls[0][1:])
    if got != want:
        raise Violation('%s asks the evaluation program for %r instead of %r'
                        % (how, got, want))


# --- The cardinality list ---

def series(top):
    """Integer parts of 1.007^k, from 1 up to the first term >= top; None for
    terms that rounding could move across an integer."""
    getcontext().prec = 60
    cur, ratio, eps = Decimal(1), Decimal('1.007'), Decimal('1e-11')
    sure, maybe = set(), set()

    def add(c):
        lo, hi = int(c * (1 - eps)), int(c * (1 + eps))
        if lo == hi or c == int(c):
            sure.add(int(c))
        else:
            maybe.update(range(lo, hi + 1))

    while cur < top:
        if abs(cur - top) <= eps * cur and cur != top:
            return None
        add(cur)
        cur *= ratio
    if top > 1 and abs(cur - top) <= eps * cur:
        return None
    add(cur)
    return sure, maybe


def check_series(sc, top, cov):
    want = series(top)
    if want is None:
        return
    sure, maybe = want
    d = sc.folder()
    args = ['prepare', '-t', 'cardinalities']
    if top != 1000000000:  # The default.
        args += ['-a', str(top)]
    calls = sc.exp(['-x', sc.exe] + args + [d])
    if calls:
        raise Violation('preparing cardinalities runs the program')
    if os.listdir(d) != ['cardinalities.dat']:
        raise Violation('prepare -t cardinalities wrote %s' % os.listdir(d))
    text = open(os.path.join(d, 'cardinalities.dat')).read()
    try:
        got = [int(x) for x in text.split('\n') if x != '']
    except ValueError:
        raise Violation('cardinalities.dat contains %r' % text[:200])
    how = 'prepare -t cardinalities -a %d' % top
    if any(b <= a for a, b in zip(got, got[1:])):
        raise Violation('%s: not sorted without duplicates' % how)
    miss = sorted(sure - set(got))
    odd = sorted(set(got) - sure - maybe)
    if miss or odd:
        raise Violation('%s: %s missing, %s not in the series'
                        % (how, miss[:5], odd[:5]))
    if got[-1] < top and int(got[-1] * Fraction(1007, 1000)) < top - 1 \
            and top > 1:
        raise Violation('%s ends at %d' % (how, got[-1]))
    cov.evaluations += 1
    cov.distinct.add(('series', top))
    cov.count('series checked')
    cov.count('terms of the series', len(got))
    cov.sample('%s: %d cardinalities, the last %d' % (how, len(got), got[-1]),
               3)


# --- Statistics ---

def exact(columns):
    """Mean, median and standard deviation of |e - c| / c, exactly enough."""
    out = []
    for c, es in columns:
        x = sorted(Fraction(abs(e - c), c) for e in es)
        n = len(x)
        mean = sum(x) / n
        median = x[n // 2] if n % 2 else (x[n // 2 - 1] + x[n // 2]) / 2
        var = sum((v - mean) ** 2 for v in x) / n
        out.append((float(mean), float(median), math.sqrt(var)))
    return out


def results(rng, kind):
    """Result files: a list of lists of (cardinality, estimate)."""
    nfiles = rng.choice([1, 2, 3, 4, 5, 8, 13, 40])
    length = rng.choice([1, 2, 3, 10, 57, 300])
    if kind == 'step':
        cards = list(range(1, length + 1))
    elif kind == 'sparse':
        cards = sorted(rng.sample(range(1, 10 ** 6), length))
    else:
        cards = sorted(rng.sample(range(1, 10 ** 13), length))
    spread = rng.choice([0.0, 0.001, 0.05, 1.0])
    files = []
    for _ in range(nfiles):
        n = length
        if rng.random() < 0.5:
            n = rng.randint(1, length)
        rows = []
        for c in cards[:n]:
            e = int(c * (1 + rng.gauss(0.01, spread)))
            if rng.random() < 0.05:
                e = rng.choice([0, c, 2 * c, 50 * c])
            rows.append((c, max(0, e)))
        files.append(rows)
    return files


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12


def check_plot(sc, rng, cov):
    files = results(rng, rng.choice(['step', 'sparse', 'huge']))
    d = sc.folder()
    for k, rows in enumerate(files):
        with open(os.path.join(d, 'est-p14-cards-r%d.dat' % k), 'w') as f:
            f.write(''.join('%d %d\n' % r for r in rows))
    if rng.random() < 0.3:
        with open(os.path.join(d, 'notes.txt'), 'w') as f:
            f.write('not a result\n')
    typ, mode = rng.choice(['hll', 'hllp']), rng.choice(['hashes',
                                                         'cardinalities'])
    how = 'plot of %d files with %d to %d lines' % (
        len(files), min(map(len, files)), max(map(len, files)))
    sc.exp(['plot', '-t', typ, '-m', mode, '-p', str(rng.randint(4, 18)),
            '-a', str(rng.choice([1000, 100000])), d])
    if not os.path.exists(sc.plots):
        raise Inconclusive('exp.py plot did not show anything')
    log = json.load(open(sc.plots))
    longest = max(files, key=len)
    columns = [(c, [f[j][1] for f in files if len(f) > j])
               for j, (c, _) in enumerate(longest)]
    want = exact(columns)
    xs = [c for c, _ in columns]
    named = {}
    for number, label in (log['legend'] or []):
        named[label] = log['lines'][number]
    for line in log['lines']:
        if line.get('label'):
            named.setdefault(line['label'], line)
    if 'mean' not in named or 'median' not in named or not log['fills']:
        raise Inconclusive('the plot has no mean, median or spread: %s'
                           % sorted(named))
    fill = log['fills'][0]

    def same(name, got_x, got, ref):
        if got_x != [float(x) for x in xs]:
            raise Violation('%s: the %s is plotted for the cardinalities %s..'
                            ', not %s..' % (how, name, got_x[:5], xs[:5]))
        for x, a, b in zip(xs, got, ref):
            if not near(a, b):
                c, es = columns[xs.index(x)]
                raise Violation('%s: the %s of the relative error at %d '
                                '(estimates %s) is given as %r, not %r'
                                % (how, name, x, es[:8], a, b))

    same('mean', named['mean']['x'], named['mean']['y'], [w[0] for w in want])
    same('median', named['median']['x'], named['median']['y'],
         [w[1] for w in want])
    half = [abs(h - l) / 2 for l, h in zip(fill['lo'], fill['hi'])]
    mid = [(h + l) / 2 for l, h in zip(fill['lo'], fill['hi'])]
    same('centre of the band', fill['x'], mid, [w[0] for w in want])
    # The band is mean plus and minus one standard deviation; close to zero
    # the subtraction costs digits of the mean.
    for x, a, w in zip(xs, half, want):
        if abs(a - w[2]) > 1e-9 * (w[2] + w[0]) + 1e-12:
            c, es = columns[xs.index(x)]
            raise Violation('%s: the standard deviation of the relative error '
                            'at %d (estimates %s) is given as %r, not %r'
                            % (how, x, es[:8], a, w[2]))
    cov.evaluations += len(xs)
    cov.count('plots checked')
    cov.count('statistics checked', 3 * len(xs))
    if len(set(map(len, files))) > 1:
        cov.count('plots of files of different lengths')
    for x, w in zip(xs, want):
        cov.distinct.add(('stat', x, w))
    cov.sample(how + ', last mean/median/std %r at %d' % (want[-1], xs[-1]))


# --- Command lines ---

def check_commands(sc, rng, cov):
    jobs = rng.choice([None, 1, 2, 7, 16])
    head = ['-x', sc.exe] + (['-j', str(jobs)] if jobs else [])
    base = dict(jobs=str(jobs or 1))
    out = sc.folder()
    # prepare -t hashes
    size = rng.choice([None, '32', '64'])
    count = rng.choice([None, 1, 10, 12345])
    runs = rng.choice([None, 1, 3, 77])
    args = ['prepare', '-t', 'hashes']
    if size:
        args += ['-s', size]
    if count:
        args += ['-c', str(count)]
    if runs:
        args += ['-r', str(runs)]
    expect_call(sc.exp(head + args + [out]), sc.exe, dict(
        base, sub='gen', size=size or '32', count=str(count or 100000),
        runs=str(runs or 100), output=out), ' '.join(args))
    cov.distinct.add(('gen', size, count, runs, jobs))
    # run -m hashes
    src = sc.folder()
    names = ['hashes-s64-r%d.dat' % k for k in range(rng.randint(1, 9))]
    names += rng.sample(['a b.dat', 'x.y.dat', '-odd.dat'], rng.randint(0, 3))
    for n in names:
        open(os.path.join(src, n), 'w').close()
    open(os.path.join(src, 'README'), 'w').close()
    typ = rng.choice(['hll', 'hllp'])
    prec = rng.choice([None, 4, 9, 14, 16, 18])
    args = ['run', '-t', typ, '-m', 'hashes']
    if prec:
        args += ['-p', str(prec)]
    args += ['-i', src, '-o', out]
    expect_call(sc.exp(head + args), sc.exe, dict(
        base, sub='run', type=typ, mode='hashes', precision=str(prec or 14),
        output=out, input=sorted(os.path.join(src, n) for n in names)),
        ' '.join(args))
    cov.distinct.add(('hashes', typ, prec, len(names), jobs))
    # run -m cardinalities
    runs = rng.choice([1, 5, 200])
    cards = os.path.join(src, 'cardinalities.dat')
    args = ['run', '-t', typ, '-m', 'cardinalities']
    if prec:
        args += ['-p', str(prec)]
    args += ['-r', str(runs), '-c', cards, '-o', out]
    expect_call(sc.exp(head + args), sc.exe, dict(
        base, sub='run', type=typ, mode='cardinalities',
        precision=str(prec or 14), output=out, runs=str(runs),
        cardinalities=cards), ' '.join(args))
    cov.distinct.add(('cardinalities', typ, prec, runs, jobs))
    cov.evaluations += 3
    cov.count('command lines checked', 3)


def c20(prop, tier, seed, cov):
    cov.rule = ('one case = one column of statistics, one cardinality list or '
                'one recorded command line of the script, recomputed exactly; '
                'non-trivial = distinct (input, result)')
    if not os.path.exists(PYTHON):
        raise Inconclusive('no Python with numpy')
    rng = random.Random(seed)
    n = 1 if tier == 'quick' else 12
    tops = [1, 2, 3, 10, 100, 143, 144, 1000, 100000, 10 ** 6, 10 ** 9,
            10 ** 12]
    tops += [int(10 ** rng.uniform(0, 10)) for _ in range(25 * n)]
    lanes = [(k, rng.getrandbits(64)) for k in range(CPUS)]

    def lane(job):
        k, seed = job
        mine, r, c = Scratch(), random.Random(seed), Coverage()
        try:
            for top in tops[k::CPUS]:
                check_series(mine, top, c)
            for _ in range(96 * n // CPUS):
                check_plot(mine, r, c)
            for _ in range(26 * n // CPUS + 1):
                check_commands(mine, r, c)
        finally:
            shutil.rmtree(mine.dir, ignore_errors=True)
        return c

    with ThreadPoolExecutor(CPUS) as ex:
        for c in [f.result() for f in [ex.submit(lane, l) for l in lanes]]:
            cov.evaluations += c.evaluations
            cov.distinct |= c.distinct
            for s in c.samples:
                cov.sample(s, 12)
            for key, x in c.observed.items():
                cov.count(key, x)
    cov.need({'series checked': 30, 'plots checked': 80,
              'plots of files of different lengths': 15,
              'command lines checked': 60})
