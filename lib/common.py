"""What every check shares: running commands, verdicts, evidence."""
import json
import os
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')
EVIDENCE = os.path.join(ROOT, 'evidence')
REPLAYS = os.path.join(EVIDENCE, 'replays')
PYTHON = '/opt/veriftools/pyvenv/bin/python'
CPUS = max(2, min(8, os.cpu_count() or 2))
LIMIT = 840.0  # seconds one quick check may take altogether
START = time.time()

# Signals that mean the observed program broke, not that it was stopped.
CRASHES = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE,
           signal.SIGABRT, signal.SIGTRAP, signal.SIGSYS}


class Violation(Exception):
    """The property was observed to be broken."""

    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what = what
        self.replay = replay or {}


class Inconclusive(Exception):
    """No verdict: the check could not be carried out."""


class TimedOut(Inconclusive):
    """A command did not end; `whole` if it had all the time it was given."""

    def __init__(self, what, whole):
        super().__init__(what)
        self.whole = whole


class Coverage:
    """Counts of what was actually observed."""

    def __init__(self, rule=''):
        self.evaluations = 0
        self.distinct = set()
        self.distinct_extra = 0
        self.rule = rule
        self.samples = []
        self.observed = {}
        self.notes = []

    def count(self, key, n=1):
        self.observed[key] = self.observed.get(key, 0) + n

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(s)

    def need(self, minimums):
        short = ['%s: %d < %d' % (k, self.observed.get(k, 0), n)
                 for k, n in minimums.items() if self.observed.get(k, 0) < n]
        if short:
            raise Inconclusive('too little was observed: ' + '; '.join(short))

    def as_dict(self):
        d = dict(evaluations=self.evaluations,
                 distinct_nontrivial=len(self.distinct) + self.distinct_extra,
                 rule=self.rule, samples=self.samples, observed=self.observed)
        if self.notes:
            d['notes'] = self.notes
        return d


def environment(extra=None):
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER',
              'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET', 'MIRIFLAGS',
              'CARGO_ENCODED_RUSTFLAGS', 'RUSTC'):
        env.pop(k, None)
    home = env.setdefault('HOME', '/root')
    env['PATH'] = home + '/.cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
    env.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               CARGO_INCREMENTAL='0', RUST_BACKTRACE='0')
    env.update(extra or {})
    return env


def left():
    return LIMIT - (time.time() - START)


class Ran:
    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err

    @property
    def crashed(self):
        """The signal that killed it, if that is the program's own doing."""
        if self.code < 0 and -self.code in CRASHES:
            if 'memory allocation of' in self.err and \
                    'bytes failed' in self.err:
                return None
            return signal.Signals(-self.code).name
        return None

    def tail(self, n=1500):
        return (self.err or self.out)[-n:]


def sh(cmd, cwd=None, env=None, timeout=None, stdin=None, text=True):
    """Runs a command; a timeout is inconclusive, never a verdict."""
    wanted = timeout or 1e9
    timeout = min(wanted, max(5.0, left()))
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=environment(env),
                             stdin=subprocess.PIPE if stdin is not None
                             else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=text, start_new_session=True)
    except OSError as e:
        raise Inconclusive('cannot run %s: %s' % (cmd[0], e))
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise TimedOut('timed out after %.0f s: %s'
                       % (timeout, ' '.join(map(str, cmd))[:200]),
                       timeout >= wanted)
    return Ran(p.returncode, out, err)


def cargo(args, crate, target, toolchain=None, env=None, timeout=600):
    """One cargo command on a crate of ours, against /repo as it is now."""
    e = dict(CARGO_TARGET_DIR=target)
    e.update(env or {})
    cmd = ['cargo'] + (['+' + toolchain] if toolchain else []) + args
    return sh(cmd, cwd=crate, env=e, timeout=timeout)


def fresh(target):
    """Forgets what was built from /repo earlier (its files may be older)."""
    if os.path.isdir(target):
        for base, dirs, _ in os.walk(target):
            for d in list(dirs):
                if d.startswith('hyperloglogplus-') and \
                        os.path.basename(base) == '.fingerprint':
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)


def errors(ran, n=1500):
    """The compiler errors in the output of a build."""
    lines = ran.err.splitlines()
    for i, l in enumerate(lines):
        if l.startswith('error'):
            return '\n'.join(lines[i:i + 14])[:n]
    return ran.tail(n)


def fails_in_repo(ran):
    """Whether a failed build failed while compiling /repo's crate."""
    return 'could not compile `hyperloglogplus`' in ran.err


def report(prop, tier, seed, level, cov, run):
    """Runs a check and leaves its verdict and evidence."""
    os.makedirs(EVIDENCE, exist_ok=True)
    t0 = time.time()
    code, viol, note = 0, 0, None
    try:
        run()
    except Violation as v:
        code, viol = 1, 1
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-seed%d-%s.json' % (prop, seed, tier))
        body = dict(property=prop, tier=tier, seed=seed, what=v.what)
        body.update(v.replay)
        body.setdefault('replay', 'cd /verif && VERIF_SEED=%d VERIF_TIER=%s '
                        'python3 check.py %s' % (seed, tier, prop))
        with open(path, 'w') as f:
            json.dump(body, f, indent=1)
        known = known_finding(prop, v.what)
        if known:
            code = 0
            print('KNOWN-FINDING: property=%s %s' % (prop, known))
        else:
            print('%s: %s' % (prop, v.what))
            print('VIOLATION property=%s replay=%s'
                  % (prop, os.path.relpath(path, ROOT)))
        note = v.what
    except Inconclusive as e:
        code, note = 2, str(e)
        print('INCONCLUSIVE property=%s: %s' % (prop, e), file=sys.stderr)
    c = cov.as_dict()
    if note:
        c['outcome'] = note[:2000]
    if not c['samples']:
        c['samples'] = ['(none)']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=c,
              wall_s=round(time.time() - t0, 2), violations=viol)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        print('%s: held on %d cases (%d distinct), %.0f s'
              % (prop, c['evaluations'], c['distinct_nontrivial'],
                 ev['wall_s']))
    return code


def known_finding(prop, what):
    """The listed finding this is, if any: `open: property=X match=TEXT`."""
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    try:
        lines = open(path).read().splitlines()
    except OSError:
        return None
    for l in lines:
        if l.startswith('open: property=%s match=' % prop):
            text = l.split('match=', 1)[1].strip()
            if text and text in what:
                return text
    return None


def close(a, b, tol):
    if a == b or (a != a and b != b):
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b))
