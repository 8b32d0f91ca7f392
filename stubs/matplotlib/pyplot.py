import json
import os

_LOG = {'lines': [], 'fills': [], 'legend': None, 'shown': 0}


def _list(x):
    return [float(v) for v in x]


class _Line:
    def __init__(self, number):
        self.number = number
        self.label = None

    def set_label(self, label):
        self.label = label
        _LOG['lines'][self.number]['label'] = label


class _Anything:
    """Accepts whatever else is asked of it."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Anything()

    def __call__(self, *a, **k):
        return _Anything()

    def __getitem__(self, key):
        return _Anything()

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _wide(y, n):
    """A scalar stands for a constant."""
    return _list(y) if hasattr(y, '__len__') else [float(y)] * n


class _Axes(_Anything):
    def plot(self, *a, **k):
        """x, y[, fmt] repeated, as matplotlib takes them."""
        made, a = [], list(a)
        while a:
            x, a = _list(a[0]), a[1:]
            y = x
            if a and not isinstance(a[0], str):
                y, a = _list(a[0]), a[1:]
            else:
                x = _list(range(len(x)))
            if a and isinstance(a[0], str):
                a = a[1:]
            made.append(_Line(len(_LOG['lines'])))
            _LOG['lines'].append({'x': x, 'y': y, 'label': k.get('label')})
        return made

    def semilogx(self, *a, **k):
        return self.plot(*a, **k)

    def fill_between(self, x, y1, y2=0, *a, **k):
        x = _list(x)
        _LOG['fills'].append({'x': x, 'lo': _wide(y1, len(x)),
                              'hi': _wide(y2, len(x))})
        return _Anything()

    def legend(self, *a, **k):
        return legend(*a, **k)


class _Figure(_Anything):
    def show(self, *a, **k):
        show()

    def savefig(self, *a, **k):
        show()

    def subplots(self, *a, **k):
        return _AX

    def add_subplot(self, *a, **k):
        return _AX

    def gca(self, *a, **k):
        return _AX


_AX = _Axes()


def subplots(*a, **k):
    return _Figure(), _AX


def axes(*a, **k):
    return _AX


def subplot(*a, **k):
    return _AX


def semilogx(*a, **k):
    return _AX.plot(*a, **k)


def figure(*a, **k):
    return _Figure()


def gca(*a, **k):
    return _AX


def plot(*a, **k):
    return _AX.plot(*a, **k)


def fill_between(*a, **k):
    return _AX.fill_between(*a, **k)


def legend(handles=None, labels=None, *a, **k):
    handles = k.get('handles', handles)
    labels = k.get('labels', labels)
    if labels is None and handles is not None and \
            all(isinstance(h, str) for h in handles):
        handles, labels = None, handles
    if handles is None:
        if labels is None:
            return _Anything()
        handles = [_Line(k) for k in range(len(_LOG['lines']))]
    if labels is None:
        labels = [h.label for h in handles]
    _LOG['legend'] = [[h.number, l] for h, l in zip(handles, labels)]
    return _Anything()


def _save():
    with open(os.environ['HLL_PLOT_LOG'], 'w') as f:
        json.dump(_LOG, f)


def show(*a, **k):
    _LOG['shown'] += 1
    _save()


def savefig(*a, **k):
    show()


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    return _Anything()
