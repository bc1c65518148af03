"""Concrete context: runs a harness against the real code on given values."""
import math
import warnings
from fractions import Fraction

import numpy as np


class AssumeFailed(Exception):
    pass


class ConCtx:
    symbolic = False

    def __init__(self, inputs, choices, opts=None):
        self.inputs = inputs
        self.choices = choices
        self.failures = []
        self.obs = []
        self.reached = []
        self.nchecks = 0

    # ---- inputs
    def scalar(self, name, kind='f', lo=None, hi=None):
        v = self.inputs.get(name, 0)
        if isinstance(v, str):
            v = Fraction(v)
        v = int(v) if kind == 'i' else float(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise AssumeFailed(name)
        return v

    def real(self, name, lo=None, hi=None):
        return self.scalar(name, 'f', lo, hi)

    def int(self, name, lo=None, hi=None):
        return self.scalar(name, 'i', lo, hi)

    def bool(self, name):
        return bool(self.scalar(name, 'i', 0, 1))

    def choose(self, name, options):
        options = list(options)
        i = self.choices.get(name, 0)
        return options[i]

    # ---- logic
    def assume(self, c):
        if not _truth(c):
            raise AssumeFailed('assume')

    def all_(self, xs):
        return all(_truth(x) for x in xs)

    def any_(self, xs):
        return any(_truth(x) for x in xs)

    def and_(self, *xs):
        return self.all_(xs)

    def or_(self, *xs):
        return self.any_(xs)

    def not_(self, x):
        return not _truth(x)

    def ite(self, c, a, b):
        return a if _truth(c) else b

    def implies(self, a, b):
        return (not _truth(a)) or _truth(b)

    def iff(self, a, b):
        return _truth(a) == _truth(b)

    def is_true(self, c):
        return _truth(c)

    def sqrt(self, x):
        return math.sqrt(x)

    def abs(self, x):
        return abs(x)

    # ---- obligations
    def _fail(self, label, detail):
        self.failures.append({'label': label, 'detail': detail})

    def check(self, label, c):
        self.nchecks += 1
        try:
            v = _truth(c)
        except ValueError:
            v = False
        self.obs.append([label, v])
        if not v:
            self._fail(label, 'condition is false')
        return v

    def close(self, label, a, b, tol=1e-6, exact=True):
        """a equals b (shape and values; NaN equals NaN)"""
        self.nchecks += 1
        a = np.asarray(_plain(a), dtype=float)
        b = np.asarray(_plain(b), dtype=float)
        self.obs.append([label, a.reshape(-1).tolist()])
        if a.shape != b.shape:
            if a.size or b.size:
                self._fail(label, 'shape %s, expected %s' % (a.shape, b.shape))
                return False
            return True
        ok = bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        if not ok:
            self._fail(label, 'got %s, expected %s' % (a.tolist(), b.tolist()))
        return ok

    def le(self, label, a, b, tol=1e-6):
        """a <= b"""
        self.nchecks += 1
        a, b = float(a), float(b)
        self.obs.append([label, [a, b]])
        ok = a <= b + tol * max(1.0, abs(a), abs(b))
        if not ok:
            self._fail(label, '%r <= %r is false' % (a, b))
        return ok

    def lt(self, label, a, b):
        self.nchecks += 1
        ok = float(a) < float(b)
        self.obs.append([label, ok])
        if not ok:
            self._fail(label, '%r < %r is false' % (a, b))
        return ok

    def raises(self, label, excs, fn, *args, **kwargs):
        """fn(*args) raises one of excs"""
        self.nchecks += 1
        try:
            r = fn(*args, **kwargs)
        except excs:
            self.obs.append([label, True])
            return True
        except Exception as err:
            self.obs.append([label, False])
            self._fail(label, 'raised %s: %s' % (type(err).__name__, err))
            return False
        self.obs.append([label, False])
        self._fail(label, 'no exception, returned %s' % type(r).__name__)
        return False

    def fail(self, label, detail=''):
        self.nchecks += 1
        self._fail(label, detail or 'unreachable outcome')

    def reach(self, label):
        if label not in self.reached:
            self.reached.append(label)

    def warned(self, fn, *args, **kwargs):
        """(result, list of warning categories)"""
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn(*args, **kwargs)
        return r, [x.category for x in w]


def _truth(c):
    if isinstance(c, np.ndarray):
        if c.size != 1:
            raise ValueError('ambiguous truth value')
        c = c.reshape(-1)[0]
    return bool(c)


def _plain(x):
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if hasattr(x, 'data') and not isinstance(x, (np.ndarray, np.generic)):
        return x.data
    return x


def run(fn, params, inputs, choices):
    ctx = ConCtx(inputs, choices)
    status, exc = 'ok', None
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            fn(ctx, **params)
        except AssumeFailed as err:
            status = 'assume'
            exc = str(err)
        except Exception as err:
            import traceback
            status = 'exception'
            tb = traceback.extract_tb(err.__traceback__)
            exc = '%s: %s' % (type(err).__name__, str(err)[:300])
            ctx.failures.append({'label': 'unexpected exception', 'detail': exc + ' at ' + '; '.join(
                '%s:%d' % (f.filename, f.lineno) for f in tb[-4:])})
    if status == 'ok' and ctx.failures:
        status = 'fail'
    if status == 'assume' and ctx.failures:
        status = 'fail'        # an obligation failed before a later assumption cut the run
    return {'status': status, 'exc': exc, 'failures': ctx.failures, 'obs': ctx.obs, 'reached': ctx.reached,
            'checks': ctx.nchecks}
