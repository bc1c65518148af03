"""Helpers usable in both worlds (the module is loaded through the same rewriting loader
as the harnesses in the symbolic world)."""
import numpy as np
import skcurve as sk


def rows(ctx, name, n, d, kind='f', lo=None, hi=None):
    """n x d list of scalars"""
    return [[ctx.scalar('%s_%d_%d' % (name, i, j), kind, lo, hi) for j in range(d)] for i in range(n)]


def vec(ctx, name, n, kind='f', lo=None, hi=None):
    return [ctx.scalar('%s_%d' % (name, i), kind, lo, hi) for i in range(n)]


def array(rws, kind='f', d=None):
    """2-D array of the given rows"""
    dt = np.float64 if kind == 'f' else np.int64
    if not rws:
        return np.zeros((0, d or 2), dtype=dt)
    return np.array(rws, dtype=dt)


def curve(ctx, name, n, d, par=False, kind='f'):
    """(curve, rows, t-list or None) built from an n x d array"""
    r = rows(ctx, name, n, d, kind)
    t = vec(ctx, name + 't', n) if par else None
    c = sk.Curve(array(r, kind, d), tdata=t) if n else sk.Curve([], ndmin=d, tdata=t, dtype=None if kind == 'f' else np.int64)
    return c, r, t


def point(ctx, name, d, kind='f'):
    v = vec(ctx, name, d, kind)
    return sk.Point(v), v


def seg(ctx, name, d, kind='f'):
    """kind: f floats, i whole floats, I integer dtype"""
    dt = {'dtype': np.int64} if kind == 'I' else {}
    a = vec(ctx, name + 'a', d, kind.lower())
    b = vec(ctx, name + 'b', d, kind.lower())
    return sk.Segment(sk.Point(a, **dt), sk.Point(b, **dt)), a, b


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vmul(a, k):
    return [x * k for x in a]


def sq(a):
    return dot(a, a)


def distinct(ctx, a, b, gap=None):
    """assume two coordinate vectors differ; with gap: in some coordinate by at least gap"""
    if gap is None:
        ctx.assume(ctx.any_([x != y for x, y in zip(a, b)]))
    else:
        ctx.assume(ctx.any_([ctx.or_(x - y >= gap, y - x >= gap) for x, y in zip(a, b)]))


def grain(ctx, values, gap=0.001):
    """granularity assumption: two different values differ by at least gap"""
    for i in range(len(values)):
        for j in range(i):
            a, b = values[i], values[j]
            ctx.assume(ctx.any_([a == b, a - b >= gap, b - a >= gap]))


def bounded(ctx, values, b):
    for v in values:
        ctx.assume(ctx.and_(v >= -b, v <= b))


def flat(x):
    out = []
    for v in x:
        if isinstance(v, (list, tuple)):
            out.extend(flat(v))
        else:
            out.append(v)
    return out


def check_curve(ctx, label, c, rws, d, t=None, kind=None):
    """c is a Curve with exactly these rows, dimension d and parameters t (None: not parametric)"""
    ctx.check(label + ': is a Curve', isinstance(c, sk.Curve))
    ctx.check(label + ': size', c.size == len(rws) and len(c) == len(rws))
    ctx.check(label + ': ndim', c.ndim == d)
    ctx.check(label + ': data shape', tuple(c.data.shape) == (len(rws), d))
    ctx.close(label + ': points', c.data, rws)
    if kind is not None:
        ctx.check(label + ': dtype', c.dtype == np.dtype(kind))
    ctx.check(label + ': isparametric', bool(c.isparametric) == (t is not None))
    if t is not None:
        ctx.check(label + ': t size', tuple(c.t.shape) == (len(t),))
        ctx.close(label + ': t', c.t, t)


def path(n, d, lo=-9, hi=9, seed=0):
    """a fixed irregular integer path: n distinct consecutive rows, the same in every run"""
    w = hi - lo + 1
    out = []
    for i in range(n):
        row = [lo + (i * i * (3 + 2 * j) + i * (5 + j) + 7 * j + seed) % w for j in range(d)]
        if out and row == out[-1]:
            row[0] = row[0] + 1 if row[0] < hi else lo
        out.append(row)
    return out


def long_rows(ctx, name, n, d, free, kind='f'):
    """a long fixed path with fresh symbols at the rows with the given indices"""
    r = [[float(v) if kind == 'f' else v for v in row] for row in path(n, d)]
    for i in free:
        r[i] = [ctx.scalar('%s_%d_%d' % (name, i, j), kind) for j in range(d)]
    return r


NARROW = ['u1', 'i1', 'i2', 'u2', 'i4']


def narrow_rows(ctx, name, n, d, dt):
    """integer rows over the whole range of a narrow dtype"""
    i = np.iinfo(dt)
    return rows(ctx, name, n, d, 'i', int(i.min), int(i.max))


def narrow_curve(ctx, r, dt):
    return sk.Curve(np.array(r, dtype=np.dtype(dt)))
