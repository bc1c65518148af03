"""C25: interpolation grids."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c12 import quiet

ASSUMPTIONS = ['counts from lengths: rounding a value within 0.001 of a half is left out; steps of the curve are at least 0.01',
               'grids by length: curves along a fixed line with free steps and at most 8 pieces']
U, X, S = sk.UniformInterpolationGrid, sk.UniformExtrapolationGrid, sk.PreservedSpeedInterpolationGrid
STEP = {2: [3, 4], 3: [1, 2, 2], 4: [1, -1, 1, 1]}
LEN = {2: 5, 3: 3, 4: 2}


def line(ctx, n, d, hi=2.0, par=False):
    """(curve along a line, its parameters)"""
    steps = [ctx.scalar('s%d' % k, 'f', 0.01, hi) for k in range(n - 1)]
    p = vec(ctx, 'p', d, lo=-9, hi=9)
    at, cum = 0.0, [0.0]
    r = [p]
    for s in steps:
        at = at + s
        r.append([x + u * at / LEN[d] for x, u in zip(p, STEP[d])])
        cum.append(at)
    if not par:
        return sk.Curve(array(r)), cum, at
    t = vec(ctx, 't', n, lo=-9, hi=9)
    for a, b in zip(t, t[1:]):
        ctx.assume(b - a >= 0.01)
    return sk.Curve(array(r), tdata=t), t, at


def uniform(ctx, label, grid, t0, t1, m):
    ctx.check(label + ': size', tuple(grid.shape) == (m,))
    if len(grid) == m and m > 1:
        for i, g in enumerate(grid.tolist()):
            ctx.close(label + ': value', (g - t0) * (m - 1), (t1 - t0) * i)


def rounded(ctx, x, lo, hi):
    """the integer nearest to x; x is not within 0.001 of a half"""
    for k in range(lo, hi + 1):
        g = x - (k + 0.5)
        ctx.assume(ctx.or_(g >= 0.001, g <= -0.001))
        if ctx.is_true(g < 0):
            return k
    ctx.assume(False)


@case(n=[2, 3, 5], d=[2, 3], m=[2, 3, 4, 7], par=[False, True], _where=lambda n, d, m, par: d == 2 or m == 4)
def by_points(ctx, n, d, m, par):
    c, r, t = curve(ctx, 'c', n, d, par)
    ts = t if par else c.t.tolist()
    uniform(ctx, 'uniform', U(m)(c), ts[0], ts[-1], m)
    uniform(ctx, 'kind', U(m, kind='point')(c), ts[0], ts[-1], m)
    if par:
        uniform(ctx, 'preserved speed of a parametric curve', S(m)(c), ts[0], ts[-1], m)
    ctx.close('curve kept', c.data, r)


@case(n=[2, 3], d=[2, 3, 4], fill=[0.5, 0.7, 1, 2], par=[False, True], _opts={'max_paths': 60})
def by_length(ctx, n, d, fill, par):
    c, t, ln = line(ctx, n, d, par=par)
    k = rounded(ctx, ln / fill, 0, 9)
    g = U(fill, kind='length')(c)
    ctx.check('size', tuple(g.shape) == (k + 1,))
    if k:
        uniform(ctx, 'by length', g, t[0], t[-1], k + 1)
    else:
        ctx.close('one point', g, [t[0]])


@case(n=[2, 3], d=[2, 3], m=[2, 4], before=[0, 1, 3], after=[0, 2], par=[False, True], _where=lambda n, d, m, before, after, par: d == 2 or m == 4)
def extrapolation(ctx, n, d, m, before, after, par):
    c, r, t = curve(ctx, 'c', n, d, par)
    inner = U(m)
    g = X(inner, before, after)(c)
    g2 = X(inner, before=before, after=after, kind='point')(c)
    ts = t if par else c.t.tolist()
    t0, t1 = ts[0], ts[-1]
    for label, g in (('default', g), ('point', g2)):
        ctx.check(label + ': size', tuple(g.shape) == (before + m + after,))
        if len(g) == before + m + after:
            for i, v in enumerate(g.tolist()):
                ctx.close(label + ': value', (v - t0) * (m - 1), (t1 - t0) * (i - before))
            ctx.close(label + ': inner grid', g[before:before + m], inner(c))


class Fixed(sk.InterpolationGrid):
    """a grid of the user"""
    def __init__(self, values):
        self.values = values

    def __call__(self, curve):
        return np.array(self.values, dtype=np.float64)


@case(m=[2, 3, 4], before=[0, 1, 2], after=[0, 1, 2])
def extrapolation_of_any_grid(ctx, m, before, after):
    """the pieces continue any inner grid with its mean step"""
    v = vec(ctx, 'v', m)
    c, _, _ = curve(ctx, 'c', 2, 2)
    g = X(Fixed(v), before, after)(c).tolist()
    ctx.check('size', len(g) == m + before + after)
    h = [x * (m - 1) for x in g]
    w = v[-1] - v[0]
    for i in range(before):
        ctx.close('before', h[i], v[0] * (m - 1) - w * (before - i))
    ctx.close('inner', g[before:before + m], v)
    for i in range(after):
        ctx.close('after', h[before + m + i], v[-1] * (m - 1) + w * (i + 1))


@case(d=[2, 3], m=[2, 3], par=[False, True], which=['before', 'after', 'both'], inner=['point', 'length'], _opts={'max_paths': 120})
def extrapolation_by_length(ctx, d, m, par, which, inner):
    c, t, ln = line(ctx, 2, d, hi=3.0, par=par)
    if inner == 'length':
        ctx.assume(ln >= 0.51)
        k = rounded(ctx, ln, 1, 4)
        ig, m = U(1, kind='length'), k + 1
    else:
        ig = U(m)
    b = 0.8 if which != 'after' else 0
    a = 1.25 if which != 'before' else 0
    w = t[-1] - t[0]
    ctx.assume(w >= 0.4)
    nb = rounded(ctx, b * (m - 1) / w, 0, 12) if b else 0
    na = rounded(ctx, a * (m - 1) / w, 0, 12) if a else 0
    g = X(ig, b, a, kind='length')(c)
    ctx.check('size', tuple(g.shape) == (nb + m + na,))
    if len(g) == nb + m + na:
        for i, v in enumerate(g.tolist()):
            ctx.close('value', (v - t[0]) * (m - 1), w * (i - nb))


@case(n=[2, 3, 4], d=[2, 3], m=[2, 3, 4, 5, 6, 7], _thorough={'n': [6]})
def preserved_speed(ctx, n, d, m):
    """along the curve the grid advances like the points do"""
    c, t, ln = line(ctx, n, d)
    g = S(m)(c)
    ctx.check('size', tuple(g.shape) == (m,))
    g = g.tolist()
    ctx.close('first', g[0], 0)
    ctx.close('last', g[-1], ln)
    for x, y in zip(g, g[1:]):
        ctx.lt('increasing', x, y)
    for i in range(m):
        at, k = divmod(i * (n - 1), m - 1)
        want = t[at] * (m - 1) if at == n - 1 else t[at] * (m - 1 - k) + t[at + 1] * k
        ctx.close('value', g[i] * (m - 1), want)
    if m == n:
        ctx.close('the parameters themselves', g, t)


@case(n=[2, 3, 4], m=[2, 5])
def preserved_speed_free(ctx, n, m):
    """points anywhere"""
    r = rows(ctx, 'p', n, 2, lo=-9, hi=9)
    for a, b in zip(r, r[1:]):
        ctx.assume(sq(vsub(b, a)) >= 0.01)
    c = sk.Curve(array(r))
    g = S(m)(c).tolist()
    ctx.check('size', len(g) == m)
    ctx.close('first', g[0], 0)
    ctx.close('last', g[-1], c.arclen)


@case(n=[0, 1], d=[2, 3], par=[False, True])
def too_few(ctx, n, d, par):
    c, _, _ = curve(ctx, 'c', n, d, par)
    for g in (U(2), U(5), U(1.0, kind='length'), X(U(2), 1, 1), X(U(3), 1.0, 0.0, kind='length'), X(U(1, kind='length'), 0, 0), S(3)):
        ctx.raises(type(g).__name__, ValueError, g, c)


@case(which=['uniform', 'extrapolation'])
def refused(ctx, which):
    if which == 'uniform':
        for k in ('points', '', 'Length', 'speed'):
            ctx.raises('kind', ValueError, U, 5, kind=k)
        for f in (2.0, 7.5, '3', None, [4]):
            ctx.raises('points are whole', TypeError, U, f)
        for f in (1, 0, -3):
            ctx.raises('two points', ValueError, U, f)
        for f in ('3', None, [1.0]):
            ctx.raises('length is a number', TypeError, U, f, kind='length')
    else:
        g = U(3)
        for k in ('points', '', 'Length'):
            ctx.raises('kind', ValueError, X, g, 1, 1, kind=k)
        for f in (1.0, '3', None, [4]):
            ctx.raises('before is whole', TypeError, X, g, f, 1)
            ctx.raises('after is whole', TypeError, X, g, 1, f)
        for f in ('3', None, [1.0]):
            ctx.raises('before is a number', TypeError, X, g, f, 1, kind='length')
            ctx.raises('after is a number', TypeError, X, g, 1.0, f, kind='length')


@case(m=[2, 3, 5])
def interface(ctx, m):
    """the base class makes no grid; grids do not depend on earlier calls"""
    c, _, _ = curve(ctx, 'c', 3, 2, True)
    b, _, _ = curve(ctx, 'b', 2, 2, True)
    ctx.raises('abstract', NotImplementedError, sk.InterpolationGrid(), c)
    u, x = U(m), X(U(m), 1, 2)
    for c_ in (c, b, c):
        uniform(ctx, 'again', u(c_), c_.t[0], c_.t[-1], m)
        g = x(c_)
        ctx.close('again', g[1:-2], u(c_))
