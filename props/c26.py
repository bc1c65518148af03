"""C26: interpolation."""
import numpy as np
import scipy.interpolate as si
import csaps
import skcurve as sk
from skcurve import _interpolate as ip
from harness.api import case
from harness.common import *
from props.c12 import quiet
from props.c25 import line, Fixed

ASSUMPTIONS = ['the compiled splines of SciPy and csaps are functions of their documented arguments which are applied to each coordinate on its own and, where they interpolate, pass through the points; the interpolants themselves are not encoded',
               'parameters and grid values are at least 0.01 apart from each other (the code compares with tolerances)']
OPTS = {'max_paths': 300}
GAP = 0.01


def ups(ctx, name, n, lo=-9, hi=9, gap=GAP):
    t = vec(ctx, name, n, lo=lo, hi=hi)
    for a, b in zip(t, t[1:]):
        ctx.assume(b - a >= gap)
    return t


def away(ctx, g, t):
    for x in g:
        for y in t:
            ctx.assume(ctx.any_([x == y, x - y >= GAP, y - x >= GAP]))


BENT = [[0, 0, 1, 0], [3, 1, 2, -1], [4, 4, 4, 2], [2, 6, 3, 1], [-1, 5, 7, 0], [-2, 9, 7, 3]]


def lcurve(ctx, n, d, par, kind='f', fixed=False):
    if fixed:
        # a fixed shape anywhere, any parameters
        p = vec(ctx, 'p', d, lo=-9, hi=9)
        r = [vadd(p, b[:d]) for b in BENT[:n]]
        t = ups(ctx, 't', n) if par else None
        c = sk.Curve(array(r, kind, d), tdata=t)
        return c, r, t or c.t.tolist()
    if par:
        r = rows(ctx, 'p', n, d, kind, -20, 20)
        t = ups(ctx, 't', n)
        c = sk.Curve(array(r, kind, d), tdata=t)
        return c, r, t
    c, t, _ = line(ctx, n, d)
    return c, c.data.tolist(), t


def covers(ctx, g, t):
    return ctx.is_true(ctx.and_(g[0] <= t[0], g[-1] >= t[-1]))


def shape_of(ctx, c, got, m, g):
    ctx.check('a curve', type(got) is type(c))
    ctx.check('size', got.size == m and got.ndim == c.ndim and tuple(got.data.shape) == (m, c.ndim))
    ctx.check('dtype', got.dtype == c.dtype)
    ctx.check('parametric like the curve', bool(got.isparametric) == bool(c.isparametric))
    if c.isparametric:
        ctx.close('the grid is the parameter', got.t, g)


@case(n=[2, 3, 4], d=[2, 3], m=[1, 2, 3], par=[True, False], _where=lambda n, d, m, par: (d == 2 or (n, m) == (3, 2)) and n + m < 7 and (par or m < 3), _opts=OPTS)
def linear(ctx, n, d, m, par):
    """exact on, between and beyond the points"""
    c, r, t = lcurve(ctx, n, d, par)
    g = ups(ctx, 'g', m, -12, 12)
    cov = covers(ctx, g, t)
    got, w = ctx.warned(lambda: c.interpolate(g, method='linear'))
    ctx.check('warning iff the range is not covered', (sk.InterpolationWarning in w) == (not cov))
    shape_of(ctx, c, got, m, g)
    for x, p in zip(g, got.data.tolist()):
        k = 0
        while k < n - 2 and ctx.is_true(x > t[k + 1]):
            k += 1
        h = t[k + 1] - t[k]
        for j in range(d):
            ctx.close('on the line', p[j] * h, r[k][j] * (t[k + 1] - x) + r[k + 1][j] * (x - t[k]))
    ctx.close('curve kept', c.data, r)


@case(n=[2, 3], d=[2], m=[2], par=[True], _opts=OPTS)
def linear_inside_only(ctx, n, d, m, par):
    """without extrapolation values beyond the ends are refused"""
    c, r, t = lcurve(ctx, n, d, par)
    g = ups(ctx, 'g', m, -12, 12)
    if ctx.is_true(ctx.or_(g[0] < t[0], g[-1] > t[-1])):
        ctx.raises('refused', sk.InterpolationError, quiet, lambda: c.interpolate(g, method='linear', extrapolate=False))
        return
    got = quiet(lambda: c.interpolate(g, method='linear', extrapolate=False))
    both = quiet(lambda: c.interpolate(g, method='linear', extrapolate=True))
    shape_of(ctx, c, got, m, g)
    ctx.close('same inside', got.data, both.data)


WAYS = {'cubic': [{}, {'bc_type': 'not-a-knot'}, {'bc_type': 'clamped'}, {'extrapolate': False}, {'bc_type': ('clamped', 'natural'), 'extrapolate': True}],
        'hermite': [{}, {'extrapolate': False}],
        'akima': [{}],
        'pchip': [{}, {'extrapolate': False}],
        'spline': [{}, {'k': 1}, {'k': 2, 'extrapolate': 3}, {'smooth': 0.5}, {'weights': [1.0, 2.0, 0.5, 1.5, 1.0, 2.0], 'smooth': 0.25}, {'extrapolate': 1}, {'weights': [1.0, 2.0, 0.5, 1.5, 1.0, 2.0], 'smooth': 2.0, 'k': 1}, {'weights': [0.5, 1.0, 2.0, 0.25, 1.0, 2.0], 'smooth': 0.5, 'k': 2}],
        'csaps': [{}, {'smooth': 0.7}, {'smooth': None}, {'smooth': 0.3, 'weights': [1.0, 2.0, 0.5, 1.5, 1.0, 2.0]}]}


def reference(method, t, col, g, dcol, o):
    o = dict(o)
    if 'weights' in o:
        o['weights'] = o['weights'][:len(t)]
    if method == 'cubic':
        return si.CubicSpline(t, col, bc_type=o.get('bc_type', 'natural'), extrapolate=o.get('extrapolate'))(g)
    if method == 'hermite':
        return si.CubicHermiteSpline(t, col, dcol, extrapolate=o.get('extrapolate'))(g)
    if method == 'akima':
        return si.Akima1DInterpolator(t, col)(g)
    if method == 'pchip':
        return si.PchipInterpolator(t, col, extrapolate=o.get('extrapolate'))(g)
    if method == 'spline':
        return si.UnivariateSpline(t, col, w=o.get('weights'), k=o.get('k', 3), s=o.get('smooth', 0.0), ext=o.get('extrapolate', 0))(g)
    return csaps.CubicSmoothingSpline(t, col, weights=o.get('weights'), smooth=o.get('smooth', 1.0))(g)


@case(method=sorted(WAYS), way=list(range(8)), n=[4, 5], d=[2, 3], m=[1, 2, 4], par=[True, False],
      _where=lambda method, way, n, d, m, par: way < len(WAYS[method]) and (way == 0 or (n, d, m, par) in ((4, 2, 2, True), (5, 3, 4, False), (5, 3, 4, True))) and (par or m != 2) and (n == 4 or m == 4),
      _opts=OPTS)
def interpolant(ctx, method, way, n, d, m, par):
    """the documented interpolant of every coordinate on a grid of ends, knots and other values"""
    o = dict(WAYS[method][way])
    if 'weights' in o:
        o['weights'] = o['weights'][:n]
    c, r, t = lcurve(ctx, n, d, par, fixed=method == 'hermite' or bool(o))
    if m == 4:
        # no decision about the place of the grid values: two knots with values between
        e = [ctx.scalar('e%d' % k, 'f', 0.1, 0.9) for k in range(2)]
        g = [t[0], t[0] + (t[1] - t[0]) * e[0], t[1], t[1] + (t[2] - t[1]) * e[1]]
        for x, y in zip(g, g[1:]):
            ctx.assume(y - x >= 0.001)
    else:
        g = ups(ctx, 'g', m, -12, 12)
    if m == 1:
        # any place
        away(ctx, g, t)
    elif m == 2:
        ctx.assume(ctx.and_(g[0] <= t[0] - GAP, g[1] >= t[-1] + GAP))
    got = quiet(lambda: c.interpolate(g, method=method, **o))
    shape_of(ctx, c, got, m, g)
    f1 = quiet(lambda: c.frenet1) if method == 'hermite' else None
    for j in range(d):
        want = quiet(lambda: reference(method, c.t, c.data[:, j], np.array(g), None if f1 is None else f1[:, j], o))
        for a, b in zip(got.data[:, j].tolist(), want.tolist()):
            ctx.close('coordinate %d' % j, a, b)
    ctx.close('curve kept', c.data, r)


@case(method=['linear'] + sorted(WAYS), n=[4, 5], d=[2, 3, 4], par=[True, False], _where=lambda method, n, d, par: d < 4 or n == 4, _opts=OPTS)
def through_the_points(ctx, method, n, d, par):
    c, r, t = lcurve(ctx, n, d, par, fixed=method == 'hermite')
    got, w = ctx.warned(lambda: c.interpolate(c.t, method=method))
    ctx.check('covered', sk.InterpolationWarning not in w)
    shape_of(ctx, c, got, n, t)
    ctx.close('the points', got.data, r)


@case(method=['linear', 'cubic', 'pchip', 'spline', 'csaps'], n=[4], d=[2, 3], m=[2, 4], par=[True, False], _where=lambda method, n, d, m, par: d == 2 or m == 4, _opts=OPTS)
def count_and_grid_objects(ctx, method, n, d, m, par):
    """a count is a uniform grid; grids may be arrays, lists, tuples and grid objects"""
    c, r, t = lcurve(ctx, n, d, par)
    ts = c.t.tolist()
    g = [ts[0] + (ts[-1] - ts[0]) * i / (m - 1) for i in range(m - 1)] + [ts[-1]]
    want = quiet(lambda: c.interpolate(np.array(g), method=method))
    grids = {'count': m, 'uniform': sk.UniformInterpolationGrid(m), 'list': g, 'tuple': tuple(g), 'own': Fixed(g)}
    for k in sorted(grids):
        got, w = ctx.warned(lambda: c.interpolate(grids[k], method=method))
        ctx.check(k + ': covered', sk.InterpolationWarning not in w)
        ctx.check(k + ': size', got.size == m and bool(got.isparametric) == par)
        ctx.close(k + ': points', got.data, want.data)
        if par:
            ctx.close(k + ': t', got.t, g)
    x = sk.UniformExtrapolationGrid(sk.UniformInterpolationGrid(m), 1, 1)
    got = quiet(lambda: c.interpolate(x, method=method))
    ctx.check('extrapolated size', got.size == m + 2)
    ctx.close('extrapolated: inner points', got.data[1:-1], want.data)


@case(method=['linear', 'cubic', 'csaps'], par=[True, False], how=['array', 'list', 'object'], _opts=OPTS)
def refused_grids(ctx, method, par, how):
    """accepted iff strictly increasing"""
    c, r, t = lcurve(ctx, 3, 2, par)
    g = vec(ctx, 'g', 3, lo=-9, hi=9)
    away(ctx, [g[0]], [g[1]])
    away(ctx, [g[1]], [g[2]])
    away(ctx, g, t) if method == 'linear' else None
    up = ctx.is_true(ctx.and_(g[0] < g[1], g[1] < g[2]))
    spec = {'array': np.array(g), 'list': g, 'object': Fixed(g)}[how]
    if up:
        # the place of the values is left to the other cases
        got = quiet(lambda: c.interpolate(np.array(t), method=method))
        ctx.check('accepted', got.size == 3)
        ctx.assume(ctx.and_(g[0] <= t[0], g[2] >= t[-1]))
        got, w = ctx.warned(lambda: c.interpolate(spec, method=method))
        ctx.check('accepted without a warning', got.size == 3 and sk.InterpolationWarning not in w)
    else:
        ctx.raises('not increasing', ValueError, c.interpolate, spec, method=method)


@case(method=['linear', 'cubic', 'pchip'], side=['left', 'right', 'both', 'none'], par=[True, False], _opts=OPTS)
def coverage_warning(ctx, method, side, par):
    c, r, t = lcurve(ctx, 3, 2, par)
    e = [ctx.scalar('e%d' % k, 'f', 0.02, 0.2) for k in range(2)]
    a = ctx.scalar('a', 'f', 0.01, 0.9)
    lo = t[0] + e[0] if side in ('left', 'both') else t[0] - e[0]
    hi = t[-1] - e[1] if side in ('right', 'both') else t[-1] + e[1]
    ctx.assume(hi - lo >= 0.5)
    ctx.assume(t[-1] - t[0] >= 1)
    got, w = ctx.warned(lambda: c.interpolate([lo, hi], method=method))
    ctx.check('warning', (sk.InterpolationWarning in w) == (side != 'none'))
    ctx.check('still answered', got.size == 2)


@case(d=[2, 3])
def bad_specs(ctx, d):
    c, r, t = lcurve(ctx, 4, d, True)
    a, b = t[0], t[-1]
    for m in ('linear', 'cubic', 'csaps'):
        for g in (3.5, None, 'abc'[0:0] or {1: 2}, {1.0, 2.0}):
            ctx.raises('type of the grid', ValueError, c.interpolate, g, method=m)
        for g in ([[a, b]], np.array([[a], [b]]), [[[a, b]]]):
            ctx.raises('2-D grid', ValueError, c.interpolate, g, method=m)
        for g in (1, 0, -4):
            ctx.raises('few points', ValueError, c.interpolate, g, method=m)
    ctx.raises('unknown method', NameError, c.interpolate, 5, method='nope')
    ctx.raises('unknown option', sk.InterpolationError, c.interpolate, 5, method='linear', nope=1)
    ctx.raises('positional only by name', sk.InterpolationError, c.interpolate, 5, method='cubic', k=3)
    ctx.raises('bad option', sk.InterpolationError, c.interpolate, 5, method='cubic', bc_type='nope')
    ctx.raises('bad degree', sk.InterpolationError, c.interpolate, 5, method='spline', k=6)
    ctx.raises('too few for the degree', sk.InterpolationError, c.interpolate, 5, method='spline', k=4)


@case(method=['linear'] + sorted(WAYS), d=[2, 3], kind=['f', 'i'], par=[False, True])
def few_points(ctx, method, d, kind, par):
    """nothing from nothing, nothing from one point"""
    e, _, _ = curve(ctx, 'e', 0, d, par, kind)
    for g in (5, [1.0, 2.0], sk.UniformInterpolationGrid(3)):
        got, w = ctx.warned(lambda: e.interpolate(g, method=method))
        ctx.check('warned', sk.InterpolationWarning in w)
        ctx.check('empty', isinstance(got, sk.Curve) and got.size == 0 and got.ndim == d and got.dtype == e.dtype)
    o, _, _ = curve(ctx, 'o', 1, d, par, kind)
    ctx.raises('one point', (ValueError, sk.InterpolationError), quiet, lambda: o.interpolate(5, method=method))
    ctx.raises('unknown method', NameError, e.interpolate, 5, method='nope')


@case(n=[3, 4], d=[2, 3], m=[2, 3])
def whole_numbers(ctx, n, d, m):
    """a curve of integers stays one"""
    r = rows(ctx, 'p', n, d, 'i', -20, 20)
    t = [float(k) for k in range(n)]
    c = sk.Curve(array(r, 'i', d), tdata=t)
    for method in ('linear', 'cubic', 'csaps'):
        if n < 4 and method != 'linear':
            continue
        got = c.interpolate(t, method=method)
        ctx.check('dtype', got.dtype == np.dtype(np.int64))
    got = c.interpolate(t, method='linear')
    ctx.close('points', got.data, r)
    g = [0.0] + [k + 0.5 for k in range(m - 1)]
    got = quiet(lambda: c.interpolate(g, method='linear'))
    ctx.check('shape', got.dtype == np.dtype(np.int64) and got.size == m and got.ndim == d)
    for x, p in zip(g, got.data.tolist()):
        k = int(x)
        for j in range(d):
            f = r[k][j] * (1 - (x - k)) + (r[k + 1][j] * (x - k) if x > k else 0)
            ctx.le('near', p[j] - f, 0.5)
            ctx.le('near', f - p[j], 0.5)


class Half(sk.InterpolatorBase):
    """a method of the user: parameter in every coordinate, times a factor"""
    def __init__(self, curve, factor=0.5, fail=None):
        super().__init__(curve)
        self.factor, self.fail = factor, fail

    def _interpolate(self, grid):
        if self.fail:
            raise self.fail
        return np.stack([grid * self.factor] * self.curve.ndim, axis=1)


@case(d=[2, 3], par=[False, True], m=[2, 3])
def own_interpolator(ctx, d, par, m):
    c, r, t = lcurve(ctx, 3, d, par)
    f = ctx.scalar('f', 'f', -5, 5)
    e = [ctx.scalar('e%d' % k, 'f', 0.1, 2) for k in range(m - 1)]
    g = [t[0]]
    for x in e:
        g.append(g[-1] + x)
    h = Half(c, f)
    ctx.check('curve of the interpolator', h.curve is c)
    got = quiet(lambda: h(g))
    shape_of(ctx, c, got, m, g)
    ctx.close('own values', got.data, [[x * f] * d for x in g])
    for err in (ValueError('x'), KeyError('x'), ZeroDivisionError()):
        ctx.raises('failure', sk.InterpolationError, quiet, lambda: Half(c, fail=err)(g))
    ctx.raises('interface', sk.InterpolationError, quiet, lambda: sk.InterpolatorBase(c)(g))
