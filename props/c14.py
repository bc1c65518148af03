"""C14: curvature and torsion."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props import hist
from props.c12 import grad_rows, quiet
from props.c13 import BASES, long_, winding, zero_or_long

ASSUMPTIONS = ['every tangent vector is longer than 0.01', 'Frenet vectors: see C13']


def fast(ctx, tan):
    """norms of the tangents, assumed away from zero"""
    out = []
    for v in tan:
        s = ctx.sqrt(sq(v))
        ctx.assume(s >= 0.01)
        out.append(s)
    return out


def num2(a, b):
    return a[0] * b[1] - a[1] * b[0]


@case(n=[2, 3, 4], pts=[False, True], par=[False, True], _where=lambda n, pts, par: n < 4 or not par, _thorough={'n': [5]})
def plane(ctx, n, pts, par):
    c, r, t = curve(ctx, 'p', n, 2, par)
    for row in r:
        bounded(ctx, row, 100)
    tan = grad_rows(r)
    sec = grad_rows(tan)
    s = fast(ctx, tan)
    if pts:
        k = [quiet(lambda: c[i].curvature) for i in range(n)]
    else:
        k = quiet(lambda: c.curvature)
        ctx.check('shape', tuple(k.shape) == (n,))
    for i in range(n):
        ctx.close('curvature', k[i] * (s[i] * s[i] * s[i]), num2(tan[i], sec[i]))
    if not pts:
        for i in range(-n, n):
            ctx.close('point', quiet(lambda: c[i].curvature), k[i])
    ctx.close('data', c.data, r)


TRANSFORMS = {'reverse': (None, -1), 'translate': (1, 1), 'scale2': (2, 1), 'scale0.5': (0.5, 1), 'scale-3': (-3, 1),
              'mirror': ('x', -1), 'swap': ('s', -1), 'rotate': ('r', 1)}


@case(n=[3], law=sorted(TRANSFORMS), _thorough={'n': [4]})
def plane_laws(ctx, n, law):
    c, r, t = curve(ctx, 'p', n, 2)
    for row in r:
        bounded(ctx, row, 100)
    tan = grad_rows(r)
    sec = grad_rows(tan)
    s = fast(ctx, tan)
    f, sign = TRANSFORMS[law]
    m = 1
    if law == 'reverse':
        q = c.reverse()
    elif law == 'translate':
        v = vec(ctx, 'v', 2, lo=-100, hi=100)
        q = sk.Curve(array([vadd(x, v) for x in r]))
    elif law == 'mirror':
        q = sk.Curve(array([[-x[0], x[1]] for x in r]))
    elif law == 'swap':
        q = sk.Curve(array([x[::-1] for x in r]))
    elif law == 'rotate':
        q = sk.Curve(array([[-x[1], x[0]] for x in r]))
    else:
        q = sk.Curve(array([vmul(x, f) for x in r]))
        m = abs(f)
    k, h = quiet(lambda: c.curvature), quiet(lambda: q.curvature)
    if law == 'reverse':
        h = h[::-1]
    qt = grad_rows(q.data.tolist())
    if law == 'reverse':
        qt = qt[::-1]
    for i in range(n):
        ctx.close('speed', ctx.sqrt(sq(qt[i])), s[i] * m)
        s3 = s[i] * s[i] * s[i]
        ctx.close('curvature', k[i] * s3, num2(tan[i], sec[i]))
        ctx.close('transformed curvature', h[i] * m * s3, num2(tan[i], sec[i]) * sign)


@case(n=[3, 4], d=[2, 3, 4], _thorough={'n': [5]})
def straight(ctx, n, d):
    """equally spaced points on a line"""
    p, u = vec(ctx, 'p', d, lo=-100, hi=100), vec(ctx, 'u', d, lo=-100, hi=100)
    ctx.assume(ctx.sqrt(sq(u)) >= 0.01)
    c = sk.Curve(array([vadd(p, vmul(u, k)) for k in range(n)]))
    ctx.close('curvature', quiet(lambda: c.curvature), [0] * n)
    if d > 2:
        ctx.close('torsion', quiet(lambda: c.torsion), [0] * n)
        ctx.close('torsion of a point', quiet(lambda: c[1].torsion), 0)
    ctx.close('curvature of a point', quiet(lambda: c[-1].curvature), 0)


@case(n=[2, 3, 4], d=[2, 3])
def uneven(ctx, n, d):
    """points on a line run through in one direction at uneven distances"""
    u = [3.0, 4.0, 12.0][:d]
    a = 0
    r = [[0] * d]
    for k in range(1, n):
        a = a + ctx.real('a%d' % k, 1, 1.2)
        r.append(vmul(u, a))
    c = sk.Curve(array(r))
    k = quiet(lambda: c.curvature)
    ctx.close('curvature', k, [0] * n)


@case(d=[3, 4], n=[3], base=['line', 'bend', 'skew'], i=[0, 1, 2], j=[0, 1, 2], _cost=4,
      _where=lambda d, n, base, i, j: d == 3 or j == 2)
@case(d=[3, 4], n=[4], base=['line', 'bend', 'skew'], i=[0, 1, 2, 3], j=[0, 1, 2], _tier='thorough', _name='space+', _cost=9)
def space(ctx, d, n, base, i, j):
    """|e1'| / |r'|"""
    r = [[float(x) for x in row[:d]] for row in BASES[base][:n]]
    r[i][j] = ctx.real('u', -8, 8)
    c = sk.Curve(array(r))
    tan = grad_rows(r)
    s = fast(ctx, tan)
    e1 = quiet(lambda: c.frenet1).tolist()
    for k in range(n):
        for x, y in zip(e1[k], tan[k]):
            ctx.close('e1', x * s[k], y)
    g = grad_rows(e1)
    k = quiet(lambda: c.curvature)
    ctx.check('shape', tuple(k.shape) == (n,))
    for m in range(n):
        ctx.close('curvature', k[m] * s[m], ctx.sqrt(sq(g[m])))
        ctx.check('not negative', k[m] >= 0)
        ctx.close('point', quiet(lambda: c[m].curvature), k[m])


@case(d=[3, 4], n=[3], i=[1, 2], j=[1, 2], _cost=4)
@case(d=[3, 4], n=[4], i=[1, 2], j=[1, 2], _tier='thorough', _name='torsion+', _cost=9)
def torsion(ctx, d, n, i, j):
    """(e2' . e3) / |r'|"""
    base = [[0, 0, 0, 1], [1, 1, 0, 2], [2, 0, 3, 3], [3, 1, 5, 3]]
    r = [[float(x) for x in row[:d]] for row in base[:n]]
    r[i][j] = ctx.real('u', -8, 8)
    c = sk.Curve(array(r))
    tan = grad_rows(r)
    s = fast(ctx, tan)
    for v in quiet(lambda: c.normal).tolist():
        zero_or_long(ctx, v)
    e2, e3 = quiet(lambda: c.frenet2).tolist(), quiet(lambda: c.frenet3).tolist()
    g = grad_rows(e2)
    t = quiet(lambda: c.torsion)
    ctx.check('shape', tuple(t.shape) == (n,))
    for m in range(n):
        ctx.close('torsion', t[m] * s[m], dot(g[m], e3[m]))
        ctx.close('point', quiet(lambda: c[m].torsion), t[m])


@case(d=[3, 4], n=[3], axis=[0, 1, 2], _cost=4)
def flat_torsion(ctx, d, n, axis):
    """a curve in a coordinate plane"""
    r = [[0.0, 0.0], [1.0, 1.0], [2.0, 0.0]]
    r[2][1] = ctx.real('u', -8, 8)
    h = ctx.real('h', -8, 8)
    full = []
    for x in r:
        row = list(x)
        row.insert(axis, h)
        full.append(row + [h] * (d - 3))
    c = sk.Curve(array(full))
    fast(ctx, grad_rows(full))
    ctx.close('torsion', quiet(lambda: c.torsion), [0] * n)


@case(n=[3, 4, 5, 6], kind=['f', 'i'], _cost=2)
@case(n=[20, 40], kind=['f', 'i'], _name='long_plane', _cost=2)
def free_plane(ctx, n, kind):
    """all coordinates free; long curves: a fixed path with two free points"""
    if n > 6:
        r = winding(n, 2)
        r = [[int(x) for x in row] for row in r] if kind == 'i' else r
        for i in (0, n // 2):
            r[i] = vec(ctx, 'p%d' % i, 2, kind)
        c = sk.Curve(array(r, kind))
    else:
        c, r, t = curve(ctx, 'p', n, 2, False, kind)
    tan = grad_rows(r)
    sec = grad_rows(tan)
    s = fast(ctx, tan)
    k = c.curvature
    ctx.check('shape', tuple(k.shape) == (n,))
    for i in range(n):
        ctx.close('curvature', k[i] * (s[i] * s[i] * s[i]), num2(tan[i], sec[i]))
        ctx.close('point', c[i].curvature, k[i])
        ctx.close('point from the end', c[i - n].curvature, k[i])
    h = c.reverse().curvature
    ctx.close('reversed', h[::-1], [-x for x in k.tolist()])
    for f in (2, 0.5):
        q = sk.Curve(array([[f * x[0] + 3, f * x[1] - 5] for x in r], 'f'))
        ctx.close('scaled and moved', q.curvature * f, k)


@case(n=[3, 4, 5], d=[3, 4], kind=['f', 'i'], at=['all', 0, 2, -1], _cost=2, _where=lambda n, d, kind, at: kind == 'f' or d == 3)
@case(n=[20], d=[3], kind=['f', 'i'], at=[0, 15, -1], _name='long_space', _cost=2, _thorough={'n': [40], 'd': [4]})
def free_space(ctx, n, d, kind, at):
    """curvature |e1'| / |r'| and torsion e2'.e3 / |r'| with free coordinates"""
    if at == 'all':
        c, r, t = curve(ctx, 'p', n, d, False, kind)
    else:
        r = winding(n, d)
        r = [[int(x) for x in row] for row in r] if kind == 'i' else r
        r[at] = vec(ctx, 'p', d, kind)
        c = sk.Curve(array(r, kind))
    tan = grad_rows(r)
    s = fast(ctx, tan)
    e1 = c.frenet1.tolist()
    for k in range(n):
        for x, y in zip(e1[k], tan[k]):
            ctx.close('e1', x * s[k], y)
    g = grad_rows(e1)
    k = c.curvature
    ctx.check('shape', tuple(k.shape) == (n,))
    for m in range(n):
        ctx.close('curvature', k[m] * s[m], ctx.sqrt(sq(g[m])))
        ctx.close('point', c[m].curvature, k[m])
    if n == 3 or at == 'all':
        return
    for v in c.normal.tolist():
        long_(ctx, v)
    for v in c.binormal.tolist():
        long_(ctx, v)
    e2, e3 = c.frenet2.tolist(), c.frenet3.tolist()
    g = grad_rows(e2)
    t = c.torsion
    ctx.check('shape of torsion', tuple(t.shape) == (n,))
    for m in range(n):
        ctx.close('torsion', t[m] * s[m], dot(g[m], e3[m]))
        ctx.close('torsion of a point', c[m].torsion, t[m])
    h = c.reverse().curvature
    ctx.close('reversed', h[::-1], k)


@case(n=[5], d=[2, 3], free=['place'], how=['after', 'before', 'points', 'segments', 'others', 'between'], par=[False, True], _cost=2)
def asked_before(ctx, n, d, free, how, par):
    """the answer does not depend on what was asked before"""
    hist.orders(ctx, n, d, free, hist.BENDS + (hist.BENDS3 if d > 2 else []), how, par)


@case(n=[5], d=[2, 3], free=['place'], op=sorted(hist.DERIVED), _cost=2)
def derived_curve(ctx, n, d, free, op):
    """nor on the curve from which the curve was made"""
    hist.derived(ctx, n, d, free, hist.BENDS + (hist.BENDS3 if d > 2 else []), op)
