"""C13: Frenet frame."""
import warnings

import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props import hist
from props.c12 import grad_rows, quiet

ASSUMPTIONS = ['every tangent, normal and binormal vector is exactly zero or longer than 1e-6 (the code treats norms up to 1e-8 as zero)']


def zero_or_long(ctx, v):
    """decides whether a vector vanishes; a non-zero one is longer than 1e-6"""
    s = sq(v)
    if ctx.is_true(ctx.all_([x == 0 for x in v])):
        return True
    long_(ctx, v)
    return False


def long_(ctx, v):
    ctx.assume(ctx.sqrt(sq(v)) >= 0.000001)


def unit_along(ctx, label, e, v, unit=True):
    """e |v| = v: e is the unit vector along v (that |e| = 1 then follows; also asked of the
    solver where it can answer)"""
    n = ctx.sqrt(sq(v))
    for x, y in zip(e, v):
        ctx.close(label + ': along', x * n, y)
    if unit:
        ctx.close(label + ': unit', sq(e), 1)


@case(n=[1, 2, 3, 4], d=[2, 3, 4], pts=[False, True], _where=lambda n, d, pts: n < 4 or d == 2)
def frenet1(ctx, n, d, pts):
    c, r, t = curve(ctx, 'p', n, d)
    tan = grad_rows(r)
    zero = [zero_or_long(ctx, v) for v in tan]
    if pts:
        e1 = [quiet(lambda: c[k].frenet1) for k in range(n)]
    else:
        e1, w = ctx.warned(lambda: c.frenet1)
        ctx.check('shape', tuple(e1.shape) == (n, d))
        if n >= 3:
            ctx.check('warning iff a tangent vanishes', (len(w) > 0) == any(zero))
    for k in range(n):
        e = e1[k].tolist()
        if zero[k]:
            ctx.close('zero', e, [0] * d)
        else:
            unit_along(ctx, 'e1', e, tan[k], unit=n <= 3)
    ctx.close('data', c.data, r)


def bent(ctx, n, d, free):
    """points with decided abscissae; `free` coordinates symbolic"""
    r = []
    for k in range(n):
        row = [k * 1.0]
        for j in range(1, d):
            row.append(ctx.real('y%d_%d' % (k, j), -10, 10) if (k, j) in free else float((k * k * j) % 3))
        r.append(row)
    return r


BASES = {'line': [[0, 0, 0, 0], [1, 0, 0, 0], [2, 0, 0, 0], [4, 0, 0, 0]], 'bend': [[0, 0, 0, 0], [1, 1, 0, 2], [0, 2, 1, 0], [0, 4, 1, 3]],
         'skew': [[0, 0, 1, 1], [3, 0, 2, 1], [4, 4, 3, 0], [1, 4, 4, 2]], 'double': [[1, 1, 1, 1]] * 4}


@case(d=[2, 3], n=[3], base=['line', 'bend', 'skew', 'double'], i=[0, 1, 2], j=[0, 1], _cost=5)
@case(d=[3, 4], n=[3, 4], base=['line', 'bend', 'skew', 'double'], i=[0, 1, 2], j=[0, 1, 2], _name='normal+', _tier='thorough', _cost=20)
def normal(ctx, d, n, base, i, j):
    """one free coordinate, the others fixed"""
    r = [[float(x) for x in row[:d]] for row in BASES[base][:n]]
    r[i][j] = ctx.real('u', -8, 8)
    frame(ctx, r, n, d, False)


def frame(ctx, r, n, d, third):
    c = sk.Curve(array(r))
    tan = grad_rows(r)
    sec = grad_rows(tan)
    zt = [zero_or_long(ctx, v) for v in tan]
    e1 = quiet(lambda: c.frenet1)
    nor = quiet(lambda: c.normal)
    ctx.check('normal shape', tuple(nor.shape) == (n, d))
    zn = []
    for k in range(n):
        e = e1[k].tolist()
        if zt[k]:
            ctx.close('e1 zero', e, [0] * d)
        else:
            unit_along(ctx, 'e1', e, tan[k], unit=n <= 3)
        m = nor[k].tolist()
        p = dot(sec[k], e)
        ctx.close('normal', m, [x - p * y for x, y in zip(sec[k], e)])
        if not zt[k]:
            # multiplied out, without square roots
            tt, st = sq(tan[k]), dot(sec[k], tan[k])
            ctx.close('normal in closed form', [x * tt for x in m], [x * tt - st * y for x, y in zip(sec[k], tan[k])])
            ctx.close('normal orthogonal to tangent', dot(m, tan[k]), 0)
            w = [x * tt - st * y for x, y in zip(sec[k], tan[k])]
            z = ctx.is_true(sq(w) <= 0.000000000000001)
            if z:
                ctx.assume(ctx.all_([x == 0 for x in w]) if ctx.symbolic else True)
                ctx.close('normal vanishes', m, [0] * d)
            else:
                long_(ctx, m)
            zn.append(z)
        else:
            zn.append(zero_or_long(ctx, m))
    e2, w = ctx.warned(lambda: c.frenet2)
    ctx.check('e2 shape', tuple(e2.shape) == (n, d))
    ctx.check('e2 warning', (not any(zn)) or len(w) > 0)
    for k in range(n):
        f = e2[k].tolist()
        if zn[k]:
            ctx.close('e2 zero', f, [0] * d)
        else:
            m = nor[k].tolist()
            # with e2 |normal| = normal and normal . tangent = 0 above: a unit vector orthogonal to e1
            unit_along(ctx, 'e2', f, m, unit=False)
    for k in range(n):
        ctx.close('point e1', quiet(lambda: c[k].frenet1), e1[k])
        ctx.close('point normal', quiet(lambda: c[k].normal), nor[k])
        ctx.close('point e2', quiet(lambda: c[k].frenet2), e2[k])
    return c, e1, e2, zt, zn


@case(n=[1, 2], d=[2, 3])
def straight_short(ctx, n, d):
    """one and two points: everything beyond the tangent vanishes"""
    c, r, t = curve(ctx, 'p', n, d)
    tan = grad_rows(r)
    z = [zero_or_long(ctx, v) for v in tan]
    for nm in ('normal', 'frenet2', 'binormal', 'frenet3'):
        a, w = ctx.warned(lambda: getattr(c, nm))
        ctx.check(nm + ' shape', tuple(a.shape) == (n, d))
        ctx.close(nm, a, [[0] * d] * n)
        for k in range(n):
            ctx.close(nm + ' of a point', getattr(c[k], nm), [0] * d)


@case(n=[3, 4], d=[2, 3, 4])
def straight_line(ctx, n, d):
    """equally spaced points on a line: tangent frame only, the rest zero with a warning"""
    p, u = vec(ctx, 'p', d), vec(ctx, 'u', d)
    ctx.assume(sq(u) >= 0.01)
    c = sk.Curve(array([vadd(p, vmul(u, k)) for k in range(n)]))
    e1, w1 = ctx.warned(lambda: c.frenet1)
    ctx.check('no warning for e1', len(w1) == 0)
    for k in range(n):
        unit_along(ctx, 'e1', e1[k].tolist(), u)
    ctx.close('normal', c.normal, [[0] * d] * n)
    e2, w2 = ctx.warned(lambda: c.frenet2)
    ctx.check('warning for e2', len(w2) > 0)
    ctx.close('e2', e2, [[0] * d] * n)
    if d > 2:
        ctx.close('binormal', c.binormal, [[0] * d] * n)
        e3, w3 = ctx.warned(lambda: c.frenet3)
        ctx.check('warning for e3', len(w3) > 0)
        ctx.close('e3', e3, [[0] * d] * n)


@case(n=[3], d=[3, 4], case_=['helix', 'free'])
def third(ctx, n, d, case_):
    """the third vector: orthogonal to both others, or zero"""
    r = [[0.0] * d, [1.0, 1.0] + [0.0] * (d - 2), [2.0] + [0.0] * (d - 1)]
    if case_ == 'helix':
        r = [[0.0, 0.0] + [0.0] * (d - 2), [1.0, 1.0] + [1.0] * (d - 2), [2.0, 0.0] + [3.0] * (d - 2)]
        r[1][2] = ctx.real('z', -5, 5)
    else:
        r[2][1] = ctx.real('y', -5, 5)
    c = sk.Curve(array(r))
    tan = grad_rows(r)
    sec = grad_rows(tan)
    thr = grad_rows(sec)
    e1, e2 = quiet(lambda: c.frenet1), quiet(lambda: c.frenet2)
    b = quiet(lambda: c.binormal)
    ctx.check('binormal shape', tuple(b.shape) == (n, d))
    zb = []
    for k in range(n):
        x1, x2, m = e1[k].tolist(), e2[k].tolist(), b[k].tolist()
        p, q = dot(thr[k], x1), dot(thr[k], x2)
        ctx.close('binormal', m, [x - p * y - q * z for x, y, z in zip(thr[k], x1, x2)])
        zb.append(zero_or_long(ctx, m))
    e3 = quiet(lambda: c.frenet3)
    ctx.check('e3 shape', tuple(e3.shape) == (n, d))
    for k in range(n):
        f = e3[k].tolist()
        if zb[k]:
            ctx.close('e3 zero', f, [0] * d)
        else:
            unit_along(ctx, 'e3', f, b[k].tolist())
        ctx.close('point binormal', quiet(lambda: c[k].binormal), b[k])
        ctx.close('point e3', quiet(lambda: c[k].frenet3), e3[k])


def winding(n, d):
    """a fixed path without stops and without straight parts"""
    dx = [3, 4, 0, -4, -3, -4, 0, 4]
    dy = [4, 3, 5, 3, 4, -3, -5, -3]
    r = [[0.0] * d]
    for k in range(1, n):
        step = [dx[k % 8], dy[(k * k) % 8], k % 3 + 1, (k * k) % 5][:d]
        r.append([x + y for x, y in zip(r[-1], step)])
    return r


@case(n=[18, 40], d=[2, 3], at=[0, 'mid', -1], par=[False, True], _cost=3, _where=lambda n, d, at, par: n == 18 or d == 2)
def long_frame(ctx, n, d, at, par):
    """the frame along a long curve with one free coordinate"""
    r = winding(n, d)
    at = n // 2 if at == 'mid' else at
    r[at][1] = r[at][1] + ctx.real('u', 0, 0.25)
    c = sk.Curve(array(r), tdata=[float(k) for k in range(n)] if par else None)
    tan = grad_rows(r)
    sec = grad_rows(tan)
    e1, w = ctx.warned(lambda: c.frenet1)
    ctx.check('no warning', not w)
    ctx.check('shape', tuple(e1.shape) == (n, d))
    nor = c.normal
    for k in range(n):
        e, m = e1[k].tolist(), nor[k].tolist()
        unit_along(ctx, 'e1', e, tan[k], unit=False)
        tt, st = sq(tan[k]), dot(sec[k], tan[k])
        ctx.close('normal', [x * tt for x in m], [x * tt - st * y for x, y in zip(sec[k], tan[k])])
        long_(ctx, m)
    e2 = c.frenet2
    for k in range(n):
        unit_along(ctx, 'e2', e2[k].tolist(), nor[k].tolist(), unit=False)
    for k in (0, 1, n // 2, n - 1, -1):
        ctx.close('point e1', c[k].frenet1, e1[k])
        ctx.close('point normal', c[k].normal, nor[k])
        ctx.close('point e2', c[k].frenet2, e2[k])


@case(n=[3, 4, 5, 6], d=[2], at=['all'], kind=['f', 'i'], _cost=3)
@case(n=[4, 5, 6], d=[3, 4], at=[0, 2, -1], kind=['f', 'i'], _name='free_point', _cost=3)
def free_frame(ctx, n, d, at, kind):
    """all coordinates (of one point) free, all vectors non-zero: an orthonormal frame at every point"""
    if at == 'all':
        r = rows(ctx, 'p', n, d, kind)
    else:
        r = winding(n, d)
        r = [[int(x) for x in row] for row in r] if kind == 'i' else r
        r[at] = vec(ctx, 'p', d, kind)
    c = sk.Curve(array(r, kind))
    tan = grad_rows(r)
    sec = grad_rows(tan)
    thr = grad_rows(sec)
    for v in tan:
        long_(ctx, v)
    e1, w = ctx.warned(lambda: c.frenet1)
    ctx.check('no warning', not w)
    nor = c.normal
    for k in range(n):
        e, m = e1[k].tolist(), nor[k].tolist()
        unit_along(ctx, 'e1', e, tan[k])
        tt, st = sq(tan[k]), dot(sec[k], tan[k])
        ctx.close('normal', [x * tt for x in m], [x * tt - st * y for x, y in zip(sec[k], tan[k])])
        ctx.close('normal orthogonal to e1', dot(m, e), 0)
        long_(ctx, m)
    e2 = c.frenet2
    for k in range(n):
        f = e2[k].tolist()
        unit_along(ctx, 'e2', f, nor[k].tolist())
        ctx.close('e2 orthogonal to e1', dot(f, e1[k].tolist()), 0)
    if d > 2:
        b = c.binormal
        for k in range(n):
            e, f, m = e1[k].tolist(), e2[k].tolist(), b[k].tolist()
            p, q = dot(thr[k], e), dot(thr[k], f)
            ctx.close('binormal', m, [x - p * y - q * z for x, y, z in zip(thr[k], e, f)])
            ctx.close('binormal orthogonal to e1', dot(m, e), 0)
            ctx.close('binormal orthogonal to e2', dot(m, f), 0)
            long_(ctx, m)
        e3 = c.frenet3
        for k in range(n):
            unit_along(ctx, 'e3', e3[k].tolist(), b[k].tolist())
            ctx.close('e3 orthogonal to e1', dot(e3[k].tolist(), e1[k].tolist()), 0)
            ctx.close('e3 orthogonal to e2', dot(e3[k].tolist(), e2[k].tolist()), 0)
    for k in range(-n, n):
        for nm, a in (('frenet1', e1), ('normal', nor), ('frenet2', e2)) + ((('binormal', b), ('frenet3', e3)) if d > 2 else ()):
            ctx.close('point ' + nm, getattr(c[k], nm), a[k])
    q = c.reverse()
    for k in range(n):
        ctx.close('reversed e1', q.frenet1[n - 1 - k], [-x for x in e1[k].tolist()])
        ctx.close('reversed normal', q.normal[n - 1 - k], nor[k])


@case(n=[5], d=[2, 3], free=['place'], how=['after', 'before', 'points', 'segments', 'others', 'between'], par=[False, True], _cost=2)
def asked_before(ctx, n, d, free, how, par):
    """the answer does not depend on what was asked before"""
    hist.orders(ctx, n, d, free, hist.FRAME + (hist.FRAME3 if d > 2 else []), how, par)


@case(n=[5], d=[2, 3], free=['place'], op=sorted(hist.DERIVED), _cost=2)
def derived_curve(ctx, n, d, free, op):
    """nor on the curve from which the curve was made"""
    hist.derived(ctx, n, d, free, hist.FRAME + (hist.FRAME3 if d > 2 else []), op)
