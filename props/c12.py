"""C12: derivatives."""
import warnings

import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props import hist


def gradient(col):
    """second-order numerical gradient of a list"""
    n = len(col)
    if n == 1:
        return [0]
    if n == 2:
        return [col[1] - col[0]] * 2
    out = [(-3 * col[0] + 4 * col[1] - col[2]) / 2]
    for k in range(1, n - 1):
        out.append((col[k + 1] - col[k - 1]) / 2)
    out.append((3 * col[n - 1] - 4 * col[n - 2] + col[n - 3]) / 2)
    return out


def grad_rows(r):
    d = len(r[0])
    cols = [gradient([x[j] for x in r]) for j in range(d)]
    return [[cols[j][k] for j in range(d)] for k in range(len(r))]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


NAMES = ['firstderiv', 'secondderiv', 'thirdderiv']


@case(n=[1, 2, 3, 4, 5], d=[2, 3, 4], par=[False, True], kind=['f', 'i'], order=['up', 'down', 'point'],
      _where=lambda n, d, par, kind, order: order == 'up' or (not par and kind == 'f'), _thorough={'n': [7]})
def derivatives(ctx, n, d, par, kind, order):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    want = {}
    cur = r
    for nm in NAMES:
        cur = grad_rows(cur)
        want[nm] = cur
    want['tangent'] = want['firstderiv']
    names = NAMES + ['tangent']
    if order == 'down':
        names = names[::-1]
    if order != 'point':
        for nm in names:
            a = quiet(lambda: getattr(c, nm))
            ctx.check(nm + ': shape', tuple(a.shape) == (n, d))
            ctx.check(nm + ': dtype', a.dtype == np.dtype('f8'))
            ctx.close(nm, a, want[nm])
        sp = quiet(lambda: c.speed)
        ctx.check('speed: shape', tuple(sp.shape) == (n,))
        for k in range(n):
            ctx.close('speed', sp[k], ctx.sqrt(sq(want['tangent'][k])))
    for k in range(-n, n):
        p = c[k]
        for nm in names[::-1]:
            ctx.close('point: ' + nm, quiet(lambda: getattr(p, nm)), want[nm][k])
        ctx.close('point: speed', quiet(lambda: p.speed), ctx.sqrt(sq(want['tangent'][k])))
    ctx.close('data', c.data, r)


@case(n=[1, 2, 3, 4], d=[2, 3])
def warned_short(ctx, n, d):
    """too few points for the second order are announced"""
    c, r, t = curve(ctx, 'p', n, d)
    a, w = ctx.warned(lambda: c.firstderiv)
    ctx.check('warnings', (len(w) > 0) == (n < 3))


@case(n=[1, 2, 3, 4, 5], d=[2, 3])
def reverse(ctx, n, d):
    """reversal changes the sign of odd derivatives"""
    c, r, t = curve(ctx, 'p', n, d)
    q = c.reverse()
    for nm, s in (('firstderiv', -1), ('secondderiv', 1), ('thirdderiv', -1)):
        a, b = quiet(lambda: getattr(c, nm)), quiet(lambda: getattr(q, nm))
        ctx.close(nm, b, (np.flipud(a) * s))


@case(n=[3, 4, 5], d=[2, 3])
def polynomials(ctx, n, d):
    """exact for polynomials of degree two in the index"""
    a, b, e = vec(ctx, 'a', d), vec(ctx, 'b', d), vec(ctx, 'e', d)
    r = [[a[j] + b[j] * k + e[j] * (k * k) for j in range(d)] for k in range(n)]
    c = sk.Curve(array(r))
    ctx.close('first', c.firstderiv, [[b[j] + 2 * e[j] * k for j in range(d)] for k in range(n)])
    ctx.close('second', c.secondderiv, [[2 * e[j] for j in range(d)] for k in range(n)])
    ctx.close('third', c.thirdderiv, [[0] * d for k in range(n)])


@case(n=[1, 2, 3, 4], d=[2, 3])
def axes(ctx, n, d):
    """derivatives act on every axis by itself and do not depend on the parametrisation"""
    c, r, t = curve(ctx, 'p', n, d, True)
    q = sk.Curve(array([x[::-1] for x in r]))
    for nm in NAMES:
        a, b = quiet(lambda: getattr(c, nm)), quiet(lambda: getattr(q, nm))
        ctx.close(nm, b, a[:, ::-1])


@case(n=[2, 3, 4], d=[2, 3])
def linear(ctx, n, d):
    """translation has no effect, scaling scales"""
    c, r, t = curve(ctx, 'p', n, d)
    v, k = vec(ctx, 'v', d), ctx.real('k')
    q = sk.Curve(array([[k * x[j] + v[j] for j in range(d)] for x in r]))
    for nm in NAMES:
        ctx.close(nm, quiet(lambda: getattr(q, nm)), quiet(lambda: getattr(c, nm)) * k)


@case(n=[20, 70, 150], d=[2, 3, 6], par=[False, True], kind=['f', 'i'], _where=lambda n, d, par, kind: n == 20 or d == 2)
def long_curves(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    cur = r
    want = {}
    for nm in NAMES:
        cur = grad_rows(cur)
        want[nm] = cur
        a, w = ctx.warned(lambda: getattr(c, nm))
        ctx.check(nm + ': no warning', not w)
        ctx.check(nm + ': shape', tuple(a.shape) == (n, d))
        ctx.close(nm, a, cur)
    ctx.close('tangent', c.tangent, want['firstderiv'])
    sp = c.speed
    ctx.check('speed: shape', tuple(sp.shape) == (n,))
    for k in (0, 1, 15, 16, n // 2, n - 2, n - 1):
        ctx.close('speed', sp[k], ctx.sqrt(sq(want['firstderiv'][k])))
        for i in (k, k - n):
            for nm in NAMES:
                ctx.close('point: ' + nm, getattr(c[i], nm), want[nm][k])
            ctx.close('point: speed', c[i].speed, ctx.sqrt(sq(want['firstderiv'][k])))
    ctx.close('data', c.data, r)


@case(n=[4, 5], d=[2, 3], op=['reverse', 'slice', 'insert', 'delete', 'append', 'add', 'insertdim', 'points'], par=[False, True])
def edited(ctx, n, d, op, par):
    """derivatives of an edited curve are those of its own points, whatever was asked of the original before"""
    c, r, t = curve(ctx, 'p', n, d, par)
    v = vec(ctx, 'v', d)
    before = [getattr(c, nm) for nm in NAMES]
    p0 = c[1]
    first = p0.secondderiv
    q, rr = {
        'reverse': lambda: (c.reverse(), r[::-1]), 'slice': lambda: (c[1:], r[1:]),
        'insert': lambda: (c.insert(1, sk.Point(v)), r[:1] + [v] + r[1:]), 'delete': lambda: (c.delete(1), r[:1] + r[2:]),
        'append': lambda: (c.append(sk.Point(v)), r + [v]), 'add': lambda: (c + c[:2], r + r[:2]),
        'insertdim': lambda: (c.insertdim(0, [v[0]] * n), [[v[0]] + x for x in r]),
        'points': lambda: (sk.Curve(list(c)[::-1], axis=0), r[::-1]),
    }[op]()
    cur = rr
    for nm in NAMES:
        cur = grad_rows(cur)
        ctx.close(nm, quiet(lambda: getattr(q, nm)), cur)
        ctx.close('point: ' + nm, quiet(lambda: getattr(q[1], nm)), cur[1])
    for nm, a in zip(NAMES, before):
        ctx.close('before: ' + nm, getattr(c, nm), a)
    ctx.close('point before', p0.secondderiv, first)


@case(n=[5], d=[2, 3], free=['place', 2], how=['after', 'before', 'points', 'segments', 'others', 'between'], par=[False, True], _cost=2)
def asked_before(ctx, n, d, free, how, par):
    """the answer does not depend on what was asked before"""
    hist.orders(ctx, n, d, free, hist.DERIVS, how, par)


@case(n=[5], d=[2, 3], free=['place', 2], op=sorted(hist.DERIVED), _cost=2)
def derived_curve(ctx, n, d, free, op):
    """nor on the curve from which the curve was made"""
    hist.derived(ctx, n, d, free, hist.DERIVS, op)


@case(n=[2, 3, 4], d=[2, 3], dt=NARROW)
def narrow(ctx, n, d, dt):
    """narrow integer dtypes: the differences do not overflow"""
    r = narrow_rows(ctx, 'p', n, d, dt)
    c = narrow_curve(ctx, r, dt)
    cur = r
    for nm in NAMES:
        cur = grad_rows(cur)
        a = quiet(lambda: getattr(c, nm))
        ctx.close(nm, a, cur)
        ctx.close(nm + ' of a point', quiet(lambda: getattr(c[0], nm)), cur[0])
