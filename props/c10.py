"""C10: point arithmetic."""
import fractions
import operator

import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv,
       'floordiv': operator.floordiv}


def floor_div(ctx, got, x, y, label):
    """got is floor(x / y)"""
    ctx.check(label, ctx.any_([ctx.and_(y > 0, got * y <= x, x < (got + 1) * y),
                               ctx.and_(y < 0, got * y >= x, x > (got + 1) * y)]))


def expect(ctx, op, label, got, xs, ys):
    """got is a point with the elementwise result"""
    ctx.check(label + ': point', type(got) is sk.Point)
    ctx.check(label + ': dimension', got.ndim == len(xs))
    ctx.check(label + ': dtype', got.dtype == np.dtype('f8'))
    g = got.data.tolist()
    if op == 'floordiv':
        for u, x, y in zip(g, xs, ys):
            floor_div(ctx, u, x, y, label)
        return
    for u, x, y in zip(g, xs, ys):
        if op == 'truediv':
            ctx.close(label + ': times divisor', u * y, x)
        else:
            ctx.close(label, u, x + y if op == 'add' else x - y if op == 'sub' else x * y)


def nonzero(ctx, op, ys, far=False):
    """divisors of moderate size"""
    if op in ('truediv', 'floordiv'):
        for y in ys:
            ctx.assume(ctx.or_(ctx.and_(y >= 0.01, y <= 100), ctx.and_(y <= -0.01, y >= -100)))


@case(op=sorted(OPS), d=[1, 2, 3, 4], ka=['f', 'i'], kb=['f', 'i'], _where=lambda op, d, ka, kb: op != 'floordiv' or (d < 3 and ka == kb))
def points(ctx, op, d, ka, kb):
    a, va = point(ctx, 'a', d, ka)
    b, vb = point(ctx, 'b', d, kb)
    nonzero(ctx, op, vb)
    if op == 'floordiv':
        if ka == 'i':
            va = [ctx.choose('a%d' % k, [-7, -6, 0, 3, 7]) for k in range(d)]
            vb = [ctx.choose('b%d' % k, [-3, -2, 2, 3]) for k in range(d)]
        else:
            va = [ctx.choose('q%d' % k, [-2, -1, 0, 1, 3]) * vb[k] + vb[k] * 0.5 for k in range(d)]
        a, b = sk.Point(va), sk.Point(vb)
    expect(ctx, op, 'point op point', OPS[op](a, b), va, vb)
    ctx.close('left operand', a, va)
    ctx.close('right operand', b, vb)
    if op != 'floordiv':
        c = sk.Curve(array([va + [1, 2][:2]], 'f'))
        cp = c[0]
        e = sk.Point(vb + [1, 2])
        expect(ctx, op, 'curve point op point', OPS[op](cp, e), va + [1, 2], vb + [1, 2])
        ctx.close('curve kept', c.data, [va + [1, 2]])


NUMS = ['float', 'int', 'np.float64', 'np.int64', 'bool', 'fraction']


@case(op=sorted(OPS), d=[1, 2, 3], num=NUMS, side=['right', 'left', 'inplace'])
def numbers(ctx, op, d, num, side):
    a, va = point(ctx, 'a', d)
    if num in ('float', 'np.float64'):
        k = ctx.real('k')
        kk = np.float64(k) if num == 'np.float64' else k
    elif num in ('int', 'np.int64'):
        k = ctx.int('k')
        kk = np.int64(k) if num == 'np.int64' else k
    elif num == 'bool':
        kk = ctx.choose('k', [True, False] if op in ('add', 'sub', 'mul') else [True])
        k = 1 if kk else 0
    else:
        k, kk = 0.5, fractions.Fraction(1, 2)
    if num in ('bool', 'fraction') and op == 'floordiv':
        return
    if num == 'fraction':
        ctx.assume(True)
        if side != 'right':
            return
        kk = float(kk)
    left = side == 'left'
    if op == 'floordiv':
        # quotients kept at the middle between integers
        if left:
            va = [ctx.choose('v%d' % j, [-2, 1.0, 2, 4]) for j in range(d)]
            k = kk = ctx.choose('k', [-3, 0, 5]) if num in ('int', 'np.int64') else ctx.choose('k', [-3.5, 0.5, 5.5])
        else:
            k = kk = ctx.choose('k', [-2, 2, 4]) if num in ('int', 'np.int64') else ctx.choose('k', [-0.5, 0.5, 4.0])
            q = [ctx.int('q%d' % j, -50, 50) for j in range(d)]
            va = [x * k + 0.5 * k for x in q]
        a = sk.Point(va)
    else:
        nonzero(ctx, op, va if left else [k])
    if side == 'right':
        r = OPS[op](a, kk)
    elif side == 'left':
        r = OPS[op](kk, a)
    else:
        q = a
        if op == 'add':
            q += kk
        elif op == 'sub':
            q -= kk
        elif op == 'mul':
            q *= kk
        elif op == 'truediv':
            q /= kk
        else:
            q //= kk
        r = q
    ks = [k] * d
    expect(ctx, op, side, r, ks if left else va, va if left else ks)
    ctx.close('operand', a, va)


@case(op=['add', 'sub', 'mul', 'truediv'], d=[1, 2], num=['float', 'int', 'np.float64'], side=['right', 'left'])
def integer_points(ctx, op, d, num, side):
    """points with an integer dtype and numbers that need not be integers"""
    va = vec(ctx, 'a', d, 'i')
    k = ctx.int('k', -50, 50) if num == 'int' else ctx.real('k', -50, 50)
    a = sk.Point(va, dtype=int)
    left = side == 'left'
    nonzero(ctx, op, va if left else [k])
    kk = np.float64(k) if num == 'np.float64' else k
    r = OPS[op](kk, a) if left else OPS[op](a, kk)
    ks = [k] * d
    expect(ctx, op, side, r, ks if left else va, va if left else ks)
    ctx.close('operand', a, va)
    b = sk.Point([3] * d, dtype=int)
    expect(ctx, op, 'integer point with a float point', OPS[op](sk.Point(ks), b), ks, [3] * d)


@case(d=[1, 2, 3, 4], ka=['f', 'i'], kb=['f', 'i'])
def dot_norm(ctx, d, ka, kb):
    a, va = point(ctx, 'a', d, ka)
    b, vb = point(ctx, 'b', d, kb)
    ctx.close('dot', a @ b, dot(va, vb))
    ctx.close('dot commutes', b @ a, dot(va, vb))
    ctx.close('norm squared', a.norm() * a.norm(), sq(va))
    ctx.check('norm not negative', a.norm() >= 0)
    ctx.close('norm', a.norm(), ctx.sqrt(sq(va)))
    s = sk.Segment(a, b)
    ctx.close('segment dot', s.dot, dot(va, vb))
    ctx.close('direction', s.direction, vsub(vb, va))


@case(d=[1, 2, 3, 4], kind=['f', 'i'])
def indexing(ctx, d, kind):
    a, va = point(ctx, 'a', d, kind)
    i = ctx.int('i', -d - 2, d + 2)
    for k in range(-d, d):
        if ctx.is_true(i == k):
            ctx.close('coordinate', a[i], va[k])
            break
    else:
        ctx.raises('outside', IndexError, lambda: a[i])
        return
    ctx.close('iteration', list(a), va)
    for x, y in [(0, None), (1, None), (0, -1), (None, None)]:
        w = va[x:y]
        g = a[x:y]
        if len(w) > 1:
            ctx.check('sub-point', type(g) is sk.Point)
        ctx.close('slice', g.data if isinstance(g, sk.Point) else g, w)
    if d >= 2:
        ctx.close('list', a[[0, d - 1]].data, [va[0], va[d - 1]])
    ctx.check('length', len(a) == d)


@case(op=sorted(OPS), other=['none', 'str', 'list', 'dict', 'tuple', 'segment', 'curve', 'object'])
def rejected(ctx, op, other):
    a, va = point(ctx, 'a', 2)
    o = {'none': None, 'str': 'x', 'list': [1, 2], 'dict': {}, 'tuple': (1, 2), 'segment': sk.Segment(a, a),
         'curve': sk.Curve(array([va, va])), 'object': object()}[other]
    ctx.raises('right', TypeError, lambda: OPS[op](a, o))
    ctx.raises('left', TypeError, lambda: OPS[op](o, a))
    ctx.close('operand', a, va)


@case(other=['none', 'str', 'int', 'float', 'list'])
def matmul_rejected(ctx, other):
    a, va = point(ctx, 'a', 2)
    o = {'none': None, 'str': 'x', 'int': 2, 'float': 2.5, 'list': [1, 2]}[other]
    ctx.raises('right', TypeError, lambda: a @ o)
    ctx.raises('left', TypeError, lambda: o @ a)


@case(op=sorted(OPS), da=[2, 3], db=[2, 3], _where=lambda op, da, db: da != db)
def different_dimensions(ctx, op, da, db):
    a, va = point(ctx, 'a', da)
    b, vb = point(ctx, 'b', db)
    ctx.raises('dimensions', ValueError, lambda: OPS[op](a, b))


@case(d=[1, 2, 3])
def laws(ctx, d):
    """vector space laws"""
    a, va = point(ctx, 'a', d)
    b, vb = point(ctx, 'b', d)
    k, m = ctx.real('k'), ctx.real('m')
    ctx.close('commutes', (a + b).data, (b + a).data)
    ctx.close('difference', (a - b + b).data, va)
    ctx.close('zero', (a - a).data, [0] * d)
    ctx.close('negative', (0 - a).data, (a * -1).data)
    ctx.close('distributes', (k * (a + b)).data, (k * a + k * b).data)
    ctx.close('associates', ((k * m) * a).data, (k * (m * a)).data)
    ctx.close('scalar on either side', (k * a).data, (a * k).data)
    ctx.close('reflected difference', (k - a).data, [k - x for x in va])
