"""Shared by C11-C14: a quantity of a curve does not depend on what was asked of the curve, of its
points or of other curves before, nor on the way the curve came about."""
import copy
import warnings

import numpy as np
import skcurve as sk
from harness.common import *

LENGTHS = ['chordlen', 'arclen', 'cumarclen', 't']
DERIVS = ['firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed']
FRAME = ['frenet1', 'normal', 'frenet2']
FRAME3 = ['binormal', 'frenet3']
BENDS = ['curvature']
BENDS3 = ['torsion']


def all_names(d):
    return LENGTHS + DERIVS + FRAME + BENDS + (FRAME3 + BENDS3 if d > 2 else [])


def around(names, d, free):
    return all_names(d) if free == 'place' else list(names)


def ask(c, name):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return getattr(c, name)


SHAPE = [[0, 0, 1, 0], [2, 1, 0, 1], [3, 4, 2, 3], [7, 4, 5, 1], [8, 9, 5, 4], [12, 8, 9, 4]]


def shape(ctx, n, d, free):
    r = [[float(x) for x in row[:d]] for row in SHAPE[:n]]
    if free == 'place':
        p = vec(ctx, 'p', d)
        return [vadd(p, row) for row in r]
    r[free][1] = r[free][1] + ctx.real('u', 0, 0.25)
    return r


DERIVED = {
    'reverse': (lambda c: c.reverse(), lambda r: r[::-1]),
    'twice': (lambda c: c.reverse().reverse(), lambda r: r),
    'tail': (lambda c: c[1:], lambda r: r[1:]),
    'head': (lambda c: c[:-1], lambda r: r[:-1]),
    'all': (lambda c: c[:], lambda r: r),
    'copy': (copy.copy, lambda r: r),
    'deepcopy': (copy.deepcopy, lambda r: r),
    'again': (lambda c: sk.Curve(c), lambda r: r),
    'flip': (lambda c: c[::-1], lambda r: r[::-1]),
    'delete': (lambda c: c.delete(0), lambda r: r[1:]),
    'append': (lambda c: c.append(c[0]), lambda r: r + r[:1]),
    'add': (lambda c: c + c[::-1], lambda r: r + r[::-1]),
    'unique': (lambda c: c.unique(), lambda r: r),
    'nonsingular': (lambda c: c.nonsingular(), lambda r: r),
    'drop': (lambda c: c.drop(lambda data: [0]), lambda r: r[1:]),
    'dims': (lambda c: c.appenddim().deletedim(len(c[0])), lambda r: r),
    'ints': (lambda c: sk.Curve(c, dtype='f8'), lambda r: r),
    'coorient': (lambda c: c.coorientplane(), None),
    'points': (lambda c: sk.Curve(list(c), axis=0), lambda r: r),
}


def alone(r, t, name):
    return ask(sk.Curve(array(r), tdata=t), name)


def equal(ctx, label, a, b):
    if label[:6] != 'arclen':
        ctx.check(label + ': shape', tuple(a.shape) == tuple(b.shape))
    ctx.close(label, a, b)


def orders(ctx, n, d, free, names, how, par):
    """the quantities `names` after others have been asked"""
    r = shape(ctx, n, d, free)
    td = [2.0 * k for k in range(n)] if par else None
    every = around(names, d, free)
    other = sk.Curve(array([[x + 1.0 for x in row] for row in r[::-1]]))
    c = sk.Curve(array(r), tdata=td)
    if how == 'after':
        for nm in every:
            ask(c, nm)
    elif how == 'before':
        for nm in every[::-1]:
            ask(c, nm)
    elif how == 'points':
        for k in range(n):
            for nm in every:
                if nm not in ('chordlen', 'arclen'):
                    ask(c[k], nm)
    elif how == 'segments':
        for s in c.segments:
            s.seglen, s.to_curve().arclen
        for k in range(1, n):
            c[k - 1].subcurve(c[k])
    elif how == 'others':
        for nm in every:
            ask(other, nm)
    elif how == 'between':
        for nm in every:
            ask(c, nm)
            ask(other, nm)
            ask(c.reverse(), nm)
    for nm in names:
        want = alone(r, td, nm)
        got = ask(c, nm)
        equal(ctx, nm, got, want)
        equal(ctx, nm + ' again', ask(c, nm), want)
        equal(ctx, nm + ' of a new one', alone(r, td, nm), want)
        if nm not in ('chordlen', 'arclen'):
            for k in (0, -1, n // 2):
                ctx.close(nm + ' of a point', ask(c[k], nm), want[k])
    ctx.close('data', c.data, r)


def derived(ctx, n, d, free, names, op):
    """the quantities `names` of a curve made from one whose quantities were asked"""
    r = shape(ctx, n, d, free)
    c = sk.Curve(array(r))
    for nm in around(names, d, free):
        ask(c, nm)
    make, rows_ = DERIVED[op]
    q = make(c)
    want = q.data.tolist() if rows_ is None else rows_(r)
    ctx.close('rows', q.data, want)
    for nm in names:
        equal(ctx, nm, ask(q, nm), alone(want, None, nm))
    for nm in names:
        equal(ctx, nm + ' of the source', ask(c, nm), alone(r, None, nm))
