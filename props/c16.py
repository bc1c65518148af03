"""C16: angle and parallelism."""
import itertools
import math
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c13 import BASES

ASSUMPTIONS = ['angle(): both segments at least 0.01 long, coordinates within 100; pairs of directions: both free',
               'arccos is an uninterpreted strictly decreasing function with arccos(-x) = pi - arccos(x)']
PI = math.pi
FIXED = {2: [[1, 0], [3, 4], [-1, 2]], 3: [[1, 2, 2], [0, 0, -1], [1, -1, 0]], 4: [[1, 1, 1, 1], [0, 2, 0, -1]]}


def long_(ctx, u):
    s = ctx.sqrt(sq(u))
    ctx.assume(s >= 0.01)
    return s


def pair(ctx, d, free, kind='f'):
    """two segments with their directions and lengths"""
    p, q = vec(ctx, 'p', d, kind, -100, 100), vec(ctx, 'q', d, kind, -100, 100)
    u = vec(ctx, 'u', d, kind, -100, 100)
    v = vec(ctx, 'v', d, kind, -100, 100) if free else ctx.choose('v', FIXED[d])
    return p, u, q, v


def mk(p, u, kind='f'):
    dt = {'dtype': np.int64} if kind == 'I' else {}
    return sk.Segment(sk.Point(p, **dt), sk.Point(vadd(p, u), **dt))


def cosine(ctx, u, v):
    nu, nv = long_(ctx, u), long_(ctx, v)
    c = dot(u, v) / (nu * nv)
    ctx.assume(ctx.and_(c <= 1, c >= -1))     # Cauchy-Schwarz
    return c


@case(d=[1, 2, 3, 4], free=[True, False], kind=['f', 'i', 'I'], _where=lambda d, free, kind: d in FIXED or free)
def angle(ctx, d, free, kind):
    p, u, q, v = pair(ctx, d, free, kind.lower())
    c = cosine(ctx, u, v)
    s, r = mk(p, u, kind), mk(q, v, kind)
    a, cats = ctx.warned(lambda: s.angle(r))
    ctx.check('no warning', cats == [])
    ctx.check('range', ctx.and_(a >= 0, a <= PI + 1e-6))
    ctx.close('arccos of the cosine', a, np.arccos(c))
    ctx.close('operands kept', s.data, [p, vadd(p, u)])


@case(d=[1, 2, 3, 4], law=['swap', 'reverse1', 'reverse2', 'both', 'move', 'longer', 'shorter', 'self', 'selfrev'])
def laws(ctx, d, law):
    p, u, q, v = pair(ctx, d, d < 4 or not law.startswith('reverse'))
    c = cosine(ctx, u, v)
    s, r = mk(p, u), mk(q, v)
    a = s.angle(r)
    if law == 'swap':
        ctx.close('symmetric', r.angle(s), a)
    elif law == 'reverse1':
        ctx.close('supplement', s.reverse().angle(r), PI - a)
    elif law == 'reverse2':
        ctx.close('supplement', s.angle(r.reverse()), PI - a)
    elif law == 'both':
        ctx.close('same', s.reverse().angle(r.reverse()), a)
    elif law == 'move':
        w = vec(ctx, 'w', d, lo=-100, hi=100)
        ctx.close('same', mk(vadd(p, w), u).angle(r), a)
        ctx.close('same', s.angle(mk(w, v)), a)
    elif law in ('longer', 'shorter'):
        k = 3 if law == 'longer' else 0.5
        ctx.close('same', mk(p, vmul(u, k)).angle(r), a)
    elif law == 'self':
        ctx.close('zero', s.angle(s), 0)
        ctx.close('zero, moved', s.angle(mk(q, u)), 0)
        ctx.close('zero, longer', s.angle(mk(q, vmul(u, 2))), 0)
    else:
        ctx.close('pi', s.angle(s.reverse()), PI)


@case(d=[2, 3, 4], turn=[1, 2])
def right_angle(ctx, d, turn):
    p, q = vec(ctx, 'p', d, lo=-100, hi=100), vec(ctx, 'q', d, lo=-100, hi=100)
    u = vec(ctx, 'u', 2, lo=-100, hi=100)
    long_(ctx, u)
    v = [-u[1] * turn, u[0] * turn]
    z = [0] * (d - 2)
    ctx.close('right', mk(p, u + z).angle(mk(q, v + z)), PI / 2)


@case(d=[2, 3], nd=[0, 1, 3, 8])
def digits(ctx, d, nd):
    p, u, q, v = pair(ctx, d, False)
    c = cosine(ctx, u, v)
    a = mk(p, u).angle(mk(q, v), ndigits=nd)
    ctx.check('range', ctx.and_(a >= 0, a <= PI + 1e-6))
    ctx.close('rounded cosine', a, np.arccos(round(c, nd)))


@case(d=[1, 2, 3], which=['first', 'second', 'both'], kind=['f', 'i'])
def singular(ctx, d, which, kind):
    p, q = vec(ctx, 'p', d, kind, -100, 100), vec(ctx, 'q', d, kind, -100, 100)
    u, v = vec(ctx, 'u', d, kind, -100, 100), vec(ctx, 'v', d, kind, -100, 100)
    if which != 'second':
        u = [0] * d
    if which != 'first':
        v = [0] * d
    a, cats = ctx.warned(lambda: mk(p, u).angle(mk(q, v)))
    ctx.check('not a number', bool(np.isnan(a)))
    ctx.check('warning', len(cats) > 0)


@case(d=[1, 2, 3])
def bad(ctx, d):
    p, u = vec(ctx, 'p', d), vec(ctx, 'u', d)
    s = mk(p, u)
    ctx.raises('point', TypeError, s.angle, sk.Point(p))
    ctx.raises('list', TypeError, s.angle, p)


def gram(u, v):
    """squared area of the parallelogram: |u|^2 |v|^2 sin^2"""
    g = 0
    for i, j in itertools.combinations(range(len(u)), 2):
        m = u[i] * v[j] - u[j] * v[i]
        g = g + m * m
    return g


EPS = 2.0 ** -52


def dependent_or_clear(ctx, u, v, tol=None):
    """the directions are dependent or clearly (by the squared sine) not; the condition of being parallel"""
    g, n = gram(u, v), sq(u) * sq(v)
    if tol is None:
        ctx.assume(ctx.or_(g == 0, g >= 1e-12 * n))
        ctx.assume(n >= 0)       # implied
        return g <= EPS * n
    ctx.assume(ctx.or_(g <= 0.9 * tol * n, g >= 1.1 * tol * n))
    return g <= tol * n


@case(d=[1, 2, 3, 4], tol=[None, 1e-6, 0.5])
def parallel(ctx, d, tol):
    """parallel exactly when the squared sine of the angle is not above the tolerance"""
    p, q = vec(ctx, 'p', d, 'i', -100, 100), vec(ctx, 'q', d, 'i', -100, 100)
    u, v = vec(ctx, 'u', d, 'i', -100, 100), vec(ctx, 'v', d, 'i', -100, 100)
    want = dependent_or_clear(ctx, u, v, tol)
    s, r = mk(p, u), mk(q, v)
    got = s.parallel(r) if tol is None else s.parallel(r, tol=tol)
    ctx.check('parallel', ctx.iff(got, want))


@case(d=[2, 3], tol=[1e-6, 1e-3, 0.5])
def parallel_real(ctx, d, tol):
    p, q = vec(ctx, 'p', d, lo=-1, hi=1), vec(ctx, 'q', d, lo=-1, hi=1)
    u, v = vec(ctx, 'u', d, lo=-1, hi=1), vec(ctx, 'v', d, lo=-1, hi=1)
    want = dependent_or_clear(ctx, u, v, tol)
    s, r = mk(p, u), mk(q, v)
    got = s.parallel(r, tol=tol)
    ctx.check('parallel', ctx.iff(got, want))
    ctx.check('symmetric', ctx.iff(r.parallel(s, tol=tol), got))
    ctx.check('reversed', ctx.iff(s.reverse().parallel(r, tol=tol), got))
    ctx.check('reversed second', ctx.iff(s.parallel(r.reverse(), tol=tol), got))


@case(d=[1, 2, 3, 4], k=[0, 1, -1, 2, -5, 0.5])
def dependent(ctx, d, k):
    p, q = vec(ctx, 'p', d, 'i', -100, 100), vec(ctx, 'q', d, 'i', -100, 100)
    u = vec(ctx, 'u', d, 'i', -100, 100)
    s, r = mk(p, u), mk(q, vmul(u, k))
    ctx.check('parallel', s.parallel(r))
    ctx.check('symmetric', r.parallel(s))
    ctx.check('reversed', s.reverse().parallel(r))
    ctx.check('reversed second', s.parallel(r.reverse()))
    ctx.check('itself', s.parallel(s))


@case(d=[2, 3])
def independent(ctx, d):
    p, q = vec(ctx, 'p', d, lo=-100, hi=100), vec(ctx, 'q', d, lo=-100, hi=100)
    u, v = vec(ctx, 'u', d, lo=-100, hi=100), vec(ctx, 'v', d, lo=-100, hi=100)
    ctx.assume(gram(u, v) > EPS * (sq(u) * sq(v)))
    ctx.assume(gram(u, v) >= 1e-9 * (sq(u) * sq(v)))
    s, r = mk(p, u), mk(q, v)
    ctx.check('not parallel', ctx.not_(s.parallel(r)))
    ctx.check('symmetric', ctx.not_(r.parallel(s)))


@case(d=[2, 3], scale=[1.0 / 1024, 64.0, 65536.0], far=[False, True])
def scaled(ctx, d, scale, far):
    """small and large segments, of different sizes, also far from the origin"""
    p, u, q, v = pair(ctx, d, True)
    for w in (u, v):
        ctx.assume(ctx.any_([ctx.or_(x >= 0.25, x <= -0.25) for x in w]))
    su, sv = vmul(u, scale), vmul(v, scale)
    nu, nv = ctx.sqrt(sq(su)), ctx.sqrt(sq(sv))
    ctx.assume(ctx.and_(nu >= scale / 4, nv >= scale / 4))      # implied
    c = dot(su, sv) / (nu * nv)
    ctx.assume(ctx.and_(c <= 1, c >= -1))     # Cauchy-Schwarz
    m = 1024.0 if far else 0.0
    s, r = mk(vadd(p, [m] * d), su), mk(q, sv)
    a, cats = ctx.warned(lambda: s.angle(r))
    ctx.check('no warning', cats == [])
    ctx.close('arccos of the cosine', a, np.arccos(c))
    ctx.close('symmetric', r.angle(s), a)
    if scale > 1:
        ctx.close('different sizes', s.angle(mk(q, vmul(v, scale / 4))), a)


@case(d=[2, 3], scale=[2.0 ** -20, 4096.0], rev=[0, 1])
def parallel_scaled(ctx, d, scale, rev):
    p, q = vec(ctx, 'p', d, 'i', -100, 100), vec(ctx, 'q', d, 'i', -100, 100)
    u, v = vec(ctx, 'u', d, 'i', -100, 100), vec(ctx, 'v', d, 'i', -100, 100)
    u, v = vmul(u, scale), vmul(v, scale)
    want = dependent_or_clear(ctx, u, v)
    s, r = mk(vmul(p, scale), u), mk(vmul(q, scale), v)
    ctx.check('parallel', ctx.iff((s.reverse() if rev else s).parallel(r), want))
    ctx.check('symmetric', ctx.iff(r.parallel(s), want))


@case(n=[4, 20], d=[2, 3], dtype=['f', 'i'])
def curve_segments(ctx, n, d, dtype):
    """segments of curves, also of integers"""
    free = [1, n - 2] if d == 2 else [1]
    r = long_rows(ctx, 'p', n, d, free, dtype)
    for i in free:
        bounded(ctx, r[i], 100)
    c = sk.Curve(array(r, dtype))
    i, j = 0, n - 2
    u, v = vsub(r[i + 1], r[i]), vsub(r[j + 1], r[j])
    cos = cosine(ctx, u, v)
    s, o = c.segments[i], c.segments[-1]
    ctx.close('angle', s.angle(o), np.arccos(cos))
    ctx.close('symmetric', o.angle(s), np.arccos(cos))
    ctx.close('as a plain segment', s.angle(mk(r[j], v)), np.arccos(cos))
    ctx.check('parallel', ctx.iff(s.parallel(o), dependent_or_clear(ctx, u, v)))
    ctx.check('parallel to itself', ctx.and_(s.parallel(s), s.parallel(s.reverse())))
