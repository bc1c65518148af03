"""C22: exact intersection of segments."""
import itertools
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c18 import DIRS, expect as common_part, ends, on
from props.c19 import P

ASSUMPTIONS = ['directions from fixed pairs, free positions; intersection parameters are exactly 0 or 1 or at least 1e-6 away from them; two lines in space meet exactly or miss each other by a determinant of at least 0.1',
               'collinear segments: p + k u with fixed u and free p and k']
OPTS = {'unique_order': 'first', 'max_paths': 400}
T = sk.IntersectionType
PAIRS = {2: [([4, 0], [0, 3]), ([1, 2], [2, -1]), ([3, 1], [1, 3]), ([2, 0], [-5, 1]), ([-1, -1], [0, 4]), ([1, -3], [1, 2])],
         3: [([1, 0, 0], [0, 1, 0]), ([1, 2, 2], [2, -1, 1]), ([3, 0, 1], [1, 1, 3]), ([-2, 1, 0], [0, 0, 5])],
         4: [([1, 0, 2, 0], [0, 1, 0, -1]), ([1, 1, 0, 1], [2, 2, 1, -1])]}
PARALLEL = {2: [([2, 1], [-4, -2]), ([1, -1], [3, -3]), ([0, 2], [0, 1])], 3: [([1, 1, 1], [-2, -2, -2]), ([0, 0, 2], [0, 0, 1])]}


def cross(u, v):
    return u[0] * v[1] - u[1] * v[0]


def clear01(ctx, t):
    """t is not just outside or inside an end of [0, 1]; decides whether it is in it"""
    for e in (0, 1):
        ctx.assume(ctx.any_([t == e, t >= e + 1e-6, t <= e - 1e-6]))
    return ctx.is_true(ctx.and_(t >= 0, t <= 1))


def is_none(ctx, label, x):
    ctx.check(label + ': none', not x and x.intersect_type == T.NONE)


def is_exact(ctx, label, x, q):
    ctx.check(label + ': exact', bool(x) and x.intersect_type == T.EXACT)
    if x.intersect_type == T.EXACT:
        ctx.close(label + ': point', x.intersect_point.data, q)


ASK = {'plain': lambda s, r: s.intersect(r), 'swap': lambda s, r: r.intersect(s), 'rev1': lambda s, r: s.reverse().intersect(r),
       'rev2': lambda s, r: s.intersect(r.reverse()), 'name': lambda s, r: s.intersect(r, method='exact'),
       'object': lambda s, r: s.intersect(r, method=sk.get_intersect_method('exact'))}


@case(i=list(range(6)), ask=sorted(ASK), _where=lambda i, ask: ask in ('plain', 'swap') or i in (1, 3), _opts=OPTS)
@case(_name='whole', i=[1, 3, 5], ask=['plain'], kind=['I'], _opts=OPTS)
def plane(ctx, i, ask, kind='f'):
    u, v = PAIRS[2][i]
    a, b = vec(ctx, 'a', 2, kind.lower(), lo=-20, hi=20), vec(ctx, 'b', 2, kind.lower(), lo=-20, hi=20)
    w = vsub(b, a)
    t1, t2 = cross(w, v) / float(cross(u, v)), cross(w, u) / float(cross(u, v))
    meet = clear01(ctx, t1)
    meet = clear01(ctx, t2) and meet
    s, r = sk.Segment(P(a, kind), P(vadd(a, u), kind)), sk.Segment(P(b, kind), P(vadd(b, v), kind))
    x = ASK[ask](s, r)
    if meet:
        is_exact(ctx, ask, x, vadd(a, vmul(u, t1)))
        ctx.close('on the second, too', x.intersect_point.data, vadd(b, vmul(v, t2)))
    else:
        is_none(ctx, ask, x)
    ctx.close('kept', s.data, [a, vadd(a, u)])


@case(free=['u', 'v'], i=[0, 1, 3], _opts=OPTS)
def plane_free_direction(ctx, free, i):
    """one direction free"""
    u, v = [list(x) for x in PAIRS[2][i]]
    f = vec(ctx, 'f', 2, lo=-4, hi=4)
    u, v = (f, v) if free == 'u' else (u, f)
    k = cross(u, v)
    ctx.assume(ctx.or_(k >= 0.1, k <= -0.1))
    b = vec(ctx, 'b', 2, lo=-8, hi=8)
    n1, n2 = cross(b, v), cross(b, u)
    # decide 0 <= n / k <= 1 without a division
    if ctx.is_true(k < 0):
        k, n1, n2 = -k, -n1, -n2
    meet = True
    for n in (n1, n2):
        for e in (0, k):
            ctx.assume(ctx.any_([n == e, n >= e + 1e-6 * k, n <= e - 1e-6 * k]))
        meet = ctx.is_true(ctx.and_(n >= 0, n <= k)) and meet
    s, r = sk.Segment(P([0.0, 0.0]), P(u)), sk.Segment(P(b), P(vadd(b, v)))
    x = s.intersect(r)
    if meet:
        ctx.check('exact', bool(x) and x.intersect_type == T.EXACT)
        if x.intersect_type == T.EXACT:
            q = x.intersect_point.data.tolist()
            for p, y in zip(q, u):
                ctx.close('point', p * k, y * n1)
    else:
        is_none(ctx, 'apart', x)


@case(d=[3, 4], i=list(range(4)), kind=['f', 'i'], ask=['plain', 'swap', 'rev1', 'rev2'],
      _where=lambda d, i, kind, ask: i < len(PAIRS[d]) and (kind == 'f' or i == 1) and (ask == 'plain' or i == 1), _opts=OPTS)
def space_meeting_lines(ctx, d, i, kind, ask):
    """segments x + k u .. x + (k + 1) u of two lines through x"""
    u, v = PAIRS[d][i]
    x = vec(ctx, 'x', d, kind, -20, 20)
    k, m = ctx.scalar('k', kind, -3, 3), ctx.scalar('m', kind, -3, 3)
    ks, ms = clear01(ctx, -k), clear01(ctx, -m)
    s = sk.Segment(P(on(x, u, k)), P(on(x, u, k + 1)))
    r = sk.Segment(P(on(x, v, m)), P(on(x, v, m + 1)))
    got = ASK[ask](s, r)
    if ks and ms:
        is_exact(ctx, ask, got, x)
    else:
        is_none(ctx, ask, got)


@case(d=[3], i=[0, 1, 2, 3], ask=['plain', 'swap'], _opts=OPTS)
def space_skew(ctx, d, i, ask):
    """free position: meeting exactly when the lines meet inside the segments"""
    u, v = PAIRS[d][i]
    b = vec(ctx, 'b', d, lo=-9, hi=9)
    n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    g = dot(b, n)
    ctx.assume(ctx.or_(g >= 0.1, g <= -0.1))
    s, r = sk.Segment(P([0.0] * d), P(u)), sk.Segment(P(b), P(vadd(b, v)))
    is_none(ctx, 'skew', ASK[ask](s, r))


@case(d=[2, 3], i=[0, 1, 2], ask=['plain', 'swap'], _where=lambda d, i, ask: i < len(PARALLEL[d]), _opts=OPTS)
def parallel_apart(ctx, d, i, ask):
    u, v = PARALLEL[d][i]
    b = vec(ctx, 'b', d, lo=-9, hi=9)
    ms = [b[p] * u[q] - b[q] * u[p] for p, q in itertools.combinations(range(d), 2)]
    ctx.assume(ctx.any_([ctx.or_(x >= 0.1, x <= -0.1) for x in ms]))
    s, r = sk.Segment(P([0.0] * d), P(u)), sk.Segment(P(b), P(vadd(b, v)))
    is_none(ctx, 'parallel', ASK[ask](s, r))


@case(d=[1, 2, 3], i=[0, 2, 3], kind=['i'], ask=['plain', 'swap', 'rev1', 'rev2'], _where=lambda d, i, kind, ask: i < len(DIRS[d]), _opts=OPTS)
def collinear(ctx, d, i, kind, ask):
    u = DIRS[d][i]
    p = [3, -1, 2][:d]
    ks = [ctx.scalar(n, kind, -20, 20) for n in ('a0', 'a1', 'b0', 'b1')]
    w = common_part(ctx, ks)
    s = sk.Segment(P(on(p, u, ks[0])), P(on(p, u, ks[1])))
    r = sk.Segment(P(on(p, u, ks[2])), P(on(p, u, ks[3])))
    x = ASK[ask](s, r)
    if w is None:
        is_none(ctx, ask, x)
    else:
        ctx.check('overlap', bool(x) and x.intersect_type == T.OVERLAP)
        if x.intersect_type == T.OVERLAP:
            ends(ctx, 'common part', x.intersect_segment, on(p, u, w[0]), on(p, u, w[1]))


@case(d=[2, 3], which=['first', 'second'], _opts=OPTS)
def singular_off(ctx, d, which):
    """a point off a segment does not meet it"""
    u = PAIRS[d][1][0]
    p = vec(ctx, 'p', d, lo=-9, hi=9)
    ms = [p[i] * u[j] - p[j] * u[i] for i, j in itertools.combinations(range(d), 2)]
    ctx.assume(ctx.any_([ctx.or_(x >= 0.1, x <= -0.1) for x in ms]))
    s, r = sk.Segment(P([0.0] * d), P(u)), sk.Segment(P(p), P(p))
    is_none(ctx, 'off the line', s.intersect(r) if which == 'second' else r.intersect(s))


@case(d=[2, 3], _opts=OPTS)
def common_end(ctx, d):
    """segments with a common end which are not on one line meet there"""
    p = vec(ctx, 'p', d, 'i', -9, 9)
    u, v = ctx.choose('dirs', PAIRS[d])
    s, r = sk.Segment(P(p), P(vadd(p, u))), sk.Segment(P(p), P(vadd(p, v)))
    for a, b in ((s, r), (s.reverse(), r), (s, r.reverse()), (r.reverse(), s.reverse())):
        is_exact(ctx, 'common end', a.intersect(b), p)


@case(d=[2, 3])
def bad(ctx, d):
    a, b = vec(ctx, 'a', d), vec(ctx, 'b', d)
    s = sk.Segment(P(a), P(b))
    r = sk.Segment(P(a + [0]), P(b + [1]))
    ctx.raises('dimensions', ValueError, s.intersect, r)
    ctx.raises('unknown method', NameError, s.intersect, s, method='nope')


@case(i=[1, 3], scale=[2.0 ** -16, 64.0, 65536.0], ask=['plain', 'rev1', 'rev2', 'swap'], _where=lambda i, scale, ask: i == 1 or ask == 'plain', _opts=OPTS)
def plane_scaled(ctx, i, scale, ask):
    """small and large figures"""
    u, v = PAIRS[2][i]
    a, b = vec(ctx, 'a', 2, lo=-20, hi=20), vec(ctx, 'b', 2, lo=-20, hi=20)
    w = vsub(b, a)
    t1, t2 = cross(w, v) / float(cross(u, v)), cross(w, u) / float(cross(u, v))
    meet = clear01(ctx, t1)
    meet = clear01(ctx, t2) and meet
    s = sk.Segment(P(vmul(a, scale)), P(vmul(vadd(a, u), scale)))
    r = sk.Segment(P(vmul(b, scale)), P(vmul(vadd(b, v), scale)))
    x = ASK[ask](s, r)
    if meet:
        ctx.check('exact', bool(x) and x.intersect_type == T.EXACT)
        if x.intersect_type == T.EXACT:
            ctx.close('point', [y / scale for y in x.intersect_point.data.tolist()], vadd(a, vmul(u, t1)))
    else:
        is_none(ctx, ask, x)


@case(scale=[2.0 ** -16, 65536.0], i=[1, 2], _opts=OPTS)
def space_scaled(ctx, scale, i):
    u, v = PAIRS[3][i]
    x = vec(ctx, 'x', 3, 'f', -20, 20)
    k, m = ctx.scalar('k', 'f', -3, 3), ctx.scalar('m', 'f', -3, 3)
    ks, ms = clear01(ctx, -k), clear01(ctx, -m)
    s = sk.Segment(P(vmul(on(x, u, k), scale)), P(vmul(on(x, u, k + 1), scale)))
    r = sk.Segment(P(vmul(on(x, v, m), scale)), P(vmul(on(x, v, m + 1), scale)))
    got = s.intersect(r)
    if ks and ms:
        ctx.check('exact', bool(got) and got.intersect_type == T.EXACT)
        if got.intersect_type == T.EXACT:
            ctx.close('point', [y / scale for y in got.intersect_point.data.tolist()], x)
    else:
        is_none(ctx, 'apart', got)


@case(d=[2, 3], i=[0, 2], scale=[2.0 ** -16, 65536.0], _opts=OPTS)
def collinear_scaled(ctx, d, i, scale):
    u = DIRS[d][i]
    p = [3, -1, 2][:d]
    ks = [ctx.scalar(n, 'i', -20, 20) for n in ('a0', 'a1', 'b0', 'b1')]
    w = common_part(ctx, ks)
    s = sk.Segment(P(vmul(on(p, u, ks[0]), scale)), P(vmul(on(p, u, ks[1]), scale)))
    r = sk.Segment(P(vmul(on(p, u, ks[2]), scale)), P(vmul(on(p, u, ks[3]), scale)))
    x = s.intersect(r)
    if w is None:
        is_none(ctx, 'apart', x)
    else:
        ctx.check('overlap', bool(x) and x.intersect_type == T.OVERLAP)
        if x.intersect_type == T.OVERLAP:
            got = sk.Segment(P([y / scale for y in x.intersect_segment.p1.data.tolist()]), P([y / scale for y in x.intersect_segment.p2.data.tolist()]))
            ends(ctx, 'common part', got, on(p, u, w[0]), on(p, u, w[1]))
