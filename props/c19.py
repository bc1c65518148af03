"""C19: shortest segment from a segment to a point."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['the foot of the perpendicular is exactly at an end or clearly (1e-7 relative) away from it; coordinates within 100, segments of length 0 or at least 0.1']
DIRS = {3: [[1, 2, 2], [0, 0, -4], [1, -1, 0]], 4: [[1, 1, -1, 1], [0, 3, 0, 4]]}


def P(v, kind='f'):
    return sk.Point(v, dtype=np.int64) if kind == 'I' else sk.Point(v)


def setup(ctx, d, kind='f', free=True):
    a = vec(ctx, 'a', d, kind, -100, 100)
    p = vec(ctx, 'p', d, kind, -100, 100)
    u = vec(ctx, 'u', d, kind, -100, 100) if free else ctx.choose('u', DIRS[d])
    return a, u, p


def clear(ctx, a, u, p):
    """(c1, c2): the parameter of the foot is c1 / c2"""
    c1, c2 = dot(vsub(p, a), u), sq(u)
    ctx.assume(c2 >= 0.01)
    ctx.assume(ctx.any_([c1 == 0, c1 >= 1e-7 * c2, -c1 >= 1e-7 * c2]))
    ctx.assume(ctx.any_([c1 == c2, c1 <= (1 - 1e-7) * c2, c1 >= (1 + 1e-7) * c2]))
    return c1, c2


def where(ctx, c1, c2):
    if ctx.is_true(c1 <= 0):
        return 'start'
    return 'end' if ctx.is_true(c1 >= c2) else 'inside'


@case(d=[1, 2, 3, 4], kind=['f', 'i', 'I'], free=[True, False], _where=lambda d, kind, free: (d < 3 or not free) and (d > 2 or free))
@case(_tier='thorough', d=[3], kind=['f'], free=[True])
def shortest(ctx, d, kind, free):
    a, u, p = setup(ctx, d, kind.lower(), free)
    c1, c2 = clear(ctx, a, u, p)
    s = sk.Segment(P(a, kind), P(vadd(a, u), kind))
    r = s.shortest_segment(P(p, kind))
    ctx.check('a segment', isinstance(r, sk.Segment))
    ctx.check('dimension', r.ndim == d)
    ctx.close('ends at the point', r.p2.data, p)
    w = where(ctx, c1, c2)
    q = r.p1.data.tolist()
    if w == 'start':
        ctx.close('start', q, a)
    elif w == 'end':
        ctx.close('end', q, vadd(a, u))
    else:
        for j in range(d):
            ctx.close('on the segment', (q[j] - a[j]) * c2, u[j] * c1)
        if d < 4:
            ctx.close('perpendicular', dot(vsub(p, q), u), 0)
    ctx.close('kept', s.data, [a, vadd(a, u)])


@case(d=[1, 2, 3])
def nothing_closer(ctx, d):
    """no point of the segment is closer, by the definition"""
    a = vec(ctx, 'a', d, lo=-100, hi=100)
    p = vec(ctx, 'p', d, lo=-100, hi=100)
    u = [2.0, -1.0, 3.0][:d]
    c1, c2 = clear(ctx, a, u, p)
    s = sk.Segment(P(a), P(vadd(a, u)))
    r = s.shortest_segment(P(p))
    t = ctx.real('t', 0, 1)
    ctx.le('closest', sq(r.direction.data.tolist()), sq(vsub(p, vadd(a, vmul(u, t)))))


@case(d=[1, 2, 3], kind=['f', 'i'])
def distance(ctx, d, kind):
    a, u, p = setup(ctx, d, kind, d < 3)
    c1, c2 = clear(ctx, a, u, p)
    s = sk.Segment(P(a), P(vadd(a, u)))
    x = s.distance(P(p))
    ctx.check('not negative', x >= 0)
    w = where(ctx, c1, c2)
    v = vsub(p, a)
    if w == 'start':
        ctx.close('to the start', x * x, sq(v))
    elif w == 'end':
        ctx.close('to the end', x * x, sq(vsub(v, u)))
    elif d < 3:
        ctx.close('to the line', x * x * c2, sq(v) * c2 - c1 * c1)
    else:
        ctx.close('to the line', x * x, sq(v) - c1 * c1 / c2)
    ctx.close('length of the shortest segment', s.shortest_segment(P(p)).seglen, x)


@case(d=[2, 3], law=['reverse', 'move', 'mirror'])
def laws(ctx, d, law):
    a, u, p = setup(ctx, d, 'f', d < 3)
    c1, c2 = clear(ctx, a, u, p)
    b = vadd(a, u)
    s = sk.Segment(P(a), P(b))
    q = s.shortest_segment(P(p)).p1.data.tolist()
    if law == 'reverse':
        r = s.reverse().shortest_segment(P(p)).p1.data.tolist()
        want = q
    elif law == 'move':
        v = vec(ctx, 'v', d, lo=-100, hi=100)
        r = sk.Segment(P(vadd(a, v)), P(vadd(b, v))).shortest_segment(P(vadd(p, v))).p1.data.tolist()
        want = vadd(q, v)
    else:
        def f(x):
            return [-x[0]] + x[1:]
        r = sk.Segment(P(f(a)), P(f(b))).shortest_segment(P(f(p))).p1.data.tolist()
        want = f(q)
    for x, y in zip(r, want):
        ctx.close(law, x * c2, y * c2)


@case(d=[1, 2, 3, 4], kind=['f', 'i'])
def singular(ctx, d, kind):
    a, p = vec(ctx, 'a', d, kind, -100, 100), vec(ctx, 'p', d, kind, -100, 100)
    s = sk.Segment(P(a), P(a))
    r = s.shortest_segment(P(p))
    ctx.close('the only point', r.data, [a, p])
    x = s.distance(P(p))
    ctx.close('distance', x * x, sq(vsub(p, a)))
    ctx.check('not negative', x >= 0)


@case(d=[1, 2, 3], kind=['f', 'i'], at=['start', 'end', 'middle', 'before', 'after'])
def on_the_line(ctx, d, kind, at):
    a, u = vec(ctx, 'a', d, kind, -50, 50), vec(ctx, 'u', d, kind, -50, 50)
    ctx.assume(sq(u) >= 0.01)
    p = {'start': lambda: a, 'end': lambda: vadd(a, u), 'middle': lambda: vadd(a, vmul(u, 0.5)),
         'before': lambda: vsub(a, u), 'after': lambda: vadd(a, vmul(u, 3))}[at]()
    s = sk.Segment(P(a), P(vadd(a, u)))
    r = s.shortest_segment(P(p))
    q = {'before': a, 'after': vadd(a, u)}.get(at, p)
    ctx.close('nearest', r.p1.data, q)
    ctx.close('point', r.p2.data, p)
    x = s.distance(P(p))
    ctx.close('distance', x * x, sq(vsub(p, q)))


@case(d=[2, 3])
def bad(ctx, d):
    a, b = vec(ctx, 'a', d), vec(ctx, 'b', d)
    s = sk.Segment(P(a), P(b))
    for f in (s.shortest_segment, s.distance):
        ctx.raises('list', TypeError, f, a)
        ctx.raises('array', TypeError, f, np.array(a))
        ctx.raises('curve', TypeError, f, sk.Curve(array([a, b])))


@case(d=[1, 2, 3], scale=[2.0 ** -14, 64.0, 65536.0], far=[0, 1])
def scaled(ctx, d, scale, far):
    """small and large figures, also far from the origin"""
    a, u, p = setup(ctx, d, 'f', False) if d == 3 else setup(ctx, d)
    c1, c2 = clear(ctx, a, u, p)
    a, p = [[x * scale + far * 256.0 * scale for x in v] for v in (a, p)]
    u = vmul(u, scale)
    s = sk.Segment(P(a), P(vadd(a, u)))
    r = s.shortest_segment(P(p))
    ctx.close('ends at the point', r.p2.data, p)
    w = where(ctx, c1, c2)
    q = [x / scale for x in r.p1.data.tolist()]
    a, u = [x / scale for x in a], [x / scale for x in u]
    if w == 'start':
        ctx.close('start', q, a)
    elif w == 'end':
        ctx.close('end', q, vadd(a, u))
    else:
        for j in range(d):
            ctx.close('on the segment', (q[j] - a[j]) * c2, u[j] * c1)
    ctx.close('distance', s.distance(P(p)), r.seglen)


@case(n=[3, 30], d=[2, 3])
def curve_segments(ctx, n, d):
    """segments and points of curves"""
    r = long_rows(ctx, 'p', n, d, [1])
    bounded(ctx, r[1], 100)
    c = sk.Curve(array(r))
    for k in (0, n - 2):
        a, u, p = r[k], vsub(r[k + 1], r[k]), r[1 if k else n - 1]
        if n == 3 and k:
            a, u, p = r[1], vsub(r[2], r[1]), r[0]
        c1, c2 = clear(ctx, a, u, p)
        x = c.segments[k].shortest_segment(c[1 if k else n - 1] if n > 3 or not k else c[0])
        w = where(ctx, c1, c2)
        q = x.p1.data.tolist()
        ctx.close('ends at the point', x.p2.data, p)
        if w == 'start':
            ctx.close('start', q, a)
        elif w == 'end':
            ctx.close('end', q, vadd(a, u))
        else:
            for j in range(d):
                ctx.close('on the segment', (q[j] - a[j]) * c2, u[j] * c1)
