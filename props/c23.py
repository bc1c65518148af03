"""C23: exact intersections of curves."""
import itertools
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c19 import P
from props.c21 import SHAPES, place
from props.c22 import cross

ASSUMPTIONS = ['curves of fixed shape with one free coordinate of the relative position, or one free coordinate of a point; coordinates of the two curves and the ends of the parameter ranges are equal or at least 0.001 apart (the code compares with tolerances)',
               'the answer for two segments is the one of Segment.intersect (C22)']
OPTS = {'unique_order': 'first', 'max_paths': 400}
T = sk.IntersectionType
MORE = {'square': [[0, 0, 0], [4, 0, 0], [4, 4, 0], [0, 4, 0], [0, 0, 0]], 'cross': [[-2, 1, 0], [6, 1, 0], [6, -3, 0], [2, -3, 0], [2, 6, 0]],
        'run': [[0, 0, 0], [2, 0, 0], [3, 0, 0], [5, 0, 0]], 'hop': [[1, 0, 0], [4, 0, 0], [4, 2, 0]], 'tri': [[0, 0, 0], [3, 3, 0], [6, 0, 0]]}
ALL = dict(SHAPES, **MORE)


def shape(name, d, off=None):
    rws = [[float(x) for x in r[:d]] for r in ALL[name]]
    if d == 3:
        rws = [r[:2] + [0.0] for r in rws] if name not in ('wedge', 'zig') else rws
    return [vadd(r, off) for r in rws] if off else rws


def clear(ctx, r1, r2, gap=0.001):
    """nothing is within the tolerances without being exact"""
    d = len(r1[0])
    done = set()
    for k in range(d):
        for x, y in itertools.product([r[k] for r in r1], [r[k] for r in r2]):
            g = x - y
            ctx.assume(ctx.any_([g == 0, g >= gap, g <= -gap]))
    for i, j in itertools.product(range(len(r1) - 1), range(len(r2) - 1)):
        u, v, w = vsub(r1[i + 1], r1[i]), vsub(r2[j + 1], r2[j]), vsub(r2[j], r1[i])
        for p, q in itertools.combinations(range(d), 2):
            k = u[p] * v[q] - u[q] * v[p]
            for n in (w[p] * v[q] - w[q] * v[p], w[p] * u[q] - w[q] * u[p]):
                for e in (0, k):
                    g = n - e
                    ctx.assume(ctx.any_([g == 0, g >= gap, g <= -gap]))


def expect(c1, c2, same=False, **how):
    out = []
    for i, j in itertools.product(range(len(c1.segments)), range(len(c2.segments))):
        if same and j - i < 2:
            continue
        x = c1.segments[i].intersect(c2.segments[j], **how)
        if x:
            out.append((i, j, x))
    return out


def report(ctx, got, want, c1, c2):
    ctx.check('a list', isinstance(got, list))
    ctx.check('exactly the pairs', len(got) == len(want))
    if len(got) != len(want):
        return
    for x, (i, j, y) in zip(got, want):
        ctx.check('segments', x.segment1.idx == i and x.segment2.idx == j)
        ctx.check('curves', x.segment1.curve is c1 and x.segment2.curve is c2)
        ctx.check('type', x.intersect_type == y.intersect_type)
        ctx.close('point', x.intersect_point.data, y.intersect_point.data)
        ctx.close('segment', x.intersect_segment.data, y.intersect_segment.data)


TWO = ['line-line', 'line-steps', 'steps-line', 'steps-wedge', 'back-line', 'stop-line', 'line-stop', 'pin-steps', 'steps-pin', 'square-line',
       'run-hop', 'hop-run', 'back-run', 'cross-line', 'tri-run', 'run-run']


@case(two=TWO, d=[2, 3], axis=[0, 1], _where=lambda two, d, axis: d == 2 or two in ('line-steps', 'run-hop', 'tri-run', 'square-line'), _opts=OPTS)
@case(_tier='thorough', two=['square-square', 'cross-square', 'zig-tri', 'tri-zig', 'wedge-back', 'cross-cross'], d=[2, 3], axis=[0, 1], _opts=dict(OPTS, max_paths=3000))
def curves(ctx, two, d, axis):
    m, n = two.split('-')
    off = [ctx.choose('o', [0.0, 0.5])] * d
    if d == 3:
        off[2] = 0.0
    off[axis] = ctx.real('x', -7, 7)
    r1, r2 = shape(m, d), shape(n, d, off)
    clear(ctx, r1, r2)
    c1, c2 = sk.Curve(array(r1)), sk.Curve(array(r2))
    got = c1.intersect(c2)
    report(ctx, got, expect(c1, c2), c1, c2)


@case(two=['line-line', 'line-steps', 'steps-wedge', 'run-hop', 'tri-run'], d=[2, 3], kind=['ii', 'if', 'fi'], axis=[0, 1],
      _where=lambda two, d, kind, axis: d == 2 or (kind == 'ii' and axis == 0), _opts=OPTS)
def whole(ctx, two, d, kind, axis):
    """curves of integers"""
    m, n = two.split('-')
    off = [0, 1, 0][:d]
    off[axis] = ctx.int('x', -7, 7)
    r1, r2 = [[int(x) for x in r] for r in shape(m, d)], [vadd([int(x) for x in r], off) for r in shape(n, d)]
    c1, c2 = sk.Curve(array(r1, kind[0])), sk.Curve(array(r2, kind[1]))
    report(ctx, c1.intersect(c2), expect(c1, c2), c1, c2)


@case(n=['line', 'steps', 'run', 'tri'], d=[2, 3], order=['segment first', 'curve first'], axis=[0, 1], _opts=OPTS)
def curve_segment(ctx, n, d, order, axis):
    a = [0.5] * d
    if d == 3:
        a[2] = 0.0
    a[axis] = ctx.real('x', -6, 6)
    u = [2.0, 0.0, 0.0][:d] if n == 'run' else [1.0, -2.0, 0.0][:d]
    r = shape(n, d)
    clear(ctx, r, [a, vadd(a, u)])
    s = sk.Segment(P(a), P(vadd(a, u)))
    c = sk.Curve(array(r))
    first = order == 'segment first'
    got = s.intersect(c) if first else c.intersect(s)
    want = []
    for k in range(len(c.segments)):
        x = s.intersect(c.segments[k]) if first else c.segments[k].intersect(s)
        if x:
            want.append((k, x))
    ctx.check('exactly the segments', len(got) == len(want))
    for x, (k, y) in zip(got, want):
        mine, other = (x.segment1, x.segment2) if first else (x.segment2, x.segment1)
        ctx.check('the given segment', mine is s)
        ctx.check('segment of the curve', other.idx == k and other.curve is c)
        ctx.check('type', x.intersect_type == y.intersect_type)
        ctx.close('point', x.intersect_point.data, y.intersect_point.data)


LOOPS = {'eight': [[0, 0], [4, 4], [4, 0], [0, 4], [-2, 4]], 'closed': [[0, 0], [4, 0], [4, 4], [0, 4], [0, 0]],
         'retrace': [[0, 0], [4, 0], [4, 2], [6, 0], [2, 0]], 'stay': [[0, 0], [4, 0], [4, 0], [4, 3], [2, -1]]}


@case(n=sorted(LOOPS), free=[0, 4], axis=[0, 1], d=[2, 3], _where=lambda n, free, axis, d: d == 2 or (n == 'eight' and axis == 0), _opts=OPTS)
@case(_tier='thorough', n=sorted(LOOPS), free=[1, 2, 3], axis=[0, 1], d=[2], _opts=dict(OPTS, max_paths=2000))
def itself(ctx, n, free, axis, d):
    rws = [[float(x) for x in r] + [0.0] * (d - 2) for r in LOOPS[n]]
    rws[free][axis] = ctx.real('x', -3, 7)
    clear(ctx, rws, rws)
    c = sk.Curve(array(rws))
    got = c.intersect(c)
    report(ctx, got, expect(c, c, same=True), c, c)


@case(n=['eight', 'retrace'])
def copy(ctx, n):
    """a copy is another curve: all pairs, the adjacent and equal ones included"""
    rws = [[float(x) for x in r] for r in LOOPS[n]]
    c = sk.Curve(array(rws))
    q = sk.Curve(c)
    report(ctx, c.intersect(q), expect(c, q), c, q)


@case(n=[0, 1], d=[2, 3], order=[0, 1], method=['exact', 'almost'])
def small(ctx, n, d, order, method):
    """curves without segments"""
    c = sk.Curve(array([vec(ctx, 'p', d)])) if n else sk.Curve([], ndmin=d)
    q = sk.Curve(array(shape('steps', d)))
    a, b = (c, q) if order else (q, c)
    ctx.check('empty list', a.intersect(b, method=method) == [])
    ctx.check('itself', c.intersect(c, method=method) == [])
    s = sk.Segment(P(q.data[0]), P(q.data[1]))
    ctx.check('segment', (c.intersect(s, method=method) if order else s.intersect(c, method=method)) == [])


@case(d=[2, 3], method=['exact', 'almost'])
def bad(ctx, d, method):
    c = sk.Curve(array([vec(ctx, 'p', d), vec(ctx, 'q', d)]))
    o = sk.Curve(array([vec(ctx, 'r', d + 1), vec(ctx, 's', d + 1)]))
    ctx.raises('dimensions', ValueError, c.intersect, o, method=method)
    ctx.raises('dimensions', ValueError, c.intersect, o.segments[0], method=method)
    ctx.raises('dimensions', ValueError, c.segments[0].intersect, o, method=method)
    ctx.raises('unknown method', NameError, c.intersect, c, method='nope')


LONG = {'waves': [[2.0 * k, [0.0, 3.0, 1.0, -2.0][k % 4]] for k in range(13)],
        'stairs': [[(k + 1) // 2 * 1.5 + 0.375, k // 2 * 0.75 - 2.0] for k in range(16)],
        'grid': [[1.0 + 3 * (k // 2), -4.0 if k % 4 in (0, 3) else 5.0] for k in range(14)]}


@case(two=['waves-stairs', 'stairs-waves', 'waves-grid', 'grid-stairs'], at=[0, 7, -1], axis=[0, 1], d=[2, 3],
      _where=lambda two, at, axis, d: (d == 2 or (two == 'waves-grid' and axis == 1)) and (at == 7 or axis == 1), _opts=OPTS)
def long_curves(ctx, two, at, axis, d):
    """curves of many segments, one free coordinate of one point"""
    m, n = two.split('-')
    r1, r2 = [[list(r) + [0.0] * (d - 2) for r in LONG[k]] for k in (m, n)]
    p, i = r2[at], at % len(r2)
    p[axis] = p[axis] + ctx.real('x', 0.0, 0.75)
    near = r2[max(i - 1, 0):i + 2]
    clear(ctx, r1, near)
    c1, c2 = sk.Curve(array(r1)), sk.Curve(array(r2))
    got = c1.intersect(c2)
    report(ctx, got, expect(c1, c2), c1, c2)
    ctx.reach('some' if got else 'none')


@case(at=[0, 5, -1], axis=[0, 1], _opts=OPTS)
def long_itself(ctx, at, axis):
    rws = [list(r) for r in LONG['waves'][:10]] + [[17.0, 2.5], [1.0, 0.25], [1.5, -3.0], [9.0, 2.0]]
    rws[at][axis] = rws[at][axis] + ctx.real('x', 0.0, 0.75)
    i = at % len(rws)
    clear(ctx, rws, rws[max(i - 1, 0):i + 2])
    c = sk.Curve(array(rws))
    got = c.intersect(c)
    report(ctx, got, expect(c, c, same=True), c, c)
    ctx.reach('some' if got else 'none')


@case(two=['steps-wedge', 'run-hop', 'tri-run', 'square-line'], scale=[2.0 ** -16, 4096.0], axis=[0, 1], _opts=OPTS)
def scaled(ctx, two, scale, axis):
    """small and large figures"""
    m, n = two.split('-')
    off = [0.5, 0.5]
    off[axis] = ctx.real('x', -7, 7)
    r1, r2 = shape(m, 2), shape(n, 2, off)
    clear(ctx, r1, r2)
    c1, c2 = sk.Curve(array([vmul(r, scale) for r in r1])), sk.Curve(array([vmul(r, scale) for r in r2]))
    got = c1.intersect(c2)
    report(ctx, got, expect(c1, c2), c1, c2)
    whole = sk.Curve(array(r1)).intersect(sk.Curve(array(r2)))
    ctx.check('as many as at the usual size', len(whole) == len(got))
    if len(whole) == len(got):
        for x, y in zip(got, whole):
            ctx.check('segments', x.segment1.idx == y.segment1.idx and x.segment2.idx == y.segment2.idx and x.intersect_type == y.intersect_type)
