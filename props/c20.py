"""C20: shortest segment between two segments."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c19 import P

ASSUMPTIONS = ['the positions of the segments are free, their directions are taken from fixed pairs (in the plane also with one free coordinate); offsets within 50',
               'optimality is decided up to 1e-9']
# (u, v)
PAIRS = {1: [([2], [3]), ([2], [-1]), ([-3], [-1]), ([4], [0]), ([0], [3]), ([0], [0])],
         2: [([4, 0], [0, 3]), ([1, 2], [2, -1]), ([3, 1], [1, 3]), ([2, 0], [-5, 1]), ([-1, -1], [0, 4]), ([2, 1], [-4, -2]), ([2, 0], [1, 0]),
             ([1, -1], [3, -3]), ([3, 4], [0, 0]), ([0, 0], [1, -2]), ([0, 0], [0, 0])],
         3: [([1, 0, 0], [0, 1, 0]), ([1, 2, 2], [2, -1, 1]), ([3, 0, 1], [1, 1, 3]), ([-2, 1, 0], [0, 0, 5]), ([1, 1, 1], [-2, -2, -2]),
             ([0, 0, 2], [0, 0, 1]), ([2, -1, 2], [0, 0, 0]), ([0, 0, 0], [0, 3, 1])],
         4: [([1, 0, 2, 0], [0, 1, 0, -1]), ([1, 1, 1, 1], [2, 2, 2, 2]), ([1, -1, 0, 3], [0, 0, 0, 0])]}
MORE = {2: [([5, 1], [4, 1]), ([1, 0], [-1, 0]), ([1, 3], [-3, 1]), ([10, 1], [-10, 1]), ([0.25, 0.5], [3, 3])],
        3: [([1, 0, 1], [1, 0, 2]), ([3, -3, 3], [-1, 1, -1]), ([5, 2, 1], [-1, 0, 0.5])], 1: [], 4: [([2, 0, 0, 1], [1, 1, 1, 0])]}


def pick(d, i):
    l = PAIRS[d] + MORE[d]
    u, v = l[i]
    return list(u), list(v)


def on_segment(ctx, label, q, a, u):
    """q = a + s u with s in [0, 1]"""
    c = sq(u)
    w = vsub(q, a)
    if c == 0:
        ctx.close(label, w, [0] * len(u))
        return
    s = dot(w, u)
    ctx.le(label + ': not before the start', 0, s)
    ctx.le(label + ': not after the end', s, c)
    for j in range(len(u)):
        ctx.close(label, w[j] * c, u[j] * s)


def optimal(ctx, p, q, a, u, b, v):
    """variational inequality: the necessary and sufficient condition for closest points"""
    m = vsub(p, q)
    for x in (a, vadd(a, u)):
        ctx.le('no closer point on the first', -1e-9, dot(m, vsub(x, p)))
    for y in (b, vadd(b, v)):
        ctx.le('no closer point on the second', -1e-9, -dot(m, vsub(y, q)))


GRID = dict(d=[1, 2, 3, 4], i=list(range(19)), _where=lambda d, i, **k: i < len(PAIRS[d]))
DEEP = dict(d=[1, 2, 3, 4], i=list(range(19)), _where=lambda d, i, **k: len(PAIRS[d]) <= i < len(PAIRS[d] + MORE[d]))


@case(**GRID)
@case(_name='whole', d=[1, 2, 3], i=[0, 1, 3, 6, 8], kind=['I'], _where=lambda d, i, kind: i < len(PAIRS[d]))
@case(_tier='thorough', **DEEP)
def shortest(ctx, d, i, kind='f'):
    u, v = pick(d, i)
    a, b = vec(ctx, 'a', d, kind.lower(), lo=-50, hi=50), vec(ctx, 'b', d, kind.lower(), lo=-50, hi=50)
    s, r = sk.Segment(P(a, kind), P(vadd(a, u), kind)), sk.Segment(P(b, kind), P(vadd(b, v), kind))
    h = s.shortest_segment(r)
    ctx.check('a segment', isinstance(h, sk.Segment))
    ctx.check('dimension', h.ndim == d)
    p, q = h.p1.data.tolist(), h.p2.data.tolist()
    on_segment(ctx, 'first', p, a, u)
    on_segment(ctx, 'second', q, b, v)
    optimal(ctx, p, q, a, u, b, v)
    x = s.distance(r)
    ctx.close('distance', x * x, sq(vsub(p, q)))
    ctx.check('not negative', x >= 0)
    ctx.close('kept', s.data, [a, vadd(a, u)])
    ctx.close('kept', r.data, [b, vadd(b, v)])


@case(d=[1, 2, 3], i=list(range(11)), law=['swap', 'rev1', 'rev2'], _where=lambda d, i, law: i < len(PAIRS[d]) and (law == 'swap' or i % 2 == 0))
@case(_tier='thorough', **dict(DEEP, law=['swap', 'rev1', 'rev2']))
def laws(ctx, d, i, law):
    """the vector between the closest points is unique"""
    u, v = pick(d, i)
    b = vec(ctx, 'b', d, lo=-50, hi=50)
    a = [1.0, -2.0, 0.5, 3.0][:d]
    s, r = sk.Segment(P(a), P(vadd(a, u))), sk.Segment(P(b), P(vadd(b, v)))
    m = s.shortest_segment(r).direction.data.tolist()
    if law == 'swap':
        k = vmul(r.shortest_segment(s).direction.data.tolist(), -1)
    elif law == 'rev1':
        k = s.reverse().shortest_segment(r).direction.data.tolist()
    else:
        k = s.shortest_segment(r.reverse()).direction.data.tolist()
    for x, y in zip(m, k):
        ctx.close(law, x, y, exact=False)


@case(i=[0, 1, 2, 5, 6, 8, 9], j=[0, 1], which=['u', 'v'])
@case(_tier='thorough', i=[3, 4, 7, 10, 11, 12, 13, 14, 15], j=[0, 1], which=['u', 'v'])
def stretched(ctx, i, j, which):
    """longer and shorter directions"""
    u, v = pick(2, i)
    (u if which == 'u' else v)[j] = ctx.choose('k', [0.125, 5.0, -3.0, 100.0])
    a, b = [0.0, 0.0], vec(ctx, 'b', 2, lo=-20, hi=20)
    s, r = sk.Segment(P(a), P(vadd(a, u))), sk.Segment(P(b), P(vadd(b, v)))
    h = s.shortest_segment(r)
    p, q = h.p1.data.tolist(), h.p2.data.tolist()
    on_segment(ctx, 'first', p, a, u)
    on_segment(ctx, 'second', q, b, v)
    optimal(ctx, p, q, a, u, b, v)


@case(d=[2, 3], kind=['f', 'i'])
def crossing(ctx, d, kind):
    """segments through a common point x: x - k u .. x + l u and x - m v .. x + n v"""
    x = vec(ctx, 'x', d, kind, -20, 20)
    u, v = ctx.choose('dirs', [(u, v) for u, v in PAIRS[d] if any(u) and any(v)])
    k, l, m, n = [ctx.scalar(c, kind, 1, 5) for c in 'klmn']
    s = sk.Segment(P(vsub(x, vmul(u, k))), P(vadd(x, vmul(u, l))))
    r = sk.Segment(P(vsub(x, vmul(v, m))), P(vadd(x, vmul(v, n))))
    h = s.shortest_segment(r)
    ctx.close('they meet', h.direction.data, [0] * d, exact=False)


@case(d=[2, 3])
def bad(ctx, d):
    a, b = vec(ctx, 'a', d), vec(ctx, 'b', d)
    s = sk.Segment(P(a), P(b))
    ctx.raises('curve', TypeError, s.shortest_segment, s.to_curve())
    ctx.raises('none', TypeError, s.distance, None)


@case(u=[(4, 0), (1, 2)], j=[0, 1], _opts={'max_paths': 300})
def free_coordinate(ctx, u, j):
    """one coordinate of the second direction free, too"""
    u, v = list(u), [1.5, -2.5]
    v[j] = ctx.real('v', -4, 4)
    turn = u[0] * v[1] - u[1] * v[0]
    ctx.assume(ctx.any_([turn == 0, turn >= 0.1, turn <= -0.1]))      # parallel or clearly not
    a, b = [0.0, 0.0], vec(ctx, 'b', 2, lo=-10, hi=10)
    s, r = sk.Segment(P(a), P(vadd(a, u))), sk.Segment(P(b), P(vadd(b, v)))
    h = s.shortest_segment(r)
    p, q = h.p1.data.tolist(), h.p2.data.tolist()
    optimal(ctx, p, q, a, u, b, v)


@case(u=[(4, 0), (0, -3)], _opts={'max_paths': 300})
def free_direction(ctx, u):
    """the whole second direction free, including zero"""
    u, v = list(u), vec(ctx, 'v', 2, lo=-4, hi=4)
    turn = u[0] * v[1] - u[1] * v[0]
    ctx.assume(ctx.any_([turn == 0, turn >= 0.1, turn <= -0.1]))
    ctx.assume(ctx.or_(ctx.all_([x == 0 for x in v]), sq(v) >= 0.01))
    a, b = [0.0, 0.0], vec(ctx, 'b', 2, lo=-10, hi=10)
    s, r = sk.Segment(P(a), P(vadd(a, u))), sk.Segment(P(b), P(vadd(b, v)))
    h = s.shortest_segment(r)
    p, q = h.p1.data.tolist(), h.p2.data.tolist()
    optimal(ctx, p, q, a, u, b, v)


@case(d=[1, 2, 3], i=[0, 1, 3, 5, 6, 8], scale=[2.0 ** -14, 4096.0], law=['plain', 'rev1', 'swap'],
      _where=lambda d, i, scale, law: i < len(PAIRS[d]) and (law == 'plain' or i in (1, 5)))
def scaled(ctx, d, i, scale, law):
    """small and large figures, decided in units of their size"""
    u, v = pick(d, i)
    a, b = [1.0, -2.0, 0.5][:d], vec(ctx, 'b', d, lo=-50, hi=50)
    s, r = sk.Segment(P(vmul(a, scale)), P(vmul(vadd(a, u), scale))), sk.Segment(P(vmul(b, scale)), P(vmul(vadd(b, v), scale)))
    h = {'plain': lambda: s.shortest_segment(r), 'rev1': lambda: s.reverse().shortest_segment(r), 'swap': lambda: r.shortest_segment(s).reverse()}[law]()
    p, q = [[x / scale for x in e.data.tolist()] for e in (h.p1, h.p2)]
    on_segment(ctx, 'first', p, a, u)
    on_segment(ctx, 'second', q, b, v)
    optimal(ctx, p, q, a, u, b, v)
    ctx.close('distance', s.distance(r) if law != 'rev1' else s.reverse().distance(r), h.seglen)
