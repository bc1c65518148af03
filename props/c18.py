"""C18: overlap of collinear segments."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['segments on one line: p + k u with free p and k and u free in the plane or one of a few fixed directions in more dimensions']
DIRS = {1: [[1], [-2]], 2: [[1, 0], [0, -2], [1, -1], [-3, -1], [2, 1]],
        3: [[1, 0, 0], [0, 0, -1], [1, -2, 2], [-1, -1, 0], [0, 2, 3]], 4: [[1, -1, 2, 0], [-2, -2, -1, -1]]}
OPTS = {'unique_order': 'first', 'max_paths': 600}


def P(v, kind='f'):
    return sk.Point(v, dtype=np.int64) if kind == 'I' else sk.Point(v)


def on(p, u, k):
    return vadd(p, vmul(u, k))


def line(ctx, d, u, kind):
    p = vec(ctx, 'p', d, kind, -50, 50)
    ks = [ctx.scalar(n, kind, -20, 20) for n in ('a0', 'a1', 'b0', 'b1')]
    return p, ks


def expect(ctx, ks):
    """(lo, hi) on the line or None"""
    a0, a1, b0, b1 = ks
    alo, ahi = (a0, a1) if ctx.is_true(a0 <= a1) else (a1, a0)
    blo, bhi = (b0, b1) if ctx.is_true(b0 <= b1) else (b1, b0)
    lo = alo if ctx.is_true(alo >= blo) else blo
    hi = ahi if ctx.is_true(ahi <= bhi) else bhi
    if ctx.is_true(lo > hi):
        return None
    return lo, hi


def ends(ctx, label, got, a, b):
    """the ends are a and b in either order"""
    x, y = got.p1.data.tolist(), got.p2.data.tolist()
    if ctx.is_true(ctx.all_([p == q for p, q in zip(x, b)])):
        a, b = b, a
    ctx.close(label, x + y, a + b)


def verify(ctx, label, got, want, p, u):
    if want is None:
        ctx.check(label + ': none', got is None)
        return
    ctx.check(label + ': a segment', isinstance(got, sk.Segment))
    if isinstance(got, sk.Segment):
        ends(ctx, label + ': ends', got, on(p, u, want[0]), on(p, u, want[1]))


@case(d=[1, 2, 3, 4], i=[0, 1, 2, 3, 4], kind=['f', 'i', 'I'], _where=lambda d, i, kind: i < len(DIRS[d]) and (kind != 'I' or i < 3), _opts=OPTS)
def overlap(ctx, d, i, kind):
    u = DIRS[d][i]
    p, ks = line(ctx, d, u, kind.lower())
    w = expect(ctx, ks)
    s = sk.Segment(P(on(p, u, ks[0]), kind), P(on(p, u, ks[1]), kind))
    r = sk.Segment(P(on(p, u, ks[2]), kind), P(on(p, u, ks[3]), kind))
    verify(ctx, 'overlap', s.overlap(r), w, p, u)
    ctx.close('first kept', s.data, [on(p, u, ks[0]), on(p, u, ks[1])])
    ctx.close('second kept', r.data, [on(p, u, ks[2]), on(p, u, ks[3])])


@case(order=['a0 a1 b0 b1', 'a0 b0 a1 b1', 'a0 b0 b1 a1', 'b0 a0 a1 b1', 'b0 a0 b1 a1', 'b0 b1 a0 a1'], reverse=['', 'a', 'b', 'ab'],
      _opts=OPTS)
def free_direction(ctx, order, reverse):
    """free direction in the plane, every order of the four ends on the line"""
    p, u = vec(ctx, 'p', 2, lo=-50, hi=50), vec(ctx, 'u', 2, lo=-10, hi=10)
    ctx.assume(ctx.any_([x != 0 for x in u]))
    names = order.split()
    k = {}
    last = ctx.real(names[0], -20, 20)
    k[names[0]] = last
    for n in names[1:]:
        last = last + ctx.real('step_' + n, 0, 10)
        k[n] = last
    lo, hi = max(names.index('a0'), names.index('b0')), min(names.index('a1'), names.index('b1'))
    a = ['a1', 'a0'] if 'a' in reverse else ['a0', 'a1']
    b = ['b1', 'b0'] if 'b' in reverse else ['b0', 'b1']
    s = sk.Segment(P(on(p, u, k[a[0]])), P(on(p, u, k[a[1]])))
    r = sk.Segment(P(on(p, u, k[b[0]])), P(on(p, u, k[b[1]])))
    got = s.overlap(r)
    lo, hi = k[names[lo]], k[names[hi]]
    if ctx.is_true(lo > hi):
        ctx.check('none', got is None)
        return
    ctx.check('a segment', isinstance(got, sk.Segment))
    if isinstance(got, sk.Segment):
        ends(ctx, 'ends', got, on(p, u, lo), on(p, u, hi))


@case(d=[1, 2, 3], i=[0, 2, 3], law=['swap', 'rev1', 'rev2', 'check', 'method'], _where=lambda d, i, law: i < len(DIRS[d]), _opts=OPTS)
def laws(ctx, d, i, law):
    u = DIRS[d][i]
    p, ks = line(ctx, d, u, 'i')
    w = expect(ctx, ks)
    s = sk.Segment(P(on(p, u, ks[0])), P(on(p, u, ks[1])))
    r = sk.Segment(P(on(p, u, ks[2])), P(on(p, u, ks[3])))
    if law == 'swap':
        got = r.overlap(s)
    elif law == 'rev1':
        got = s.reverse().overlap(r)
    elif law == 'rev2':
        got = s.overlap(r.reverse())
    elif law == 'check':
        got = s.overlap(r, check_collinear=True)
    else:
        got = s.overlap(s)
        w = (ks[0], ks[1])
    verify(ctx, law, got, w, p, u)


@case(d=[2, 3], which=['cross', 'parallel', 'common end', 'free'], _opts=OPTS)
def not_collinear(ctx, d, which):
    """with check_collinear segments which are not on one line give None"""
    z = [0] * (d - 2)
    p = vec(ctx, 'p', d, 'i', -20, 20)
    u = vec(ctx, 'u', 2, 'i', -20, 20)
    ctx.assume(ctx.any_([x != 0 for x in u]))
    u = u + z
    n = [-u[1], u[0]] + z
    s = sk.Segment(P(p), P(vadd(p, u)))
    if which == 'cross':
        r = sk.Segment(P(vsub(p, n)), P(vadd(p, n)))
    elif which == 'parallel':
        r = sk.Segment(P(vadd(p, n)), P(vadd(vadd(p, n), u)))
    elif which == 'common end':
        r = sk.Segment(P(p), P(vadd(p, n)))
    else:
        k = ctx.int('k', -5, 5)
        r = sk.Segment(P(vadd(p, vmul(u, k))), P(vadd(p, n)))
    ctx.check('none', s.overlap(r, check_collinear=True) is None)
    ctx.check('none, swapped', r.overlap(s, check_collinear=True) is None)


@case(d=[1, 2, 3], where=['inside', 'end', 'outside', 'both'], _opts=OPTS)
def singular(ctx, d, where):
    u = DIRS[d][-1]
    p = vec(ctx, 'p', d, 'i', -50, 50)
    k = ctx.int('k', 0, 6)
    if where == 'inside':
        ctx.assume(ctx.and_(k > 0, k < 6))
    elif where == 'end':
        ctx.assume(k == 6)
    q = P(on(p, u, k + 7 if where == 'outside' else k))
    s = sk.Segment(P(p), P(on(p, u, 6)))
    r = sk.Segment(q, q)
    if where == 'both':
        for t in (r.overlap(r), r.overlap(r.reverse())):
            ctx.close('itself', t.data, [on(p, u, k)] * 2)
        other = sk.Segment(P(on(p, u, 8)), P(on(p, u, 8)))
        ctx.check('different points', r.overlap(other) is None)
        return
    for a, b in ((s, r), (r, s), (s.reverse(), r), (r, s.reverse())):
        t = a.overlap(b)
        if where == 'outside':
            ctx.check('none', t is None)
        else:
            ctx.close('the point', t.data, [on(p, u, k)] * 2)
