"""C17: collinearity and coplanarity."""
import itertools
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['integer coordinates (exact in floating point), so that "up to rounding" does not matter; real coordinates: the answer is asked only for points exactly on a line / plane by construction or off it by a minor of at least 0.01']
OPTS = {'unique_order': 'first'}


def minors(m, k):
    """all k x k minors of a matrix given by rows"""
    n, d = len(m), len(m[0])
    out = []
    for rs in itertools.combinations(range(n), k):
        for cs in itertools.combinations(range(d), k):
            out.append(det([[m[r][c] for c in cs] for r in rs]))
    return out


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = 0
    for j in range(len(m)):
        sub = [row[:j] + row[j + 1:] for row in m[1:]]
        s = s + (-1) ** j * m[0][j] * det(sub)
    return s


def rank_at_most(ctx, pts, k):
    """the points span an affine space of dimension at most k"""
    diff = [vsub(p, pts[0]) for p in pts[1:]]
    if len(diff) <= k or len(diff[0]) <= k:
        return True
    return ctx.all_([x == 0 for x in minors(diff, k + 1)])


def ipts(ctx, n, d, b=20):
    return [vec(ctx, 'p%d' % i, d, 'i', -b, b) for i in range(n)]


def P(v, kind='f'):
    return sk.Point(v, dtype=np.int64) if kind == 'I' else sk.Point(v)


@case(d=[1, 2, 3], _opts=OPTS, _thorough={'d': [4]})
@case(_name='whole', d=[2], kind=['I'], _opts=OPTS)
def collinear_point(ctx, d, kind='f'):
    a, b, p = ipts(ctx, 3, d)
    s = sk.Segment(P(a, kind), P(b, kind))
    want = rank_at_most(ctx, [a, b, p], 1)
    ctx.check('collinear', ctx.iff(s.collinear(P(p)), want))
    ctx.check('other order of the ends', ctx.iff(s.reverse().collinear(P(p)), want))


@case(d=[2, 3], move=[(7, -3, 11), (0, 0, -1000)], _opts=OPTS)
def collinear_moved(ctx, d, move):
    a, b, p = ipts(ctx, 3, d)
    want = rank_at_most(ctx, [a, b, p], 1)
    v = list(move[:d])
    s = sk.Segment(P(vadd(a, v)), P(vadd(b, v)))
    ctx.check('translated', ctx.iff(s.collinear(P(vadd(p, v))), want))


@case(d=[1, 2], _opts=dict(OPTS, max_paths=400))
@case(_tier='thorough', d=[3], _opts=dict(OPTS, max_paths=400))
def collinear_segment(ctx, d):
    a, b, p, q = ipts(ctx, 4, d)
    s, r = sk.Segment(P(a), P(b)), sk.Segment(P(p), P(q))
    want = rank_at_most(ctx, [a, b, p, q], 1)
    ctx.check('collinear', ctx.iff(s.collinear(r), want))


@case(d=[2], ask=['swap', 'reverse', 'reverse other', 'both'], _opts=OPTS)
def collinear_who(ctx, d, ask):
    """the answer does not depend on which segment is asked nor on the order of its ends"""
    a, b, p, q = ipts(ctx, 4, d)
    s, r = sk.Segment(P(a), P(b)), sk.Segment(P(p), P(q))
    want = rank_at_most(ctx, [a, b, p, q], 1)
    got = {'swap': lambda: r.collinear(s), 'reverse': lambda: s.reverse().collinear(r),
           'reverse other': lambda: s.collinear(r.reverse()), 'both': lambda: r.reverse().collinear(s.reverse())}[ask]()
    ctx.check('collinear', ctx.iff(got, want))


@case(d=[2, 3, 4], ks=[(0, 1, 2, 3), (0, 2, 1, 3), (0, 1, 1, 2), (0, 3, 1, 2), (-1, 0, 5, 5), (0, 0, 1, 2), (1, 2, 2, 1), (2, 5, 2, 7)], _opts=OPTS)
def on_one_line(ctx, d, ks):
    """points p + k u"""
    p, u = vec(ctx, 'p', d, 'i', -20, 20), vec(ctx, 'u', d, 'i', -20, 20)
    w = [vadd(p, vmul(u, k)) for k in ks]
    s, r = sk.Segment(P(w[0]), P(w[1])), sk.Segment(P(w[2]), P(w[3]))
    ctx.check('segments', s.collinear(r))
    ctx.check('swapped', r.collinear(s))
    ctx.check('reversed', r.reverse().collinear(s))
    ctx.check('point', s.collinear(P(w[2])))
    ctx.check('coplanar', s.coplanar(r))


@case(d=[2, 3], _opts=OPTS)
def on_one_line_real(ctx, d):
    p, u = vec(ctx, 'p', d, lo=-10, hi=10), vec(ctx, 'u', d, lo=-10, hi=10)
    s = sk.Segment(P(p), P(vadd(p, u)))
    ctx.check('twice', s.collinear(P(vadd(p, vmul(u, 2)))))
    ctx.check('middle', s.collinear(P(vadd(p, vmul(u, 0.5)))))
    ctx.check('before', s.collinear(P(vsub(p, u))))
    ctx.check('end', s.collinear(P(p)))
    ctx.check('itself', s.collinear(s))
    ctx.check('reversed', s.collinear(s.reverse()))


@case(d=[2, 3], which=['point', 'first', 'second'], _opts=OPTS)
def off_line(ctx, d, which):
    """p is off the line through a and b by a minor of at least 0.01 and away from the ends"""
    a, b, p = [vec(ctx, n, d, lo=-10, hi=10) for n in 'abp']
    m = minors([vsub(b, a), vsub(p, a)], 2)
    ctx.assume(ctx.any_([ctx.or_(x >= 0.01, x <= -0.01) for x in m]))
    for e in (a, b):
        ctx.assume(ctx.or_(p[0] - e[0] >= 0.5, e[0] - p[0] >= 0.5))
    s = sk.Segment(P(a), P(b))
    o = {'point': lambda: P(p), 'first': lambda: sk.Segment(P(p), P(a)), 'second': lambda: sk.Segment(P(b), P(p))}[which]()
    ctx.check('not collinear', ctx.not_(s.collinear(o)))


@case(d=[2, 3], tol=[0.5, 0.001], side=['near', 'far'], _opts=OPTS)
def tolerance(ctx, d, tol, side):
    """a point beside the middle of a segment of length 4 along the first axis: the second
    singular value is its distance from the line over sqrt(1.25)"""
    p = vec(ctx, 'p', d, lo=-10, hi=10)
    h = ctx.real('h', -2, 2)
    if side == 'near':
        ctx.assume(ctx.and_(h <= tol, h >= -tol))
    else:
        ctx.assume(ctx.or_(h >= 1.5 * tol, h <= -1.5 * tol))
    z = [0] * (d - 2)
    s = sk.Segment(P(p), P(vadd(p, [4, 0] + z)))
    q = P(vadd(p, [2, h] + z))
    ctx.check('collinear', ctx.iff(s.collinear(q, tol=tol), side == 'near'))
    if d == 3:
        r = sk.Segment(P(vadd(p, [0, 4, 0])), P(vadd(p, [4, 4, 2 * h])))
        ctx.check('coplanar', ctx.implies(side == 'near', s.coplanar(r, tol=2 * tol)))
        ctx.check('not coplanar', ctx.implies(side == 'far', ctx.not_(s.coplanar(r, tol=tol))))


@case(d=[1, 2])
def flat_space(ctx, d):
    a, b, p, q = [vec(ctx, n, d) for n in 'abpq']
    s, r = sk.Segment(P(a), P(b)), sk.Segment(P(p), P(q))
    ctx.check('segments', s.coplanar(r))
    ctx.check('point', s.coplanar(P(p)))
    if d == 2:
        c = sk.Curve(array([a, b, p, q]))
        ctx.check('curve', c.isplane)


@case(d=[3], order=['abpq', 'bapq', 'abqp', 'pqab', 'qpba'])
@case(_tier='thorough', d=[4], order=['abpq', 'pqab'])
def coplanar(ctx, d, order):
    pts = dict(zip('abpq', ipts(ctx, 4, d, 9)))
    want = rank_at_most(ctx, [pts[k] for k in 'abpq'], 2)
    w = [pts[k] for k in order]
    s, r = sk.Segment(P(w[0]), P(w[1])), sk.Segment(P(w[2]), P(w[3]))
    ctx.check('coplanar', ctx.iff(s.coplanar(r), want))


@case(d=[3], move=[(7, -3, 11), (0, 0, -1000), (100, 100, 100)])
def coplanar_moved(ctx, d, move):
    pts = ipts(ctx, 4, d, 9)
    want = rank_at_most(ctx, pts, 2)
    w = [vadd(p, list(move)) for p in pts]
    s, r = sk.Segment(P(w[0]), P(w[1])), sk.Segment(P(w[2]), P(w[3]))
    ctx.check('coplanar', ctx.iff(s.coplanar(r), want))


@case(d=[3, 4, 5], kind=['f', 'i'])
def three_points(ctx, d, kind):
    a, b, p = [vec(ctx, n, d, kind, -10, 10) for n in 'abp']
    ctx.check('always in one plane', sk.Segment(P(a), P(b)).coplanar(P(p)))


@case(d=[3, 4], ks=[((0, 0), (1, 0), (0, 1), (1, 1)), ((0, 0), (2, 1), (-1, 3), (4, 4)), ((1, 1), (1, 2), (1, 3), (0, 0)), ((0, 0), (1, 0), (2, 0), (3, 1))])
def in_one_plane(ctx, d, ks):
    p, u, v = [vec(ctx, n, d, 'i', -9, 9) for n in 'puv']
    w = [vadd(p, vadd(vmul(u, i), vmul(v, j))) for i, j in ks]
    s, r = sk.Segment(P(w[0]), P(w[1])), sk.Segment(P(w[2]), P(w[3]))
    ctx.check('segments', s.coplanar(r))
    ctx.check('swapped', r.coplanar(s))
    ctx.check('curve', sk.Curve(array(w, 'i')).isplane)


@case(n=[0, 1, 2, 3, 4], d=[2, 3, 4], kind=['f', 'i'], _where=lambda n, d, kind: n < 4 or (kind == 'i' and d < 4))
@case(_tier='thorough', n=[5], d=[3], kind=['i'])
def curve_plane(ctx, n, d, kind):
    pts = [vec(ctx, 'p%d' % i, d, kind, -9, 9) for i in range(n)]
    c = sk.Curve(array(pts, kind, d), ndmin=d) if n else sk.Curve([], ndmin=d)
    want = rank_at_most(ctx, pts, 2) if n else True
    ctx.check('plane', ctx.iff(c.isplane, want))
    ctx.check('spatial', bool(c.isspatial) == (d >= 3))
    ctx.check('2-d', bool(c.is2d) == (d == 2))
    ctx.check('3-d', bool(c.is3d) == (d == 3))
    ctx.close('kept', c.data, pts if n else np.zeros((0, d)))


@case(n=[5], d=[3], last=['in', 'out'])
def curve_plane5(ctx, n, d, last):
    """four fixed points of a plane and a free one"""
    base = [[0, 0, 1], [1, 0, 2], [0, 2, 1], [3, 1, 4]]        # z = x + 1
    p = vec(ctx, 'p', 3, 'i', -9, 9)
    if last == 'in':
        ctx.assume(p[2] == p[0] + 1)
    else:
        ctx.assume(p[2] != p[0] + 1)
    for k in range(n):
        w = base[:k] + [p] + base[k:]
        ctx.check('plane', bool(sk.Curve(array(w, 'i')).isplane) == (last == 'in'))


@case(d=[2, 3])
def bad(ctx, d):
    a, b = vec(ctx, 'a', d), vec(ctx, 'b', d)
    s = sk.Segment(P(a), P(b))
    for f in (s.collinear, s.coplanar):
        ctx.raises('list', TypeError, f, a)
        ctx.raises('array', TypeError, f, np.array(a))
        ctx.raises('curve', TypeError, f, sk.Curve(array([a, b])))


@case(n=[8, 25], d=[3], last=['in', 'out'], at=['first', 'middle', 'end'], _where=lambda n, d, last, at: n == 8 or at == 'middle')
@case(_tier='thorough', n=[70], d=[3], last=['in', 'out'], at=['middle'])
def long_plane(ctx, n, d, last, at):
    """many fixed points of a plane and a free one"""
    base = [[a, b, a - 2 * b + 1] for a, b in path(n - 1, 2)]
    p = vec(ctx, 'p', 3, 'i', -9, 9)
    if last == 'in':
        ctx.assume(p[2] == p[0] - 2 * p[1] + 1)
    else:
        ctx.assume(p[2] != p[0] - 2 * p[1] + 1)
    k = {'first': 0, 'middle': n // 2, 'end': n - 1}[at]
    w = base[:k] + [p] + base[k:]
    ctx.check('plane', bool(sk.Curve(array(w, 'i')).isplane) == (last == 'in'))
    ctx.check('reversed', bool(sk.Curve(array(w[::-1], 'f')).isplane) == (last == 'in'))


@case(d=[2, 3], scale=[1.0 / 256, 64.0, 65536.0], far=[0, 7], _opts=OPTS)
def scaled(ctx, d, scale, far):
    """collinear and coplanar do not depend on the size of the figure"""
    a, b, p = ipts(ctx, 3, d)
    want = rank_at_most(ctx, [a, b, p], 1)
    a, b, p = [vmul(vadd(x, [far] * d), scale) for x in (a, b, p)]
    s = sk.Segment(P(a), P(b))
    ctx.check('collinear', ctx.iff(s.collinear(P(p)), want))
    ctx.check('reversed', ctx.iff(s.reverse().collinear(P(p)), want))


@case(d=[3], scale=[1.0 / 256, 64.0, 65536.0])
def coplanar_scaled(ctx, d, scale):
    pts = ipts(ctx, 4, d, 9)
    want = rank_at_most(ctx, pts, 2)
    w = [vmul(x, scale) for x in pts]
    s, r = sk.Segment(P(w[0]), P(w[1])), sk.Segment(P(w[2]), P(w[3]))
    ctx.check('coplanar', ctx.iff(s.coplanar(r), want))
    ctx.check('curve', ctx.iff(sk.Curve(array(w)).isplane, want))


@case(dt=NARROW, last=['in', 'out'])
def narrow_plane(ctx, dt, last):
    """narrow integer dtypes: four points at the ends of the range, the last coordinate free"""
    i = np.iinfo(dt)
    lo, hi = int(i.min), int(i.max)
    q = (hi - lo) // 4
    w = [[lo + q * k for k in row] for row in ([0, 0, 0], [4, 0, 2], [0, 4, 2], [4, 4, 4])]
    w[3][2] = ctx.int('z', lo, hi)
    ctx.assume(w[3][2] == lo + 4 * q if last == 'in' else w[3][2] <= lo + 4 * q - 3)
    for r in (w, w[::-1]):
        c = narrow_curve(ctx, r, dt)
        ctx.check('plane', bool(c.isplane) == (last == 'in'))
        pts = [sk.Point(x, dtype=np.dtype(dt)) for x in r]
        ctx.check('segments', bool(sk.Segment(pts[0], pts[1]).coplanar(sk.Segment(pts[2], pts[3]))) == (last == 'in'))


@case(dt=NARROW, last=['in', 'out'])
def narrow_line(ctx, dt, last):
    """three points on a line across the whole range, or not"""
    i = np.iinfo(dt)
    lo, hi = int(i.min), int(i.max)
    span = (hi - lo) // 3
    z = ctx.int('z', lo, hi)
    ctx.assume(z == lo + 3 * span if last == 'in' else ctx.or_(z <= lo + 3 * span - 2, z >= lo + 3 * span + 2) if hi > lo + 3 * span + 1
               else z <= lo + 3 * span - 2)
    pts = [sk.Point(x, dtype=np.dtype(dt)) for x in ([lo, lo], [lo + span, lo + span], [lo + 3 * span, z])]
    if dt in ('u1', 'i1') or last == 'in':
        ctx.check('point', bool(sk.Segment(pts[0], pts[1]).collinear(pts[2])) == (last == 'in'))
        ctx.check('reversed', bool(sk.Segment(pts[2], pts[1]).collinear(pts[0])) == (last == 'in'))
