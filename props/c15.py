"""C15: the affine parameter of a segment."""
import itertools
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['t(): segments with some coordinate difference of at least 0.01, points off the line at least 1 away from both ends and with some 2x2 minor of at least 0.01; coordinates within 100, parameters within 10']
OPTS = {'unique_order': 'first'}
NP = np.float64


def P(v, kind='f'):
    return sk.Point(v, dtype=np.int64) if kind == 'I' else sk.Point(v)


def lengthy(ctx, a, b, gap=0.01):
    ctx.assume(ctx.any_([ctx.or_(x - y >= gap, y - x >= gap) for x, y in zip(a, b)]))


def off_line(ctx, a, b, p):
    """p is clearly off the line through a and b"""
    u, v = vsub(b, a), vsub(p, a)
    ms = [u[i] * v[j] - u[j] * v[i] for i, j in itertools.combinations(range(len(u)), 2)]
    ctx.assume(ctx.any_([ctx.or_(m >= 0.01, m <= -0.01) for m in ms]))
    for e in (a, b):
        lengthy(ctx, p, e, 1)


DIRS = {2: [[3, -1], [0, 2]], 3: [[2, -1, 2], [0, 0, 3], [1, 1, 0]]}


def segment(ctx, d, fixed):
    """a segment; fixed: its direction is one of a few fixed vectors"""
    if not fixed:
        s, a, b = seg(ctx, 's', d)
        bounded(ctx, a + b, 100)
        lengthy(ctx, a, b)
        return s, a, b
    a = vec(ctx, 'sa', d, lo=-100, hi=100)
    b = vadd(a, ctx.choose('direction', DIRS[d]))
    return sk.Segment(sk.Point(a), sk.Point(b)), a, b


def at(a, b, t):
    return [x + (y - x) * t for x, y in zip(a, b)]


@case(d=[1, 2, 3, 4], kind=['f', 'i', 'I'], how=['float', 'int', 'npfloat', 'const0', 'const1', 'half'])
def point(ctx, d, kind, how):
    s, a, b = seg(ctx, 's', d, kind)
    t = {'float': lambda: ctx.real('t'), 'npfloat': lambda: NP(ctx.real('t')) if not ctx.symbolic else ctx.real('t'),
         'int': lambda: ctx.int('t'), 'const0': lambda: 0, 'const1': lambda: 1, 'half': lambda: 0.5}[how]()
    p = s.point(t)
    ctx.check('a point', isinstance(p, sk.Point))
    ctx.check('dimension', p.ndim == d)
    ctx.close('point', p.data, at(a, b, t))
    if how == 'const0':
        ctx.close('start', p.data, a)
    if how == 'const1':
        ctx.close('end', p.data, b)
    ctx.close('segment kept', s.data, [a, b])


@case(d=[1, 2, 3, 4], kind=['f', 'i', 'I'], n=[0, 1, 2, 3, 4], how=['list', 'tuple', 'array', 'intlist', 'intarray'])
def points(ctx, d, kind, n, how):
    s, a, b = seg(ctx, 's', d, kind)
    ts = vec(ctx, 't', n, 'i' if how.startswith('int') else 'f')
    arg = {'list': lambda: list(ts), 'tuple': lambda: tuple(ts), 'array': lambda: np.array(ts, dtype=np.float64),
           'intlist': lambda: list(ts), 'intarray': lambda: np.array(ts, dtype=np.int64)}[how]()
    ps = s.point(arg)
    ctx.check('a list', isinstance(ps, list))
    ctx.check('as many points', len(ps) == n)
    for p, t in zip(ps, ts):
        ctx.check('a point', isinstance(p, sk.Point))
        ctx.check('dimension', p.ndim == d)
        ctx.close('point', p.data, at(a, b, t))
        ctx.close('same as alone', s.point(t).data, p.data)
    if how == 'array':
        ctx.close('parameters kept', arg, ts)


@case(shape=[(1, 1), (2, 1), (1, 2), (2, 2)])
def point_bad(ctx, shape):
    s, a, b = seg(ctx, 's', 2)
    t = np.array(vec(ctx, 't', shape[0] * shape[1])).reshape(shape)
    ctx.raises('2-d', ValueError, s.point, t)
    ctx.raises('nested', ValueError, s.point, t.tolist())


@case(d=[1, 2, 3], rev=[False, True], _opts=OPTS)
def roundtrip(ctx, d, rev):
    s, a, b = seg(ctx, 's', d)
    bounded(ctx, a + b, 100)
    lengthy(ctx, a, b)
    t = ctx.real('t', -10, 10)
    if rev:
        r, cats = ctx.warned(lambda: s.reverse().t(s.point(t)))
        want = 1 - t
    else:
        r, cats = ctx.warned(lambda: s.t(s.point(t)))
        want = t
    ctx.check('a float', isinstance(r, float))
    ctx.check('no warning', cats == [])
    ctx.close('t', r, want)


@case(d=[1, 2, 3], kind=['f', 'i', 'I'], _opts=OPTS)
def ends(ctx, d, kind):
    s, a, b = seg(ctx, 's', d, kind)
    bounded(ctx, a + b, 100)
    lengthy(ctx, a, b)
    ctx.close('t of the start', s.t(s.p1), 0)
    ctx.close('t of the end', s.t(s.p2), 1)
    ctx.close('both', s.t([s.p2, s.p1]), [1, 0])
    ctx.close('middle', s.t(s.point(0.5)), 0.5)


@case(d=[1, 2, 3], n=[1, 2, 3], how=['list', 'tuple'], _where=lambda d, n, how: how == 'list' or n < 3, _opts=OPTS)
def sequence(ctx, d, n, how):
    s, a, b = segment(ctx, d, d > 1 and n > 2)
    ts = vec(ctx, 't', n, lo=-10, hi=10)
    ps = s.point(ts)
    r, cats = ctx.warned(lambda: s.t(ps if how == 'list' else tuple(ps)))
    ctx.check('an array', isinstance(r, np.ndarray))
    ctx.check('size', tuple(r.shape) == (n,))
    ctx.check('no warning', cats == [])
    ctx.close('t', r, ts)


@case(d=[2, 3], _opts=OPTS, _thorough={'d': [4]})
def off_single(ctx, d):
    s, a, b = segment(ctx, d, False)
    p = vec(ctx, 'p', d, lo=-100, hi=100)
    off_line(ctx, a, b, p)
    r, cats = ctx.warned(lambda: s.t(sk.Point(p)))
    ctx.check('not a number', bool(np.isnan(r)))
    ctx.check('a float', isinstance(r, float))
    ctx.check('warning', len(cats) > 0)


MASKS = ['0', '1', '10', '01', '00', '100', '010', '001']


@case(d=[2, 3], mask=MASKS, fixed=[True, False], _where=lambda d, mask, fixed: fixed or (d == 2 and len(mask) < 3),
      _opts=OPTS)
@case(_tier='thorough', d=[3], mask=MASKS, fixed=[False], _opts=OPTS)
def off_mixed(ctx, d, mask, fixed):
    s, a, b = segment(ctx, d, fixed)
    ps, want = [], []
    for k, m in enumerate(mask):
        if m == '1':
            t = ctx.real('t%d' % k, -10, 10)
            ps.append(s.point(t))
            want.append(t)
        else:
            p = vec(ctx, 'p%d' % k, d, lo=-100, hi=100)
            off_line(ctx, a, b, p)
            ps.append(sk.Point(p))
            want.append(None)
    r, cats = ctx.warned(lambda: s.t(ps))
    ctx.check('size', tuple(r.shape) == (len(mask),))
    ctx.check('warning exactly for points off the line', (len(cats) > 0) == ('0' in mask))
    for k, w in enumerate(want):
        if w is None:
            ctx.check('not a number', bool(np.isnan(r[k])))
        else:
            ctx.close('others undisturbed', r[k], w)


@case(d=[1, 2, 3, 4], kind=['f', 'i', 'fi', 'if', 'I', 'If', 'fI'])
def parts(ctx, d, kind):
    k1, k2 = (kind[0], kind[-1])
    a, b = vec(ctx, 'a', d, k1.lower()), vec(ctx, 'b', d, k2.lower())
    s = sk.Segment(P(a, k1), P(b, k2))
    ctx.close('p1', s.p1.data, a)
    ctx.close('p2', s.p2.data, b)
    ctx.close('data', s.data, [a, b])
    ctx.check('dimension', s.ndim == d)
    ctx.close('direction', s.direction.data, vsub(b, a))
    ctx.check('direction is a point', isinstance(s.direction, sk.Point))
    ctx.close('dot', s.dot, dot(a, b))
    ctx.check('length not negative', s.seglen >= 0)
    ctx.close('length', s.seglen * s.seglen, sq(vsub(b, a)))
    r = s.reverse()
    ctx.close('reversed', r.data, [b, a])
    ctx.close('reversed direction', r.direction.data, vsub(a, b))
    ctx.close('reversed dot', r.dot, s.dot)
    if d > 1:
        ctx.close('to curve', s.to_curve().data, [a, b])
    ctx.close('kept', s.data, [a, b])


@case(d=[1, 2, 3], kind=['f', 'i', 'I'])
def singular(ctx, d, kind):
    s, a, b = seg(ctx, 's', d, kind)
    bounded(ctx, a + b, 100)
    grain(ctx, a + b, 0.01)
    same = ctx.all_([x == y for x, y in zip(a, b)])
    ctx.check('singular exactly when the ends are equal', ctx.iff(s.singular, same))
    ctx.check('reversed', ctx.iff(s.reverse().singular, same))


@case(n=[2, 3, 4], d=[2, 3], par=[False, True])
def curve_segments(ctx, n, d, par):
    c, r, t = curve(ctx, 'p', n, d, par)
    x = ctx.real('x')
    for k in range(n - 1):
        s = c.segments[k]
        ctx.close('point', s.point(x).data, at(r[k], r[k + 1], x))
        ctx.close('direction', s.direction.data, vsub(r[k + 1], r[k]))
        ctx.close('dot', s.dot, dot(r[k], r[k + 1]))
        if k:
            ctx.close('joined', c.segments[k - 1].point(1).data, s.point(0).data)


@case(d=[1, 2, 3])
def bad_ends(ctx, d):
    a, b = vec(ctx, 'a', d), vec(ctx, 'b', d + 1)
    ctx.raises('dimensions', ValueError, sk.Segment, sk.Point(a), sk.Point(b))
    ctx.raises('arrays', TypeError, sk.Segment, np.array(a), np.array(a))
    ctx.raises('list', TypeError, sk.Segment, sk.Point(a), a)
    ctx.raises('empty', ValueError, sk.Segment, sk.Point([]), sk.Point([]))


@case(d=[1, 2, 3], n=[17, 70], how=['list', 'array', 'intlist'], kind=['f', 'i', 'I'], _where=lambda d, n, how, kind: kind == 'f' or (d == 2 and n == 17))
@case(d=[2], n=[130], how=['array'], kind=['f'])
def long_points(ctx, d, n, how, kind):
    """many parameters at once, one free position each"""
    s, a, b = seg(ctx, 's', d, kind)
    ts = [(k * 7) % 31 - 15 if how == 'intlist' else (k * 7) % 31 / 8.0 - 1.5 for k in range(n)]
    ts[n // 2] = ctx.scalar('t', 'i' if how == 'intlist' else 'f')
    ps = s.point(np.array(ts, dtype=np.float64) if how == 'array' else list(ts))
    ctx.check('as many points', len(ps) == n)
    for p, t in zip(ps, ts):
        ctx.close('point', p.data, at(a, b, t))


@case(d=[2, 3], n=[9, 20], off=[None, 0, 5, -1], _where=lambda d, n, off: n == 9 or (d == 2 and off in (None, 5)), _opts=OPTS)
@case(_tier='thorough', d=[2], n=[70], off=[None, 40], _opts=OPTS)
def long_sequence(ctx, d, n, off):
    """many points on the line of a segment of fixed shape, at most one off it"""
    a = vec(ctx, 'sa', d, lo=-100, hi=100)
    b = vadd(a, DIRS[d][0])
    s = sk.Segment(sk.Point(a), sk.Point(b))
    ts = [(k * 7) % 31 / 8.0 - 1.5 for k in range(n)]
    ts[n // 2] = ctx.real('t', -10, 10)
    ps = [s.point(t) for t in ts]
    if off is not None:
        p = vec(ctx, 'p', d, lo=-100, hi=100)
        off_line(ctx, a, b, p)
        ps[off] = sk.Point(p)
    r, cats = ctx.warned(lambda: s.t(ps))
    ctx.check('size', tuple(r.shape) == (n,))
    ctx.check('warning exactly for points off the line', (len(cats) > 0) == (off is not None))
    for k, t in enumerate(ts):
        if off is not None and k == off % n:
            ctx.check('not a number', bool(np.isnan(r[k])))
        else:
            ctx.close('others undisturbed', r[k], t)


@case(d=[2, 3], scale=[1.0 / 64, 64.0, 4096.0], _opts=OPTS)
def scaled(ctx, d, scale):
    """small and large segments, far from the origin"""
    u = vmul(ctx.choose('direction', DIRS[d]), scale)
    a = vmul(vec(ctx, 'a', d, lo=-100, hi=100), scale)
    s = sk.Segment(sk.Point(a), sk.Point(vadd(a, u)))
    t, x = ctx.real('t', -10, 10), ctx.real('x', -10, 10)
    r, cats = ctx.warned(lambda: s.t(s.point(t)))
    ctx.check('no warning', cats == [])
    ctx.close('t', r, t)
    ctx.close('sequence', s.t(s.point([t, x])), [t, x])
    ctx.check('not singular', not s.singular)
    # a point beside the segment, by its length
    v = [-u[1], u[0]] + [0.0] * (d - 2)
    q = sk.Point(vadd(s.point(t).data.tolist(), vmul(v, ctx.choose('side', [1, -0.5]))))
    if d == 2 or u[0] != 0 or u[1] != 0:
        r, cats = ctx.warned(lambda: s.t(q))
        ctx.check('off the line', bool(np.isnan(r)) and len(cats) > 0)
        r, cats = ctx.warned(lambda: s.t([q, s.point(x)]))
        ctx.check('off the line, in a sequence', bool(np.isnan(r[0])) and len(cats) > 0)
        ctx.close('others undisturbed', r[1], x)


@case(n=[9, 40], d=[2, 3], par=[False, True])
def long_curve_segments(ctx, n, d, par):
    free = [0, n // 2, n - 1]
    r = long_rows(ctx, 'p', n, d, free)
    c = sk.Curve(array(r), tdata=[0.5 * k for k in range(n)] if par else None)
    x = ctx.real('x')
    for k in sorted({0, 1, n // 2 - 1, n // 2, n - 3, n - 2}):
        for s in (c.segments[k], c.segments[k - n + 1]):
            ctx.check('index', s.idx == k)
            ctx.close('point', s.point(x).data, at(r[k], r[k + 1], x))
            ctx.close('direction', s.direction.data, vsub(r[k + 1], r[k]))
            ctx.close('dot', s.dot, dot(r[k], r[k + 1]))
            ctx.close('reversed', s.reverse().data, [r[k + 1], r[k]])
