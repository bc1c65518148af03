"""C21: almost-intersections."""
import itertools
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c19 import P
from props.c20 import PAIRS, pick

ASSUMPTIONS = ['the distance of every two segments asked about is less than 0.9 or more than 1.1 of the tolerance',
               'segments and curves of fixed shape, one (segments: two) free coordinates of the relative position']


def clearly(ctx, d2, tol):
    """decides whether a squared distance is below the tolerance; not close to it"""
    ctx.assume(ctx.or_(d2 <= (0.9 * tol) ** 2, d2 >= (1.1 * tol) ** 2))
    return ctx.is_true(d2 < tol * tol)


def d2(s, r):
    """squared distance (C20)"""
    return sq(s.shortest_segment(r).direction.data.tolist())


def place(ctx, name, d, free):
    """a position with the given number of free coordinates, the others from a few values"""
    ax = ctx.choose(name + ' axis', list(range(d))) if free == 1 else 0
    out = []
    for k in range(d):
        if free > 1 and k < free or free == 1 and k == ax:
            out.append(ctx.real('%s_%d' % (name, k), -9, 9))
        else:
            out.append(ctx.choose('%s_%d' % (name, k), [0.25, 1.25] if d == 2 else [0.25]))
    return out


def how(tol, by, **kw):
    if tol is not None:
        kw['dist_tol'] = tol
    return {'method': sk.get_intersect_method('almost', **kw)} if by == 'object' else dict(kw, method='almost')


@case(d=[1, 2, 3], i=list(range(11)), tol=[None, 0.5], by=['name', 'object'],
      _where=lambda d, i, tol, by: i < len(PAIRS[d]) and (by == 'name' or i == 1))
def segments(ctx, d, i, tol, by):
    u, v = pick(d, i)
    a, b = [1.0, -2.0, 0.5][:d], place(ctx, 'b', d, 2)
    s, r = sk.Segment(P(a), P(vadd(a, u))), sk.Segment(P(b), P(vadd(b, v)))
    near = clearly(ctx, d2(s, r), tol or 1e-5)
    x = s.intersect(r, **how(tol, by))
    ctx.check('found exactly when near', bool(x) == near)
    ctx.check('first', x.segment1 is s)
    ctx.check('second', x.segment2 is r)
    if near:
        ctx.check('type', x.intersect_type == sk.IntersectionType.ALMOST)
        ctx.close('shortest segment', x.intersect_segment.data, s.shortest_segment(r).data)
        ctx.close('middle', x.intersect_point.data, s.shortest_segment(r).point(0.5).data)
    else:
        ctx.check('type', x.intersect_type == sk.IntersectionType.NONE)


SHAPES = {
    'line': [[0, 0, 0], [4, 1, 0]],
    'steps': [[0, 0, 0], [3, 0, 1], [3, 3, 1]],
    'wedge': [[-1, 0, 0], [1, 2, 1], [3, 0, 0]],
    'back': [[0, 0, 0], [4, 0, 0], [1, 0, 0]],
    'stop': [[0, 1, 0], [2, 1, 0], [2, 1, 0]],
    'zig': [[0, 0, 0], [2, 2, 1], [4, 0, 0], [6, 2, -1]],
    'dot': [[1, 1, 0]],
    'pin': [[1, 0, 1], [1, 0, 1]],
}


def shape(name, d, off=None):
    rws = [[float(x) for x in r[:d]] for r in SHAPES[name]]
    return [vadd(r, off) for r in rws] if off else rws


def expect(ctx, c1, c2, tol, same=False):
    """index pairs below the tolerance, in order"""
    out = []
    for i, j in itertools.product(range(len(c1.segments)), range(len(c2.segments))):
        if same and j - i < 2:
            continue
        if clearly(ctx, d2(c1.segments[i], c2.segments[j]), tol):
            out.append((i, j))
    return out


def report(ctx, got, want, c1, c2):
    ctx.check('a list', isinstance(got, list))
    ctx.check('exactly the near pairs', len(got) == len(want))
    if len(got) != len(want):
        return
    for x, (i, j) in zip(got, want):
        ctx.check('segments', x.segment1.idx == i and x.segment2.idx == j)
        ctx.check('curves', x.segment1.curve is c1 and x.segment2.curve is c2)
        ctx.check('type', x.intersect_type == sk.IntersectionType.ALMOST)
        ctx.close('shortest segment', x.intersect_segment.data, c1.segments[i].shortest_segment(c2.segments[j]).data)
        ctx.check('true', bool(x))


TWO = [('line', 'line'), ('line', 'steps'), ('steps', 'line'), ('back', 'line'), ('stop', 'line'), ('line', 'stop'),
       ('steps', 'pin'), ('pin', 'steps'), ('back', 'back'), ('line', 'wedge')]


@case(two=['%s-%s' % t for t in TWO], d=[2, 3], tol=[None, 0.5], by=['name'], _where=lambda two, d, tol, by: tol or two in ('line-line', 'steps-line'),
      _opts={'max_paths': 400})
@case(_tier='thorough', two=['zig-line', 'steps-wedge', 'wedge-zig', 'zig-steps', 'zig-zig', 'wedge-back'], d=[2, 3], tol=[0.5], by=['name', 'object'], _opts={'max_paths': 2000})
def curves(ctx, two, d, tol, by):
    m, n = two.split('-')
    off = place(ctx, 'o', d, 1)
    c1, c2 = sk.Curve(array(shape(m, d))), sk.Curve(array(shape(n, d, off)))
    want = expect(ctx, c1, c2, tol or 1e-5)
    report(ctx, c1.intersect(c2, **how(tol, by)), want, c1, c2)


@case(two=['line-line', 'line-steps', 'steps-line', 'wedge-line', 'back-wedge'], d=[2, 3], kind=['ii', 'if', 'fi'], axis=[0, 1], tol=[None, 0.8],
      _where=lambda two, d, kind, axis, tol: d == 2 or (kind == 'ii' and axis == 0 and tol), _opts={'max_paths': 400})
def whole(ctx, two, d, kind, axis, tol):
    """curves of integers"""
    m, n = two.split('-')
    off = [0, 1, 1][:d]
    off[axis] = ctx.int('o', -9, 9)
    r1, r2 = [[int(x) for x in r[:d]] for r in SHAPES[m]], [vadd([int(x) for x in r[:d]], off) for r in SHAPES[n]]
    c1, c2 = sk.Curve(array(r1, kind[0])), sk.Curve(array(r2, kind[1]))
    want = expect(ctx, c1, c2, tol or 1e-5)
    report(ctx, c1.intersect(c2, **how(tol, 'name')), want, c1, c2)


@case(n=['line', 'steps', 'stop'], d=[2, 3], order=['segment first', 'curve first'])
def curve_segment(ctx, n, d, order):
    tol = 0.25
    a = place(ctx, 'a', d, 1)
    s = sk.Segment(P(a), P(vadd(a, [2.0, -1.0, 1.0][:d])))
    c = sk.Curve(array(shape(n, d)))
    near = [k for k in range(len(c.segments)) if clearly(ctx, d2(s, c.segments[k]), tol)]
    first = order == 'segment first'
    got = s.intersect(c, method='almost', dist_tol=tol) if first else c.intersect(s, method='almost', dist_tol=tol)
    ctx.check('exactly the near segments', len(got) == len(near))
    for x, k in zip(got, near):
        mine, other = (x.segment1, x.segment2) if first else (x.segment2, x.segment1)
        ctx.check('the given segment', mine is s)
        ctx.check('segment of the curve', other.idx == k and other.curve is c)
        t = s.shortest_segment(c.segments[k]) if first else c.segments[k].shortest_segment(s)
        ctx.close('shortest segment', x.intersect_segment.data, t.data)


@case(n=[0, 1], d=[2, 3], order=[0, 1])
def small(ctx, n, d, order):
    """curves without segments"""
    c = sk.Curve(array([vec(ctx, 'p', d)])) if n else sk.Curve([], ndmin=d)
    q = sk.Curve(array(shape('steps', d)))
    a, b = (c, q) if order else (q, c)
    ctx.check('empty list', a.intersect(b, method='almost') == [])


LOOPS = {4: [[0.0, 0.0, 0.0], [4.0, 0.0, 0.0], [3.0, 3.0, 0.0], [2.5, 0.75, 0.0]],
         5: [[0.0, 0.0, 0.0], [4.0, 0.0, 0.0], [4.0, 3.0, 0.0], [1.0, 3.0, 0.0], [1.0, -2.0, 0.0]]}


@case(n=[4], free=[0, 3], axis=[0, 1], d=[2, 3], tol=[0.5], _where=lambda n, free, axis, d, tol: d == 2 or axis == 0, _opts={'max_paths': 400})
@case(n=[5], free=[4], axis=[1], d=[2], tol=[0.5], _opts={'max_paths': 400})
@case(_tier='thorough', n=[5], free=[0], axis=[0, 1], d=[2, 3], tol=[0.5], _opts={'max_paths': 400})
@case(_tier='thorough', n=[4, 5], free=[1, 2, 3], axis=[0, 1], d=[2], tol=[0.5], _name='itself+', _opts={'max_paths': 2000})
def itself(ctx, n, free, axis, d, tol):
    """a curve with one free coordinate: every non-adjacent pair once"""
    rws = [r[:d] for r in LOOPS[n]]
    rws[free][axis] = ctx.real('x', -4, 4)
    c = sk.Curve(array(rws))
    want = expect(ctx, c, c, tol, same=True)
    report(ctx, c.intersect(c, method='almost', dist_tol=tol), want, c, c)
    q = sk.Curve(c)
    got = c.intersect(q, method='almost', dist_tol=tol)
    ctx.check('a copy is another curve', len(got) >= 2 * len(want))


@case(d=[2, 3], shape=['touch', 'two', 'apart'], free=['g', 'h'])
def extra(ctx, d, shape, free):
    """close intersections: the one with the shortest segment stays"""
    z = [0.0] * (d - 2)
    h = ctx.real('h', 0.001, 0.02) if free == 'h' else 0.01
    g = ctx.real('g', 0.001, 0.02) if free == 'g' else 0.01
    ctx.assume(ctx.or_(h - g >= 0.0005, g - h >= 0.0005))
    # a horizontal line and a curve with several ends close above it
    base = sk.Curve(array([[-10.0, 0.0] + z, [30.0, 0.0] + z]))
    far = {'touch': 0.2, 'two': 8.0, 'apart': 1.5}[shape]
    c = sk.Curve(array([[-2.0, 3.0] + z, [0.0, h] + z, [far / 2, 2.0] + z, [far, g] + z, [far + 2.0, 3.0] + z]))
    full = c.intersect(base, method='almost', dist_tol=0.1)
    ctx.check('all', len(full) == 4)
    got = c.intersect(base, method='almost', dist_tol=0.1, remove_extra=True, extra_tol=1.0)
    if shape == 'touch':
        # all four points within 1: one stays
        ctx.check('one stays', len(got) == 1)
        best = 0 if ctx.is_true(h < g) else 2
        ctx.close('the shortest', got[0].intersect_segment.data, full[best].intersect_segment.data)
        ctx.check('segment', got[0].segment1.idx in (best, best + 1))
    else:
        ctx.check('one of each', [x.segment1.idx // 2 for x in got] == [0, 1])
    same = c.intersect(base, method='almost', dist_tol=0.1, remove_extra=True, extra_tol=1e-9)
    ctx.check('two equal points', [x.segment1.idx // 2 for x in same] == [0, 1])


@case(d=[2, 3], order=[0, 1], free=[0, 1, 2], _where=lambda d, order, free: d == 2 or free == 1)
def chain(ctx, d, order, free):
    """a cluster is a chain of close points, also when its ends are not close"""
    z = [0.0] * (d - 2)
    h = [0.02, 0.03, 0.04]
    h[free] = ctx.real('h', 0.001, 0.05)
    for x in h[:free] + h[free + 1:]:
        ctx.assume(ctx.or_(h[free] - x >= 0.001, x - h[free] >= 0.001))
    xs = [0.0, 0.8, 1.6] if order else [0.8, 0.0, 1.6]
    base = sk.Curve(array([[-10.0, 0.0] + z, [10.0, 0.0] + z]))
    rws = []
    for k in range(3):
        rws += [[xs[k], 5.0 + k] + z, [xs[k], h[k]] + z, [xs[k] + 0.125, 9.0] + z]
    c = sk.Curve(array(rws[:-1]))
    got = c.intersect(base, method='almost', dist_tol=0.1, remove_extra=True, extra_tol=1.0)
    ctx.check('one stays', len(got) == 1)
    low = h[0]
    for x in h[1:]:
        low = ctx.ite(x < low, x, low)
    if len(got) == 1:
        ctx.close('the shortest', got[0].intersect_segment.seglen, low)


@case(d=[2, 3], k=[0.0, 0.05, 1.0])
def overlap_pairs(ctx, d, k):
    """parallel segments at distance k: OVERLAP with the common part when they overlap on one line, ALMOST beside each other"""
    z = [0.0] * (d - 2)
    a, b = ctx.real('a', -6, 6), ctx.real('b', -6, 6)
    y = vec(ctx, 'y', d - 1, lo=-10, hi=10)
    ctx.assume(ctx.any_([b - a >= 3.2, a - b >= 4.2, ctx.and_(b - a <= 2.9, a - b <= 3.9)]))
    s = sk.Segment(P([a] + y), P([a + 3.0] + y))
    r = sk.Segment(P([b + 4.0] + vadd(y, [k] + z)), P([b] + vadd(y, [k] + z)))
    over = ctx.is_true(ctx.and_(b - a <= 2.9, a - b <= 3.9))
    x = s.intersect(r, method='almost', dist_tol=0.1, correct_overlap=True)
    plain = s.intersect(r, method='almost', dist_tol=0.1)
    near = over and k < 0.1
    ctx.check('without the option', plain.intersect_type == (sk.IntersectionType.ALMOST if near else sk.IntersectionType.NONE))
    cs, cr = s.to_curve(), r.to_curve()
    got = cs.intersect(cr, method='almost', dist_tol=0.1, correct_overlap=True)
    if not near:
        ctx.check('nothing', not x)
        ctx.check('curves: nothing', got == [])
        return
    ctx.check('curves: one', len(got) == 1)
    ctx.check('curves: segments', got[0].segment1.curve is cs and got[0].segment2.curve is cr)
    want = sk.IntersectionType.ALMOST if k else sk.IntersectionType.OVERLAP
    ctx.check('type', x.intersect_type == want)
    ctx.check('curves: type', got[0].intersect_type == want)
    part = s.shortest_segment(r) if k else s.overlap(r)
    ctx.close('segment', x.intersect_segment.data, part.data)
    ctx.close('curves: segment', got[0].intersect_segment.data, part.data)


LONG = {'waves': [[2.0 * k, [0.0, 3.0, 1.0, -2.0][k % 4]] for k in range(13)],
        'stairs': [[(k + 1) // 2 * 1.5, k // 2 * 0.75 - 2.0] for k in range(16)],
        'far': [[1.0 * k, 40.0 + k % 3] for k in range(9)] + [[8.0, 1.25], [9.0, 30.0]]}


def raised(rws, d, off):
    return [vadd(list(r) + [0.0] * (d - 2), off) for r in rws]


@case(two=['waves-stairs'], d=[2], _opts={'max_paths': 400})
@case(_tier='thorough', two=['stairs-waves', 'far-stairs'], d=[2, 3], _opts={'max_paths': 400})
def long_curves(ctx, two, d):
    """curves of many segments, a free coordinate of the relative position in a small range"""
    tol = 0.6
    m, n = two.split('-')
    off = [0.375, 0.125, 0.25][:d]
    off[1] = ctx.real('x', 0.125, 0.1875)
    c1, c2 = sk.Curve(array(raised(LONG[m], d, [0.0] * d))), sk.Curve(array(raised(LONG[n], d, off)))
    want = expect(ctx, c1, c2, tol)
    report(ctx, c1.intersect(c2, method='almost', dist_tol=tol), want, c1, c2)
    ctx.reach('some' if want else 'none')


@case(d=[2], axis=[0], _opts={'max_paths': 400})
@case(_tier='thorough', d=[3], axis=[0], _opts={'max_paths': 400})
def long_itself(ctx, d, axis):
    rws = [[2.0 * k, [0.0, 3.0, 1.0, -2.0][k % 4]] + [0.0] * (d - 2) for k in range(8)]
    rws += [[14.0, 4.0] + [0.0] * (d - 2), [9.0, 1.0] + [0.0] * (d - 2), [2.0, 0.5] + [0.125] * (d - 2)]
    rws[-1][axis] = rws[-1][axis] + ctx.real('x', 0.0, 0.0625)
    c = sk.Curve(array(rws))
    want = expect(ctx, c, c, 0.6, same=True)
    report(ctx, c.intersect(c, method='almost', dist_tol=0.6), want, c, c)
    ctx.reach('some' if want else 'none')


@case(d=[2, 3], i=[0, 1, 3, 5], scale=[2.0 ** -10, 2.0 ** 10], of=['segments', 'curves'], _where=lambda d, i, scale, of: of == 'segments' or i == 1)
def scaled(ctx, d, i, scale, of):
    """small and large figures"""
    u, v = pick(d, i)
    tol = 0.5 * scale
    a, b = [1.0, -2.0, 0.5][:d], place(ctx, 'b', d, 2)
    s = sk.Segment(P(vmul(a, scale)), P(vmul(vadd(a, u), scale)))
    r = sk.Segment(P(vmul(b, scale)), P(vmul(vadd(b, v), scale)))
    h = [x / scale for x in s.shortest_segment(r).direction.data.tolist()]
    near = clearly(ctx, sq(h), 0.5)
    if of == 'segments':
        x = s.intersect(r, method='almost', dist_tol=tol)
    else:
        got = s.to_curve().intersect(r.to_curve(), method='almost', dist_tol=tol)
        ctx.check('at most one', len(got) == (1 if near else 0))
        x = got[0] if got else None
    ctx.check('found exactly when near', bool(x) == near)
    if near and x:
        ctx.close('shortest segment', [y / scale for y in x.intersect_segment.p1.data.tolist()], [y / scale for y in s.shortest_segment(r).p1.data.tolist()])


@case(d=[2, 3], given=[None, 0.25, 1e-3], by=['name', 'object'], _where=lambda d, given, by: d == 2 or given)
def defaults(ctx, d, given, by):
    """the default tolerances are the documented ones; remove_extra with two close points"""
    z = [0.0] * (d - 2)
    g = ctx.real('g', 1e-7, 8e-6)
    near = ctx.choose('apart', [0.0005, 0.002, 0.3])
    base = sk.Curve(array([[-10.0, 0.0] + z, [30.0, 0.0] + z]))
    c = sk.Curve(array([[0.0, 3.0] + z, [0.0, 2.5e-6] + z, [near / 2, 2.0] + z, [near, g] + z, [near, 3.0] + z]))
    ctx.assume(ctx.or_(g >= 3e-6, g <= 2e-6))
    kw = {} if given is None else {'extra_tol': given}
    full = c.intersect(base, **how(None, by))
    ctx.check('all', len(full) == 4)
    if len(full) != 4:
        return
    got = c.intersect(base, **how(None, by, remove_extra=True, **kw))
    one = near < (1e-3 if given is None else given)
    if one:
        ctx.check('one stays', len(got) == 1)
        best = 0 if ctx.is_true(g > 2.5e-6) else 2
        ctx.check('the shortest', got[0].segment1.idx in (best, best + 1))
    else:
        ctx.check('one of each', [x.segment1.idx // 2 for x in got] == [0, 1])


@case(d=[2, 3], first=[False, True])
def both_options(ctx, d, first):
    """remove_extra and correct_overlap together, also with nothing and with a single intersection"""
    z = [0.0] * (d - 2)
    x = ctx.real('x', -3, 3)
    base = sk.Curve(array([[-10.0, 0.0] + z, [10.0, 0.0] + z]))
    c = sk.Curve(array([[x, 5.0] + z, [x, -5.0] + z]))
    opts = dict(method='almost', dist_tol=0.1, remove_extra=True, correct_overlap=True)
    got = c.intersect(base, **opts) if first else base.intersect(c, **opts)
    ctx.check('one', len(got) == 1)
    ctx.check('type', got[0].intersect_type == sk.IntersectionType.ALMOST)
    ctx.close('point', got[0].intersect_point.data, [x, 0.0] + z)
    far = sk.Curve(array([[x, 5.0] + z, [x, 4.0] + z]))
    ctx.check('nothing', far.intersect(base, **opts) == [])
    flat = sk.Curve(array([[x, 0.0] + z, [x + 2.0, 0.0] + z]))
    got = flat.intersect(base, **opts)
    ctx.check('overlap', len(got) == 1 and got[0].intersect_type == sk.IntersectionType.OVERLAP)
    if first:
        ctx.close('part', got[0].intersect_segment.data, [[x, 0.0] + z, [x + 2.0, 0.0] + z])


@case(d=[2, 3], i=[0, 1, 2])
def not_parallel_stay(ctx, d, i):
    """correct_overlap leaves pairs which are not parallel"""
    u, v = pick(d, i)
    b = vec(ctx, 'b', d, lo=-5, hi=5)
    s, r = sk.Segment(P([0.0] * d), P(u)), sk.Segment(P(b), P(vadd(b, v)))
    near = clearly(ctx, d2(s, r), 0.5)
    x = s.intersect(r, method='almost', dist_tol=0.5, correct_overlap=True)
    ctx.check('type', x.intersect_type == (sk.IntersectionType.ALMOST if near else sk.IntersectionType.NONE))


@case(dt=NARROW, at=['far', 'near'])
def narrow_curves(ctx, dt, at):
    """narrow integer dtypes: the distances do not overflow"""
    i = np.iinfo(dt)
    lo, hi = int(i.min), int(i.max)
    m = (lo + hi) // 2
    z = ctx.int('z', lo, hi)
    ctx.assume(ctx.and_(z >= m + 4, z <= hi) if at == 'far' else z == m)
    a, b = [[lo, m], [hi, m]], [[m, z], [m + 1, hi]]
    c1, c2 = narrow_curve(ctx, a, dt), narrow_curve(ctx, b, dt)
    for x, y in ((c1, c2), (c2, c1), (c1, sk.Curve(array([[float(u) for u in r] for r in b]))), (c1.reverse(), c2)):
        got = x.intersect(y, method='almost', dist_tol=2.0)
        ctx.check('found exactly when near', len(got) == (at == 'near'))
        if got:
            ctx.close('shortest segment', got[0].intersect_segment.seglen, 0)
            ctx.close('place', got[0].intersect_point.data, [m, m])
