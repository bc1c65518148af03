"""C03: a curve is a sequence of its points."""
import collections.abc as abc

import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

SIZES = [0, 1, 2, 3, 4]


def check_point(ctx, label, p, c, k, r, t):
    ctx.check(label + ': type', isinstance(p, sk.CurvePoint) and isinstance(p, sk.Point))
    ctx.check(label + ': curve', p.curve is c)
    ctx.check(label + ': index', p.idx == k)
    ctx.close(label + ': coordinates', p.data, r[k])
    if t is not None:
        ctx.close(label + ': t', p.t, t[k])


@case(n=SIZES, d=[2, 3], par=[False, True], kind=['f', 'i'], npint=[False, True])
def integer_index(ctx, n, d, par, kind, npint):
    """every integer index, symbolic"""
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    i = ctx.int('i', -n - 3, n + 3)
    ix = np.int64(i) if npint else i
    for k in range(-n, n):
        if ctx.is_true(i == k):
            ctx.reach('inside')
            check_point(ctx, 'point', c[ix], c, k % n, r, t)
            return
    ctx.reach('outside')
    ctx.raises('out of range', IndexError, lambda: c[ix])


@case(n=SIZES, d=[2], par=[False, True])
def any_integer(ctx, n, d, par):
    """unbounded index values outside the curve raise"""
    c, r, t = curve(ctx, 'p', n, d, par)
    i = ctx.int('i')
    ctx.assume(ctx.or_(i >= n, i < -n))
    ctx.raises('out of range', IndexError, lambda: c[i])


@case(n=[0, 1, 2, 3], par=[False, True], use=['both', 'start', 'stop', 'none'], step=[None, 1, 2, -1, -2, 3, -3],
      _thorough={'n': [4]})
def slices(ctx, n, par, use, step):
    """every slice, symbolic bounds"""
    c, r, t = curve(ctx, 'p', n, 2, par)
    a = ctx.int('start', -n - 1, n + 1) if use in ('both', 'start') else None
    b = ctx.int('stop', -n - 1, n + 1) if use in ('both', 'stop') else None
    for v in (a, b):
        if v is None:
            continue
        for k in range(-n - 1, n + 2):
            if ctx.is_true(v == k):
                break
    s = slice(a, b, step)
    idx = list(range(n))[slice(None if a is None else int(a), None if b is None else int(b), step)]
    check_curve(ctx, 'slice', c[s], [r[k] for k in idx], 2, [t[k] for k in idx] if par else None, 'f8')


@case(n=[1, 2, 3], m=[1, 2, 3], par=[False, True], form=['list', 'array', 'tuple', 'int32'])
def index_lists(ctx, n, m, par, form):
    """index lists and arrays with symbolic entries"""
    d = 2
    c, r, t = curve(ctx, 'p', n, d, par)
    ks = []
    for j in range(m):
        i = ctx.int('i%d' % j, -n, n - 1)
        for k in range(-n, n):
            if ctx.is_true(i == k):
                ks.append(k)
                break
    ix = {'list': list, 'tuple': tuple, 'array': np.array, 'int32': lambda v: np.array(v, dtype=np.int32)}[form](ks)
    check_curve(ctx, 'list', c[ix], [r[k] for k in ks], d, [t[k] for k in ks] if par else None, 'f8')


@case(n=[1, 2, 3], pos=[0, 1, 2], par=[False, True], form=['list', 'array'])
def index_list_outside(ctx, n, pos, par, form):
    c, r, t = curve(ctx, 'p', n, 2, par)
    bad = ctx.choose('bad', [n, n + 1, -n - 1, -n - 2, 100])
    ks = [0, 0, 0]
    ks[pos] = bad
    ctx.raises('out of range', IndexError, lambda: c[ks if form == 'list' else np.array(ks)])


@case(n=[1, 2, 3, 4], par=[False, True], form=['array', 'list', 'computed'])
def masks(ctx, n, par, form):
    """boolean masks"""
    d = 2
    c, r, t = curve(ctx, 'p', n, d, par)
    if form == 'computed':
        m = c.data[:, 0] > 0
        flags = [ctx.is_true(r[i][0] > 0) for i in range(n)]
    else:
        flags = [ctx.is_true(ctx.bool('m%d' % i)) for i in range(n)]
        m = np.array(flags) if form == 'array' else flags
    ks = [i for i in range(n) if flags[i]]
    check_curve(ctx, 'mask', c[m], [r[k] for k in ks], d, [t[k] for k in ks] if par else None, 'f8')


@case(bad=['str', 'none', 'float', 'float_np', 'float_list', 'str_list', 'tuple2', '2d', 'mask_long', 'mask_short', '2d_mask',
           'dict', 'complex', 'ellipsis'], n=[2, 3])
def wrong_index(ctx, bad, n):
    c, r, t = curve(ctx, 'p', n, 2, False)
    ix = {'str': 'a', 'none': None, 'float': 1.0, 'float_np': np.float64(1.0), 'float_list': [0.5, 1.5],
          'str_list': ['a', 'b'], 'tuple2': [[0, 1], [1, 0]], '2d': np.zeros((1, 2), dtype=int),
          'mask_long': np.array([True] * (n + 1)), 'mask_short': np.array([True] * (n - 1)),
          '2d_mask': np.ones((n, 2), dtype=bool), 'dict': {0: 1}, 'complex': 1j, 'ellipsis': Ellipsis}[bad]
    ctx.raises(bad, (TypeError, IndexError), lambda: c[ix])


@case(n=SIZES, d=[2, 3], par=[False, True], kind=['f', 'i'])
def iteration(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    ctx.check('len', len(c) == n and c.size == n)
    ctx.check('truth', bool(c) == (n > 0))
    ctx.check('Sequence', isinstance(c, abc.Sequence))
    ps = list(c)
    ctx.check('iter length', len(ps) == n)
    for k, p in enumerate(ps):
        check_point(ctx, 'iter', p, c, k, r, t)
    ps = list(reversed(c))
    ctx.check('reversed length', len(ps) == n)
    for k, p in enumerate(ps):
        check_point(ctx, 'reversed', p, c, n - 1 - k, r, t)


@case(n=SIZES, d=[2, 3], par=[False, True], _thorough={'n': [6]})
def segments(ctx, n, d, par):
    """the consecutive segments"""
    c, r, t = curve(ctx, 'p', n, d, par)
    ss = c.segments
    ctx.check('number of segments', len(ss) == max(n - 1, 0))
    for k, s in enumerate(ss):
        ctx.check('type', isinstance(s, sk.CurveSegment) and isinstance(s, sk.Segment))
        ctx.check('curve', s.curve is c)
        ctx.check('index', s.idx == k)
        ctx.close('p1', s.p1, r[k])
        ctx.close('p2', s.p2, r[k + 1])
        check_point(ctx, 'p1', s.p1, c, k, r, t)
        check_point(ctx, 'p2', s.p2, c, k + 1, r, t)
    i = ctx.int('i')
    for k in range(-(n - 1), n - 1):
        if ctx.is_true(i == k):
            ctx.reach('segment')
            s = sk.CurveSegment(c, i)
            kk = k % (n - 1)
            ctx.check('index of segment', s.idx == kk)
            ctx.close('segment', s.data, [r[kk], r[kk + 1]])
            return
    ctx.reach('no segment')
    ctx.raises('segment index', ValueError, lambda: sk.CurveSegment(c, i))


@case(n=[1, 2, 3, 4], par=[False, True], endpoint=[True, False, None])
def subcurve(ctx, n, par, endpoint):
    c, r, t = curve(ctx, 'p', n, 2, par)
    i = ctx.choose('i', range(-n, n))
    j = ctx.choose('j', range(-n, n))
    a, b = c[i], c[j]
    i, j = i % n, j % n
    q = a.subcurve(b) if endpoint is None else a.subcurve(b, endpoint=endpoint)
    e = j if endpoint is False else j + 1
    check_curve(ctx, 'subcurve', q, r[i:e], 2, t[i:e] if par else None, 'f8')
    other = sk.Curve(c)
    ctx.raises('other curve', ValueError, a.subcurve, other[0])
    ctx.raises('plain point', TypeError, a.subcurve, sk.Point(r[0]))


@case(n=[2, 3], par=[False, True])
def point_copies(ctx, n, par):
    """copies of curve points are the same curve point"""
    import copy
    c, r, t = curve(ctx, 'p', n, 2, par)
    for k in range(-n, n):
        p = c[k]
        for q in (copy.copy(p), copy.deepcopy(p)):
            check_point(ctx, 'copy', q, c, k % n, r, t)
        q = sk.Point(p)
        ctx.check('plain', type(q) is sk.Point)
        ctx.close('plain', q.data, r[k])


@case(n=[2, 3], op=['reverse', 'slice', 'mask', 'list', 'delete', 'insert'])
def derived(ctx, n, op):
    """indexing a derived curve refers to the derived curve"""
    c, r, t = curve(ctx, 'p', n, 2, True)
    q, rr = {
        'reverse': lambda: (c.reverse(), r[::-1]),
        'slice': lambda: (c[::-2], r[::-2]),
        'mask': lambda: (c[np.array([True] + [False] * (n - 2) + [True])], [r[0], r[n - 1]]),
        'list': lambda: (c[[-1, 0, -1]], [r[n - 1], r[0], r[n - 1]]),
        'delete': lambda: (c.delete(0), r[1:]),
        'insert': lambda: (c.insert(0, sk.Point([1.0, 2.0])), [[1, 2]] + r),
    }[op]()
    for k in range(-len(rr), len(rr)):
        p = q[k]
        ctx.check('curve', p.curve is q)
        ctx.check('index', p.idx == k % len(rr))
        ctx.close('coordinates', p.data, rr[k])
        ctx.close('t row', p.t, q.t[k])


@case(n=[20, 70, 150], d=[2, 3], par=[False, True], kind=['f', 'i'], _where=lambda n, d, par, kind: n < 150 or d == 2)
def long_curves(ctx, n, d, par, kind):
    """the same on long curves"""
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    dt = 'f8' if kind == 'f' else 'i8'

    def sub(label, q, ks):
        check_curve(ctx, label, q, [r[k] for k in ks], d, [t[k] for k in ks] if par else None, dt)

    for k in list(range(-n, -n + 4)) + list(range(-3, 4)) + [n // 2, n - 2, n - 1, -n // 2]:
        check_point(ctx, 'point', c[k], c, k % n, r, t)
        check_point(ctx, 'point', c[np.int64(k)], c, k % n, r, t)
    for k in (n, n + 1, -n - 1, -n - 2, 2 * n, -2 * n):
        ctx.raises('out of range', IndexError, lambda: c[k])
    for s in (slice(None), slice(None, None, -1), slice(3, -4, 2), slice(-2, 5, -3), slice(n // 2, None), slice(None, n // 2),
              slice(-n, n + 5), slice(n, None), slice(0, n, 16), slice(n - 1, 0, -1), slice(-17, None)):
        sub('slice', c[s], list(range(n))[s])
    for ks in ([(7 * i + 3) % n for i in range(2 * n)], [-1 - i for i in range(n)], [n - 1], list(range(n)), [0] * 5,
               list(range(n // 2, n))):
        sub('list', c[ks], [k % n for k in ks])
        sub('array', c[np.array(ks)], [k % n for k in ks])
    for m in ([i % 3 == 0 for i in range(n)], [i > n - 3 for i in range(n)], [True] * n, [False] * n):
        sub('mask', c[np.array(m)], [i for i in range(n) if m[i]])
    ps = list(c)
    ctx.check('length', len(ps) == n and len(c) == n)
    for k in range(n):
        check_point(ctx, 'iter', ps[k], c, k, r, t)
    ss = c.segments
    ctx.check('number of segments', len(ss) == n - 1)
    for k, s in enumerate(ss):
        ctx.check('segment of curve', s.curve is c and s.idx == k)
        ctx.close('segment', s.data, [r[k], r[k + 1]])
        check_point(ctx, 'p2', s.p2, c, k + 1, r, t)
    for k in (0, n - 2, -1, -(n - 1), n // 2):
        s = sk.CurveSegment(c, k)
        ctx.check('segment index', s.idx == k % (n - 1))
        ctx.close('segment', s.data, [r[k % (n - 1)], r[k % (n - 1) + 1]])
    for k in (n - 1, -n):
        ctx.raises('segment index', ValueError, lambda: sk.CurveSegment(c, k))
    sub('subcurve', c[2].subcurve(c[n - 3]), range(2, n - 2))
    sub('subcurve', c[1].subcurve(c[-1], endpoint=False), range(1, n - 1))
