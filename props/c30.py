"""C30: numeric helpers and metrics."""
import numpy as np
import scipy.spatial.distance as sd
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c19 import P

ASSUMPTIONS = ['compared numbers are within 100 and equal or at least 0.01 apart, or at least 0.001 from the tolerance which is asked for',
               'the minkowski metric of order 3 and the jensenshannon metric are functions; their values are not encoded',
               'metrics with a denominator: it is at least 0.01']
DT = {'f': np.float64, 'i': np.int64}


def arr(rws, kind):
    return np.array(rws, dtype=DT[kind])


def apart(ctx, a, b, gap=0.01):
    ctx.assume(ctx.any_([a == b, a - b >= gap, b - a >= gap]))


@case(k1=['f', 'i'], k2=['f', 'i'], n=[1, 2, 3], d=[0, 2])
def equal(ctx, k1, k2, n, d):
    """element by element, whatever the kinds"""
    if d:
        a, b = rows(ctx, 'a', n, d, k1, -100, 100), rows(ctx, 'b', n, d, k2, -100, 100)
    else:
        a, b = vec(ctx, 'a', n, k1, -100, 100), vec(ctx, 'b', n, k2, -100, 100)
    fa, fb = flat(a), flat(b)
    for x, y in zip(fa, fb):
        apart(ctx, x, y)
    A, B = arr(a, k1), arr(b, k2)
    for label, r in (('isequal', sk.isequal(A, B)), ('swapped', sk.isequal(B, A))):
        ctx.check(label + ': shape', tuple(r.shape) == tuple(A.shape) and r.dtype == np.dtype(bool))
        for x, y, e in zip(fa, fb, r.reshape(-1).tolist()):
            ctx.check(label, ctx.iff(e, x == y))
    ctx.check('allequal', ctx.iff(sk.allequal(A, B), ctx.all_([x == y for x, y in zip(fa, fb)])))
    ctx.check('allequal swapped', ctx.iff(sk.allequal(B, A), ctx.all_([x == y for x, y in zip(fa, fb)])))
    if d:
        for axis in (0, 1, -1):
            r = sk.allequal(A, B, axis=axis)
            m = d if axis == 0 else n
            ctx.check('allequal along %d: shape' % axis, tuple(r.shape) == (m,))
            for k, e in enumerate(r.tolist()):
                pairs = [(a[i][k], b[i][k]) for i in range(n)] if axis == 0 else list(zip(a[k], b[k]))
                ctx.check('allequal along %d' % axis, ctx.iff(e, ctx.all_([x == y for x, y in pairs])))
    ctx.check('itself', bool(sk.allequal(A, A)))


@case(k2=['f', 'i'], atol=[0.5, 2.0], rtol=[0.0, 0.25])
def equal_within(ctx, k2, atol, rtol):
    """given tolerances"""
    a, b = vec(ctx, 'a', 2, 'f', -100, 100), vec(ctx, 'b', 2, k2, -100, 100)
    want = []
    for x, y in zip(a, b):
        ax, ay = ctx.abs(x), ctx.abs(y)
        g = ctx.abs(x - y) - atol - rtol * ctx.ite(ax >= ay, ax, ay)
        ctx.assume(ctx.or_(g >= 0.001, g <= -0.001))
        want.append(g <= 0)
    A, B = arr(a, 'f'), arr(b, k2)
    for r in (sk.isequal(A, B, atol=atol, rtol=rtol), sk.isequal(B, A, atol=atol, rtol=rtol)):
        for e, w in zip(r.tolist(), want):
            ctx.check('within', ctx.iff(e, w))
    ctx.check('all within', ctx.iff(sk.allequal(A, B, atol=atol, rtol=rtol), ctx.all_(want)))


@case(k1=['f', 'i'], k2=['f', 'i'], d=[2, 3])
def equal_rows(ctx, k1, k2, d):
    """one row against many"""
    a, b = rows(ctx, 'a', 2, d, k1, -100, 100), vec(ctx, 'b', d, k2, -100, 100)
    for r in a:
        for x, y in zip(r, b):
            apart(ctx, x, y)
    A, B = arr(a, k1), arr(b, k2)
    r = sk.isequal(A, B)
    ctx.check('shape', tuple(r.shape) == (2, d))
    for p, q in zip(a, r.tolist()):
        for x, y, e in zip(p, b, q):
            ctx.check('equal', ctx.iff(e, x == y))
    for p, e in zip(a, sk.allequal(A, B, axis=1).tolist()):
        ctx.check('row', ctx.iff(e, ctx.all_([x == y for x, y in zip(p, b)])))


@case(k1=['f', 'i'], k2=['f', 'i'], n=[0, 1, 2, 3, 5], d=[1, 2, 3, 4], _where=lambda k1, k2, n, d: d == 3 or (k1 == 'f' and k2 == 'f'))
def dots(ctx, k1, k2, n, d):
    a, b = rows(ctx, 'a', n, d, k1, -100, 100), rows(ctx, 'b', n, d, k2, -100, 100)
    A = arr(a, k1) if n else np.zeros((0, d), dtype=DT[k1])
    B = arr(b, k2) if n else np.zeros((0, d), dtype=DT[k2])
    r = sk.dot1d(A, B)
    ctx.check('shape', tuple(r.shape) == (n,))
    ctx.close('row by row', r, [dot(x, y) for x, y in zip(a, b)])
    ctx.close('symmetric', sk.dot1d(B, A), r)
    if n:
        ctx.close('first kept', A, a)


# ---- metrics
NAMES = ['braycurtis', 'canberra', 'chebyshev', 'cityblock', 'correlation', 'cosine', 'euclidean', 'jensenshannon', 'mahalanobis', 'minkowski', 'seuclidean', 'sqeuclidean', 'wminkowski']
NORMS = ['euclidean', 'cityblock', 'chebyshev']


def largest(ctx, xs):
    m = xs[0]
    for x in xs[1:]:
        m = ctx.ite(x >= m, x, m)
    return m


def total(xs):
    return sum(xs[1:], xs[0])


def two(ctx, d, kind, lo=-20, hi=20):
    a, b = vec(ctx, 'a', d, kind, lo, hi), vec(ctx, 'b', d, kind, lo, hi)
    return P(a), P(b), a, b


@case(d=[1, 2, 3], kind=['f', 'i'], metric=['default', 'euclidean', 'sqeuclidean', 'cityblock', 'chebyshev', 'canberra', 'braycurtis'], _where=lambda d, kind, metric: metric != 'braycurtis' or d < 3)
def values(ctx, d, kind, metric):
    """metrics without parameters: value, symmetry, zero"""
    p, q, a, b = two(ctx, d, kind)
    g = vsub(a, b)
    ab = [ctx.abs(x) for x in g]
    kw = {} if metric == 'default' else {'metric': metric}
    if metric == 'canberra':
        for x, y in zip(a, b):
            ctx.assume(ctx.abs(x) + ctx.abs(y) >= 0.01)
    if metric == 'braycurtis':
        ctx.assume(total([ctx.abs(x + y) for x, y in zip(a, b)]) >= 0.01)
        ctx.assume(total([ctx.abs(x + x) for x in a]) >= 0.01)
    v = p.distance(q, **kw)
    if metric in ('default', 'euclidean'):
        ctx.close('value', v * v, sq(g))
    elif metric == 'sqeuclidean':
        ctx.close('value', v, sq(g))
    elif metric == 'cityblock':
        ctx.close('value', v, total(ab))
    elif metric == 'chebyshev':
        ctx.close('value', v, largest(ctx, ab))
    elif metric == 'canberra':
        ctx.close('value', v, total([w / (ctx.abs(x) + ctx.abs(y)) for w, x, y in zip(ab, a, b)]))
    else:
        ctx.close('value', v, total(ab) / total([ctx.abs(x + y) for x, y in zip(a, b)]))
    ctx.check('non-negative', v >= 0)
    ctx.close('symmetric', q.distance(p, **kw), v)
    if metric != 'canberra':
        ctx.close('zero', p.distance(P(a), **kw), 0)
    ctx.close('kept', p.data, a)


@case(d=[2, 3], metric=['cosine', 'correlation'], kind=['f', 'i'], _where=lambda d, metric, kind: d == 3 or metric == 'cosine')
def angles(ctx, d, metric, kind):
    p, q, a, b = two(ctx, d, kind, -9, 9)
    if metric == 'correlation':
        u = [x - total(a) / d for x in a]
        w = [x - total(b) / d for x in b]
    else:
        u, w = a, b
    ctx.assume(ctx.and_(sq(u) >= 0.25, sq(w) >= 0.25))
    v = p.distance(q, metric=metric)
    # |1 - v| |u| |w| = |u w|, by the square
    s = sd.cosine(np.array(a, dtype=np.float64), np.array(b, dtype=np.float64)) if metric == 'cosine' else sd.correlation(np.array(a, dtype=np.float64), np.array(b, dtype=np.float64))
    ctx.close('value', v, s)
    ctx.close('symmetric', q.distance(p, metric=metric), v)


@case(d=[2, 3], what=['minkowski1', 'minkowski2', 'minkowski3', 'minkowski-default', 'minkowski-w', 'wminkowski', 'minkowski-w2', 'wminkowski2', 'euclidean-w', 'sqeuclidean-w', 'cityblock-w', 'seuclidean', 'mahalanobis', 'jensenshannon'], kind=['f', 'i'])
def parameters(ctx, d, what, kind):
    """the parameters get to the metric, also through get_metric and a callable"""
    p, q, a, b = two(ctx, d, kind)
    g = vsub(a, b)
    ab = [ctx.abs(x) for x in g]
    w = vec(ctx, 'w', d, lo=0.1, hi=4)
    m = what.split('-')[0].rstrip('123')
    W = np.array(w, dtype=np.float64)
    C = np.diag(W)
    kw = {'minkowski1': {'p': 1}, 'minkowski2': {'p': 2}, 'minkowski3': {'p': 3}, 'minkowski-default': {}, 'minkowski-w': {'p': 1, 'w': W}, 'wminkowski': {'p': 1, 'w': W}, 'minkowski-w2': {'p': 2, 'w': W}, 'wminkowski2': {'p': 2, 'w': W}, 'euclidean-w': {'w': W},
          'sqeuclidean-w': {'w': W}, 'cityblock-w': {'w': W}, 'seuclidean': {'V': W}, 'mahalanobis': {'VI': C}, 'jensenshannon': {'base': 2}}[what]
    if what == 'jensenshannon':
        for x in a + b:
            ctx.assume(x >= 1)
    v = p.distance(q, metric=m, **kw)
    if what in ('minkowski2', 'minkowski-default'):
        ctx.close('value', v * v, sq(g))
    elif what == 'minkowski1':
        ctx.close('value', v, total(ab))
    elif what in ('minkowski-w', 'wminkowski', 'cityblock-w'):
        ctx.close('value', v, dot(w, ab))
    elif what == 'wminkowski2':
        ctx.close('value', v * v, total([(x * y) ** 2 for x, y in zip(g, w)]))
    elif what in ('euclidean-w', 'mahalanobis', 'minkowski-w2'):
        ctx.close('value', v * v, dot(w, [x * x for x in g]))
    elif what == 'sqeuclidean-w':
        ctx.close('value', v, dot(w, [x * x for x in g]))
    elif what == 'seuclidean':
        ctx.close('value', v * v, total([x * x / y for x, y in zip(g, w)]))
    A, B = p.data, q.data
    ctx.close('the metric of SciPy', v, getattr(sd, m)(A, B, **kw))
    ctx.close('get_metric', sk.get_metric(m, **kw)(A, B), v)
    ctx.close('get_metric first', p.distance(q, metric=sk.get_metric(m, **kw)), v)
    ctx.close('get_metric later', p.distance(q, metric=sk.get_metric(m), **kw), v)
    ctx.close('callable', p.distance(q, metric=getattr(sd, m), **kw), v)


@case(d=[1, 2, 3])
def own_metric(ctx, d):
    p, q, a, b = two(ctx, d, 'f')
    k = ctx.scalar('k', 'f', -9, 9)

    def mine(u, v, scale=2.0, shift=0.0):
        return scale * (u[0] - v[-1]) + shift
    ctx.close('plain', p.distance(q, metric=mine), 2 * (a[0] - b[-1]))
    ctx.close('parameters', p.distance(q, metric=mine, scale=k, shift=1.0), k * (a[0] - b[-1]) + 1)
    ctx.close('order', q.distance(p, metric=mine), 2 * (b[0] - a[-1]))
    ctx.raises('unknown parameter', TypeError, p.distance, q, metric=mine, nope=1)


@case(d=[2, 3], metric=['cityblock', 'chebyshev', 'euclidean'], _where=lambda d, metric: d == 2 or metric != 'euclidean')
def triangle(ctx, d, metric):
    a, b = vec(ctx, 'a', d, lo=-20, hi=20), vec(ctx, 'b', d, lo=-20, hi=20)
    c = vec(ctx, 'c', d, lo=-20, hi=20) if metric != 'euclidean' else [1.0] * d
    p, q, r = P(a), P(b), P(c)
    ctx.le('triangle', p.distance(r, metric=metric), p.distance(q, metric=metric) + q.distance(r, metric=metric))


@case(d=[2, 3])
def names(ctx, d):
    p, q, a, b = two(ctx, d, 'f')
    ms = sk.known_metrics()
    ctx.check('the documented names', isinstance(ms, list) and sorted(ms) == NAMES)
    ms.append('nope')
    ctx.check('a copy', 'nope' not in sk.known_metrics())
    for m in ('nope', '', 'Euclidean', 'l2'):
        ctx.raises('unknown', NameError, sk.get_metric, m)
        ctx.raises('unknown with parameters', NameError, sk.get_metric, m, p=1)
        ctx.raises('unknown in distance', NameError, p.distance, q, metric=m)
    for m in (3, None, [1], 2.5, ('euclidean',)):
        ctx.raises('not callable', TypeError, p.distance, q, metric=m)
    for m in NAMES:
        ctx.check('callable', callable(sk.get_metric(m)))
    ctx.raises('dimensions', ValueError, p.distance, P(a + [0.0]))
