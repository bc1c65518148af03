"""C06: unique, drop, nonsingular."""
import warnings

import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['nonsingular: finite points are either equal or at least 0.001 apart']


def same(ctx, a, b):
    return ctx.all_([x == y for x, y in zip(a, b)])


def first_occurrences(ctx, r):
    """indices of the first occurrence of every distinct row (decides the pattern on this path)"""
    keep = []
    for i in range(len(r)):
        if not any([ctx.is_true(same(ctx, r[i], r[k])) for k in keep]):
            keep.append(i)
    return keep


@case(n=[0, 1, 2, 3], d=[2, 3], par=[False, True], kind=['f', 'i'], _where=lambda n, d, par, kind: n < 3 or d == 2 or kind == 'f',
      _cost=3)
def unique(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    q = c.unique()
    keep = first_occurrences(ctx, r)
    check_curve(ctx, 'unique', q, [r[k] for k in keep], d, [t[k] for k in keep] if par else None,
                'f8' if kind == 'f' else 'i8')


@case(n=[4], par=[False, True], _cost=5, _thorough={'n': [5]}, _opts={'unique_order': 'first'})
def unique_patterns(ctx, n, par):
    """every coincidence pattern of n points (the coordinates of a repeated point are those of an earlier one)"""
    d = 2
    base = rows(ctx, 'p', n, d)
    for i in range(n):
        for k in range(i):
            distinct(ctx, base[i], base[k])
    r, label = [], []
    for i in range(n):
        k = ctx.choose('same%d' % i, list(range(max(label + [-1]) + 2)))
        label.append(k)
        r.append(base[k])
    t = vec(ctx, 't', n) if par else None
    c = sk.Curve(array(r), tdata=t)
    keep = [i for i in range(n) if label.index(label[i]) == i]
    check_curve(ctx, 'unique', c.unique(), [r[k] for k in keep], d, [t[k] for k in keep] if par else None, 'f8')


@case(n=[3, 4], par=[False, True], _cost=3)
def unique_line(ctx, n, par):
    """points on a coordinate line in any order"""
    x = vec(ctx, 'x', n)
    r = [[v, 7] for v in x]
    t = vec(ctx, 't', n) if par else None
    c = sk.Curve(array(r), tdata=t)
    q = c.unique()
    keep = first_occurrences(ctx, r)
    check_curve(ctx, 'unique', q, [r[k] for k in keep], 2, [t[k] for k in keep] if par else None, 'f8')


@case(n=[0, 1, 2, 3, 4], d=[2, 3], par=[False, True], form=['mask', 'mask_list', 'mask2', 'computed', 'computed2'],
      _where=lambda n, d, par, form: n * (d if form in ('mask2', 'computed2') else 1) <= 6)
def drop_mask(ctx, n, d, par, form):
    c, r, t = curve(ctx, 'p', n, d, par)
    if form in ('mask', 'mask_list'):
        flags = [ctx.is_true(ctx.bool('m%d' % i)) for i in range(n)]
        m = np.array(flags, dtype=bool)
        q = c.drop((lambda data: m) if form == 'mask' or n == 0 else (lambda data: flags))
    elif form == 'mask2':
        f2 = [[ctx.is_true(ctx.bool('m%d_%d' % (i, j))) for j in range(d)] for i in range(n)]
        flags = [any(x) for x in f2]
        q = c.drop(lambda data: np.array(f2, dtype=bool).reshape(n, d))
    elif form == 'computed':
        q = c.drop(lambda data: data[:, 1] < data[:, 0])
        flags = [ctx.is_true(x[1] < x[0]) for x in r]
    else:
        q = c.drop(lambda data: data > 1)
        flags = [ctx.is_true(ctx.any_([v > 1 for v in x])) for x in r]
    keep = [i for i in range(n) if not flags[i]]
    check_curve(ctx, 'drop', q, [r[k] for k in keep], d, [t[k] for k in keep] if par else None, 'f8')
    check_curve(ctx, 'operand', c, r, d, t)


@case(n=[1, 2, 3, 4], m=[1, 2], par=[False, True], form=['array', 'list', 'scalar'],
      _where=lambda n, m, par, form: form != 'scalar' or m == 1)
def drop_indices(ctx, n, m, par, form):
    d = 2
    c, r, t = curve(ctx, 'p', n, d, par)
    ks = []
    for j in range(m):
        i = ctx.int('i%d' % j, -n, n - 1)
        for k in range(-n, n):
            if ctx.is_true(i == k):
                ks.append(k)
                break
    ret = np.array(ks) if form == 'array' else ks if form == 'list' else ks[0]
    seen = []

    def isa(data):
        seen.append(data)
        return ret
    q = c.drop(isa)
    gone = [k % n for k in ks]
    keep = [k for k in range(n) if k not in gone]
    check_curve(ctx, 'drop', q, [r[k] for k in keep], d, [t[k] for k in keep] if par else None, 'f8')
    ctx.check('called once with the data', len(seen) == 1)
    ctx.close('called with the data', seen[0], r)


@case(bad=['not_callable', 'float2', 'int2', 'none_callable'])
def drop_rejected(ctx, bad):
    c, r, t = curve(ctx, 'p', 2, 2)
    if bad == 'not_callable':
        ctx.raises(bad, TypeError, c.drop, np.array([True, False]))
    elif bad == 'none_callable':
        ctx.raises(bad, TypeError, c.drop, None)
    elif bad == 'float2':
        ctx.raises(bad, ValueError, c.drop, lambda data: data)
    else:
        ctx.raises(bad, ValueError, c.drop, lambda data: np.array([[0, 1], [1, 0]]))


def separate(ctx, r):
    """decides which points are equal; different points are at least 0.001 apart"""
    for i in range(len(r)):
        for k in range(i):
            if not ctx.is_true(same(ctx, r[i], r[k])):
                ctx.assume(sq(vsub(r[i], r[k])) >= 0.000001)


def nonsingular_model(ctx, r, finite):
    keep = []
    for i in range(len(r)):
        if not finite[i]:
            continue
        if keep and ctx.is_true(same(ctx, r[i], r[keep[-1]])):
            continue
        keep.append(i)
    return keep


@case(n=[0, 1, 2, 3, 4], d=[2, 3], par=[False, True], kind=['f', 'i'],
      _where=lambda n, d, par, kind: (n < 4 or d == 2) and (kind == 'f' or d == 2), _cost=3, _thorough={'n': [5]})
def nonsingular(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    separate(ctx, r)
    q = c.nonsingular()
    keep = nonsingular_model(ctx, r, [True] * n)
    check_curve(ctx, 'nonsingular', q, [r[k] for k in keep], d, [t[k] for k in keep] if par else None,
                'f8' if kind == 'f' else 'i8')
    check_curve(ctx, 'operand', c, r, d, t)


@case(n=[1, 2, 3, 4], d=[2, 3], par=[False, True], where=['first', 'middle', 'last', 'two', 'all'],
      _where=lambda n, d, par, where: not (where == 'middle' and n < 3) and not (where == 'two' and n < 2) and (n < 4 or d == 2),
      _cost=3)
def nonsingular_special(ctx, n, d, par, where):
    """NaN and infinite coordinates at every position, equal neighbours around them"""
    r = rows(ctx, 'p', n, d)
    separate(ctx, r)
    bad = {'first': [0], 'middle': [n // 2], 'last': [n - 1], 'two': [0, n - 1], 'all': list(range(n))}[where]
    q = [list(x) for x in r]
    for k in sorted(set(bad)):
        j = ctx.choose('axis%d' % k, range(d)) if len(bad) < 3 else k % d
        v = ctx.choose('kind%d' % k, [float('nan'), float('inf'), float('-inf')]) if len(bad) < 2 else \
            [float('nan'), float('inf'), float('-inf')][k % 3]
        q[k][j] = v
    t = vec(ctx, 't', n) if par else None
    c = sk.Curve(array(q), tdata=t)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        z = c.nonsingular()
    keep = nonsingular_model(ctx, q, [i not in bad for i in range(n)])
    check_curve(ctx, 'nonsingular', z, [r[k] for k in keep], d, [t[k] for k in keep] if par else None, 'f8')


@case(n=[3, 4, 5], par=[False, True], _cost=3)
def nonsingular_patterns(ctx, n, par):
    """every coincidence pattern, including returning to an earlier point"""
    base = [[0.0, 1.0], [ctx.real('a', 1, 100), ctx.real('b')], [-1.0, ctx.real('e')]]
    r, lab = [], []
    for i in range(n):
        k = ctx.choose('same%d' % i, [0, 1, 2])
        lab.append(k)
        r.append(base[k])
    t = vec(ctx, 't', n) if par else None
    c = sk.Curve(array(r), tdata=t)
    keep = [i for i in range(n) if i == 0 or lab[i] != lab[i - 1]]
    check_curve(ctx, 'nonsingular', c.nonsingular(), [r[k] for k in keep], 2, [t[k] for k in keep] if par else None, 'f8')


@case(n=[2, 3, 4])
def nonsingular_near(ctx, n):
    """nearly equal points (within 1e-12) count as coinciding: no close neighbours remain"""
    d = 2
    x = [0.0]
    lab = [0]
    for i in range(1, n):
        e = ctx.real('e%d' % i, -1e-12, 1e-12)
        near = ctx.choose('near%d' % i, [True, False])
        lab.append(lab[-1] + (0 if near else 1))
        x.append(3.0 * lab[-1] + e)
    c = sk.Curve(array([[v, 1.0] for v in x]))
    q = c.nonsingular()
    ctx.check('size', q.size == lab[-1] + 1)
    got = q.data.tolist()
    for i in range(len(got)):
        ctx.check('one of each', ctx.and_(got[i][0] - 3.0 * i <= 1e-9, 3.0 * i - got[i][0] <= 1e-9))
        ctx.check('second coordinate', got[i][1] == 1.0)


def long_pattern(n, pat):
    """a fixed sequence of abscissae with repetitions"""
    if pat == 'distinct':
        return [(7 * i + 3) % n for i in range(n)]
    if pat == 'runs':
        return [(i // 3) % 5 for i in range(n)]
    if pat == 'cycle':
        return [i % 4 for i in range(n)]
    if pat == 'one':
        return [2] * n
    if pat == 'late':
        return list(range(n - 3)) + [0, n - 4, n - 4]
    return [min(i, n - 1 - i) for i in range(n)]          # back and forth, doubled in the middle


@case(n=[20, 70, 150], pat=['distinct', 'runs', 'cycle', 'one', 'late', 'mirror'], d=[2, 3], kind=['f', 'i'],
      _where=lambda n, pat, d, kind: n < 150 or d == 2)
def long_curves(ctx, n, pat, d, kind):
    """long curves with repeated points"""
    lab = long_pattern(n, pat)
    base = {k: [k - 3] + (vec(ctx, 'y%d' % k, d - 1, kind, -9, 9) if k in (0, 3, lab[-1]) else [k * k % 7] * (d - 1))
            for k in sorted(set(lab))}
    r = [base[k] for k in lab]
    t = vec(ctx, 't', n)
    c = sk.Curve(array(r, kind), tdata=t)
    dt = 'f8' if kind == 'f' else 'i8'

    def sub(label, q, keep):
        check_curve(ctx, label, q, [r[k] for k in keep], d, [t[k] for k in keep], dt)

    sub('unique', c.unique(), [i for i in range(n) if lab.index(lab[i]) == i])
    sub('nonsingular', c.nonsingular(), [i for i in range(n) if i == 0 or lab[i] != lab[i - 1]])
    sub('drop mask', c.drop(lambda data: data[:, 0] > 0), [i for i in range(n) if lab[i] <= 3])
    m = np.array([[i % 5 == 0 if j == 0 else i % 7 == 3 for j in range(d)] for i in range(n)])
    sub('drop 2-D mask', c.drop(lambda data: m), [i for i in range(n) if i % 5 != 0 and i % 7 != 3])
    sub('drop indices', c.drop(lambda data: np.array([0, -1, n // 2, 17])), [i for i in range(n) if i not in (0, n - 1, n // 2, 17)])
    sub('drop list', c.drop(lambda data: list(range(0, n, 2))), [i for i in range(n) if i % 2])
    sub('drop nothing', c.drop(lambda data: np.zeros(n, dtype=bool)), range(n))
    check_curve(ctx, 'operand', c, r, d, t, dt)


@case(n=[20, 70], bad=[[0], [5, 6, 7], [-1], [0, 1, 2, 10, -1], [9, 17], list(range(1, 19))], value=['nan', 'inf', '-inf', 'mixed'])
def long_special(ctx, n, bad, value):
    """NaN and infinite coordinates in long curves, with equal points on both sides of them"""
    bad = sorted([k % n for k in bad])
    lab = [i // 2 for i in range(n)]
    y = [ctx.real('y%d' % k, -9, 9) if k in (0, 4, lab[-1]) else float(k * k % 7) for k in range(n)]
    r = [[lab[i] - 4, y[lab[i]]] for i in range(n)]
    q = [list(x) for x in r]
    for m, k in enumerate(bad):
        v = ['nan', 'inf', '-inf'][m % 3] if value == 'mixed' else value
        q[k][(m + k) % 2] = float(v)
    t = vec(ctx, 't', n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        z = sk.Curve(array(q), tdata=t).nonsingular()
    keep = []
    for i in range(n):
        if i not in bad and not (keep and lab[keep[-1]] == lab[i]):
            keep.append(i)
    check_curve(ctx, 'nonsingular', z, [r[k] for k in keep], 2, [t[k] for k in keep], 'f8')


@case(scale=[1000000.0, 1024.0, 0.015625], n=[3, 4], par=[True])
def nonsingular_scaled(ctx, scale, n, par):
    """distinct neighbours of large and of small coordinates are kept, equal ones are merged"""
    lab = [ctx.choose('lab%d' % i, [0, 1, 2]) for i in range(n)]
    s = scale
    base = [[0.0, s], [s * ctx.real('a', 1, 2), s * ctx.real('b', -1, 1)], [-s, s]]
    r = [base[k] for k in lab]
    t = vec(ctx, 't', n) if par else None
    keep = [i for i in range(n) if i == 0 or lab[i] != lab[i - 1]]
    check_curve(ctx, 'nonsingular', sk.Curve(array(r), tdata=t).nonsingular(), [r[k] for k in keep], 2,
                [t[k] for k in keep] if par else None, 'f8')
    # neighbours at a small distance compared with their size are still different points
    x = ctx.real('x', 1, 2) * s
    e = s * 0.001
    c = sk.Curve(array([[x, 0], [x + e, 0], [x + e, 0], [x + e, e], [x, 0]]))
    check_curve(ctx, 'near', c.nonsingular(), [[x, 0], [x + e, 0], [x + e, e], [x, 0]], 2, None, 'f8')
