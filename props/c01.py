"""C01: objects are immutable and operations do not touch their operands."""
import copy
import warnings

import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *


def setitem(a, k, v):
    a[k] = v


FORMS = ['rows', 'rows_int', 'columns', 'axes_lists', 'axes_arrays', 'rows_lists', 'fortran', 'strided', 'points', 'curve']


@case(form=FORMS, n=[1, 3], d=[2, 3], par=['no', 'array', 'list'])
def private_copy(ctx, form, n, d, par):
    kind = 'i' if form == 'rows_int' else 'f'
    r = rows(ctx, 'p', n, d, kind)
    t = vec(ctx, 't', n) if par != 'no' else None
    td = None if par == 'no' else (np.array(t, dtype=np.float64) if par == 'array' else list(t))
    kw, pieces, src = {}, [], None
    if form in ('rows', 'rows_int'):
        src = array(r, kind, d)
        c = sk.Curve(src, tdata=td)
        pieces = [src]
    elif form == 'columns':
        src = np.array([[r[i][j] for i in range(n)] for j in range(d)], dtype=np.float64)
        c = sk.Curve(src, tdata=td, axis=1)
        pieces = [src]
    elif form == 'fortran':
        src = np.array([[r[i][j] for i in range(n)] for j in range(d)], dtype=np.float64)
        c = sk.Curve(src.T, tdata=td)
        pieces = [src]
    elif form == 'strided':
        src = np.zeros((2 * n, d), dtype=np.float64)
        for i in range(n):
            for j in range(d):
                src[2 * i, j] = r[i][j]
        c = sk.Curve(src[::2], tdata=td)
        pieces = [src]
    elif form == 'axes_lists':
        src = [[r[i][j] for i in range(n)] for j in range(d)]
        c = sk.Curve(src, tdata=td)
    elif form == 'axes_arrays':
        src = [np.array([r[i][j] for i in range(n)], dtype=np.float64) for j in range(d)]
        c = sk.Curve(src, tdata=td)
        pieces = src
    elif form == 'rows_lists':
        src = [list(x) for x in r]
        c = sk.Curve(src, axis=0, tdata=td)
    elif form == 'points':
        src = [np.array(x, dtype=np.float64) for x in r]
        c = sk.Curve([sk.Point(x) for x in src], axis=0, tdata=td)
        pieces = src
    else:
        src = array(r, kind, d)
        c = sk.Curve(sk.Curve(src, tdata=td))
        pieces = [src]
    ctx.close('as built', c.data, r)
    if pieces:
        for a in pieces:
            ctx.check('source stays writable', bool(a.flags.writeable))
            a[...] = 77
    elif form in ('axes_lists', 'rows_lists'):
        for row in src:
            row[0] = 77
    if td is not None:
        for i in range(n):
            td[i] = -55
    ctx.close('data private', c.data, r)
    if t is not None:
        ctx.close('t private', c.t, t)
    # read-only
    for nm, arr_ in [('data', c.data), ('values(0)', c.values(0)), ('values(-1)', c.values(-1)),
                     ('values()', list(c.values())[d - 1]), ('point', c[0].data), ('slice', c[:1].data)]:
        ctx.check(nm + ' not writable', not arr_.flags.writeable)
        ctx.raises(nm + ' write raises', ValueError, setitem, arr_, 0, 1)
    if t is not None:
        ctx.raises('t write raises', ValueError, setitem, c.t, 0, 1)
        ctx.raises('t write raises (slice)', ValueError, setitem, c[0:1].t, 0, 1)
    ctx.close('data after writes', c.data, r)


@case(form=['array', 'list', 'tuple', 'int_array', 'view', 'point', 'column_view'], d=[2, 3])
def private_point(ctx, form, d):
    v = vec(ctx, 'v', d, 'i' if form == 'int_array' else 'f')
    if form == 'array':
        src = np.array(v, dtype=np.float64)
        p = sk.Point(src)
    elif form == 'int_array':
        src = np.array(v, dtype=np.int64)
        p = sk.Point(src, dtype=np.int64)
    elif form == 'view':
        big = np.array([v, v], dtype=np.float64)
        src = big[1]
        p = sk.Point(src)
    elif form == 'column_view':
        big = np.array([[x, x] for x in v], dtype=np.float64)
        src = big[:, 0]
        p = sk.Point(src)
    elif form == 'list':
        src = list(v)
        p = sk.Point(src)
    elif form == 'tuple':
        src = None
        p = sk.Point(tuple(v))
    else:
        src = np.array(v, dtype=np.float64)
        p = sk.Point(sk.Point(src))
    if src is not None:
        for i in range(d):
            src[i] = 99
    ctx.close('point private', p.data, v)
    ctx.raises('write raises', ValueError, setitem, p.data, 0, 1)
    ctx.raises('slice write raises', ValueError, setitem, p[0:1], 0, 1)
    if d > 2:
        ctx.raises('sub-point write raises', ValueError, setitem, p[0:2].data, 0, 1)
    ctx.raises('item assignment', TypeError, setitem, p, 0, 1)
    ctx.close('unchanged', p.data, v)


CURVE_OPS = {
    'index': lambda x: [x.c[0], x.c[-1], x.c[1:], x.c[::-1], x.c[x.idx], x.c[x.mask], x.c[[0, 1]]],
    'reverse': lambda x: [x.c.reverse(), x.c.coorientplane()],
    'insert': lambda x: [x.c.insert(1, x.p), x.c.insert(0, x.o), x.c.append(x.o), x.c.append(x.p), x.c.insert(-1, x.c[0])],
    'delete': lambda x: [x.c.delete(0), x.c.delete(x.idx), x.c.delete(slice(0, 2)), x.c.delete(x.lst)],
    'add': lambda x: [x.c + x.o, x.o + x.c, x.c + x.c],
    'dims': lambda x: [x.c.insertdim(0, x.vals), x.c.insertdim(1), x.c.appenddim(x.vals), x.c.appenddim(),
                       x.c.appenddim().deletedim(0)],
    'unique': lambda x: [x.c.unique()],
    'nonsingular': lambda x: [x.c.nonsingular()],
    'drop': lambda x: [x.c.drop(lambda data: x.mask), x.c.drop(lambda data: x.idx), x.c.drop(lambda data: x.mask2)],
    'copy': lambda x: [copy.copy(x.c), copy.deepcopy(x.c), sk.Curve(x.c), sk.Curve(x.c, ndmin=x.d + 1),
                       copy.copy(x.p), copy.deepcopy(x.c[0])],
    'compare': lambda x: [x.c == x.o, x.c == x.c, x.p in x.c, x.o in x.c, x.c.count(x.p)],
    'lengths': lambda x: [x.c.chordlen, x.c.arclen, x.c.cumarclen, x.c.t, x.c.segments],
    'derivs': lambda x: [x.c.firstderiv, x.c.secondderiv, x.c.thirdderiv, x.c.speed],
    'linear': lambda x: [x.c.interpolate(3, 'linear')],
    'linear_grid': lambda x: [x.c.interpolate(x.grid, 'linear')],
    'cubic': lambda x: [x.c.interpolate(x.grid, 'cubic')],
    'spline': lambda x: [x.c.interpolate(x.grid, 'spline', k=1, weights=x.weights)],
    'csaps': lambda x: [x.c.interpolate(x.grid, 'csaps', weights=x.weights)],
    'pchip': lambda x: [x.c.interpolate(x.grid, 'pchip')],
    'savgol': lambda x: [x.c.smooth('savgol', window_length=3, polyorder=1)],
    'window': lambda x: [x.c.smooth('window', window_size=3, window_type=lambda n: x.win),
                         x.c.smooth('window', window_size=3)],
    'isplane': lambda x: [x.c.isplane],
    'segments': lambda x: [x.c.segments[0].reverse(), x.c.segments[0].point(x.weights), x.c.segments[0].to_curve()],
    'iterate': lambda x: [list(x.c), list(reversed(x.c)), list(x.c.values()), x.c.values(0)],
}


class Box:
    pass


@case(op=sorted(CURVE_OPS), d=[2, 3], par=[False, True], kind=['f', 'i'],
      _where=lambda op, d, par, kind: (op not in ('linear', 'linear_grid', 'cubic', 'spline', 'csaps', 'pchip') or par)
      and (kind == 'f' or op not in ('linear', 'linear_grid', 'cubic', 'spline', 'csaps', 'pchip'))
      and (d == 2 or op not in ('nonsingular', 'unique')) and not (op in ('unique', 'nonsingular') and par and kind == 'i'),
      _opts={'max_paths': 400})
def operands_kept(ctx, op, d, par, kind):
    """every operation leaves its operands and arguments as they were"""
    n = 3
    x = Box()
    x.d = d
    x.c, r, t = curve(ctx, 'p', n, d, par, kind)
    if par:
        # fixed increasing offsets keep parameter order decided
        ctx.assume(ctx.and_(t[1] - t[0] >= 1, t[2] - t[1] >= 1))
    x.o, ro, to = curve(ctx, 'q', 1, d, par, kind)
    x.p, rp = point(ctx, 'v', d)
    x.idx = np.array([2, 0])
    x.lst = [1, 2]
    x.mask = np.array([True, False, True])
    x.mask2 = np.zeros((n, d), dtype=bool)
    x.vals = array([vec(ctx, 'w', n, kind)], kind)[0]
    w0 = x.vals.tolist()
    x.weights = np.array([1.0, 2.0, 1.0])
    x.win = np.array([1.0, 2.0, 1.0])
    if par and 'i' != 'x':
        x.grid = np.array([t[0], t[1], t[2]], dtype=np.float64)
        g0 = x.grid.tolist()
    if op == 'nonsingular' or op == 'unique':
        for i in range(1, n):
            ctx.assume(ctx.or_(ctx.all_([u == v for u, v in zip(r[i], r[i - 1])]),
                               ctx.any_([ctx.or_(u - v >= 1, v - u >= 1) for u, v in zip(r[i], r[i - 1])])))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        res = CURVE_OPS[op](x)
        again = CURVE_OPS[op](x)
    check_curve(ctx, 'curve', x.c, r, d, t, 'f8' if kind == 'f' else 'i8')
    check_curve(ctx, 'other', x.o, ro, d, to)
    ctx.close('point', x.p, rp)
    ctx.close('values argument', x.vals, w0)
    ctx.check('index array', x.idx.tolist() == [2, 0] and x.lst == [1, 2])
    ctx.check('mask', [bool(b) for b in x.mask.tolist()] == [True, False, True])
    ctx.check('mask 2-D', not any([bool(b) for b in x.mask2.reshape(-1).tolist()]))
    ctx.close('weights', x.weights, [1, 2, 1])
    ctx.close('window', x.win, [1, 2, 1])
    ctx.check('arguments stay writable', bool(x.win.flags.writeable) and bool(x.weights.flags.writeable)
              and bool(x.idx.flags.writeable) and bool(x.mask.flags.writeable) and bool(x.vals.flags.writeable))
    if par:
        ctx.close('grid argument', x.grid, g0)
        ctx.check('grid stays writable', bool(x.grid.flags.writeable))
        ctx.raises('t still read-only', ValueError, setitem, x.c.t, 0, 1)
    ctx.raises('data still read-only', ValueError, setitem, x.c.data, 0, 1)
    for k, (a, b) in enumerate(zip(res, again)):
        if isinstance(a, sk.Curve):
            ctx.check('result %d is a curve with private data' % k, not a.data.flags.writeable)
            ctx.close('result %d same again' % k, a.data, b.data)
            if a.isparametric:
                ctx.check('result %d t read-only' % k, not a.t.flags.writeable)
        elif isinstance(a, sk.Point):
            ctx.check('result %d read-only' % k, not a.data.flags.writeable)


SEG_OPS = {
    'basic': lambda s, q, p: [s.seglen, s.dot, s.direction, s.singular, s.reverse(), s.data, s == q, s.to_curve()],
    'point': lambda s, q, p: [s.point(0.5), s.point([0.25, 0.5])],
    't': lambda s, q, p: [s.t(p), s.t([p, s.p1])],
    'parallel': lambda s, q, p: [s.parallel(q), s.angle(q)],
    'collinear': lambda s, q, p: [s.collinear(p), s.coplanar(q)],
    'overlap': lambda s, q, p: [s.overlap(q)],
    'shortest': lambda s, q, p: [s.shortest_segment(p), s.distance(p)],
    'point ops': lambda s, q, p: [p + 1, 1 - p, p * s.p1, p - s.p2, p / 2, p // 2, p @ s.p1, p.norm(), p.distance(s.p1)],
}


@case(op=sorted(SEG_OPS), d=[2, 3], _where=lambda op, d: d == 2 or op not in ('t', 'parallel', 'collinear'),
      _opts={'max_paths': 300})
def segments_kept(ctx, op, d):
    if op in ('t', 'parallel', 'collinear', 'shortest'):
        # one segment concrete keeps the geometry decidable; its aliasing does not depend on values
        a, b = [0, 0, 0][:d], [2, 1, 2][:d]
        s = sk.Segment(sk.Point(a), sk.Point(b))
        e, f = [0, 1, 3][:d], vec(ctx, 'qb', d)
        q = sk.Segment(sk.Point(e), sk.Point(f))
        distinct(ctx, e, f, 1)
    else:
        s, a, b = seg(ctx, 's', d)
        q, e, f = seg(ctx, 'q', d)
    if op == 't':
        k = ctx.real('k')
        p, v = None, [2 * k, k, 2 * k][:d]
        p = sk.Point(v)
    else:
        p, v = point(ctx, 'v', d)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        SEG_OPS[op](s, q, p)
    for nm, obj, val in [('s.p1', s.p1, a), ('s.p2', s.p2, b), ('q.p1', q.p1, e), ('q.p2', q.p2, f), ('p', p, v)]:
        ctx.close(nm, obj, val)
        ctx.check(nm + ' read-only', not obj.data.flags.writeable)
    # segment.data is a fresh array
    dd = s.data
    dd[0, 0] = 1000
    ctx.close('s.p1 after writing to a copy of the data', s.p1, a)


@case(d=[2, 3], n=[3])
def derived_kept(ctx, d, n):
    """computing later quantities does not change earlier ones"""
    r = [[0, 0, 0][:d], [1, 0, 0][:d]] + [[2] + vec(ctx, 'p', d - 1)]
    c = sk.Curve(array(r))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        names = ['chordlen', 'cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed']
        before = {k: getattr(c, k).tolist() for k in names}
        e1 = c.frenet1.tolist()
        c.normal
        c.curvature
        if d > 2:
            c.frenet2
        for k in names:
            ctx.close(k + ' unchanged', getattr(c, k), before[k])
        ctx.close('frenet1 unchanged', c.frenet1, e1)
    ctx.close('data', c.data, r)
