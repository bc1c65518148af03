"""C02: construction."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

SEQ = ['axes_lists', 'axes_tuples', 'axes_arrays', 'rows_lists', 'points', 'curve_points']
ARR = ['rows', 'columns', 'columns_neg', 'rows_axis0', 'fortran', 'strided', 'reversed_rows', 'curve', 'slice']


def build(form, r, kind, n, d, **kw):
    """a curve from rows r in the given container form"""
    dt = np.float64 if kind == 'f' else np.int64
    cols = [[r[i][j] for i in range(n)] for j in range(d)]
    if form == 'axes_lists':
        return sk.Curve(cols, **kw)
    if form == 'axes_tuples':
        return sk.Curve(tuple([tuple(c) for c in cols]), **kw)
    if form == 'axes_arrays':
        return sk.Curve([np.array(c, dtype=dt) for c in cols], **kw)
    if form == 'rows_lists':
        return sk.Curve([list(x) for x in r], axis=0, **kw)
    if form == 'points':
        return sk.Curve([sk.Point(x) for x in r], axis=0, **kw)
    if form == 'curve_points':
        return sk.Curve(list(sk.Curve(np.array(r, dtype=dt))), axis=0, **kw)
    if form == 'rows':
        return sk.Curve(np.array(r, dtype=dt), **kw)
    if form == 'rows_axis0':
        return sk.Curve(np.array(r, dtype=dt), axis=0, **kw)
    if form == 'columns':
        return sk.Curve(np.array(cols, dtype=dt), axis=1, **kw)
    if form == 'columns_neg':
        return sk.Curve(np.array(cols, dtype=dt), axis=-1, **kw)
    if form == 'fortran':
        return sk.Curve(np.array(cols, dtype=dt).T, **kw)
    if form == 'strided':
        big = np.zeros((2 * n, d), dtype=dt)
        big[::2] = np.array(r, dtype=dt)
        return sk.Curve(big[::2], **kw)
    if form == 'reversed_rows':
        return sk.Curve(np.array(r[::-1], dtype=dt)[::-1], **kw)
    if form == 'slice':
        return sk.Curve(np.array(r + r, dtype=dt)[n:], **kw)
    if form == 'curve':
        return sk.Curve(sk.Curve(np.array(r, dtype=dt)), **kw)


@case(form=SEQ + ARR, n=[1, 2, 3], d=[2, 3, 4], kind=['f', 'i'])
def forms(ctx, form, n, d, kind):
    """every container form holds exactly the rows, with the documented default dtype"""
    r = rows(ctx, 'p', n, d, kind)
    c = build(form, r, kind, n, d)
    want = 'f8' if form in SEQ or kind == 'f' else 'i8'
    check_curve(ctx, form, c, r, d, None, want)
    ctx.check('flags', c.is2d == (d == 2) and c.is3d == (d == 3) and c.isspatial == (d >= 3) and bool(c))


@case(form=SEQ + ARR, n=[1, 3], d=[2, 3], ndmin=[2, 3, 4, 5])
def ndmin_zeros(ctx, form, n, d, ndmin):
    """missing dimensions are zeros, existing ones are kept"""
    r = rows(ctx, 'p', n, d)
    c = build(form, r, 'f', n, d, ndmin=ndmin)
    k = max(d, ndmin)
    check_curve(ctx, form, c, [x + [0] * (k - d) for x in r], k, None, 'f8')


@case(form=SEQ + ARR, n=[1, 2], tform=['list', 'tuple', 'array', 'int_array', 'int_list'], ndmin=[None, 3])
def with_tdata(ctx, form, n, tform, ndmin):
    d = 2
    r = rows(ctx, 'p', n, d)
    t = vec(ctx, 't', n, 'i' if tform in ('int_array', 'int_list') else 'f')
    td = list(t)
    if tform == 'tuple':
        td = tuple(td)
    elif tform == 'array':
        td = np.array(td, dtype=np.float64)
    elif tform == 'int_array':
        td = np.array(td, dtype=np.int64)
    if form == 'curve':
        src = sk.Curve(array(r), tdata=td)
        c = sk.Curve(src, ndmin=ndmin) if ndmin else sk.Curve(src)
    else:
        c = build(form, r, 'f', n, d, tdata=td, **({'ndmin': ndmin} if ndmin else {}))
    k = max(d, ndmin or 2)
    check_curve(ctx, form, c, [x + [0] * (k - d) for x in r], k, t, 'f8')
    ctx.check('t dtype', c.t.dtype == np.dtype('f8'))


@case(form=SEQ + ARR, n=[1, 2], kind=['f', 'i'], dtype=['f8', 'f4', 'i8', 'i4'],
      _where=lambda form, n, kind, dtype: not (kind == 'f' and dtype != 'f8'))
def dtypes(ctx, form, n, kind, dtype):
    """a requested dtype is used"""
    d = 2
    r = rows(ctx, 'p', n, d, kind, -1000, 1000) if kind == 'i' else rows(ctx, 'p', n, d)
    c = build(form, r, kind, n, d, dtype=np.dtype(dtype))
    check_curve(ctx, form, c, r, d, None, dtype)


@case(name=['float', 'int', 'np.float64', 'np.int64', 'np.int32', 'f8', 'i8'], src=['lists', 'array', 'point', 'curve'])
def dtype_names(ctx, name, src):
    n, d = 2, 2
    dt = {'float': float, 'int': int, 'np.float64': np.float64, 'np.int64': np.int64, 'np.int32': np.int32,
          'f8': 'f8', 'i8': 'i8'}[name]
    r = rows(ctx, 'p', n, d, 'i', -1000, 1000)
    if src == 'point':
        p = sk.Point(r[0], dtype=dt)
        ctx.check('dtype', p.dtype == np.dtype(dt))
        ctx.close('data', p.data, r[0])
        q = sk.Point(p, dtype=dt)
        ctx.check('dtype again', q.dtype == np.dtype(dt))
        ctx.close('data again', q.data, r[0])
        return
    if src == 'lists':
        c = sk.Curve(r, axis=0, dtype=dt)
    elif src == 'array':
        c = sk.Curve(array(r, 'i'), dtype=dt)
    else:
        c = sk.Curve(sk.Curve(array(r, 'i')), dtype=dt)
    check_curve(ctx, src, c, r, d, None, np.dtype(dt))


@case(n=[0, 1, 2, 3], par=[False, True], ndmin=[None, 2, 3, 4], kind=['f', 'i'])
def from_curve(ctx, n, par, ndmin, kind):
    """a curve built from a curve keeps points, parameters and dtype; other arguments are ignored with a warning"""
    d = 3
    c0, r, t = curve(ctx, 'p', n, d, par, kind)
    kw = {} if ndmin is None else {'ndmin': ndmin}
    k = max(d, ndmin or 2)
    c = sk.Curve(c0, **kw)
    check_curve(ctx, 'copy', c, [x + [0] * (k - d) for x in r], k, t, 'f8' if kind == 'f' else 'i8')
    c, w = ctx.warned(sk.Curve, c0, tdata=[5.0] * n, **kw)
    check_curve(ctx, 'tdata ignored', c, [x + [0] * (k - d) for x in r], k, t)
    ctx.check('tdata warning', len(w) >= 1)
    c, w = ctx.warned(sk.Curve, c0, axis=1, **kw)
    check_curve(ctx, 'axis ignored', c, [x + [0] * (k - d) for x in r], k, t)
    ctx.check('axis warning', len(w) >= 1)


@case(form=['list', 'lists', 'tuple', 'array0', 'array2', 'array3', 'curve2', 'curve3'], ndmin=[None, 2, 3, 4],
      dtype=[None, 'f8', 'i8'], t=[False, True])
def empty(ctx, form, ndmin, dtype, t):
    kw = {}
    if ndmin is not None:
        kw['ndmin'] = ndmin
    if dtype is not None:
        kw['dtype'] = np.dtype(dtype)
    if t and not form.startswith('curve'):
        kw['tdata'] = []
    src = {'list': [], 'lists': [[], []], 'tuple': (), 'array0': np.array([]), 'array2': np.zeros((0, 2)),
           'array3': np.zeros((0, 3)), 'curve2': sk.Curve([], tdata=[] if t else None),
           'curve3': sk.Curve([], ndmin=3, tdata=[] if t else None)}[form]
    c = sk.Curve(src, **kw)
    k = max(3 if form in ('array3', 'curve3') else 2, ndmin or 2)
    check_curve(ctx, form, c, [], k, [] if t else None, dtype or 'f8')
    ctx.check('false', not c)


@case(form=['list', 'tuple', 'array', 'int_array', 'point', 'curve_point', 'view'], d=[1, 2, 3, 4])
def points(ctx, form, d):
    kind = 'i' if form == 'int_array' else 'f'
    v = vec(ctx, 'v', d, kind)
    if form == 'list':
        p = sk.Point(v)
    elif form == 'tuple':
        p = sk.Point(tuple(v))
    elif form == 'array':
        p = sk.Point(np.array(v, dtype=np.float64))
    elif form == 'int_array':
        p = sk.Point(np.array(v, dtype=np.int64))
    elif form == 'point':
        p = sk.Point(sk.Point(v))
    elif form == 'view':
        p = sk.Point(np.array([[x, 0] for x in v], dtype=np.float64)[:, 0])
    elif d >= 2:
        p = sk.Point(sk.Curve(array([v]))[0])
    else:
        return
    ctx.close('coordinates', p.data, v)
    ctx.check('shape', tuple(p.data.shape) == (d,) and p.ndim == d and len(p) == d and bool(p))
    ctx.check('dtype', p.dtype == np.dtype('f8'))
    ctx.check('plain point', type(p) is sk.Point)
    for i in range(-d, d):
        ctx.close('coordinate %d' % i, p[i], v[i])
    ctx.raises('beyond', IndexError, lambda: p[d])
    ctx.raises('before', IndexError, lambda: p[-d - 1])
    ctx.close('iterate', list(p), v)


@case(bad=['one_dim_array', 'one_dim_list', 'one_axis', 'one_column', 'ndmin1', 'ndmin0', 'ndmin-1', 'axis2', 'axis-3',
           'axis2_lists', 'tdata2d', 'tdata_short', 'tdata_long', 'tdata_scalar', 'tdata_empty', 'dtype_str',
           'dtype_object', 'dtype_bool', 'dtype_U', 'curve_dtype_bool'], n=[2, 3], d=[2, 3])
def rejected(ctx, bad, n, d):
    r = rows(ctx, 'p', n, d)
    a = array(r)
    f = {
        'one_dim_array': lambda: sk.Curve(array([[x[0]] for x in r]).reshape(-1)),
        'one_dim_list': lambda: sk.Curve([x[0] for x in r]),
        'one_axis': lambda: sk.Curve([[x[0] for x in r]]),
        'one_column': lambda: sk.Curve(array([[x[0]] for x in r])),
        'ndmin1': lambda: sk.Curve(a, ndmin=1),
        'ndmin0': lambda: sk.Curve(a, ndmin=0),
        'ndmin-1': lambda: sk.Curve([[x[0] for x in r]] * d, ndmin=-1),
        'axis2': lambda: sk.Curve(a, axis=2),
        'axis-3': lambda: sk.Curve(a, axis=-3),
        'axis2_lists': lambda: sk.Curve(r, axis=2),
        'tdata2d': lambda: sk.Curve(a, tdata=[[1.0] * n]),
        'tdata_short': lambda: sk.Curve(a, tdata=[1.0] * (n - 1)),
        'tdata_long': lambda: sk.Curve(a, tdata=[1.0] * (n + 1)),
        'tdata_scalar': lambda: sk.Curve(a, tdata=1.0),
        'tdata_empty': lambda: sk.Curve(a, tdata=[]),
        'dtype_str': lambda: sk.Curve(a, dtype=str),
        'dtype_object': lambda: sk.Curve(a, dtype=object),
        'dtype_bool': lambda: sk.Curve(a, dtype=bool),
        'dtype_U': lambda: sk.Curve(r, axis=0, dtype='U8'),
        'curve_dtype_bool': lambda: sk.Curve(sk.Curve(a), dtype=bool),
    }[bad]
    ctx.raises(bad, ValueError, f)


@case(bad=['two_dim', 'column', 'row', 'dtype_str', 'dtype_bool', 'dtype_object'])
def point_rejected(ctx, bad):
    v = vec(ctx, 'v', 2)
    f = {
        'two_dim': lambda: sk.Point([v, v]),
        'column': lambda: sk.Point(np.array([[x] for x in v], dtype=np.float64)),
        'row': lambda: sk.Point(np.array([v], dtype=np.float64)),
        'dtype_str': lambda: sk.Point(v, dtype=str),
        'dtype_bool': lambda: sk.Point(v, dtype=bool),
        'dtype_object': lambda: sk.Point(v, dtype=object),
    }[bad]
    ctx.raises(bad, ValueError, f)


@case(d=[1, 2, 3])
def segments(ctx, d):
    """segments hold exactly their end points; mismatching or wrong ends are rejected"""
    s, a, b = seg(ctx, 's', d)
    ctx.close('p1', s.p1, a)
    ctx.close('p2', s.p2, b)
    ctx.close('data', s.data, [a, b])
    ctx.check('ndim', s.ndim == d)
    if d >= 2:
        check_curve(ctx, 'to_curve', s.to_curve(), [a, b], d)
    ctx.raises('dimensions', ValueError, sk.Segment, sk.Point(a), sk.Point(b + [1]))
    ctx.raises('not points', TypeError, sk.Segment, a, b)
    ctx.raises('not a point', TypeError, sk.Segment, sk.Point(a), b)
    ctx.raises('empty points', ValueError, sk.Segment, sk.Point([]), sk.Point([]))


@case(form=SEQ + ARR, n=[40, 150], d=[2, 5], kind=['f', 'i'], _where=lambda form, n, d, kind: n == 40 or d == 2)
def long_forms(ctx, form, n, d, kind):
    """many points and many dimensions"""
    r = rows(ctx, 'p', n, d, kind)
    want = 'f8' if form in SEQ or kind == 'f' else 'i8'
    check_curve(ctx, form, build(form, r, kind, n, d), r, d, None, want)
    t = vec(ctx, 't', n)
    if form != 'curve':
        check_curve(ctx, form, build(form, r, kind, n, d, tdata=t), r, d, t, want)
    check_curve(ctx, form, build(form, r, kind, n, d, ndmin=7), [x + [0] * (7 - d) for x in r], 7, None, want)


@case(form=['columns', 'fortran', 'axes_lists', 'axes_arrays', 'rows', 'rows_lists'], n=[4, 5, 6, 7], d=[2, 3, 4, 5, 6, 7, 8],
      kind=['f'])
def shapes(ctx, form, n, d, kind):
    """square, wide and tall data: the axis decides, not the shape"""
    r = rows(ctx, 'p', n, d, kind)
    check_curve(ctx, form, build(form, r, kind, n, d), r, d, None, 'f8')
