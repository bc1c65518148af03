"""C07: parameter values stay attached to their points."""
import copy
import warnings

import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['compositions: abscissae are small fixed integers (with repetitions), ordinates and parameters symbolic']


def rowkey(row):
    return row[0]          # equal abscissae mean equal points in these cases


def m_unique(r, t):
    keep = [i for i in range(len(r)) if not any([r[k] is r[i] for k in range(i)])]
    return keep


def m_nonsing(r, t):
    keep = []
    for i in range(len(r)):
        if not keep or r[keep[-1]] is not r[i]:
            keep.append(i)
    return keep


def sel(r, t, ks):
    return [r[k] for k in ks], [t[k] for k in ks]


class Model:
    """list of rows and list of parameters under the operations (rows are compared by identity)"""

    def __init__(self, ctx, r, t, tag):
        self.ctx, self.r, self.t, self.tag = ctx, r, t, tag

    def apply(self, op, c):
        ctx, r, t, tag = self.ctx, self.r, self.t, self.tag
        n = len(r)
        if op == 'slice':
            s = ctx.choose('s' + tag, [slice(None, None, -1), slice(1, None), slice(None, -1), slice(None, None, 2),
                                       slice(0, 0), slice(-2, None)])
            return c[s], sel(r, t, list(range(n))[s])
        if op == 'list':
            if not n:
                return c[:], (r, t)
            ks = ctx.choose('l' + tag, [[-1, 0], [0], [n - 1, n - 1, 0]])
            return c[ks], sel(r, t, ks)
        if op == 'mask':
            m = ctx.choose('m' + tag, [[True] * n, [i % 2 == 0 for i in range(n)], [i > 0 for i in range(n)]])
            return c[np.array(m, dtype=bool)], sel(r, t, [i for i in range(n) if m[i]])
        if op == 'reverse':
            return c.reverse(), (r[::-1], t[::-1])
        if op == 'coorient':
            q = c.coorientplane()
            if n < 2:
                return q, (r, t)
            det = r[0][0] * r[-1][1] - r[0][1] * r[-1][0]
            ctx.assume(ctx.or_(det > 0, det < 0))
            return q, ((r, t) if ctx.is_true(det > 0) else (r[::-1], t[::-1]))
        if op == 'delete':
            if not n:
                return c.delete(slice(0, 1)), (r, t)
            k = ctx.choose('d' + tag, range(n))
            return c.delete(k), sel(r, t, [i for i in range(n) if i != k])
        if op == 'delete_slice':
            s = ctx.choose('ds' + tag, [slice(0, 1), slice(-1, None), slice(None, None, 2)])
            gone = list(range(n))[s]
            return c.delete(s), sel(r, t, [i for i in range(n) if i not in gone])
        if op == 'delete_list':
            ks = [0, -1] if n else []
            if not n:
                return c.delete(slice(0, 0)), (r, t)
            gone = [k % n for k in ks]
            return c.delete(ks), sel(r, t, [i for i in range(n) if i not in gone])
        if op == 'drop':
            m = ctx.choose('dm' + tag, [[i % 2 == 1 for i in range(n)], [i == 0 for i in range(n)]])
            return c.drop(lambda data: np.array(m, dtype=bool)), sel(r, t, [i for i in range(n) if not m[i]])
        if op == 'drop_index':
            if not n:
                return c.drop(lambda data: np.zeros(0, dtype=bool)), (r, t)
            return c.drop(lambda data: np.array([n - 1])), sel(r, t, range(n - 1))
        if op == 'unique':
            return c.unique(), sel(r, t, m_unique(r, t))
        if op == 'nonsingular':
            return c.nonsingular(), sel(r, t, m_nonsing(r, t))
        if op == 'copy':
            f = ctx.choose('c' + tag, [copy.copy, copy.deepcopy, sk.Curve])
            return f(c), (r, t)
        if op == 'concat':
            row = [7, ctx.real('q' + tag)]
            u = ctx.real('u' + tag)
            return c + sk.Curve(array([row]), tdata=[u]), (r + [row], t + [u])
        if op == 'rconcat':
            row = [-7, ctx.real('q' + tag)]
            u = ctx.real('u' + tag)
            return sk.Curve(array([row]), tdata=[u]) + c, ([row] + r, [u] + t)
        if op == 'double':
            return c + c, (r + r, t + t)
        raise AssertionError(op)


OPS = ['slice', 'list', 'mask', 'reverse', 'coorient', 'delete', 'delete_slice', 'delete_list', 'drop', 'drop_index',
       'unique', 'nonsingular', 'copy', 'concat', 'rconcat', 'double']


def start(ctx, pattern):
    base = {k: [k, ctx.real('y%d' % k)] for k in sorted(set(pattern))}
    r = [base[k] for k in pattern]
    t = vec(ctx, 't', len(pattern))
    c = sk.Curve(array(r), tdata=t)
    return c, r, t


@case(a=OPS, b=OPS, pat=['0123', '1100'], _thorough={'pat': ['01210', '0']})
def two_operations(ctx, a, b, pat):
    """every pair of operations keeps the pairing of points and parameters"""
    c, r, t = start(ctx, [int(x) + 1 for x in pat])
    for j, op in enumerate((a, b)):
        q, (r2, t2) = Model(ctx, r, t, str(j)).apply(op, c)
        check_curve(ctx, 'step %d' % j, q, r2, 2, t2, 'f8')
        check_curve(ctx, 'operand %d' % j, c, r, 2, t)
        for k in range(len(r2)):
            ctx.close('point %d' % j, q[k].t, t2[k])
        c, r, t = q, r2, t2


@case(_tier='thorough', a=OPS, b=OPS, e=['slice', 'reverse', 'delete', 'unique', 'nonsingular', 'concat', 'coorient', 'drop'])
def three_operations(ctx, a, b, e):
    c, r, t = start(ctx, [1, 2, 1])
    for j, op in enumerate((a, b, e)):
        q, (r2, t2) = Model(ctx, r, t, str(j)).apply(op, c)
        check_curve(ctx, 'step %d' % j, q, r2, 2, t2, 'f8')
        c, r, t = q, r2, t2


def cumlen(ctx, r):
    """cumulative chord lengths of rows"""
    out = [0]
    for k in range(1, len(r)):
        out.append(out[-1] + ctx.sqrt(sq(vsub(r[k], r[k - 1]))))
    return out[:len(r)]


def check_default(ctx, label, c, r):
    ctx.check(label + ': not parametric', not c.isparametric)
    ctx.check(label + ': size', c.size == len(r) and tuple(c.t.shape) == (len(r),))
    ctx.close(label + ': t is the arc length', c.t, cumlen(ctx, r))
    ctx.close(label + ': same as cumarclen', c.t, c.cumarclen)
    for k in range(len(r)):
        ctx.close(label + ': point', c[k].t, c.t[k])


@case(n=[0, 1, 2, 3, 4], d=[2, 3], kind=['f', 'i'])
def default_parameter(ctx, n, d, kind):
    c, r, t = curve(ctx, 'p', n, d, False, kind)
    check_default(ctx, 'curve', c, r)
    if n:
        check_default(ctx, 'reverse', c.reverse(), r[::-1])
        check_default(ctx, 'slice', c[1:], r[1:])
        check_default(ctx, 'delete', c.delete(0), r[1:])


LOSING = ['insert', 'insert_curve', 'append', 'append_curve', 'insertdim', 'appenddim', 'deletedim', 'smooth_savgol',
          'smooth_window', 'concat_right', 'concat_left']


@case(op=LOSING, n=[2, 3], _where=lambda op, n: n == 3 or not op.startswith('smooth'))
def not_parametric(ctx, op, n):
    """operations that drop the parametrisation report the arc length of the new points"""
    d = 3
    c, r, t = curve(ctx, 'p', n, d, True)
    v = vec(ctx, 'v', d)
    w = vec(ctx, 'w', n)
    o = sk.Curve(array([v]))
    if op == 'insert':
        q, rr = c.insert(1, sk.Point(v)), r[:1] + [v] + r[1:]
    elif op == 'insert_curve':
        q, rr = c.insert(1, sk.Curve(o, tdata=None)), r[:1] + [v] + r[1:]
    elif op == 'append':
        q, rr = c.append(sk.Point(v)), r + [v]
    elif op == 'append_curve':
        q, rr = c.append(sk.Curve(array([v]), tdata=[1.0])), r + [v]
    elif op == 'insertdim':
        q, rr = c.insertdim(1, w), [x[:1] + [w[i]] + x[1:] for i, x in enumerate(r)]
    elif op == 'appenddim':
        q, rr = c.appenddim(w), [x + [w[i]] for i, x in enumerate(r)]
    elif op == 'deletedim':
        q, rr = c.deletedim(1), [[x[0], x[2]] for x in r]
    elif op == 'smooth_savgol':
        q = c.smooth('savgol', window_length=3, polyorder=2)
        rr = q.data.tolist()
        bounded(ctx, flat(r), 1000)
        ctx.close('polynomials of degree two are kept', q.data, r, exact=False)
    elif op == 'smooth_window':
        q = c.smooth('window', window_size=1)
        rr = q.data.tolist()
        ctx.close('window of one point', q.data, r)
    elif op == 'concat_right':
        q, rr = c + o, r + [v]
    else:
        q, rr = o + c, [v] + r
    check_default(ctx, op, q, rr)


@case(n=[2, 3], method=['linear', 'cubic', 'csaps'])
def interpolated_parameter(ctx, n, method):
    """a parametric curve stays parametric with the grid as its parameter; others get the arc length"""
    c, r, t = curve(ctx, 'p', n, 2, True)
    for k in range(1, n):
        ctx.assume(t[k] - t[k - 1] >= 0.01)
    g = vec(ctx, 'g', 2)
    ctx.assume(ctx.and_(g[1] - g[0] >= 0.01, g[0] >= t[0], g[1] <= t[n - 1]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        q = c.interpolate(g, method)
    ctx.check('parametric', q.isparametric)
    ctx.close('parameter is the grid', q.t, g)


@case(n=[0, 1, 3], ndmin=[None, 3])
def bad_parameters(ctx, n, ndmin):
    """the parameter array always has one value per point"""
    c, r, t = curve(ctx, 'p', n, 2, True)
    kw = {'ndmin': ndmin} if ndmin else {}
    for m in (n - 1, n + 1, n + 2):
        if m >= 0:
            ctx.raises('size %d' % m, ValueError, lambda: sk.Curve(c.data, tdata=[0.5] * m, **kw))
    ctx.raises('two-dimensional', ValueError, lambda: sk.Curve(c.data, tdata=[[0.5] * n], **kw))
    ctx.raises('column', ValueError, lambda: sk.Curve(c.data, tdata=np.zeros((n, 1)), **kw))


@case(n=[20, 70], a=OPS, b=['slice', 'list', 'mask', 'delete_list', 'drop', 'unique', 'nonsingular', 'double'], _cost=2,
      _where=lambda n, a, b: n == 20 or b in ('unique', 'double', 'nonsingular'))
def long_operations(ctx, n, a, b):
    """pairs of operations on long curves with repeated points"""
    c, r, t = start(ctx, [1 + (i * i // 3) % 11 for i in range(n)])
    for j, op in enumerate((a, b)):
        if op in ('delete', 'coorient') and len(r) > 1:
            if op == 'delete':
                k = [0, 7, -1][j + 1]
                q, (r2, t2) = c.delete(k), sel(r, t, [i for i in range(len(r)) if i != k % len(r)])
            else:
                q, (r2, t2) = Model(ctx, r, t, str(j)).apply(op, c)
        else:
            q, (r2, t2) = Model(ctx, r, t, str(j)).apply(op, c)
        check_curve(ctx, 'step %d' % j, q, r2, 2, t2, 'f8')
        check_curve(ctx, 'operand %d' % j, c, r, 2, t)
        c, r, t = q, r2, t2
    for k in range(0, len(r), 5):
        ctx.close('point', c[k].t, t[k])


@case(n=[20, 60], d=[2, 3])
def long_default(ctx, n, d):
    """the arc length as the parameter of long curves (all points but a few on a fixed path)"""
    r = long_rows(ctx, 'p', n, d, [0, 1, n // 2, n - 1])
    c = sk.Curve(array(r))
    check_default(ctx, 'curve', c, r)
    check_default(ctx, 'slice', c[n // 2 - 1:], r[n // 2 - 1:])
    check_default(ctx, 'insert', c.insert(n // 2, sk.Point(r[0])), r[:n // 2] + [r[0]] + r[n // 2:])


@case(n=[4, 20])
def parameter_of_edited(ctx, n):
    """parameters of the original and of edited curves, asked for alternately and repeatedly"""
    r = long_rows(ctx, 'p', n, 2, [0, n - 1])
    c = sk.Curve(array(r))
    t0 = c.t
    for op in ('reverse', 'insert', 'delete', 'slice', 'append', 'copy', 'insertdim', 'add'):
        if op == 'reverse':
            q, rr = c.reverse(), r[::-1]
        elif op == 'insert':
            q, rr = c.insert(1, sk.Point([5.0, 6.0])), r[:1] + [[5, 6]] + r[1:]
        elif op == 'delete':
            q, rr = c.delete(1), r[:1] + r[2:]
        elif op == 'slice':
            q, rr = c[1:], r[1:]
        elif op == 'append':
            q, rr = c.append(c), r + r
        elif op == 'copy':
            q, rr = copy.copy(c), r
        elif op == 'insertdim':
            q, rr = c.insertdim(0, [float(i * i) for i in range(n)]), [[i * i] + x for i, x in enumerate(r)]
        else:
            q, rr = c + c[:2], r + r[:2]
        ctx.check(op + ': not parametric', not q.isparametric)
        ctx.close(op, q.t, cumlen(ctx, rr))
        ctx.close(op + ': original', c.t, t0)
        ctx.close(op + ': again', q.t, cumlen(ctx, rr))
        ctx.close(op + ': arclen', q.arclen, cumlen(ctx, rr)[-1])
