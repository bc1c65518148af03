"""C08: dimension edits and values."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *


@case(n=[0, 1, 2, 3], d=[2, 3, 4], par=[False, True], kind=['f', 'i'], form=['none', 'array', 'list'])
def insertdim(ctx, n, d, par, kind, form):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    w = vec(ctx, 'w', n, kind)
    i = ctx.int('i', -d - 2, d + 2)
    dt = 'f8' if kind == 'f' else 'i8'
    for k in range(-d, d + 1):
        if ctx.is_true(i == k):
            ctx.reach('inside')
            kk = k if k >= 0 else d + k
            if form == 'none':
                q, col = c.insertdim(i), [0] * n
            else:
                q, col = c.insertdim(i, w if form == 'list' and n else array([w], kind)[0] if n else []), w
            check_curve(ctx, 'insertdim', q, [x[:kk] + [col[j]] + x[kk:] for j, x in enumerate(r)], d + 1, None, dt)
            check_curve(ctx, 'operand', c, r, d, t)
            if form == 'array' and n:
                check_curve(ctx, 'restored', q.deletedim(kk), r, d, None, dt)
            return
    ctx.reach('outside')
    if form == 'none':
        ctx.raises('out of bounds', IndexError, c.insertdim, i)
    else:
        ctx.raises('out of bounds', IndexError, c.insertdim, i, w)


@case(n=[0, 1, 2, 3], d=[2, 3, 4], par=[False, True], kind=['f', 'i'], form=['none', 'array', 'list'])
def appenddim(ctx, n, d, par, kind, form):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    w = vec(ctx, 'w', n, kind)
    if form == 'none':
        q, col = c.appenddim(), [0] * n
    else:
        q, col = c.appenddim(w if form == 'list' else array([w], kind)[0] if n else []), w
    check_curve(ctx, 'appenddim', q, [x + [col[j]] for j, x in enumerate(r)], d + 1, None, 'f8' if kind == 'f' else 'i8')
    check_curve(ctx, 'operand', c, r, d, t)


@case(n=[0, 1, 2], d=[3, 4], par=[False, True], kind=['f', 'i'])
def deletedim(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    i = ctx.int('i', -d - 2, d + 2)
    for k in range(-d, d):
        if ctx.is_true(i == k):
            ctx.reach('inside')
            kk = k % d
            check_curve(ctx, 'deletedim', c.deletedim(i), [x[:kk] + x[kk + 1:] for x in r], d - 1, None,
                        'f8' if kind == 'f' else 'i8')
            check_curve(ctx, 'operand', c, r, d, t)
            return
    ctx.reach('outside')
    ctx.raises('out of bounds', IndexError, c.deletedim, i)


@case(n=[1, 2], d=[4, 5], form=['slice', 'list', 'array'])
def deletedims(ctx, n, d, form):
    """several dimensions at once"""
    c, r, t = curve(ctx, 'p', n, d)
    if form == 'slice':
        s = ctx.choose('s', [slice(0, 1), slice(1, 3), slice(None, None, 2) if d == 4 else slice(None, None, -2),
                             slice(-2, None), slice(0, 0)])
        gone = list(range(d))[s]
    else:
        s = ctx.choose('l', [[0, 1], [0, -1], [-1, -2], [1], [2, 2]])
        gone = [k % d for k in s]
        if form == 'array':
            s = np.array(s)
    keep = [j for j in range(d) if j not in gone]
    check_curve(ctx, 'deletedim', c.deletedim(s), [[x[j] for j in keep] for x in r], len(keep), None, 'f8')


@case(n=[0, 1, 2, 3], axis=[0, 1, -1, 5, None])
def deletedim_plane(ctx, n, axis):
    c, r, t = curve(ctx, 'p', n, 2)
    ctx.raises('plane curve', ValueError, c.deletedim, axis if axis is not None else slice(0, 1))


@case(n=[0, 1, 2, 3], d=[2, 3, 4], par=[False, True], kind=['f', 'i'], axt=['int', 'np', 'Axis'])
def values(ctx, n, d, par, kind, axt):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    if axt == 'Axis':
        for ax in (sk.Axis.X, sk.Axis.Y, sk.Axis.Z):
            if int(ax) < d:
                ctx.close('values', c.values(ax), [x[int(ax)] for x in r])
            else:
                ctx.raises('axis outside', ValueError, c.values, ax)
        ctx.check('axes', [int(sk.Axis.X), int(sk.Axis.Y), int(sk.Axis.Z)] == [0, 1, 2])
        cols = list(c.values())
        ctx.check('number of axes', len(cols) == d)
        for j in range(d):
            ctx.check('length', tuple(cols[j].shape) == (n,))
            ctx.close('values of all axes', cols[j], [x[j] for x in r])
        return
    i = ctx.int('i', -d - 3, d + 3)
    ix = np.int64(i) if axt == 'np' else i
    for k in range(-d, d):
        if ctx.is_true(i == k):
            ctx.reach('inside')
            v = c.values(ix)
            ctx.check('shape', tuple(v.shape) == (n,))
            ctx.close('values', v, [x[k] for x in r])
            ctx.check('dtype', v.dtype == c.dtype)
            return
    ctx.reach('outside')
    ctx.raises('axis outside', ValueError, c.values, ix)


@case(d=[2, 3], axis=['str', 'float', 'list', 'slice', 'below'])
def values_rejected(ctx, d, axis):
    c, r, t = curve(ctx, 'p', 2, d)
    a = {'str': 'x', 'float': 1.0, 'list': [0], 'slice': slice(0, 1), 'below': -d - 1}[axis]
    ctx.raises(axis, ValueError, c.values, a)


@case(n=[2, 3, 4], m=[0, 2, 3, 4, 5], op=['insertdim', 'appenddim'], form=['list', 'array'],
      _where=lambda n, m, op, form: n != m)
def wrong_length(ctx, n, m, op, form):
    c, r, t = curve(ctx, 'p', n, 2)
    w = vec(ctx, 'w', m)
    v = w if form == 'list' else np.array(w, dtype=np.float64)
    if op == 'insertdim':
        for ax in (0, 1, 2, -1):
            ctx.raises('wrong length', ValueError, c.insertdim, ax, v)
    else:
        ctx.raises('wrong length', ValueError, c.appenddim, v)


@case(first=['insertdim', 'appenddim', 'deletedim'], second=['insertdim', 'appenddim', 'deletedim'], n=[1, 2])
def two_edits(ctx, first, second, n):
    d = 3
    c, r, t = curve(ctx, 'p', n, d, True)
    for j, op in enumerate((first, second)):
        dd = len(r[0])
        w = vec(ctx, 'w%d' % j, n)
        if op == 'insertdim':
            k = ctx.choose('k%d' % j, range(-dd, dd + 1))
            q = c.insertdim(k, w)
            kk = k if k >= 0 else dd + k
            r2 = [x[:kk] + [w[i]] + x[kk:] for i, x in enumerate(r)]
        elif op == 'appenddim':
            q = c.appenddim(w)
            r2 = [x + [w[i]] for i, x in enumerate(r)]
        else:
            if dd == 2:
                ctx.raises('plane', ValueError, c.deletedim, 0)
                return
            k = ctx.choose('k%d' % j, range(-dd, dd))
            q = c.deletedim(k)
            kk = k % dd
            r2 = [x[:kk] + x[kk + 1:] for x in r]
        check_curve(ctx, 'edit %d' % j, q, r2, len(r2[0]), None, 'f8')
        c, r = q, r2


@case(n=[20, 70, 150], d=[2, 3, 6], kind=['f', 'i'], _where=lambda n, d, kind: n < 150 or d == 2)
def long_curves(ctx, n, d, kind):
    """long curves and many dimensions"""
    c, r, t = curve(ctx, 'p', n, d, True, kind)
    w = vec(ctx, 'w', n, kind)
    dt = 'f8' if kind == 'f' else 'i8'
    for i in range(-d, d + 1):
        k = i if i >= 0 else d + i
        check_curve(ctx, 'insertdim', c.insertdim(i, w), [x[:k] + [w[j]] + x[k:] for j, x in enumerate(r)], d + 1, None, dt)
        check_curve(ctx, 'insertdim zeros', c.insertdim(i), [x[:k] + [0] + x[k:] for x in r], d + 1, None, dt)
    check_curve(ctx, 'appenddim', c.appenddim(array([w], kind)[0]), [x + [w[j]] for j, x in enumerate(r)], d + 1, None, dt)
    check_curve(ctx, 'appenddim zeros', c.appenddim(), [x + [0] for x in r], d + 1, None, dt)
    for i in range(-d, d):
        if d > 2:
            k = i % d
            check_curve(ctx, 'deletedim', c.deletedim(i), [x[:k] + x[k + 1:] for x in r], d - 1, None, dt)
        ctx.close('values', c.values(i), [x[i] for x in r])
    cols = list(c.values())
    ctx.check('axes', len(cols) == d)
    for j in range(d):
        ctx.close('values of all axes', cols[j], [x[j] for x in r])
    for i in (d + 1, -d - 1):
        ctx.raises('insertdim outside', IndexError, c.insertdim, i, w)
        ctx.raises('deletedim outside', IndexError, c.appenddim().deletedim, i + (1 if i > 0 else -1))
        ctx.raises('values outside', ValueError, c.values, i)
    ctx.raises('wrong length', ValueError, c.insertdim, 0, w[:-1])
    ctx.raises('wrong length', ValueError, c.appenddim, w + w[:1])
    check_curve(ctx, 'operand', c, r, d, t, dt)
