"""C04: insert, append, delete, concatenate."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *


def operand(ctx, form, name, d, kind='f', par=False):
    """(object to insert, its rows)"""
    if form == 'point':
        v = vec(ctx, name, d, kind)
        return sk.Point(v, dtype=np.float64 if kind == 'f' else np.int64), [v]
    if form == 'curve_point':
        r = rows(ctx, name, 2, d, kind)
        return sk.Curve(array(r, kind))[1], [r[1]]
    m = int(form[-1])
    c, r, t = curve(ctx, name, m, d, par, kind)
    return c, r


FORMS = ['point', 'curve_point', 'curve0', 'curve1', 'curve2', 'curve3']


@case(n=[0, 1, 2, 3], d=[2, 3], form=FORMS, par=[False, True], kind=['f', 'i'])
def insert(ctx, n, d, form, par, kind):
    """insertion at every integer index"""
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    o, ro = operand(ctx, form, 'q', d, kind, par)
    i = ctx.int('i', -n - 2, n + 2)
    for k in range(-n, n + 1):
        if ctx.is_true(i == k):
            ctx.reach('inside')
            want = list(r)
            kk = k if k >= 0 else n + k
            want[kk:kk] = ro
            check_curve(ctx, 'insert', c.insert(i, o), want, d, None, 'f8' if kind == 'f' else 'i8')
            check_curve(ctx, 'operand', c, r, d, t)
            if k == n:
                check_curve(ctx, 'append', c.append(o), want, d, None, 'f8' if kind == 'f' else 'i8')
            return
    ctx.reach('outside')
    ctx.raises('out of bounds', IndexError, c.insert, i, o)


@case(n=[1, 2, 3, 4], d=[2, 3], par=[False, True], kind=['f', 'i'])
def delete_index(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    i = ctx.int('i', -n - 2, n + 2)
    for k in range(-n, n):
        if ctx.is_true(i == k):
            ctx.reach('inside')
            kk = k % n
            check_curve(ctx, 'delete', c.delete(i), r[:kk] + r[kk + 1:], d, t[:kk] + t[kk + 1:] if par else None,
                        'f8' if kind == 'f' else 'i8')
            check_curve(ctx, 'operand', c, r, d, t)
            return
    ctx.reach('outside')
    ctx.raises('out of bounds', IndexError, c.delete, i)


@case(n=[0, 1, 2, 3, 4], d=[2, 3], par=[False, True], step=[None, 1, 2, -1, -2], ends=['none', 'start', 'stop', 'both'])
def delete_slice(ctx, n, d, par, step, ends):
    c, r, t = curve(ctx, 'p', n, d, par)
    a = ctx.choose('a', range(-n - 1, n + 2)) if ends in ('start', 'both') else None
    b = ctx.choose('b', range(-n - 1, n + 2)) if ends in ('stop', 'both') else None
    s = slice(a, b, step)
    gone = list(range(n))[s]
    left = [k for k in range(n) if k not in gone]
    check_curve(ctx, 'delete', c.delete(s), [r[k] for k in left], d, [t[k] for k in left] if par else None, 'f8')


@case(n=[1, 2, 3], m=[1, 2, 3], d=[2, 3], par=[False, True], form=['list', 'array'])
def delete_list(ctx, n, m, d, par, form):
    c, r, t = curve(ctx, 'p', n, d, par)
    ks = []
    for j in range(m):
        i = ctx.int('i%d' % j, -n, n - 1)
        for k in range(-n, n):
            if ctx.is_true(i == k):
                ks.append(k)
                break
    gone = [k % n for k in ks]
    left = [k for k in range(n) if k not in gone]
    q = c.delete(ks if form == 'list' else np.array(ks))
    check_curve(ctx, 'delete', q, [r[k] for k in left], d, [t[k] for k in left] if par else None, 'f8')


@case(n=[0, 1, 2, 3], m=[0, 1, 2], d=[2, 3], par=['no', 'both', 'left', 'right'], kind=['f', 'i'])
def concatenate(ctx, n, m, d, par, kind):
    a, ra, ta = curve(ctx, 'p', n, d, par in ('both', 'left'), kind)
    b, rb, tb = curve(ctx, 'q', m, d, par in ('both', 'right'), kind)
    t = ta + tb if par == 'both' else None
    check_curve(ctx, 'sum', a + b, ra + rb, d, t, 'f8' if kind == 'f' else 'i8')
    check_curve(ctx, 'left', a, ra, d, ta)
    check_curve(ctx, 'right', b, rb, d, tb)
    q = a
    q += b
    check_curve(ctx, 'in place sum', q, ra + rb, d, t)
    check_curve(ctx, 'left kept', a, ra, d, ta)


@case(n=[1, 2], d=[2, 3], op=['insert', 'append', 'add'])
def mixed_dtypes(ctx, n, d, op):
    """an integer operand in a float curve keeps the values"""
    a, ra, ta = curve(ctx, 'p', n, d)
    b, rb, tb = curve(ctx, 'q', 2, d, False, 'i')
    if op == 'insert':
        check_curve(ctx, 'insert', a.insert(0, b), rb + ra, d, None, 'f8')
    elif op == 'append':
        check_curve(ctx, 'append', a.append(b), ra + rb, d, None, 'f8')
    else:
        check_curve(ctx, 'sum', a + b, ra + rb, d, None, 'f8')
        check_curve(ctx, 'sum', b + a, rb + ra, d, None, 'f8')


@case(n=[0, 1, 3], d=[2, 3], other=['point_low', 'point_high', 'curve_low', 'curve_high', 'none', 'list', 'number', 'array', 'str',
                                'segment'])
def rejected(ctx, n, d, other):
    c, r, t = curve(ctx, 'p', n, d)
    o = {
        'point_low': lambda: sk.Point([1.0] * (d - 1)), 'point_high': lambda: sk.Point([1.0] * (d + 1)),
        'curve_low': lambda: sk.Curve(np.ones((2, max(d - 1, 2)))), 'curve_high': lambda: sk.Curve(np.ones((2, d + 1))),
        'none': lambda: None, 'list': lambda: [1.0] * d, 'number': lambda: 1.0, 'array': lambda: np.ones((1, d)),
        'str': lambda: 'abc', 'segment': lambda: sk.Segment(sk.Point([0.0] * d), sk.Point([1.0] * d)),
    }[other]()
    if other.startswith('curve') and o.ndim == d:
        return
    dim = other.startswith('point') or other.startswith('curve')
    if dim:
        ctx.raises('insert dimension', ValueError, c.insert, 0, o)
        ctx.raises('append dimension', ValueError, c.append, o)
        if other.startswith('curve'):
            ctx.raises('add dimension', ValueError, lambda: c + o)
            ctx.raises('radd dimension', ValueError, lambda: o + c)
        else:
            ctx.raises('add a point', TypeError, lambda: c + o)
        return
    ctx.raises('insert type', TypeError, c.insert, 0, o)
    ctx.raises('append type', TypeError, c.append, o)
    if other != 'array':                 # numpy's own reflected operator answers for arrays
        ctx.raises('add type', TypeError, lambda: c + o)


def apply_model(op, r, t, arg):
    """the edit on the list of rows (and parameters)"""
    n = len(r)
    if op == 'insert':
        k, ro = arg
        return r[:k] + ro + r[k:], None
    if op == 'append':
        return r + arg, None
    if op == 'delete':
        return r[:arg] + r[arg + 1:], t and t[:arg] + t[arg + 1:]
    if op == 'delete_slice':
        keep = [k for k in range(n) if k not in range(n)[arg]]
        return [r[k] for k in keep], t and [t[k] for k in keep]
    if op == 'add':
        return r + arg[0], t and arg[1] and t + arg[1]


@case(n=[2, 3], d=[2], par=[False, True], first=['insert', 'append', 'delete', 'delete_slice', 'add'],
      second=['insert', 'append', 'delete', 'delete_slice', 'add'], _thorough={'n': [4], 'd': [3]})
def two_edits(ctx, n, d, par, first, second):
    """sequences of two edits"""
    c, r, t = curve(ctx, 'p', n, d, par)
    for j, op in enumerate((first, second)):
        ro = rows(ctx, 'q%d' % j, 2, d)
        if op == 'insert':
            k = ctx.choose('k%d' % j, range(0, len(r) + 1))
            c2 = c.insert(k, sk.Curve(array(ro)))
            r2, t2 = apply_model(op, r, t, (k, ro))
        elif op == 'append':
            c2 = c.append(sk.Point(ro[0]))
            r2, t2 = apply_model(op, r, t, ro[:1])
        elif op == 'delete':
            k = ctx.choose('k%d' % j, range(len(r)))
            c2 = c.delete(k - len(r))
            r2, t2 = apply_model(op, r, t, k)
        elif op == 'delete_slice':
            s = ctx.choose('s%d' % j, [slice(0, 1), slice(1, None), slice(None, None, 2), slice(None, -1)])
            c2 = c.delete(s)
            r2, t2 = apply_model(op, r, t, s)
        else:
            to = vec(ctx, 'u%d' % j, 2)
            c2 = c + sk.Curve(array(ro), tdata=to)
            r2, t2 = apply_model(op, r, t, (ro, to))
        check_curve(ctx, 'edit %d' % j, c2, r2, d, t2, 'f8')
        check_curve(ctx, 'operand %d' % j, c, r, d, t)
        c, r, t = c2, r2, t2


@case(n=[20, 70, 150], d=[2, 4], kind=['f', 'i'], _where=lambda n, d, kind: n < 150 or d == 2)
def long_curves(ctx, n, d, kind):
    """the same on long curves with long operands"""
    c, r, t = curve(ctx, 'p', n, d, True, kind)
    o, ro, to = curve(ctx, 'q', 40, d, True, kind)
    dt = 'f8' if kind == 'f' else 'i8'
    p = sk.Point(ro[0], dtype=np.dtype(dt))
    for i in (0, 1, n // 2, n - 1, n, -1, -2, -n, -n + 1, 16, 17):
        k = i if i >= 0 else n + i
        check_curve(ctx, 'insert curve', c.insert(i, o), r[:k] + ro + r[k:], d, None, dt)
        check_curve(ctx, 'insert point', c.insert(i, p), r[:k] + ro[:1] + r[k:], d, None, dt)
    for i in (n + 1, -n - 1, 2 * n, -2 * n):
        ctx.raises('insert out of bounds', IndexError, c.insert, i, p)
        ctx.raises('insert out of bounds', IndexError, c.insert, i, o)
    check_curve(ctx, 'append curve', c.append(o), r + ro, d, None, dt)
    check_curve(ctx, 'append point', c.append(p), r + ro[:1], d, None, dt)
    check_curve(ctx, 'add', c + o, r + ro, d, t + to, dt)
    check_curve(ctx, 'add reversed', o + c, ro + r, d, to + t, dt)
    check_curve(ctx, 'add itself', c + c, r + r, d, t + t, dt)
    for i in (0, 1, n // 2, n - 1, -1, -n, 16):
        k = i % n
        check_curve(ctx, 'delete', c.delete(i), r[:k] + r[k + 1:], d, t[:k] + t[k + 1:], dt)
    for i in (n, -n - 1, n + 5):
        ctx.raises('delete out of bounds', IndexError, c.delete, i)
    for x in (slice(3, -4, 2), slice(None, None, -3), slice(n // 2, None), slice(None, n // 2), slice(0, n, 16), slice(n, None),
              slice(None), [0, -1, n // 2], [n - 1] * 3, list(range(0, n, 3)), [-k for k in range(1, n // 2)], list(range(n - 1))):
        gone = list(range(n))[x] if isinstance(x, slice) else [k % n for k in x]
        left = [k for k in range(n) if k not in gone]
        check_curve(ctx, 'delete many', c.delete(x), [r[k] for k in left], d, [t[k] for k in left], dt)
        if not isinstance(x, slice):
            check_curve(ctx, 'delete array', c.delete(np.array(x)), [r[k] for k in left], d, [t[k] for k in left], dt)
    check_curve(ctx, 'operand', c, r, d, t)
    check_curve(ctx, 'other operand', o, ro, d, to)
