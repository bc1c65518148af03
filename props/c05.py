"""C05: reversal and co-orientation."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *


@case(n=[0, 1, 2, 3, 5], d=[2, 3], par=[False, True], kind=['f', 'i'])
def reverse(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    rr = c.reverse()
    check_curve(ctx, 'reverse', rr, r[::-1], d, t[::-1] if par else None, 'f8' if kind == 'f' else 'i8')
    check_curve(ctx, 'reverse twice', rr.reverse(), r, d, t)
    check_curve(ctx, 'operand', c, r, d, t)


@case(d=[2, 3, 4])
def segment_reverse(ctx, d):
    s, a, b = seg(ctx, 's', d)
    q = s.reverse()
    ctx.close('p1', q.p1, b)
    ctx.close('p2', q.p2, a)
    ctx.close('twice', q.reverse().p1, a)


@case(n=[0, 1, 2, 3], d=[2, 3], par=[False, True], ax=[(0, 1), (1, 0), (0, 2), (2, 1), None],
      _where=lambda n, d, par, ax: ax is None or max(ax) < d)
def coorient(ctx, n, d, par, ax):
    c, r, t = curve(ctx, 'p', n, d, par)
    q = c.coorientplane() if ax is None else c.coorientplane(ax[0], ax[1])
    i, j = ax or (0, 1)
    if n < 2:
        check_curve(ctx, 'short curve', q, r, d, t)
        return
    det = r[0][i] * r[-1][j] - r[0][j] * r[-1][i]
    if ctx.is_true(det > 0):
        ctx.reach('kept')
        check_curve(ctx, 'kept', q, r, d, t)
    elif ctx.is_true(det < 0):
        ctx.reach('reversed')
        check_curve(ctx, 'reversed', q, r[::-1], d, t[::-1] if par else None)
    else:
        # the turn is undefined: either order, points and parameters together
        ctx.reach('degenerate')
        got = flat(q.data.tolist()) + (q.t.tolist() if par else [])
        fwd = flat(r) + (t if par else [])
        bwd = flat(r[::-1]) + (t[::-1] if par else [])
        ctx.check('degenerate: one of both orders', ctx.or_(
            ctx.all_([x == y for x, y in zip(got, fwd)]), ctx.all_([x == y for x, y in zip(got, bwd)])))
        ctx.check('degenerate: parametric', bool(q.isparametric) == par)


@case(n=[20, 70, 150], d=[2, 5], par=[False, True], kind=['f', 'i'])
def long_reverse(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    rr = c.reverse()
    dt = 'f8' if kind == 'f' else 'i8'
    check_curve(ctx, 'reverse', rr, r[::-1], d, t[::-1] if par else None, dt)
    check_curve(ctx, 'reverse twice', rr.reverse(), r, d, t, dt)
    check_curve(ctx, 'reversed()', sk.Curve(list(reversed(c)), axis=0), r[::-1], d, None, 'f8')


@case(n=[4, 9, 40], d=[2, 3, 5], par=[False, True], kind=['f', 'i'], ax=[(0, 1), (1, 0), (2, 0), (4, 2), (-1, 0), (0, -1)],
      _where=lambda n, d, par, kind, ax: max(ax) < d)
def long_coorient(ctx, n, d, par, kind, ax):
    """only the first and the last point decide, in the given axes, however many points lie between"""
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    i, j = ax
    det = r[0][i] * r[-1][j] - r[0][j] * r[-1][i]
    ctx.assume(ctx.or_(det > 0, det < 0))
    q = c.coorientplane(i, j)
    dt = 'f8' if kind == 'f' else 'i8'
    if ctx.is_true(det > 0):
        ctx.reach('kept')
        check_curve(ctx, 'kept', q, r, d, t, dt)
    else:
        ctx.reach('reversed')
        check_curve(ctx, 'reversed', q, r[::-1], d, t[::-1] if par else None, dt)
