"""C11: lengths."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props import hist


def chord(ctx, r, k):
    return ctx.sqrt(sq(vsub(r[k + 1], r[k])))


@case(n=[0, 1, 2, 3, 4], d=[2, 3, 4], par=[False, True], kind=['f', 'i'], _thorough={'n': [6]})
def lengths(ctx, n, d, par, kind):
    c, r, t = curve(ctx, 'p', n, d, par, kind)
    ch = c.chordlen
    m = max(n - 1, 0)
    ctx.check('number of chords', tuple(ch.shape) == (m,))
    ctx.check('dtype', ch.dtype == np.dtype('f8'))
    for k in range(m):
        ctx.close('chord', ch[k], chord(ctx, r, k))
        ctx.close('chord squared', ch[k] * ch[k], sq(vsub(r[k + 1], r[k])))
        ctx.check('not negative', ch[k] >= 0)
        ctx.close('segment length', c.segments[k].seglen, chord(ctx, r, k))
        ctx.close('segment chord', c.segments[k].chordlen, chord(ctx, r, k))
        ctx.close('distance of points', c[k].distance(c[k + 1]), chord(ctx, r, k))
    total = 0
    cum = c.cumarclen
    ctx.check('cumulative size', tuple(cum.shape) == (n,))
    ctx.check('cumulative dtype', cum.dtype == np.dtype('f8'))
    for k in range(n):
        ctx.close('cumulative', cum[k], total)
        ctx.close('point', c[k].cumarclen, total)
        ctx.close('point from the end', c[k - n].cumarclen, total)
        if k < m:
            total = total + chord(ctx, r, k)
    ctx.close('arc length', c.arclen, total)
    ctx.check('arc length is a float', isinstance(c.arclen, float))


@case(n=[0, 1, 2, 3, 4], d=[2, 3], par=[False, True])
def reverse(ctx, n, d, par):
    c, r, t = curve(ctx, 'p', n, d, par)
    q = c.reverse()
    m = max(n - 1, 0)
    for k in range(m):
        ctx.close('chords reversed', q.chordlen[k], c.chordlen[m - 1 - k])
    ctx.close('arc length kept', q.arclen, c.arclen)


@case(n=[1, 2, 3, 4, 5], d=[2, 3])
def split(ctx, n, d):
    c, r, t = curve(ctx, 'p', n, d)
    for k in range(n):
        a, b = c[:k + 1], c[k:]
        ctx.close('parts', a.arclen + b.arclen, c.arclen)
        ctx.close('cumulative at the split', c.cumarclen[k], a.arclen)
        ctx.close('subcurve', c[0].subcurve(c[k]).arclen, a.arclen)


@case(n=[2, 3], d=[2, 3])
def motions(ctx, n, d):
    """translation, reflection, axis exchange and extra zero dimensions keep lengths"""
    c, r, t = curve(ctx, 'p', n, d)
    v = vec(ctx, 'v', d)
    for nm, rr in (('translated', [vadd(x, v) for x in r]), ('reflected', [[-x[0]] + x[1:] for x in r]),
                   ('axes exchanged', [x[::-1] for x in r]), ('extended', [x + [v[0]] for x in r])):
        q = sk.Curve(array(rr))
        for k in range(n - 1):
            ctx.close(nm + ': squared', q.chordlen[k] * q.chordlen[k], c.chordlen[k] * c.chordlen[k])


@case(n=[2, 3], d=[2, 3], k=[2, -3, 0.5, 0])
def scaling(ctx, n, d, k):
    c, r, t = curve(ctx, 'p', n, d)
    q = sk.Curve(array([vmul(x, k) for x in r]))
    for j in range(n - 1):
        ctx.close('squared', q.chordlen[j] * q.chordlen[j], c.chordlen[j] * c.chordlen[j] * k * k)


@case(d=[2, 3])
def straight(ctx, d):
    """points in order along a line: the arc length is the distance of the ends"""
    u = vec(ctx, 'u', d)
    a = ctx.real('a', 0)
    b = ctx.real('b', 0)
    p = vec(ctx, 'p', d)
    r = [p, vadd(p, vmul(u, a)), vadd(p, vmul(u, a + b))]
    c = sk.Curve(array(r))
    n = ctx.sqrt(sq(u))
    ctx.close('first squared', c.chordlen[0] * c.chordlen[0], a * a * n * n)
    ctx.close('second squared', c.chordlen[1] * c.chordlen[1], b * b * n * n)


@case(d=[1, 2, 3, 4], kind=['f', 'i'])
def segment(ctx, d, kind):
    s, a, b = seg(ctx, 's', d, kind)
    ctx.close('squared', s.seglen * s.seglen, sq(vsub(b, a)))
    ctx.check('not negative', s.seglen >= 0)
    ctx.close('reversed', s.reverse().seglen, s.seglen)
    if d > 1:
        ctx.close('curve', s.to_curve().arclen, s.seglen)


@case(n=[2, 3], d=[2])
def integer_overflow_free(ctx, n, d):
    """int curves measure like float curves"""
    r = rows(ctx, 'p', n, d, 'i')
    a, b = sk.Curve(array(r, 'i')), sk.Curve(array(r, 'f'))
    ctx.close('chords', a.chordlen, b.chordlen)
    ctx.close('arc length', a.arclen, b.arclen)


@case(n=[20, 70, 150], d=[2, 3, 6], par=[False, True], kind=['f', 'i'], _where=lambda n, d, par, kind: n < 150 or d == 2)
def long_curves(ctx, n, d, par, kind):
    """long curves: a fixed path with free points at the ends, in the middle and around index 16"""
    r = long_rows(ctx, 'p', n, d, [0, 15, 16, n // 2, n - 2, n - 1], kind)
    c = sk.Curve(array(r, kind), tdata=[float(k * k) for k in range(n)] if par else None)
    chords = [chord(ctx, r, k) for k in range(n - 1)]
    cum = [0]
    for x in chords:
        cum.append(cum[-1] + x)
    ctx.check('number of chords', tuple(c.chordlen.shape) == (n - 1,))
    ctx.close('chords', c.chordlen, chords)
    ctx.close('cumulative', c.cumarclen, cum)
    ctx.close('arc length', c.arclen, cum[-1])
    for k in (0, 1, n // 2, -1, -n):
        ctx.close('point', c[k].cumarclen, cum[k % n])
    for k in (0, 15, n // 2, n - 2):
        ctx.close('segment', c.segments[k].seglen, chords[k])
    q = c.reverse()
    ctx.close('reversed chords', q.chordlen, chords[::-1])
    ctx.close('reversed length', q.arclen, cum[-1])
    for k in (1, 16, n // 2, n - 2):
        a, b = c[:k + 1], c[k:]
        ctx.close('first part', a.arclen, cum[k])
        ctx.close('parts', a.arclen + b.arclen, cum[-1])
    ctx.close('arc length again', c.arclen, cum[-1])


@case(n=[3, 4], d=[2, 3], op=['reverse', 'slice', 'insert', 'delete', 'append', 'add', 'copy', 'insertdim', 'curve', 'float'])
def edited(ctx, n, d, op):
    """lengths of an edited curve are those of the same points in a new curve, whatever was asked of the original before"""
    c, r, t = curve(ctx, 'p', n, d)
    before = [c.chordlen, c.cumarclen, c.arclen]
    v = vec(ctx, 'v', d)
    q, rr = {
        'reverse': lambda: (c.reverse(), r[::-1]), 'slice': lambda: (c[::2], r[::2]),
        'insert': lambda: (c.insert(1, sk.Point(v)), r[:1] + [v] + r[1:]), 'delete': lambda: (c.delete(1), r[:1] + r[2:]),
        'append': lambda: (c.append(sk.Point(v)), r + [v]), 'add': lambda: (c + c[:2], r + r[:2]),
        'copy': lambda: (c.__copy__() if hasattr(c, '__copy__') else sk.Curve(c), r),
        'insertdim': lambda: (c.appenddim([v[0]] + [1.0] * (n - 1)), [x + [v[0] if i == 0 else 1.0] for i, x in enumerate(r)]),
        'curve': lambda: (sk.Curve(c, ndmin=d + 1), r), 'float': lambda: (sk.Curve(c, dtype=np.float64), r),
    }[op]()
    ch = [chord(ctx, rr, k) for k in range(len(rr) - 1)]
    cum = [0]
    for x in ch:
        cum.append(cum[-1] + x)
    ctx.close('chords', q.chordlen, ch)
    ctx.close('cumulative', q.cumarclen, cum)
    ctx.close('arc length', q.arclen, cum[-1])
    for k in range(len(rr)):
        ctx.close('point', q[k].cumarclen, cum[k])
    ctx.close('chords before', c.chordlen, before[0])
    ctx.close('cumulative before', c.cumarclen, before[1])
    ctx.close('length before', c.arclen, before[2])


@case(n=[5], d=[2, 3], free=['place', 2], how=['after', 'before', 'points', 'segments', 'others', 'between'], par=[False, True], _cost=2)
def asked_before(ctx, n, d, free, how, par):
    """the answer does not depend on what was asked before"""
    hist.orders(ctx, n, d, free, hist.LENGTHS, how, par)


@case(n=[5], d=[2, 3], free=['place', 2], op=sorted(hist.DERIVED), _cost=2)
def derived_curve(ctx, n, d, free, op):
    """nor on the curve from which the curve was made"""
    hist.derived(ctx, n, d, free, hist.LENGTHS, op)


@case(n=[2, 3], d=[2, 3], dt=NARROW)
def narrow(ctx, n, d, dt):
    """narrow integer dtypes: the lengths do not overflow"""
    r = narrow_rows(ctx, 'p', n, d, dt)
    c = narrow_curve(ctx, r, dt)
    ch = c.chordlen
    ctx.check('shape', tuple(ch.shape) == (n - 1,))
    total = 0
    for k in range(n - 1):
        ctx.close('chord', ch[k], chord(ctx, r, k))
        ctx.close('chord squared', ch[k] * ch[k], sq(vsub(r[k + 1], r[k])))
        ctx.close('segment length', c.segments[k].seglen, chord(ctx, r, k))
        total = total + chord(ctx, r, k)
        ctx.close('cumulative', c.cumarclen[k + 1], total)
        ctx.close('t', c.t[k + 1], total)
    ctx.close('arclen', c.arclen, total)
    check_curve(ctx, 'kept', c, r, d, None, dt)
