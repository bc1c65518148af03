"""C27: smoothing."""
import numpy as np
import scipy.signal as ss
import scipy.signal.windows as sw
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['the filter weights of SciPy are read from the real library on every run (Savitzky-Golay coefficients and named windows are floats), so comparisons with them allow an error of 1e-6 for coordinates up to 100',
               'windows of the user: free weights between 0.1 and 4']
WINDOWS = ['hann', 'hamming', 'boxcar', 'triang', 'blackman', 'bartlett', 'parzen', 'flattop', ('kaiser', 4.0), ('gaussian', 1.5)]
MODES = ['reflect', 'nearest', 'mirror', 'wrap', 'constant']


def place(i, n, mode):
    """index of the point which stands at place i; None: outside"""
    if mode == 'constant':
        return i if 0 <= i < n else None
    if mode == 'nearest':
        return min(max(i, 0), n - 1)
    if mode == 'wrap':
        return i % n
    if mode == 'mirror':
        i = i % (2 * n - 2) if n > 1 else 0
        return i if i < n else 2 * n - 2 - i
    i = i % (2 * n)
    return i if i < n else 2 * n - 1 - i


def moving(col, w, mode, cval):
    """sums of the weighted neighbours (not normalised)"""
    n, m = len(col), len(w)
    out = []
    for i in range(n):
        s = 0
        for k in range(m):
            p = place(i + m // 2 - k, n, mode)
            s = s + w[k] * (cval if p is None else col[p])
        out.append(s)
    return out


def smoothed(ctx, c, r, t, n, d, method, **o):
    s = c.smooth(method, **o)
    ctx.check('a curve', type(s) is sk.Curve and s is not c)
    ctx.check('shape', s.size == n and s.ndim == d and tuple(s.data.shape) == (n, d))
    ctx.check('dtype', s.dtype == np.dtype(np.float64) and s.data.dtype == np.dtype(np.float64))
    ctx.check('not parametric', not s.isparametric)
    ctx.close('curve kept', c.data, r)
    if t is not None:
        ctx.close('parameters kept', c.t, t)
    return s


def given(ctx, n, d, kind='f', par=False):
    r = rows(ctx, 'p', n, d, kind, -100, 100)
    t = vec(ctx, 't', n, lo=-100, hi=100) if par else None
    return sk.Curve(array(r, kind, d), tdata=t), r, t


@case(n=[1, 2, 4], d=[2, 3], m=[1, 2, 3, 4, 5], mode=MODES, kind=['f', 'i'], par=[False, True],
      _where=lambda n, d, m, mode, kind, par: m <= n + 1 and (d == 2 or mode == 'reflect') and (not par or m == 3) and (kind == 'f' or m == 3) and not (mode == 'wrap' and m > n) and not (mode == 'mirror' and n == 1))
def own_window(ctx, n, d, m, mode, kind, par):
    """window of the user with free weights"""
    c, r, t = given(ctx, n, d, kind, par)
    w = vec(ctx, 'w', m, lo=0.1, hi=4)
    mine = np.array(w, dtype=np.float64)
    cval = ctx.scalar('c', 'f', -100, 100) if mode == 'constant' else 0.0
    s = smoothed(ctx, c, r, t, n, d, 'window', window_size=m, window_type=lambda k: mine if k == m else None, mode=mode, cval=cval)
    tot = sum(w[1:], w[0])
    for j in range(d):
        want = moving([x[j] for x in r], w, mode, cval)
        for a, b in zip(s.data[:, j].tolist(), want):
            ctx.close('coordinate %d' % j, a * tot, b)
    ctx.close('window kept', mine, w)


@case(w=[[1, 2, 1], [3, 1], [1, 0, 2, 0, 1], [2, -1, 4]], n=[3, 5], d=[2], mode=['reflect', 'constant'])
def whole_window(ctx, w, n, d, mode):
    """windows of integers"""
    c, r, t = given(ctx, n, d)
    mine = np.array(w)
    s = smoothed(ctx, c, r, t, n, d, 'window', window_size=len(w), window_type=lambda k: mine, mode=mode, cval=7.5)
    for j in range(d):
        want = [x / sum(w) for x in moving([x[j] for x in r], w, mode, 7.5)]
        ctx.close('coordinate %d' % j, s.data[:, j], want, exact=False)
    ctx.check('window kept', mine.tolist() == w)


@case(win=list(range(len(WINDOWS))), n=[2, 5], d=[2, 3], m=[3, 4, 5, 7], mode=MODES, _where=lambda win, n, d, m, mode: (d == 2 or m == 5) and (win < 2 or mode == 'reflect') and n + 2 >= m)
def named_window(ctx, win, n, d, m, mode):
    c, r, t = given(ctx, n, d)
    w = sw.get_window(WINDOWS[win], m, fftbins=False).tolist()
    cval = -3.5
    s = smoothed(ctx, c, r, t, n, d, 'window', window_size=m, window_type=WINDOWS[win], mode=mode, cval=cval)
    tot = sum(w)
    for j in range(d):
        want = [x / tot for x in moving([x[j] for x in r], w, mode, cval)]
        ctx.close('coordinate %d' % j, s.data[:, j], want, exact=False)


@case(n=[3, 5], d=[2, 3], m=[3, 5], _where=lambda n, d, m: m <= n)
def window_defaults(ctx, n, d, m):
    """the Hann window, reflecting ends"""
    c, r, t = given(ctx, n, d)
    a = smoothed(ctx, c, r, t, n, d, 'window', window_size=m)
    b = smoothed(ctx, c, r, t, n, d, 'window', window_size=m, window_type='hann', mode='reflect')
    ctx.close('defaults', a.data, b.data)
    w = sw.get_window('hann', m, fftbins=False).tolist()
    for j in range(d):
        ctx.close('coordinate %d' % j, a.data[:, j], [x / sum(w) for x in moving([x[j] for x in r], w, 'reflect', 0)], exact=False)


SAVGOL = [(3, 1, {}), (5, 2, {}), (5, 3, {}), (5, 2, {'mode': 'mirror'}), (5, 1, {'mode': 'constant', 'cval': 2.5}), (5, 2, {'mode': 'nearest'}),
          (3, 2, {'mode': 'wrap'}), (5, 2, {'deriv': 1}), (5, 3, {'deriv': 2, 'delta': 0.5}), (7, 2, {}), (1, 0, {})]


@case(way=list(range(len(SAVGOL))), n=[3, 5, 7], d=[2, 3], kind=['f', 'i'], par=[False, True],
      _where=lambda way, n, d, kind, par: SAVGOL[way][0] <= n and (d == 2 or n == 5) and ((kind == 'f' and not par) or way in (1, 3)))
def savgol(ctx, way, n, d, kind, par):
    m, p, o = SAVGOL[way]
    c, r, t = given(ctx, n, d, kind, par)
    s = smoothed(ctx, c, r, t, n, d, 'savgol', window_length=m, polyorder=p, **o)
    for j in range(d):
        want = ss.savgol_filter(np.array([float(x[j]) if kind == 'i' and not ctx.symbolic else x[j] for x in r], dtype=np.float64), m, p, **o)
        ctx.close('coordinate %d' % j, s.data[:, j], want, exact=False)


# smoothing coefficients, times the divisor
KNOWN = {(3, 1): ([1, 1, 1], 3), (5, 2): ([-3, 12, 17, 12, -3], 35), (5, 3): ([-3, 12, 17, 12, -3], 35), (7, 2): ([-2, 3, 6, 7, 6, 3, -2], 21), (5, 1): ([1, 1, 1, 1, 1], 5)}


@case(mp=sorted(KNOWN), extra=[0, 1, 3], d=[2, 3], mode=['interp', 'mirror', 'nearest', 'wrap', 'constant'], _where=lambda mp, extra, d, mode: d == 2 or extra == 1)
def savgol_coefficients(ctx, mp, extra, d, mode):
    """the published coefficients away from the ends, and at the ends unless they are interpolated"""
    (m, p), n = mp, mp[0] + extra
    k, div = KNOWN[mp]
    c, r, t = given(ctx, n, d)
    o = {} if mode == 'interp' else {'mode': mode, 'cval': 4.0}
    s = smoothed(ctx, c, r, t, n, d, 'savgol', window_length=m, polyorder=p, **o)
    for j in range(d):
        want = moving([x[j] for x in r], k, 'reflect' if mode == 'interp' else mode, 4.0)
        got = s.data[:, j].tolist()
        for i in range(n):
            if mode != 'interp' or m // 2 <= i < n - m // 2:
                ctx.close('coordinate %d' % j, got[i] * div, want[i], exact=False)


@case(mp=[(3, 1), (5, 1), (5, 2), (5, 3), (7, 3)], extra=[0, 2], d=[2, 3])
def savgol_polynomials(ctx, mp, extra, d):
    """polynomials up to the order are kept"""
    (m, p), n = mp, mp[0] + extra
    k = [vec(ctx, 'k%d' % j, p + 1, lo=-0.25, hi=0.25) for j in range(d)]
    r = [[sum([a * i ** q for q, a in enumerate(k[j])], 0) for j in range(d)] for i in range(n)]
    c = sk.Curve(array(r))
    s = smoothed(ctx, c, r, None, n, d, 'savgol', window_length=m, polyorder=p)
    ctx.close('kept', s.data, r, exact=False)


FILTERS = {'hann': dict(method='window', window_size=5), 'boxcar': dict(method='window', window_size=3, window_type='boxcar', mode='nearest'),
           'savgol': dict(method='savgol', window_length=5, polyorder=2), 'mirror': dict(method='savgol', window_length=3, polyorder=1, mode='mirror')}


@case(f=sorted(FILTERS), n=[5, 6], d=[2, 3])
def linear_filter(ctx, f, n, d):
    """sums, multiples and translations; constants are kept; coordinates do not mix"""
    o = FILTERS[f]
    a, b = rows(ctx, 'a', n, d, lo=-20, hi=20), rows(ctx, 'b', n, d, lo=-20, hi=20)
    v = vec(ctx, 'v', d, lo=-20, hi=20)
    sm = lambda r: sk.Curve(array(r)).smooth(**o).data
    sa, sb = sm(a), sm(b)
    two = sm([[3 * x - 2 * y for x, y in zip(p, q)] for p, q in zip(a, b)])
    ctx.close('linear', two, [[3 * x - 2 * y for x, y in zip(p, q)] for p, q in zip(sa.tolist(), sb.tolist())], exact=False)
    ctx.close('moved', sm([vadd(p, v) for p in a]), [vadd(p, v) for p in sa.tolist()], exact=False)
    ctx.close('constant', sm([v] * n), [v] * n, exact=False)
    ctx.close('coordinates swapped', sm([p[::-1] for p in a]), [p[::-1] for p in sa.tolist()])
    if f != 'mirror':
        ctx.close('reversed', sm(a[::-1]), sa.tolist()[::-1], exact=False)


@case(d=[2, 3], n=[0, 1, 5])
def refused(ctx, d, n):
    c, r, t = given(ctx, n, d) if n else (sk.Curve([], ndmin=d), [], None)
    ctx.raises('unknown method', NameError, c.smooth, 'nope')
    ctx.raises('unknown method name', NameError, c.smooth, 'Savgol', window_length=3, polyorder=1)
    ctx.raises('missing arguments', TypeError, c.smooth, 'savgol')
    ctx.raises('missing size', TypeError, c.smooth, 'window')
    ctx.raises('unknown argument', TypeError, c.smooth, 'window', window_size=3, nope=1)
    ctx.raises('unknown savgol argument', TypeError, c.smooth, 'savgol', window_length=3, polyorder=1, nope=1)
    ctx.raises('order not below the window', ValueError, c.smooth, 'savgol', window_length=3, polyorder=3)
    ctx.raises('even window', ValueError, c.smooth, 'savgol', window_length=4, polyorder=1)
    ctx.raises('window too long', (ValueError, TypeError), c.smooth, 'savgol', window_length=7, polyorder=1)
    ctx.raises('mode', ValueError, c.smooth, 'savgol', window_length=1, polyorder=0, mode='nope')
    ctx.raises('unknown window', ValueError, c.smooth, 'window', window_size=3, window_type='nope')

    def broken(k):
        raise KeyError(k)
    ctx.raises('failing window', ValueError, c.smooth, 'window', window_size=3, window_type=broken)
    ctx.close('kept', c.data, r if n else np.zeros((0, d)))
