"""Models of the other libraries the code under test imports."""
import inspect
import itertools
import math
import types

import numpy as np
import z3

from . import engine as E
from . import scalars as S
from . import arrays as A
from . import npshim as N
from .arrays import SymArray, F64, arr, aslike, mk, raw, native_index, is_sym
from .engine import Unsupported
from .npshim import Proxy
from .scalars import SymNum, SymBool, num


# --------------------------------------------------------------------------
# functional consistency: the same library call on the same terms gives the same value
def term_key(x):
    if isinstance(x, A.MaskedSel):
        x = x.force()
    if isinstance(x, SymArray):
        return ('a', x.shape, x.dtype.str) + tuple(term_key(v) for v in raw(x).reshape(-1))
    if isinstance(x, SymNum):
        if S._isterm(x.v):
            t = z3.simplify(x.v, som=True)
            e = E.cur()
            e.keep.append(t)
            return ('t', t.get_id())
        return ('c', float(x.v) if isinstance(x.v, float) else x.v)
    if isinstance(x, SymBool):
        t = z3.simplify(x.t)
        E.cur().keep.append(t)
        return ('b', t.get_id())
    if isinstance(x, np.ndarray):
        return ('n', x.shape, x.dtype.str, tuple(x.reshape(-1).tolist()))
    if isinstance(x, (list, tuple)):
        return ('l',) + tuple(term_key(v) for v in x)
    if isinstance(x, dict):
        return ('d',) + tuple((k, term_key(v)) for k, v in sorted(x.items()))
    if isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
        return ('c', S.num(x).v)
    return ('o', repr(x) if isinstance(x, (str, bool, type(None), bytes)) else id(x))


def lib_value(tag, key):
    e = E.cur()
    k = ('lib', tag, key)
    if k not in e.cache:
        e.cache[k] = e.fresh_real('lib_' + tag)
        e.has_uf = True
    return num(e.cache[k])


def _bound(sig, args, kwargs, name):
    try:
        b = sig.bind(*args, **kwargs)
    except TypeError as err:
        raise TypeError('%s: %s' % (name, err))
    b.apply_defaults()
    return b.arguments


def _check_increasing(x, what='x'):
    d = N.diff(x)
    if bool(N.any_(d <= 0)):
        raise ValueError('`%s` must be strictly increasing sequence.' % what)


class _Spline:
    """an interpolating curve through (x, y): equal to y at the knots, otherwise an
    unknown function of its construction arguments and the abscissa"""
    _sig = None
    _name = 'spline'
    _through_knots = True
    _min = 2
    _x, _y = 'x', 'y'

    def __init__(self, *args, **kwargs):
        a = dict(_bound(self._sig, args, kwargs, self._name))
        x = aslike(a[self._x])
        y = aslike(a[self._y])
        if x.ndim != 1:
            raise ValueError('`x` must be 1-dimensional.')
        axis = a.get('axis', 0)
        axis = axis % max(y.ndim, 1)
        if x.shape[0] < self._min:
            raise ValueError('`x` must contain at least %d elements.' % self._min)
        if x.shape[0] != y.shape[axis]:
            raise ValueError('The length of `y` along `axis`={0} doesn\'t match the length of `x`'.format(axis))
        for v in itertools.chain(raw(x), raw(y).reshape(-1)):
            if S.is_special(num(v)):
                raise ValueError('`x` and `y` must contain only finite values.')
        self._check(a, x, y)
        _check_increasing(x)
        self.x = x.astype(F64)
        self.yv = mk(np.moveaxis(raw(y.astype(F64)), axis, 0), F64)
        self.axis = axis
        self.args = a
        # the library interpolates every coordinate independently: one key per column
        other = tuple((k, term_key(v)) for k, v in sorted(a.items()) if k not in (self._x, self._y, 'axis', 'dydx'))
        other += (term_key(self.x),)
        self.colkey = {}
        yr = raw(self.yv)
        dy = a.get('dydx')
        if dy is not None:
            dy = np.moveaxis(raw(aslike(dy).astype(F64)), axis, 0)
        for q in np.ndindex(*yr.shape[1:]):
            col = tuple(term_key(num(v)) for v in yr[(slice(None),) + q])
            dcol = None if dy is None else tuple(term_key(num(v)) for v in dy[(slice(None),) + q])
            self.colkey[q] = (self._name, other, col, dcol)

    def _check(self, a, x, y):
        pass

    def exact_knots(self):
        return self._through_knots

    def __call__(self, xi, nu=0, extrapolate=None, ext=None):
        xs = aslike(xi)
        xr = raw(xs)
        yr = raw(self.yv)
        out = np.empty(xs.shape + self.yv.shape[1:], dtype=object)
        for p in np.ndindex(*xs.shape):
            v = num(xr[p])
            hit = None
            if nu == 0 and self.exact_knots():
                for k in range(self.x.shape[0]):
                    if bool(S.mkbool_cmp(v, raw(self.x)[k], 'eq')):
                        hit = k
                        break
            for q in np.ndindex(*self.yv.shape[1:]):
                if hit is not None:
                    out[p + q] = yr[(hit,) + q]
                else:
                    out[p + q] = lib_value(self._name, (self.colkey[q], term_key(v), nu, extrapolate, ext))
        if self.axis and out.ndim > 1 and xs.ndim == 1:
            out = np.moveaxis(out, 0, self.axis)
        return mk(out, F64) if out.ndim else out[()]

    def derivative(self, *a, **k):
        raise Unsupported('spline derivative')

    antiderivative = integrate = derivative


def _mksig(s):
    ns = {}
    exec('def f(%s): pass' % s, {'np': np}, ns)
    return inspect.signature(ns['f'])


class CubicSpline(_Spline):
    _sig = _mksig("x, y, axis=0, bc_type='not-a-knot', extrapolate=None")
    _name = 'CubicSpline'

    def _check(self, a, x, y):
        bc = a['bc_type']
        if isinstance(bc, str):
            if bc not in ('not-a-knot', 'periodic', 'clamped', 'natural'):
                raise ValueError('bc_type=%s is not allowed.' % bc)
            if bc == 'periodic':
                a_, b_ = y[0], y[-1]
                if not bool(N.allclose(a_, b_, rtol=1e-15, atol=1e-15)):
                    raise ValueError('The first and last `y` point along axis 0 must be identical (within machine '
                                     'precision) when bc_type="periodic".')


class CubicHermiteSpline(_Spline):
    _sig = _mksig('x, y, dydx, axis=0, extrapolate=None')
    _name = 'CubicHermiteSpline'

    def _check(self, a, x, y):
        d = aslike(a['dydx'])
        if d.shape != y.shape:
            raise ValueError('The shapes of `y` and `dydx` must be identical.')


class Akima1DInterpolator(_Spline):
    _sig = _mksig('x, y, axis=0')
    _name = 'Akima1DInterpolator'


class PchipInterpolator(_Spline):
    _sig = _mksig('x, y, axis=0, extrapolate=None')
    _name = 'PchipInterpolator'


class UnivariateSpline(_Spline):
    _sig = _mksig('x, y, w=None, bbox=[None, None], k=3, s=None, ext=0, check_finite=False')
    _name = 'UnivariateSpline'

    def __init__(self, *args, **kwargs):
        a = _bound(self._sig, args, kwargs, self._name)
        k = a['k']
        if not 1 <= k <= 5:
            raise ValueError('k should be 1 <= k <= 5')
        self._min = k + 1
        super().__init__(*args, **kwargs)

    def exact_knots(self):
        s = self.args['s']
        return s is not None and not is_sym(s) and s == 0


class InterpolatedUnivariateSpline(UnivariateSpline):
    _sig = _mksig('x, y, w=None, bbox=[None, None], k=3, ext=0, check_finite=False')
    _name = 'InterpolatedUnivariateSpline'

    def exact_knots(self):
        return True


class CubicSmoothingSpline(_Spline):
    _sig = _mksig('xdata, ydata, weights=None, smooth=None, axis=-1')
    _name = 'CubicSmoothingSpline'
    _x, _y = 'xdata', 'ydata'

    def exact_knots(self):
        s = self.args['smooth']
        return s is not None and not is_sym(s) and s == 1.0


class interp1d:
    _sig = _mksig("x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False")

    def __init__(self, *args, **kwargs):
        a = _bound(self._sig, args, kwargs, 'interp1d')
        x, y = aslike(a['x']), aslike(a['y'])
        if x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if y.ndim == 0:
            raise ValueError('the y array must have at least one dimension.')
        axis = a['axis'] % y.ndim
        if x.shape[0] != y.shape[axis]:
            raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        kind = a['kind']
        self.linear = kind == 'linear' or kind == 1
        self.kind = kind
        if isinstance(kind, str) and kind not in ('linear', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic',
                                                  'previous', 'next', 'nearest-up'):
            raise NotImplementedError('%s is unsupported: Use fitpack routines for other types.' % kind)
        order = {'linear': 1, 'slinear': 1, 'quadratic': 2, 'cubic': 3}.get(kind, 0) if isinstance(kind, str) else int(kind)
        if x.shape[0] < order + 1:
            raise ValueError('x and y arrays must have at least %d entries' % (order + 1))
        if y.dtype.kind != 'f':
            y = y.astype(F64)
        if not a['assume_sorted']:
            r = raw(x)
            ordered = all(bool(S.mkbool_cmp(r[i], r[i + 1], 'le')) for i in range(len(r) - 1))
            if not ordered:
                ix = N.argsort(x)
                x = x[ix]
                y = mk(np.take(raw(y), ix, axis=axis), y.dtype)
        self.x = x
        self.y = y
        self.axis = axis
        self.fill = a['fill_value']
        self.extrapolate = isinstance(self.fill, str) and self.fill == 'extrapolate'
        be = a['bounds_error']
        if self.extrapolate and be:
            raise ValueError('Cannot extrapolate and raise at the same time.')
        if be is None:
            be = not self.extrapolate
        self.bounds_error = be
        self.key = tuple((k, term_key(v)) for k, v in sorted(a.items()))

    def __call__(self, xi):
        xs = aslike(xi)
        xr, n = raw(self.x), self.x.shape[0]
        yr = np.moveaxis(raw(self.y), self.axis, 0)
        out = np.empty(xs.shape + yr.shape[1:], dtype=object)
        for p in np.ndindex(*xs.shape):
            v = num(raw(xs)[p])
            if not self.extrapolate:
                below = bool(S.mkbool_cmp(v, xr[0], 'lt'))
                above = not below and bool(S.mkbool_cmp(v, xr[-1], 'gt'))
                if below or above:
                    if self.bounds_error:
                        raise ValueError('A value in x_new is %s the interpolation range.'
                                         % ('below' if below else 'above'))
                    f = self.fill
                    if isinstance(f, tuple) and len(f) == 2:
                        f = f[0] if below else f[1]
                    for q in np.ndindex(*yr.shape[1:]):
                        out[p + q] = num(float('nan')) if f is None else num(A._elem(f))
                    continue
            if not self.linear:
                hit = [k for k in range(n) if bool(S.mkbool_cmp(v, xr[k], 'eq'))][:1]
                for q in np.ndindex(*yr.shape[1:]):
                    out[p + q] = yr[(hit[0],) + q] if hit else \
                        lib_value('interp1d', (self.key, term_key(v), q))
                continue
            hi = 1
            while hi < n - 1 and bool(S.mkbool_cmp(xr[hi], v, 'lt')):
                hi += 1
            lo = hi - 1
            for q in np.ndindex(*yr.shape[1:]):
                out[p + q] = N.lerp(v, xr[lo], xr[hi], yr[(lo,) + q], yr[(hi,) + q])
        if xs.ndim == 1 and self.axis:
            out = np.moveaxis(out, 0, self.axis)
        return mk(out, self.y.dtype) if out.ndim else out[()]


# --------------------------------------------------------------------------
# distances
def _uv(u, v):
    u, v = aslike(u), aslike(v)
    if u.ndim != 1:
        u = u.squeeze()
    if v.ndim != 1:
        v = v.squeeze()
    if u.dtype.kind != 'f':
        u = u.astype(F64)
    if v.dtype.kind != 'f':
        v = v.astype(F64)
    if u.ndim > 1 or v.ndim > 1:
        raise ValueError('Input vector should be 1-D.')
    return u, v


def _w(w, x):
    return x if w is None else x * aslike(w)


def euclidean(u, v, w=None):
    return minkowski(u, v, p=2, w=w)


def sqeuclidean(u, v, w=None):
    u, v = _uv(u, v)
    d = u - v
    return N.sum_(_w(w, np.square(d)))


def minkowski(u, v, p=2, w=None):
    u, v = _uv(u, v)
    d = u - v
    p = float(p) if not is_sym(p) else p
    if p == 1:
        return N.sum_(_w(w, np.absolute(d)))
    if p == 2:
        return np.sqrt(N.sum_(_w(w, np.square(d))))
    if p == np.inf:
        return N.max_(np.absolute(d))
    if p < 1:
        raise ValueError('p must be at least 1')
    return lib_value('minkowski', (term_key(u), term_key(v), p, term_key(w)))


def wminkowski(u, v, p, w):
    u, v = _uv(u, v)
    return minkowski(aslike(w) * u, aslike(w) * v, p=p)


def cityblock(u, v, w=None):
    u, v = _uv(u, v)
    return N.sum_(_w(w, np.absolute(u - v)))


def chebyshev(u, v, w=None):
    u, v = _uv(u, v)
    if w is not None:
        raise Unsupported('weighted chebyshev')
    return N.max_(np.absolute(u - v))


def canberra(u, v, w=None):
    u, v = _uv(u, v)
    return N.nansum(_w(w, np.absolute(u - v) / (np.absolute(u) + np.absolute(v))))


def braycurtis(u, v, w=None):
    u, v = _uv(u, v)
    return N.sum_(_w(w, np.absolute(u - v))) / N.sum_(_w(w, np.absolute(u + v)))


def correlation(u, v, w=None, centered=True):
    u, v = _uv(u, v)
    if w is not None:
        raise Unsupported('weighted correlation')
    if centered:
        u, v = u - N.mean(u), v - N.mean(v)
    n = float(u.shape[0])
    uv, uu, vv = N.dot(u, v) / n, N.dot(u, u) / n, N.dot(v, v) / n
    return np.absolute(1.0 - uv / np.sqrt(uu * vv))


def cosine(u, v, w=None):
    r = correlation(u, v, w, False)
    return r


def seuclidean(u, v, V):
    u, v = _uv(u, v)
    return np.sqrt(N.sum_(np.square(u - v) / aslike(V)))


def mahalanobis(u, v, VI):
    u, v = _uv(u, v)
    d = u - v
    return np.sqrt(N.dot(N.dot(d, aslike(VI)), d))


def jensenshannon(p, q, base=None):
    return lib_value('jensenshannon', (term_key(aslike(p)), term_key(aslike(q)), base))


_METRICS = dict(euclidean=euclidean, sqeuclidean=sqeuclidean, cityblock=cityblock, chebyshev=chebyshev)


def pdist(X, metric='euclidean', *a, **k):
    X = aslike(X)
    if X.ndim != 2:
        raise ValueError('A 2-dimensional array must be passed.')
    f = metric if callable(metric) else _METRICS.get(metric)
    if f is None:
        raise Unsupported('pdist metric')
    X = X.astype(F64)
    v = [f(X[i], X[j]) for i in range(len(X)) for j in range(i + 1, len(X))]
    return arr(v, F64) if v else mk(np.empty((0,), dtype=object), F64)


def cdist(XA, XB, metric='euclidean', **k):
    XA, XB = aslike(XA).astype(F64), aslike(XB).astype(F64)
    f = metric if callable(metric) else _METRICS.get(metric)
    if f is None:
        raise Unsupported('cdist metric')
    return arr([[f(a, b) for b in XB] for a in XA], F64)


def squareform(X, force='no', checks=True):
    X = aslike(X)
    if X.ndim == 1:
        if X.shape[0] == 0:
            return N.zeros((1, 1), dtype=X.dtype)
        n = int((1 + math.isqrt(1 + 8 * X.shape[0])) // 2)
        if n * (n - 1) // 2 != X.shape[0]:
            raise ValueError('Incompatible vector size.')
        m = raw(N.zeros((n, n), dtype=X.dtype))
        for k, (i, j) in enumerate((i, j) for i in range(n) for j in range(i + 1, n)):
            m[i, j] = m[j, i] = raw(X)[k]
        return mk(m, X.dtype)
    n = X.shape[0]
    r = raw(X)
    return arr([r[i, j] for i in range(n) for j in range(i + 1, n)], X.dtype)


# --------------------------------------------------------------------------
# linear filters: the affine map is read off the real function on a basis
def _affine(f, data, axis):
    a = aslike(data)
    src = np.moveaxis(raw(a.astype(F64)), axis, 0)
    n = src.shape[0]
    probe = np.zeros((n, n + 1))
    probe[:, :n] = np.eye(n)
    res = np.asarray(f(probe))              # axis 0
    off = res[:, n]
    L = res[:, :n] - off[:, None]
    out = np.empty((res.shape[0],) + src.shape[1:], dtype=object)
    for p in np.ndindex(*src.shape[1:]):
        for i in range(res.shape[0]):
            v = num(float(off[i]))
            for j in range(n):
                if L[i, j] != 0.0:
                    v = S.add(v, S.mul(num(float(L[i, j])), num(src[(j,) + p])))
            out[(i,) + p] = v
    return mk(np.moveaxis(out, 0, axis), F64)


def savgol_filter(x, window_length, polyorder, deriv=0, delta=1.0, axis=-1, mode='interp', cval=0.0):
    import scipy.signal
    a = aslike(x)
    args = [native_index(v) for v in (window_length, polyorder, deriv, delta)]
    ax = axis % a.ndim
    if isinstance(args[0], (int, np.integer)) and args[0] % 2 == 0:
        raise ValueError('window_length must be odd.')       # SciPy 1.5
    dt = a.dtype
    r = _affine(lambda d: scipy.signal.savgol_filter(d, args[0], args[1], deriv=args[2], delta=args[3], axis=0,
                                                     mode=mode, cval=native_index(cval)), a, ax)
    return r.astype(dt) if dt == np.float32 else r


def _filter1d(name):
    """bilinear in the data and the weights; affine in cval"""
    def f(input, weights, axis=-1, output=None, mode='reflect', cval=0.0, origin=0):
        import scipy.ndimage
        real = getattr(scipy.ndimage, name)
        if output is not None and not isinstance(output, (type, np.dtype, str)):
            raise Unsupported(name + ' output array')
        a = aslike(input)
        ax = axis % a.ndim
        dt = np.dtype(output) if output is not None else a.dtype
        if dt.kind != 'f':
            raise Unsupported(name + ' into integers')
        w = aslike(weights)
        if w.ndim != 1 or w.shape[0] < 1:
            raise RuntimeError('no filter weights given')
        wr = [num(v) for v in raw(w)]
        if not any(S._isterm(v.v) for v in wr):
            wv = np.array([float(v.v) for v in wr])
            r = _affine(lambda d: real(d, wv, axis=0, mode=mode, cval=native_index(cval), origin=origin), a, ax)
            return r.astype(dt)
        src = np.moveaxis(raw(a.astype(F64)), ax, 0)
        n = src.shape[0]
        out = np.empty(src.shape, dtype=object)
        for p in np.ndindex(*src.shape):
            out[p] = num(0.0)
        cv = num(cval)
        for k in range(len(wr)):
            e = np.zeros(len(wr))
            e[k] = 1.0
            L = real(np.eye(n), e, axis=0, mode=mode, cval=0.0, origin=origin)
            C = real(np.zeros(n), e, axis=0, mode=mode, cval=1.0, origin=origin)
            for p in np.ndindex(*src.shape):
                for j in range(n):
                    if L[p[0], j] != 0.0:
                        out[p] = S.add(out[p], S.mul(wr[k], S.mul(num(float(L[p[0], j])), num(src[(j,) + p[1:]]))))
                if C[p[0]] != 0.0:
                    out[p] = S.add(out[p], S.mul(wr[k], S.mul(num(float(C[p[0]])), cv)))
        return mk(np.moveaxis(out, 0, ax), F64).astype(dt)
    f.__name__ = name
    return f


convolve1d = _filter1d('convolve1d')
correlate1d = _filter1d('correlate1d')


def _windows():
    import scipy.signal.windows as W

    def lift(f):
        def g(*a, **k):
            r = f(*[native_index(x) for x in a], **{q: native_index(v) for q, v in k.items()})
            return arr(r) if isinstance(r, np.ndarray) else r
        g.__name__ = getattr(f, '__name__', 'window')
        return g
    return Proxy('scipy.signal.windows', W, {n: lift(getattr(W, n)) for n in dir(W)
                                            if callable(getattr(W, n)) and not n.startswith('_')
                                            and not isinstance(getattr(W, n), type)})


def fresnel(t):
    t = aslike(t)
    r = raw(t)
    s, c = np.empty(t.shape, dtype=object), np.empty(t.shape, dtype=object)
    for p in np.ndindex(*t.shape):
        k = term_key(num(r[p]))
        s[p], c[p] = lib_value('fresnel_s', k), lib_value('fresnel_c', k)
    return mk(s, F64), mk(c, F64)


# --------------------------------------------------------------------------
def build_math():
    t = {}

    def un(name, f):
        def g(x):
            if is_sym(x) or isinstance(x, np.ndarray):
                v = num(A._elem(x))
                return f(v)
            return getattr(math, name)(x)
        t[name] = g

    def msqrt(v):
        r = S.sqrt(v)
        if S.isnan(r) and not S.isnan(v):
            raise ValueError('math domain error')
        return r

    def macos(v):
        r = S.arccos(v)
        if S.isnan(r) and not S.isnan(v):
            raise ValueError('math domain error')
        return r
    for name, f in (('sqrt', msqrt), ('fabs', S.abs_), ('sin', S.sin), ('cos', S.cos), ('acos', macos),
                    ('isnan', S.isnan), ('isinf', S.isinf), ('isfinite', S.isfinite),
                    ('floor', lambda v: S.trunc_(S.floor_(v))), ('ceil', lambda v: S.trunc_(S.ceil_(v))),
                    ('trunc', S.trunc_), ('tan', A._tan), ('exp', lambda v: S.uf('exp', v)),
                    ('log', lambda v: S.uf('log', v)), ('atan', lambda v: S.uf('arctan', v)),
                    ('asin', lambda v: S.uf('arcsin', v)),
                    ('radians', lambda v: S.mul(v, num(math.pi / 180))),
                    ('degrees', lambda v: S.mul(v, num(180 / math.pi)))):
        un(name, f)

    def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if not (is_sym(a) or is_sym(b)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        a, b = num(a), num(b)
        if S.is_special(a) or S.is_special(b):
            return S.mkbool_cmp(a, b, 'eq')
        return S.mkbool_cmp(S.abs_(S.sub(a, b)),
                            S.maximum(S.mul(num(rel_tol), S.maximum(S.abs_(a), S.abs_(b))), num(abs_tol)), 'le')

    def hypot(*xs):
        tot = num(0.0)
        for x in xs:
            tot = S.add(tot, A._sq(num(x)))
        return S.sqrt(SymNum(tot.v, 'f', True) if not S.is_special(tot) else tot)

    def fsum(xs):
        tot = num(0.0)
        for x in xs:
            tot = S.add(tot, num(x))
        return tot

    t.update(isclose=isclose, hypot=hypot, fsum=fsum,
             dist=lambda p, q: hypot(*[num(a) - num(b) for a, b in zip(p, q)]),
             pow=lambda a, b: S.power(S.cast(num(a), F64), S.cast(num(b), F64)),
             atan2=lambda a, b: S.uf('arctan2', a, b) if is_sym(a) or is_sym(b) else math.atan2(a, b),
             copysign=lambda a, b: A.UF['copysign'][0](num(a), num(b)) if is_sym(a) or is_sym(b) else math.copysign(a, b))
    return Proxy('math', math, t)


class cached_property:
    def __init__(self, func):
        self.__doc__ = getattr(func, '__doc__')
        self.func = func

    def __get__(self, obj, cls):
        if obj is None:
            return self
        value = obj.__dict__[self.func.__name__] = self.func(obj)
        return value


def build():
    """name -> module proxy"""
    import scipy.interpolate
    import scipy.ndimage
    import scipy.signal
    import scipy.spatial
    import scipy.special
    import networkx
    import typing_extensions
    npx = N.build_numpy()
    wm = _windows()
    dist = Proxy('scipy.spatial.distance', scipy.spatial.distance, dict(
        euclidean=euclidean, sqeuclidean=sqeuclidean, minkowski=minkowski, wminkowski=wminkowski, cityblock=cityblock,
        chebyshev=chebyshev, canberra=canberra, braycurtis=braycurtis, correlation=correlation, cosine=cosine,
        seuclidean=seuclidean, mahalanobis=mahalanobis, jensenshannon=jensenshannon, pdist=pdist, cdist=cdist,
        squareform=squareform))
    interp = Proxy('scipy.interpolate', scipy.interpolate, dict(
        interp1d=interp1d, CubicSpline=CubicSpline, CubicHermiteSpline=CubicHermiteSpline,
        Akima1DInterpolator=Akima1DInterpolator, PchipInterpolator=PchipInterpolator,
        UnivariateSpline=UnivariateSpline, InterpolatedUnivariateSpline=InterpolatedUnivariateSpline))
    signal = Proxy('scipy.signal', scipy.signal, dict(savgol_filter=savgol_filter, windows=wm,
                                                      get_window=wm.get_window))
    ndimage = Proxy('scipy.ndimage', scipy.ndimage, dict(convolve1d=convolve1d, correlate1d=correlate1d))
    special = Proxy('scipy.special', scipy.special, dict(fresnel=fresnel))
    spatial = Proxy('scipy.spatial', scipy.spatial, dict(distance=dist))
    sp = Proxy('scipy', __import__('scipy'), dict(interpolate=interp, signal=signal, ndimage=ndimage,
                                                   special=special, spatial=spatial))
    cs = types.ModuleType('csaps')
    cs.CubicSmoothingSpline = CubicSmoothingSpline
    cp = types.ModuleType('cached_property')
    cp.cached_property = cached_property
    mods = {
        'numpy': npx, 'numpy.linalg': npx.linalg, 'scipy': sp, 'scipy.interpolate': interp, 'scipy.signal': signal,
        'scipy.signal.windows': wm, 'scipy.ndimage': ndimage, 'scipy.special': special, 'scipy.spatial': spatial,
        'scipy.spatial.distance': dist, 'math': build_math(), 'csaps': cs, 'cached_property': cp,
    }
    return mods
