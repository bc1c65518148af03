"""SymArray: an ndarray subclass holding symbolic elements (object storage) with a
logical dtype.  Views, aliasing, strides, writeable flags and basic indexing are
numpy's own; arithmetic, comparisons and masks are symbolic."""
import operator

import numpy as np

from . import engine as E
from . import scalars as S
from .engine import Unsupported
from .scalars import SymBool, SymNum

F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)
BOOL = np.dtype(bool)
OBJ = np.dtype(object)


class SymArray(np.ndarray):
    __array_priority__ = 1000

    def __array_finalize__(self, obj):
        if obj is not None:
            self._ldt = getattr(obj, '_ldt', F64)

    @property
    def dtype(self):
        return self._ldt

    @property
    def itemsize(self):
        return self._ldt.itemsize

    @property
    def nbytes(self):
        return self._ldt.itemsize * self.size

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return mk(_full(self.shape, S.num(0)), self._ldt)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.dispatch(func, args, kwargs)

    # -- indexing
    def __getitem__(self, key):
        if isinstance(key, MaskedSel):
            key = key.force()
        if _is_symmask(key):
            m = raw(key)
            if m.ndim == self.ndim and m.ndim >= 2 and m.shape == self.shape:
                return MaskedSel(raw(self).copy(), m.copy(), self._ldt)
        if self.ndim:
            k0 = key[0] if isinstance(key, tuple) and key else key
            if isinstance(k0, SymNum) and k0.k == 'i' and S._isterm(k0.v):
                # decide "out of bounds" as one branch before enumerating the values inside
                n = self.shape[0]
                if bool(k0 >= n) or bool(k0 < -n):
                    raise IndexError('index is out of bounds for axis 0 with size %d' % n)
        r = super().__getitem__(index_key(key))
        if not isinstance(r, np.ndarray):
            return out_scalar(r)
        return r

    def __setitem__(self, key, value):
        if not self.flags.writeable:
            raise ValueError('assignment destination is read-only')
        r = raw(self)
        if _is_symmask(key):
            m = raw(key)
            if m.shape != self.shape[:m.ndim]:
                raise IndexError('boolean index did not match indexed array')
            if isinstance(value, MaskedSel):
                if value.same_mask(m):
                    for p in np.ndindex(*m.shape):
                        r[p] = S.ite(m[p], S.cast(value.base[p], self._ldt), r[p])
                    return
                value = value.force()
            v = None
            if np.ndim(value) == 0:
                v = S.cast(_elem(value), self._ldt)
                if m.ndim == self.ndim:
                    for p in np.ndindex(*m.shape):
                        r[p] = S.ite(m[p], v, r[p])
                    return
            key = decide_mask(m)
        else:
            key = index_key(key)
        if isinstance(value, MaskedSel):
            value = value.force()
        r[key] = raw(arr(value, self._ldt)) if self._ldt != OBJ else value

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        return (self[i] for i in range(self.shape[0]))

    def __contains__(self, x):
        from . import npshim
        return bool(npshim.any_(self == x))

    # -- conversions
    def item(self, *args):
        r = raw(self)
        if args:
            return out_scalar(r.item(*args))
        if r.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return out_scalar(r.reshape(-1)[0])

    def tolist(self):
        r = raw(self)
        if r.ndim == 0:
            return r[()]
        return r.tolist()

    def __bool__(self):
        if self.size != 1:
            if self.size == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(self.item())

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(self.item())

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(self.item())

    def __index__(self):
        if self.ndim or self._ldt.kind not in 'iu':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return operator.index(self.item())

    def __round__(self, nd=None):
        return self.round(nd or 0)

    def __repr__(self):
        return '<symarray %s %s>' % (self.shape, self._ldt)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise Unsupported('pickling')

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = np.dtype(dtype)
        if not copy and dt == self._ldt:
            return self
        if casting != 'unsafe' and not np.can_cast(self._ldt, dt, casting):
            raise TypeError('Cannot cast array data from %s to %s' % (self._ldt, dt))
        return cast_arr(raw(self), self._ldt, dt)

    def view(self, *args, **kw):
        if args and args[0] is np.ndarray or not args and not kw:
            return super().view(*args, **kw)
        if args and isinstance(args[0], type) and issubclass(args[0], np.ndarray):
            return super().view(*args, **kw)
        raise Unsupported('reinterpreting view')

    def tobytes(self, *a, **k):
        raise Unsupported('tobytes')

    def fill(self, v):
        self[...] = v

    # -- reductions and friends
    def _np(self, name, *a, **k):
        from . import npshim
        return npshim.HANDLERS[name](self, *a, **k)

    def sum(self, *a, **k):
        return self._np('sum', *a, **k)

    def prod(self, *a, **k):
        return self._np('prod', *a, **k)

    def mean(self, *a, **k):
        return self._np('mean', *a, **k)

    def std(self, *a, **k):
        return self._np('std', *a, **k)

    def var(self, *a, **k):
        return self._np('var', *a, **k)

    def min(self, *a, **k):
        return self._np('min', *a, **k)

    def max(self, *a, **k):
        return self._np('max', *a, **k)

    def ptp(self, *a, **k):
        return self._np('ptp', *a, **k)

    def any(self, *a, **k):
        return self._np('any', *a, **k)

    def all(self, *a, **k):
        return self._np('all', *a, **k)

    def cumsum(self, *a, **k):
        return self._np('cumsum', *a, **k)

    def cumprod(self, *a, **k):
        return self._np('cumprod', *a, **k)

    def dot(self, o, **k):
        return self._np('dot', o, **k)

    def argmin(self, *a, **k):
        return self._np('argmin', *a, **k)

    def argmax(self, *a, **k):
        return self._np('argmax', *a, **k)

    def argsort(self, *a, **k):
        return self._np('argsort', *a, **k)

    def nonzero(self):
        return self._np('nonzero')

    def clip(self, *a, **k):
        return self._np('clip', *a, **k)

    def round(self, *a, **k):
        return self._np('round', *a, **k)

    def searchsorted(self, *a, **k):
        return self._np('searchsorted', *a, **k)

    def conj(self):
        return self

    conjugate = conj

    def trace(self, *a, **k):
        return self._np('trace', *a, **k)

    def take(self, indices, axis=None, out=None, mode='raise'):
        return mk(raw(self).take(native_index(indices), axis=axis, mode=mode), self._ldt)

    def repeat(self, repeats, axis=None):
        return mk(raw(self).repeat(native_index(repeats), axis=axis), self._ldt)

    def compress(self, cond, axis=None, out=None):
        return mk(raw(self).compress(native_index(cond), axis=axis), self._ldt)

    def sort(self, axis=-1, **k):
        from . import npshim
        if not self.flags.writeable:
            raise ValueError('sort array is read-only')
        raw(self)[...] = raw(npshim.HANDLERS['sort'](self, axis=axis))


class MaskedSel:
    """x[mask] for a symbolic full-shape mask, kept lazy"""
    __array_priority__ = 2000

    def __init__(self, base, mask, ldt):
        self.base, self.mask, self.ldt = base, mask, ldt

    def same_mask(self, m):
        if self.mask.shape != m.shape:
            return False
        for a, b in zip(self.mask.reshape(-1), m.reshape(-1)):
            ta, tb = S.bterm(a), S.bterm(b)
            if isinstance(ta, bool) or isinstance(tb, bool):
                if not (isinstance(ta, bool) and isinstance(tb, bool) and ta == tb):
                    return False
            elif not ta.eq(tb):
                return False
        return True

    def force(self):
        return mk(self.base[decide_mask(self.mask)], self.ldt)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        if method == '__call__' and not kwargs and ufunc.nout == 1:
            lazy = True
            args = []
            for x in inputs:
                if isinstance(x, MaskedSel):
                    lazy = lazy and x.same_mask(self.mask)
                    args.append(mk(x.base, x.ldt))
                elif np.ndim(x) == 0:
                    args.append(x)
                else:
                    lazy = False
            # only total operations may be applied to unselected elements
            if lazy and ufunc.__name__ in ('add', 'subtract', 'multiply', 'negative', 'positive',
                                           'absolute', 'minimum', 'maximum', 'square'):
                r = array_ufunc(ufunc, method, *args)
                return MaskedSel(raw(r), self.mask, r.dtype)
        return getattr(ufunc, method)(*[x.force() if isinstance(x, MaskedSel) else x for x in inputs],
                                      **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.dispatch(func, args, kwargs)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __getitem__(self, k):
        return self.force()[k]

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __bool__(self):
        return bool(self.force())


def _bin(uf, rev=False):
    if rev:
        return lambda self, o: uf(o, self)
    return lambda self, o: uf(self, o)


for _n, _u in (('add', np.add), ('sub', np.subtract), ('mul', np.multiply), ('truediv', np.true_divide),
               ('pow', np.power), ('and', np.bitwise_and), ('or', np.bitwise_or)):
    setattr(MaskedSel, '__%s__' % _n, _bin(_u))
    setattr(MaskedSel, '__r%s__' % _n, _bin(_u, True))
for _n, _u in (('lt', np.less), ('le', np.less_equal), ('gt', np.greater), ('ge', np.greater_equal),
               ('eq', np.equal), ('ne', np.not_equal)):
    setattr(MaskedSel, '__%s__' % _n, _bin(_u))
MaskedSel.__neg__ = lambda self: np.negative(self)
MaskedSel.__abs__ = lambda self: np.absolute(self)
MaskedSel.__invert__ = lambda self: np.invert(self)
MaskedSel.__hash__ = object.__hash__


# --------------------------------------------------------------------------
def raw(a):
    """plain object-dtype ndarray view"""
    if isinstance(a, SymArray):
        return np.ndarray.view(a, np.ndarray)
    return a


def mk(r, ldt):
    if not isinstance(r, np.ndarray):
        x = np.empty((), dtype=object)
        x[()] = r
        r = x
    elif r.dtype.hasobject is False:
        return arr(r, ldt)
    a = np.ndarray.view(r, SymArray)
    a._ldt = np.dtype(ldt)
    return a


def _full(shape, v):
    r = np.empty(shape, dtype=object)
    for p in np.ndindex(*r.shape):
        r[p] = v
    return r


def full(shape, v, ldt):
    return mk(_full(shape, v), ldt)


def out_scalar(x):
    if isinstance(x, bool):
        return np.bool_(x)
    return x


def _elem(x):
    """scalar -> element"""
    if isinstance(x, MaskedSel):
        x = x.force()
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return _elem(raw(x)[()])
        if x.size == 1:
            return _elem(raw(x).reshape(-1)[0])
    if isinstance(x, (SymNum, SymBool)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    n = S.num_or_none(x)
    if n is not None:
        return n
    return x


def elem_dtype(x):
    if isinstance(x, (SymBool, bool, np.bool_)):
        return BOOL
    if isinstance(x, SymNum):
        return F64 if x.k == 'f' else I64
    if isinstance(x, np.generic):
        return x.dtype
    if isinstance(x, int):
        return I64
    if isinstance(x, float):
        return F64
    return OBJ


def is_sym(x):
    return isinstance(x, (SymArray, SymNum, SymBool, MaskedSel))


def contains_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth and isinstance(x, (list, tuple)):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(contains_sym(y, depth - 1) for y in x.values())
    if isinstance(x, np.ndarray):
        return False
    if depth and _is_seq(x):
        try:
            return any(contains_sym(x[i], depth - 1) for i in range(len(x)))
        except Exception:
            return False
    return False


def _is_seq(x):
    return (not isinstance(x, (str, bytes, dict, set, np.ndarray, np.generic, SymNum, SymBool, type))
            and hasattr(x, '__len__') and hasattr(x, '__getitem__'))


def _collect(x):
    """nested structure -> (object ndarray, logical dtype, is_numeric)"""
    if isinstance(x, MaskedSel):
        x = x.force()
    if isinstance(x, SymArray):
        return raw(x), x._ldt
    if isinstance(x, np.ndarray) or isinstance(x, np.generic) and not isinstance(x, np.bool_):
        x = np.asarray(x)
        if x.dtype.kind in 'fiub':
            r = np.empty(x.shape, dtype=object)
            for p in np.ndindex(*x.shape):
                r[p] = _elem(x[p])
            return r, x.dtype
        return x.astype(object), x.dtype
    if hasattr(x, '__array__') and not isinstance(x, (SymNum, SymBool, np.generic)) and not isinstance(x, type):
        return _collect(x.__array__())
    if _is_seq(x):
        items = [_collect(x[i]) for i in range(len(x))]
        if not items:
            return np.empty((0,), dtype=object), F64
        shp = items[0][0].shape
        if any(i[0].shape != shp for i in items):
            raise ValueError('setting an array element with a sequence.')
        r = np.empty((len(items),) + shp, dtype=object)
        for k, (v, _) in enumerate(items):
            r[k] = v[()] if v.ndim == 0 else v
        dts = [i[1] for i in items]
        return r, _promote(dts)
    if hasattr(x, '__next__') or isinstance(x, (set, frozenset, dict, range)):
        if isinstance(x, range):
            return _collect(list(x))
    r = np.empty((), dtype=object)
    r[()] = _elem(x)
    return r, elem_dtype(x)


def _promote(dts):
    d = dts[0]
    for e in dts[1:]:
        if e != d:
            if d.kind in 'US' or e.kind in 'US':
                return OBJ if OBJ in (d, e) else np.dtype('U32')
            d = np.promote_types(d, e)
    return d


def cast_arr(r, src, dt):
    dt = np.dtype(dt)
    o = np.empty(r.shape, dtype=object)
    if dt == OBJ:
        o[...] = r
        return mk(o, OBJ)
    if dt.kind in 'US':
        raise Unsupported('string arrays')
    for p in np.ndindex(*r.shape):
        v = r[p]
        if isinstance(v, str):
            v = float(v)        # numpy parses, raising ValueError
        elif v is None:
            raise TypeError("float() argument must be a string or a number, not 'NoneType'")
        elif isinstance(v, complex) and dt.kind != 'c':
            raise TypeError("can't convert complex to float")
        try:
            o[p] = S.cast(v, dt)
        except TypeError:
            raise TypeError('float() argument must be a string or a number')
    return mk(o, dt)


def arr(x, dtype=None, ndmin=0):
    """fresh SymArray from anything"""
    dt = None if dtype is None else np.dtype(dtype)
    if dt == OBJ and isinstance(x, (list, tuple)) and not contains_sym(x):
        r = np.empty((len(x),), dtype=object)
        for i, v in enumerate(x):
            r[i] = v
        return mk(r, OBJ)
    r, ldt = _collect(x)
    if dt is None:
        dt = ldt
    if dt.kind in 'USMm' or (dt == OBJ and ldt.kind in 'US'):
        return np.array(x, dtype=None if dtype is None else dt, ndmin=ndmin)
    out = cast_arr(r, ldt, dt)
    while out.ndim < ndmin:
        out = mk(raw(out)[np.newaxis], dt)
    return out


def aslike(x):
    """SymArray without copying when possible"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, MaskedSel):
        return x.force()
    return arr(x)


# -- index handling ---------------------------------------------------------
def _is_symmask(key):
    return (isinstance(key, SymArray) and key._ldt == BOOL
            and any(isinstance(v, SymBool) for v in raw(key).reshape(-1)))


def decide_mask(m):
    o = np.empty(m.shape, dtype=bool)
    for p in np.ndindex(*m.shape):
        o[p] = bool(m[p])
    return o


def native_index(k):
    """index/repeat/axis argument -> native"""
    if isinstance(k, MaskedSel):
        k = k.force()
    if isinstance(k, SymArray):
        if k._ldt == BOOL:
            return decide_mask(raw(k))
        if k._ldt.kind in 'iu' or k.size == 0:
            o = np.empty(k.shape, dtype=np.int64)
            r = raw(k)
            for p in np.ndindex(*k.shape):
                o[p] = operator.index(S.cast(r[p], I64))
            if k._ldt.kind not in 'iu':
                return o.astype(k._ldt)
            return o
        if k._ldt == OBJ:
            return raw(k)
        r = raw(k)
        return np.array([float(v) for v in r.reshape(-1)]).reshape(r.shape)
    if isinstance(k, SymNum):
        if k.k == 'i':
            return operator.index(k)
        return float(k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, slice):
        f = lambda v: None if v is None else operator.index(native_index(v))
        return slice(f(k.start), f(k.stop), f(k.step))
    if isinstance(k, list) and contains_sym(k):
        return native_index(arr(k))
    return k


def index_key(key):
    if isinstance(key, tuple):
        return tuple(native_index(k) for k in key)
    return native_index(key)


# --------------------------------------------------------------------------
# ufuncs
def _c(op):
    return lambda a, b: S.mkbool_cmp(a, b, op)


def _lift1(f):
    return lambda a: f(S.num(a))


def _lift2(f):
    return lambda a, b: f(S.num(a), S.num(b))


def _logical(f):
    def g(*a):
        return f(*[x if S._boolish(x) else S.mkbool(S.bterm(S.num(x))) for x in a])
    return g


def _bitwise(f, native):
    def g(*a):
        if all(S._boolish(x) for x in a):
            return f(*a)
        vals = [operator.index(S.num(x)) for x in a]
        return S.num(int(native(*vals)))
    return g


def _tan(a):
    return S.truediv(S.sin(a), S.cos(a))


def _hypot(a, b):
    a, b = S.num(a), S.num(b)
    return S.sqrt(S.SymNum(S.add(S.mul(a, a), S.mul(b, b)).v, 'f', True)
                  if not S.is_special(S.add(S.mul(a, a), S.mul(b, b))) else S.add(S.mul(a, a), S.mul(b, b)))


def _fminmax(f):
    def g(a, b):
        a, b = S.num(a), S.num(b)
        if S.isnan(a):
            return b
        if S.isnan(b):
            return a
        return f(a, b)
    return g


def _ufn(name):
    def f(*a):
        a = [S.num(x) for x in a]
        if all(not S._isterm(x.v) for x in a):
            import math
            with np.errstate(all='ignore'):
                return S.num(float(getattr(np, name)(*[float(x.v) for x in a])))
        return S.uf(name, *a)
    return f


def _sq(a):
    r = S.mul(a, a)
    return r if S.is_special(r) else SymNum(r.v, r.k, True)


# name -> (function, dtype rule)
UF = {
    'add': (None, 'arith'), 'subtract': (None, 'arith'), 'multiply': (None, 'arith'),
    'divide': (_lift2(S.truediv), 'float'), 'true_divide': (_lift2(S.truediv), 'float'),
    'floor_divide': (_lift2(S.floordiv), 'arith'), 'remainder': (_lift2(S.mod), 'arith'),
    'power': (_lift2(S.power), 'arith'), 'float_power': (_lift2(S.power), 'float'),
    'negative': (_lift1(S.neg), 'arith'), 'positive': (_lift1(lambda a: a), 'arith'),
    'absolute': (_lift1(S.abs_), 'arith'), 'fabs': (_lift1(S.abs_), 'float'),
    'sqrt': (_lift1(S.sqrt), 'float'), 'square': (_lift1(_sq), 'arith'),
    'reciprocal': (_lift1(lambda a: S.truediv(S.num(1.0), a)), 'arith'),
    'sign': (_lift1(S.sign), 'arith'), 'floor': (_lift1(S.floor_), 'float'),
    'ceil': (_lift1(S.ceil_), 'float'), 'trunc': (_lift1(lambda a: S.cast(S.trunc_(a), F64)), 'float'),
    'rint': (_lift1(lambda a: S.cast(S.round_(a), F64)), 'float'),
    'minimum': (S.minimum, 'arith'), 'maximum': (S.maximum, 'arith'),
    'fmin': (_fminmax(S.minimum), 'arith'), 'fmax': (_fminmax(S.maximum), 'arith'),
    'less': (_c('lt'), 'bool'), 'less_equal': (_c('le'), 'bool'), 'greater': (_c('gt'), 'bool'),
    'greater_equal': (_c('ge'), 'bool'),
    'equal': (None, 'bool'), 'not_equal': (None, 'bool'),
    'logical_and': (_logical(S.band), 'bool'), 'logical_or': (_logical(S.bor), 'bool'),
    'logical_not': (_logical(S.bnot), 'bool'), 'logical_xor': (_logical(S.bxor), 'bool'),
    'bitwise_and': (_bitwise(S.band, operator.and_), 'bits'),
    'bitwise_or': (_bitwise(S.bor, operator.or_), 'bits'),
    'bitwise_xor': (_bitwise(S.bxor, operator.xor), 'bits'),
    'invert': (_bitwise(S.bnot, operator.invert), 'bits'),
    'isnan': (_lift1(S.isnan), 'bool'), 'isinf': (_lift1(S.isinf), 'bool'),
    'isfinite': (_lift1(S.isfinite), 'bool'), 'signbit': (_lift1(lambda a: S.mkbool_cmp(a, S.num(0), 'lt')), 'bool'),
    'sin': (S.sin, 'float'), 'cos': (S.cos, 'float'), 'tan': (_tan, 'float'),
    'arccos': (S.arccos, 'float'), 'hypot': (_hypot, 'float'),
    'conjugate': (lambda a: a, 'arith'),
    'copysign': (lambda a, b: S.ite(S.mkbool_cmp(b, S.num(0), 'ge'), S.abs_(S.num(a)), S.neg(S.abs_(S.num(a)))), 'float'),
    'heaviside': (lambda a, h: S.ite(S.mkbool_cmp(a, S.num(0), 'lt'), S.num(0.0),
                                     S.ite(S.mkbool_cmp(a, S.num(0), 'gt'), S.num(1.0), S.num(h))), 'float'),
}
for _n in ('exp', 'log', 'log2', 'log10', 'arcsin', 'arctan', 'arctan2', 'sinh', 'cosh', 'tanh', 'cbrt', 'exp2', 'log1p', 'expm1'):
    UF[_n] = (_ufn(_n), 'float')
UF['deg2rad'] = UF['radians'] = (lambda a: S.mul(S.num(a), S.num(np.pi / 180)), 'float')
UF['rad2deg'] = UF['degrees'] = (lambda a: S.mul(S.num(a), S.num(180 / np.pi)), 'float')


def _eq(a, b):
    if S._boolish(a) and S._boolish(b):
        return S.bnot(S.bxor(a, b))
    na, nb = S.num_or_none(a), S.num_or_none(b)
    if na is None or nb is None:
        return bool(a == b)
    return S.mkbool_cmp(na, nb, 'eq')


def _arith(opname, both_bool):
    base = {'add': S.add, 'subtract': S.sub, 'multiply': S.mul}[opname]
    boolop = {'add': S.bor, 'multiply': S.band}.get(opname)

    def f(a, b):
        if both_bool:
            if boolop is None:
                raise TypeError('numpy boolean subtract, the `-` operator, is not supported')
            return boolop(a, b)
        return base(S.num(a), S.num(b))
    return f


_KORDER = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3, 'O': 4}


def result_dtype(args, kwargs_dt=None):
    """numpy 1.19 value-based promotion, restricted to bool/int/float/object"""
    if kwargs_dt is not None:
        return np.dtype(kwargs_dt)
    ad, sd = [], []
    for x in args:
        if isinstance(x, np.ndarray):
            (ad if x.ndim else sd).append(x.dtype)
        else:
            sd.append(elem_dtype(x))
    if any(d.kind not in _KORDER for d in ad + sd):
        raise TypeError('ufunc did not contain a loop with signature matching types')
    if not ad:
        return _promote(sd)
    a = _promote(ad)
    if not sd:
        return a
    s = _promote(sd)
    if _KORDER[s.kind] <= _KORDER[a.kind]:
        return a
    return np.promote_types(a, s) if s.kind != 'f' or a.kind == 'b' else np.promote_types(a, s)


def array_ufunc(ufunc, method, *inputs, **kwargs):
    name = ufunc.__name__
    if name not in UF and name != 'matmul':
        raise Unsupported('ufunc %s' % name)
    if any(isinstance(x, MaskedSel) for x in inputs):
        sel = [x for x in inputs if isinstance(x, MaskedSel)][0]
        return sel.__array_ufunc__(ufunc, method, *inputs, **kwargs)
    from . import npshim
    if name == 'matmul':
        return npshim.matmul(*inputs)
    out = kwargs.pop('out', None)
    where = kwargs.pop('where', True)
    dtype = kwargs.pop('dtype', None)
    kwargs.pop('casting', None)
    kwargs.pop('order', None)
    kwargs.pop('subok', None)
    if isinstance(out, tuple):
        out = out[0]
    if method in ('reduce', 'accumulate', 'outer', 'at'):
        r = npshim.ufunc_method(ufunc, method, inputs, dict(kwargs, dtype=dtype))
        if out is not None:
            out[...] = r
            return out
        return r
    if method != '__call__' or kwargs:
        raise Unsupported('ufunc %s.%s %s' % (name, method, sorted(kwargs)))
    ins = []
    for x in inputs:
        if isinstance(x, (SymNum, SymBool, bool, np.bool_, int, float, np.integer, np.floating)):
            ins.append(x)
        elif isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
            ins.append(aslike(x))
        else:
            if name in ('equal', 'not_equal') and not _is_seq(x):
                ins.append(x)
            elif _is_seq(x):
                return NotImplemented
            else:
                return NotImplemented
    fn, rule = UF[name]
    rdt = result_dtype(ins, dtype)
    objarith = rdt == OBJ
    if name in ('add', 'subtract', 'multiply'):
        if objarith:
            fn = {'add': operator.add, 'subtract': operator.sub, 'multiply': operator.mul}[name]
        else:
            fn = _arith(name, rdt == BOOL)
    elif name == 'equal':
        fn = _eq
    elif name == 'not_equal':
        fn = lambda a, b: S.bnot(_eq(a, b))
    if rule == 'float':
        if rdt.kind in 'biu':
            rdt = F64
    elif rule == 'bool':
        rdt = BOOL
    elif rule == 'bits':
        if rdt.kind == 'f':
            raise TypeError("ufunc '%s' not supported for the input types" % name)
    elif rule == 'arith' and rdt == BOOL and name in ('floor_divide', 'remainder', 'power'):
        rdt = np.dtype(np.int8)
    elif rule == 'arith' and rdt == BOOL and name == 'negative':
        raise TypeError('The numpy boolean negative, the `-` operator, is not supported')
    raws = []
    for x in ins:
        if isinstance(x, SymArray):
            raws.append(raw(x))
        else:
            z = np.empty((), dtype=object)
            z[()] = _elem(x)
            raws.append(z)
    scalar = all(r.ndim == 0 for r in raws)
    if out is not None:
        if not isinstance(out, SymArray):
            raise Unsupported('symbolic ufunc into a native output')
        if not out.flags.writeable:
            raise ValueError('output array is read-only')
        if not np.can_cast(rdt, out.dtype, 'same_kind'):
            raise np._core._exceptions._UFuncOutputCastingError(ufunc, 'same_kind', rdt, out.dtype, 0)
        shape = np.broadcast_shapes(*[r.shape for r in raws])
        if np.broadcast_shapes(shape, out.shape) != out.shape:
            raise ValueError('non-broadcastable output operand')
    if scalar:
        v = fn(*[r[()] for r in raws])
        v = _fix(v, rdt)
        if out is not None:
            out[...] = v
            return out
        return out_scalar(v)
    g = np.frompyfunc(fn, len(raws), 1)
    r = g(*raws)
    if where is not True:
        w = np.broadcast_to(raw(aslike(where)), r.shape)
        base = np.broadcast_to(raw(out), r.shape) if out is not None else None
        for p in np.ndindex(*r.shape):
            old = base[p] if base is not None else S.num(E.cur().fresh_real('uninit'))
            r[p] = S.ite(w[p], r[p], old)
    if rdt.kind == 'f' and rdt.itemsize < 8:
        for p in np.ndindex(*r.shape):
            r[p] = S.cast(r[p], rdt)
    elif rdt == F64 and rule == 'arith':
        for p in np.ndindex(*r.shape):
            if isinstance(r[p], SymNum) and r[p].k == 'i':
                r[p] = S.cast(r[p], rdt)
    elif rdt.kind in 'iu' and rdt.itemsize < 8:
        for p in np.ndindex(*r.shape):
            r[p] = S.cast(r[p], rdt)
    if out is not None:
        out[...] = mk(r, rdt)
        return out
    return mk(r, rdt)


def _fix(v, rdt):
    if rdt.kind == 'f' and isinstance(v, SymNum):
        return S.cast(v, rdt)
    return v
