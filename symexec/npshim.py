"""Symbolic models of the numpy functions, plus the proxy module that stands for
`numpy` inside the code under test."""
import functools
import itertools
import operator
import types
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from . import scalars as S
from . import arrays as A
from .arrays import (SymArray, MaskedSel, F64, I64, BOOL, OBJ, arr, aslike, mk, raw, full, out_scalar,
                     native_index, decide_mask, contains_sym, is_sym)
from .engine import Unsupported
from .scalars import SymBool, SymNum, num

HANDLERS = {}
LA = {}


def h(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def la(*names):
    def deco(f):
        for n in names:
            LA[n] = f
        return f
    return deco


# structural functions: numpy itself runs on the object arrays
STRUCT = set('''hstack vstack dstack stack concatenate column_stack row_stack append flip flipud fliplr
roll rot90 tile repeat take transpose swapaxes moveaxis rollaxis reshape ravel squeeze expand_dims
atleast_1d atleast_2d atleast_3d broadcast_to broadcast_arrays split array_split vsplit hsplit dsplit
diag diagonal tril triu resize meshgrid compress insert delete take_along_axis triu_indices_from
tril_indices_from extract ascontiguousarray asfortranarray require pad trim_zeros select choose'''.split())
STRUCT -= {'pad', 'trim_zeros', 'select', 'choose', 'require', 'extract'}
INFO = {'shape': lambda a: aslike(a).shape, 'ndim': lambda a: aslike(a).ndim,
        'size': lambda a, axis=None: aslike(a).size if axis is None else aslike(a).shape[axis]}


def _rawarg(x, dts):
    if isinstance(x, MaskedSel):
        x = x.force()
    if isinstance(x, SymArray):
        dts.append(x._ldt)
        return raw(x)
    if isinstance(x, (SymNum, SymBool)):
        dts.append(A.elem_dtype(x))
        z = np.empty((), dtype=object)
        z[()] = x
        return z
    if isinstance(x, np.ndarray):
        dts.append(x.dtype)
        return raw(arr(x)) if x.dtype.kind in 'fiub' else x
    if isinstance(x, (tuple, list)):
        if any(isinstance(y, (np.ndarray, list, tuple, MaskedSel)) or A._is_seq(y) for y in x):
            return type(x)(_rawarg(y, dts) for y in x)
        a = arr(x)
        return _rawarg(a, dts)
    if isinstance(x, (float, int, bool, np.generic)):
        a = arr(x)
        dts.append(a.dtype)
        return raw(a)
    if A._is_seq(x):
        return _rawarg(arr(x), dts)
    raise Unsupported('argument of type %s' % type(x).__name__)


def struct_call(func, args, kwargs):
    """first positional argument carries data; the others are indices/axes"""
    name = func.__name__
    args = list(args)
    dts = []
    if name in ('insert', 'append'):
        base = aslike(args[0])
        vals_pos = 2 if name == 'insert' else 1
        if len(args) > vals_pos:
            vals = args[vals_pos]
        else:
            vals = kwargs.pop('values')
        if name == 'insert':
            obj = native_index(args[1] if len(args) > 1 else kwargs.pop('obj'))
            v = arr(vals).astype(base.dtype)
            rest = args[3:]
            r = func(raw(base), obj, raw(v), *[native_index(x) for x in rest], **kwargs)
            return mk(r, base.dtype)
        v = aslike(vals)
        r = func(raw(base), raw(v), *[native_index(x) for x in args[2:]], **kwargs)
        return mk(r, A._promote([base.dtype, v.dtype]))
    if name in ('tril_indices_from', 'triu_indices_from'):
        return func(raw(aslike(args[0])), *args[1:], **kwargs)
    if name in ('meshgrid', 'broadcast_arrays', 'atleast_1d', 'atleast_2d', 'atleast_3d'):
        ins = [aslike(a) for a in args]
        r = func(*[raw(a) for a in ins], **kwargs)
        if isinstance(r, (list, tuple)):
            return type(r)(mk(x, a.dtype) for x, a in zip(r, ins))
        return mk(r, ins[0].dtype)
    if not args:
        for k in ('a', 'arr', 'tup', 'arrays', 'm', 'array', 'x', 'ary', 'v'):
            if k in kwargs:
                args = [kwargs.pop(k)]
                break
    dtype = kwargs.pop('dtype', None) if name in ('concatenate', 'stack', 'hstack', 'vstack') else None
    data = args[0]
    if name in ('hstack', 'vstack', 'dstack', 'stack', 'concatenate', 'column_stack', 'row_stack'):
        if isinstance(data, (SymArray, np.ndarray)):
            data = [data[i] for i in range(len(data))]
        if not isinstance(data, (list, tuple)):
            data = list(data)
        ins = [aslike(x) for x in data]
        r = func([raw(x) for x in ins], *[native_index(x) for x in args[1:]], **kwargs)
        res = mk(r, A._promote([x.dtype for x in ins]) if ins else F64)
        if dtype is not None:
            return res.astype(dtype)
        return _normal(res)
    a = aslike(data)
    kwargs = {k: native_index(v) for k, v in kwargs.items()}
    r = func(raw(a), *[native_index(x) for x in args[1:]], **kwargs)
    if isinstance(r, (list, tuple)):
        return type(r)(mk(x, a.dtype) for x in r)
    if not isinstance(r, np.ndarray):
        return out_scalar(r)
    if r.dtype != object:
        return arr(r, a.dtype)
    if name in ('tril', 'triu', 'diag', 'resize'):
        return mk(r, a.dtype).astype(a.dtype)
    return mk(r, a.dtype)


def _normal(a):
    """elements agree with the logical dtype (int elements in a promoted float array)"""
    r = raw(a)
    if a.dtype.kind == 'f':
        for p in np.ndindex(*r.shape):
            v = r[p]
            if not isinstance(v, SymNum) or v.k != 'f':
                r[p] = S.cast(v, a.dtype)
    elif a.dtype.kind in 'iu':
        for p in np.ndindex(*r.shape):
            if S._boolish(r[p]):
                r[p] = num(r[p])
    return a


def dispatch(func, args, kwargs):
    name = func.__name__
    mod = getattr(func, '__module__', '') or ''
    if mod.startswith('numpy.linalg') and name in LA:
        return LA[name](*args, **kwargs)
    if name in HANDLERS:
        return HANDLERS[name](*args, **kwargs)
    if name in INFO:
        return INFO[name](*args, **kwargs)
    if name in STRUCT:
        return struct_call(func, args, dict(kwargs))
    raise Unsupported('numpy function %s.%s' % (mod, name))


# --------------------------------------------------------------------------
# construction
@h('array')
def array(obj, dtype=None, copy=True, order='K', subok=False, ndmin=0, like=None):
    if not copy and isinstance(obj, SymArray) and (dtype is None or np.dtype(dtype) == obj.dtype) and obj.ndim >= ndmin:
        return obj
    return arr(obj, dtype, ndmin)


@h('asarray', 'asanyarray')
def asarray(obj, dtype=None, order=None, copy=None, like=None):
    if isinstance(obj, MaskedSel):
        obj = obj.force()
    if isinstance(obj, SymArray) and (dtype is None or np.dtype(dtype) == obj.dtype):
        return obj
    if isinstance(obj, np.ndarray) and (dtype is None or np.dtype(dtype) == obj.dtype) and obj.dtype.kind not in 'f':
        return obj
    return arr(obj, dtype)


@h('ascontiguousarray', 'asfortranarray')
def ascontiguousarray(obj, dtype=None, like=None):
    r = asarray(obj, dtype)
    if isinstance(r, SymArray):
        return r if r.flags.c_contiguous else r.copy()
    return np.ascontiguousarray(r)


@h('asfarray')
def asfarray(obj, dtype=np.float64):
    return asarray(obj, dtype)


@h('asarray_chkfinite')
def asarray_chkfinite(obj, dtype=None, order=None):
    a = asarray(obj, dtype)
    if not bool(all_(isfinite(a))):
        raise ValueError('array must not contain infs or NaNs')
    return a


@h('copy')
def copy_(a, order='K', subok=False):
    return arr(a)


def _shape(s):
    s = native_index(s)
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(native_index(x)) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return (operator.index(s),)


@h('zeros')
def zeros(shape, dtype=float, order='C', like=None):
    dt = np.dtype(dtype if dtype is not None else float)
    return full(_shape(shape), S.cast(num(0), dt) if dt != OBJ else 0, dt)


@h('ones')
def ones(shape, dtype=float, order='C', like=None):
    dt = np.dtype(dtype if dtype is not None else float)
    return full(_shape(shape), S.cast(num(1), dt) if dt != OBJ else 1, dt)


@h('empty')
def empty(shape, dtype=float, order='C', like=None):
    dt = np.dtype(dtype)
    sh = _shape(shape)
    if dt == OBJ:
        return full(sh, None, dt)
    r = np.empty(sh, dtype=object)
    for p in np.ndindex(*sh):
        v = num(E.cur().fresh_real('uninit'))
        r[p] = S.cast(v, dt) if dt.kind != 'f' else v
    return mk(r, dt)


@h('full')
def full_h(shape, fill_value, dtype=None, order='C', like=None):
    v = A._elem(fill_value)
    dt = np.dtype(dtype) if dtype is not None else A.elem_dtype(v)
    return full(_shape(shape), S.cast(v, dt), dt)


def _like(f):
    def g(a, dtype=None, order='K', subok=True, shape=None):
        a = aslike(a)
        return f(a.shape if shape is None else shape, dtype or a.dtype)
    return g


HANDLERS['zeros_like'] = _like(zeros)
HANDLERS['ones_like'] = _like(ones)
HANDLERS['empty_like'] = _like(empty)


@h('full_like')
def full_like(a, fill_value, dtype=None, order='K', subok=True, shape=None):
    a = aslike(a)
    return full_h(a.shape if shape is None else shape, fill_value, dtype or a.dtype)


@h('eye', 'identity')
def eye(N, M=None, k=0, dtype=float, order='C'):
    return arr(np.eye(operator.index(native_index(N)), M, k, dtype=dtype))


@h('arange')
def arange(*args, dtype=None, **kw):
    args = [native_index(a) if isinstance(a, SymNum) and (a.k == 'i' or not S._isterm(a.v)) else a for a in args]
    if any(isinstance(a, SymNum) for a in args):
        raise Unsupported('arange over symbolic floats')
    r = np.arange(*args, dtype=dtype)
    return arr(r) if r.dtype.kind == 'f' else r


@h('linspace')
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = num
    if isinstance(n, SymNum):
        if n.k == 'f':
            raise TypeError('object of type float cannot be safely interpreted as an integer.')
        n = operator.index(n)
    n = operator.index(n)
    if n < 0:
        raise ValueError('Number of samples, %s, must be non-negative.' % n)
    a, b = A._elem(start), A._elem(stop)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        raise Unsupported('linspace over arrays')
    a, b = S.cast(a, F64), S.cast(b, F64)
    div = (n - 1) if endpoint else n
    r = np.empty((n,), dtype=object)
    d = S.sub(b, a)
    step = S.truediv(d, S.num(float(div))) if div > 0 else S.num(float('nan'))
    for i in range(n):
        if i == 0:
            r[i] = a
        elif endpoint and i == n - 1:
            r[i] = b
        else:
            r[i] = S.add(a, S.mul(step, S.num(float(i)))) if not S.is_special(d) else S.num(float('nan'))
    out = mk(r, F64)
    if dtype is not None:
        out = out.astype(dtype)
    return (out, step) if retstep else out


@h('fromiter')
def fromiter(it, dtype, count=-1):
    return arr(list(it), dtype)


# --------------------------------------------------------------------------
# reductions
def _axes(axis, nd):
    axis = native_index(axis)
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, np.integer)):
        axis = (axis,)
    out = []
    for a in axis:
        a = operator.index(a)
        if not -nd <= a < nd:
            raise np.exceptions.AxisError(a, nd)
        out.append(a % nd)
    return tuple(out)


def reduce_(fn, a, axis, keepdims, identity, rdt, opname='reduce'):
    a = aslike(a)
    r = raw(a)
    if r.ndim == 0:
        r = r.reshape(1)
        axs = (0,)
        nd0 = True
    else:
        axs = _axes(axis, r.ndim)
        nd0 = False
    rest = [i for i in range(r.ndim) if i not in axs]
    k = 1
    for i in axs:
        k *= r.shape[i]
    m = r.transpose(rest + list(axs)).reshape([r.shape[i] for i in rest] + [k])
    shape = m.shape[:-1]
    out = np.empty(shape, dtype=object)
    for p in np.ndindex(*shape):
        vals = list(m[p])
        if not vals:
            if identity is None:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % opname)
            out[p] = identity
        else:
            v = vals[0] if identity is None else fn(identity, vals[0])
            for x in vals[1:]:
                v = fn(v, x)
            out[p] = v
    if not shape and not (keepdims and keepdims is not np._NoValue and not nd0):
        v = out[()]
        if rdt.kind == 'f':
            v = S.cast(v, rdt)
        return out_scalar(v)
    if keepdims and keepdims is not np._NoValue:
        out = out.reshape([1 if i in axs else s for i, s in enumerate(r.shape)])
    return _normal(mk(out, rdt))


def _sumdt(dt, dtype):
    if dtype is not None:
        return np.dtype(dtype)
    return I64 if dt.kind in 'bi' else dt


def _initial(kw):
    i = kw.pop('initial', np._NoValue)
    w = kw.pop('where', np._NoValue)
    kw.pop('out', None)
    if w is not np._NoValue and w is not True:
        raise Unsupported('reduction with where=')
    return None if i is np._NoValue else A._elem(i)


@h('sum')
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    dt = _sumdt(a.dtype, dtype)
    ini = _initial(kw)
    r = reduce_(lambda x, y: S.add(num(x), num(y)), a, axis, keepdims, num(0) if ini is None else ini, dt)
    return _out(r, out)


def _out(r, out):
    if out is not None:
        out[...] = r
        return out
    return r


@h('nansum')
def nansum(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    f = lambda x: num(0.0) if S.isnan(num(x)) else x
    b = mk(np.frompyfunc(f, 1, 1)(raw(a)), a.dtype) if a.ndim else a
    return sum_(b, axis, dtype, out, keepdims)


@h('prod')
def prod(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    ini = _initial(kw)
    return _out(reduce_(lambda x, y: S.mul(num(x), num(y)), a, axis, keepdims, num(1) if ini is None else ini,
                        _sumdt(a.dtype, dtype)), out)


@h('mean')
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    s = sum_(a.astype(F64) if a.dtype.kind in 'biu' else a, axis, None, None, keepdims)
    axs = _axes(axis, a.ndim) if a.ndim else ()
    n = int(np.prod([a.shape[i] for i in axs])) if a.ndim else 1
    return _out(np.true_divide(s, num(float(n))) if is_sym(s) else s / n, out)


@h('average')
def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis)
    a, w = aslike(a), aslike(weights)
    if a.shape != w.shape:
        if axis is None or w.ndim != 1:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        sh = [1] * a.ndim
        sh[_axes(axis, a.ndim)[0]] = -1
        w = w.reshape(sh)
    w = w * HANDLERS['ones_like'](a)
    s = sum_(w, axis)
    return sum_(a * w, axis) / s


@h('var')
def var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = aslike(a).astype(F64)
    m = mean(a, axis, keepdims=True) if a.ndim else a
    d = a - m
    axs = _axes(axis, a.ndim)
    n = int(np.prod([a.shape[i] for i in axs])) - ddof
    return sum_(d * d, axis, keepdims=keepdims) / num(float(n))


@h('std')
def std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return np.sqrt(var(a, axis, ddof=ddof, keepdims=keepdims))


@h('min', 'amin')
def min_(a, axis=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    return _out(reduce_(S.minimum, a, axis, keepdims, _initial(kw), a.dtype, 'minimum'), out)


@h('max', 'amax')
def max_(a, axis=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    return _out(reduce_(S.maximum, a, axis, keepdims, _initial(kw), a.dtype, 'maximum'), out)


@h('nanmin')
def nanmin(a, axis=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    return reduce_(A._fminmax(S.minimum), a, axis, keepdims, None, a.dtype, 'fmin')


@h('nanmax')
def nanmax(a, axis=None, out=None, keepdims=False, **kw):
    a = aslike(a)
    return reduce_(A._fminmax(S.maximum), a, axis, keepdims, None, a.dtype, 'fmax')


@h('ptp')
def ptp(a, axis=None, out=None, keepdims=False):
    return max_(a, axis, keepdims=keepdims) - min_(a, axis, keepdims=keepdims)


def _b(x):
    return x if S._boolish(x) else S.mkbool(S.bterm(num(x)))


@h('any', 'sometrue')
def any_(a, axis=None, out=None, keepdims=False, **kw):
    return _out(reduce_(lambda x, y: S.bor(_b(x), _b(y)), a, axis, keepdims, False, BOOL), out)


@h('all', 'alltrue')
def all_(a, axis=None, out=None, keepdims=False, **kw):
    return _out(reduce_(lambda x, y: S.band(_b(x), _b(y)), a, axis, keepdims, True, BOOL), out)


@h('count_nonzero')
def count_nonzero(a, axis=None, keepdims=False):
    a = aslike(a)
    if a.dtype != BOOL:
        a = a != 0
    return sum_(a, axis, keepdims=keepdims)


def _accum(fn, a, axis, dt):
    a = aslike(a)
    r = raw(a)
    if axis is None:
        r = r.reshape(-1)
        axis = 0
    ax = _axes(axis, r.ndim)[0]
    o = np.empty(r.shape, dtype=object)
    m, q = np.moveaxis(r, ax, 0), np.moveaxis(o, ax, 0)
    for i in range(m.shape[0]):
        if i == 0:
            q[0] = m[0]
        else:
            for p in np.ndindex(*m.shape[1:]):
                q[(i,) + p] = fn(q[(i - 1,) + p], m[(i,) + p])
    return _normal(mk(o, dt))


@h('cumsum')
def cumsum(a, axis=None, dtype=None, out=None):
    a = aslike(a)
    return _out(_accum(lambda x, y: S.add(num(x), num(y)), a, axis, _sumdt(a.dtype, dtype)), out)


@h('cumprod')
def cumprod(a, axis=None, dtype=None, out=None):
    a = aslike(a)
    return _out(_accum(lambda x, y: S.mul(num(x), num(y)), a, axis, _sumdt(a.dtype, dtype)), out)


def ufunc_method(uf, method, inputs, kw):
    name = uf.__name__
    kw = {k: v for k, v in kw.items() if v is not None and v is not np._NoValue}
    if method == 'reduce':
        a = inputs[0]
        axis = inputs[1] if len(inputs) > 1 else kw.pop('axis', 0)
        f = {'add': sum_, 'multiply': prod, 'logical_and': all_, 'logical_or': any_, 'minimum': min_,
             'maximum': max_, 'bitwise_and': all_, 'bitwise_or': any_}.get(name)
        if f is None:
            raise Unsupported('%s.reduce' % name)
        return f(a, axis=axis, **kw)
    if method == 'accumulate':
        a = aslike(inputs[0])
        fn = {'add': lambda x, y: S.add(num(x), num(y)), 'multiply': lambda x, y: S.mul(num(x), num(y)),
              'minimum': S.minimum, 'maximum': S.maximum, 'logical_or': S.bor, 'logical_and': S.band}.get(name)
        if fn is None:
            raise Unsupported('%s.accumulate' % name)
        return _accum(fn, a, kw.get('axis', 0), a.dtype)
    if method == 'outer':
        a, b = aslike(inputs[0]), aslike(inputs[1])
        return uf(a.reshape(a.shape + (1,) * b.ndim), b)
    raise Unsupported('%s.%s' % (name, method))


# --------------------------------------------------------------------------
# elementwise
@h('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rtol, atol = A._elem(rtol), A._elem(atol)
    x, y = aslike(a), aslike(b)
    f = np.frompyfunc(lambda p, q: S.isclose(p, q, rtol, atol, equal_nan), 2, 1)
    if x.ndim == 0 and y.ndim == 0:
        return out_scalar(S.isclose(raw(x)[()], raw(y)[()], rtol, atol, equal_nan))
    return mk(f(raw(x), raw(y)), BOOL)


@h('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


@h('array_equal')
def array_equal(a, b, equal_nan=False):
    a, b = aslike(a), aslike(b)
    if a.shape != b.shape:
        return False
    return all_(a == b)


@h('isfinite_')
def isfinite(a):
    return np.isfinite(aslike(a))


@h('where')
def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    c, x, y = aslike(c), aslike(x), aslike(y)
    if c.dtype != BOOL:
        c = c != 0
    dt = A.result_dtype([x if x.ndim else raw(x)[()], y if y.ndim else raw(y)[()]])
    r = np.frompyfunc(S.ite, 3, 1)(raw(aslike(c)), raw(x), raw(y))
    if not isinstance(r, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = r
        r = z
    return _normal(mk(r, dt))


@h('clip')
def clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **kw):
    r = aslike(a)
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    if isinstance(r, SymArray) and r.ndim == 0:
        r = raw(r)[()]
    return _out(r, out)


@h('round', 'around', 'round_')
def round_(a, decimals=0, out=None):
    x = aslike(a)
    d = operator.index(native_index(decimals))
    f = lambda v: S.cast(S.round_(num(v), d), x.dtype) if x.dtype.kind == 'f' else v
    if x.ndim == 0:
        return f(raw(x)[()])
    return _out(mk(np.frompyfunc(f, 1, 1)(raw(x)), x.dtype), out)


@h('fix')
def fix(a, out=None):
    return np.trunc(aslike(a))


@h('nan_to_num')
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = aslike(x)

    def f(v):
        v = num(v)
        if S.isnan(v):
            return num(float(nan))
        if S.is_special(v):
            return num(np.finfo(float).max if v.v > 0 else np.finfo(float).min) if (posinf if v.v > 0 else neginf) is None \
                else num(posinf if v.v > 0 else neginf)
        return v
    if x.ndim == 0:
        return f(raw(x)[()])
    r = np.frompyfunc(f, 1, 1)(raw(x))
    if not copy:
        x[...] = mk(r, x.dtype)
        return x
    return mk(r, x.dtype)


@h('isscalar')
def isscalar(x):
    return isinstance(x, (SymNum, SymBool)) or np.isscalar(x)


@h('iscomplexobj')
def iscomplexobj(x):
    return False


@h('isrealobj')
def isrealobj(x):
    return True


@h('real')
def real(x):
    return x


# --------------------------------------------------------------------------
# differences
@h('diff')
def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = aslike(a)
    if n == 0:
        return a
    if n < 0:
        raise ValueError('order must be non-negative but got ' + repr(n))
    if a.ndim == 0:
        raise ValueError('diff requires input that is at least one dimensional')
    ax = _axes(axis, a.ndim)[0]
    parts = []
    for v, pos in ((prepend, 0), (append, 2)):
        if v is not np._NoValue:
            v = aslike(v)
            if v.ndim == 0:
                sh = list(a.shape)
                sh[ax] = 1
                v = full(sh, raw(v)[()], v.dtype)
            parts.append((pos, v))
    if parts:
        parts.append((1, a))
        a = struct_call(np.concatenate, ([p[1] for p in sorted(parts, key=lambda p: p[0])],), {'axis': ax})
    for _ in range(n):
        hi = [slice(None)] * a.ndim
        lo = [slice(None)] * a.ndim
        hi[ax], lo[ax] = slice(1, None), slice(None, -1)
        a = a[tuple(hi)] != a[tuple(lo)] if a.dtype == BOOL else a[tuple(hi)] - a[tuple(lo)]
    return a


@h('ediff1d')
def ediff1d(a, to_end=None, to_begin=None):
    r = diff(aslike(a).ravel())
    parts = ([] if to_begin is None else [aslike(to_begin).ravel()]) + [r] + \
            ([] if to_end is None else [aslike(to_end).ravel()])
    return struct_call(np.concatenate, (parts,), {}) if len(parts) > 1 else r


@h('gradient')
def gradient(f, *varargs, axis=None, edge_order=1):
    f = aslike(f)
    axes = _axes(axis, f.ndim)
    if edge_order > 2:
        raise ValueError("'edge_order' greater than 2 not supported")
    n = len(varargs)
    if n == 0:
        dx = [num(1.0)] * len(axes)
    elif n == 1 and np.ndim(varargs[0]) == 0:
        dx = [A._elem(varargs[0])] * len(axes)
    elif n == len(axes):
        dx = list(varargs)
    else:
        raise TypeError('invalid number of arguments')
    if f.dtype.kind in 'biu':
        f = f.astype(F64)
    outs = []
    for ax, d in zip(axes, dx):
        m = f.shape[ax]
        if m < edge_order + 1:
            raise ValueError('Shape of array too small to calculate a numerical gradient, '
                             'at least (edge_order + 1) elements are required.')
        g = np.moveaxis(raw(f), ax, 0)
        o = np.empty(f.shape, dtype=object)
        q = np.moveaxis(o, ax, 0)
        if np.ndim(d):
            d = aslike(d)
            if d.ndim != 1 or d.shape[0] != m:
                raise ValueError('when 1d, distances must match the length of the corresponding dimension')
            dd = list(raw(diff(d)))
            uniform = None
        else:
            uniform = num(A._elem(d))
            dd = [uniform] * (m - 1)
        sub, add, mul, div = S.sub, S.add, S.mul, S.truediv
        two = num(2.0)
        for p in np.ndindex(*g.shape[1:]):
            y = [num(g[(i,) + p]) for i in range(m)]
            for i in range(1, m - 1):
                if uniform is not None:
                    q[(i,) + p] = div(sub(y[i + 1], y[i - 1]), mul(two, uniform))
                else:
                    d1, d2 = dd[i - 1], dd[i]
                    s = add(d1, d2)
                    q[(i,) + p] = add(add(mul(div(S.neg(d2), mul(d1, s)), y[i - 1]),
                                          mul(div(sub(d2, d1), mul(d1, d2)), y[i])),
                                      mul(div(d1, mul(d2, s)), y[i + 1]))
            if edge_order == 1:
                q[(0,) + p] = div(sub(y[1], y[0]), dd[0])
                q[(m - 1,) + p] = div(sub(y[-1], y[-2]), dd[-1])
            elif uniform is not None:
                a, b, c = (div(num(v), uniform) for v in (-1.5, 2.0, -0.5))
                q[(0,) + p] = add(add(mul(a, y[0]), mul(b, y[1])), mul(c, y[2]))
                a, b, c = (div(num(v), uniform) for v in (0.5, -2.0, 1.5))
                q[(m - 1,) + p] = add(add(mul(a, y[-3]), mul(b, y[-2])), mul(c, y[-1]))
            else:
                d1, d2 = dd[0], dd[1]
                s = add(d1, d2)
                a = div(S.neg(add(mul(two, d1), d2)), mul(d1, s))
                b = div(s, mul(d1, d2))
                c = div(S.neg(d1), mul(d2, s))
                q[(0,) + p] = add(add(mul(a, y[0]), mul(b, y[1])), mul(c, y[2]))
                d1, d2 = dd[-2], dd[-1]
                s = add(d1, d2)
                a = div(d2, mul(d1, s))
                b = div(S.neg(s), mul(d1, d2))
                c = div(add(mul(two, d2), d1), mul(d2, s))
                q[(m - 1,) + p] = add(add(mul(a, y[-3]), mul(b, y[-2])), mul(c, y[-1]))
        outs.append(_normal(mk(o, f.dtype)))
    return outs[0] if len(outs) == 1 else outs


@h('trapz', 'trapezoid')
def trapz(y, x=None, dx=1.0, axis=-1):
    y = aslike(y)
    if y.ndim != 1:
        raise Unsupported('trapz nd')
    d = diff(aslike(x)) if x is not None else dx
    return sum_(d * (y[1:] + y[:-1]) / 2.0)


@h('interp')
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported('np.interp period')
    xs, xp, fp = aslike(x), raw(aslike(xp)), raw(aslike(fp))
    n = len(xp)

    def one(v):
        v = num(v)
        if bool(S.mkbool_cmp(v, xp[0], 'lt')):
            return num(left) if left is not None else num(fp[0])
        if bool(S.mkbool_cmp(v, xp[-1], 'gt')):
            return num(right) if right is not None else num(fp[-1])
        for i in range(n - 1):
            if i == n - 2 or bool(S.mkbool_cmp(v, xp[i + 1], 'lt')):
                return lerp(v, xp[i], xp[i + 1], fp[i], fp[i + 1])
        return num(fp[-1])
    if xs.ndim == 0:
        return one(raw(xs)[()])
    return mk(np.frompyfunc(one, 1, 1)(raw(xs)), F64)


def lerp(v, x0, x1, y0, y1):
    s = S.truediv(S.sub(num(y1), num(y0)), S.sub(num(x1), num(x0)))
    return S.add(S.mul(s, S.sub(num(v), num(x0))), num(y0))


# --------------------------------------------------------------------------
# products
def _mac(pairs):
    v = None
    for x, y in pairs:
        p = S.band(x, y) if S._boolish(x) and S._boolish(y) else S.mul(num(x), num(y))
        v = p if v is None else (S.bor(v, p) if S._boolish(p) and S._boolish(v) else S.add(num(v), num(p)))
    return v


@h('dot')
def dot(a, b, out=None):
    x, y = aslike(a), aslike(b)
    if x.ndim == 0 or y.ndim == 0:
        return np.multiply(a, b)
    rx, ry = raw(x), raw(y)
    dt = A._promote([x.dtype, y.dtype])
    if x.shape[-1] != y.shape[-2 if y.ndim > 1 else 0]:
        raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
    if y.ndim > 1:
        ry = np.moveaxis(ry, -2, -1)
    sa, sb = rx.shape[:-1], ry.shape[:-1]
    o = np.empty(sa + sb, dtype=object)
    for p in np.ndindex(*sa):
        for q in np.ndindex(*sb):
            v = _mac(zip(rx[p], ry[q]))
            o[p + q] = _nn_dot(rx[p], ry[q], v) if v is not None else num(0.0)
    if o.ndim == 0:
        return out_scalar(o[()])
    return _normal(mk(o, dt))


def _nn_dot(u, w, v):
    """mark v = u.w as non-negative when u and w are the same vector"""
    if isinstance(v, SymNum) and not S.is_special(v) and len(u) == len(w):
        for a, b in zip(u, w):
            if a is b:
                continue
            if not (isinstance(a, SymNum) and isinstance(b, SymNum)):
                return v
            if S._isterm(a.v) and S._isterm(b.v) and a.v.eq(b.v):
                continue
            if not S._isterm(a.v) and not S._isterm(b.v) and a.v == b.v:
                continue
            return v
        return SymNum(v.v, v.k, True)
    return v


@h('inner')
def inner(a, b):
    x, y = aslike(a), aslike(b)
    if x.ndim == 1 and y.ndim == 1:
        return dot(x, y)
    return dot(x, y.T if y.ndim == 2 else y)


@h('vdot')
def vdot(a, b):
    return dot(aslike(a).ravel(), aslike(b).ravel())


@h('outer')
def outer(a, b, out=None):
    return aslike(a).ravel()[:, np.newaxis] * aslike(b).ravel()[np.newaxis, :]


@h('matmul')
def matmul(a, b, out=None):
    x, y = aslike(a), aslike(b)
    if x.ndim == 0 or y.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if x.ndim <= 2 and y.ndim <= 2:
        return dot(x, y)
    raise Unsupported('matmul over stacks')


@h('cross')
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    x, y = aslike(a), aslike(b)
    if axis is not None and axis not in (-1, x.ndim - 1) or (axisa, axisb, axisc) != (-1, -1, -1):
        raise Unsupported('cross axis')
    if x.shape[-1] == 2 and y.shape[-1] == 2:
        return x[..., 0] * y[..., 1] - x[..., 1] * y[..., 0]
    if x.shape[-1] not in (2, 3) or y.shape[-1] not in (2, 3):
        raise ValueError('incompatible dimensions for cross product')
    g = lambda v, i: v[..., i] if i < v.shape[-1] else v[..., 0] * num(0.0)
    c = [g(x, 1) * g(y, 2) - g(x, 2) * g(y, 1), g(x, 2) * g(y, 0) - g(x, 0) * g(y, 2),
         g(x, 0) * g(y, 1) - g(x, 1) * g(y, 0)]
    return struct_call(np.stack, ([aslike(v) for v in c],), {'axis': -1})


@h('einsum')
def einsum(subs, *ops, **kw):
    if kw.pop('out', None) is not None:
        raise Unsupported('einsum out')
    if not isinstance(subs, str):
        raise Unsupported('einsum operand form')
    subs = subs.replace(' ', '')
    ops = [aslike(o) for o in ops]
    if '->' in subs:
        lhs, rhs = subs.split('->')
    else:
        lhs = subs
        rhs = ''.join(sorted(c for c in set(lhs.replace(',', '').replace('.', '')) if lhs.count(c) == 1))
        if '...' in lhs:
            rhs = '...' + rhs
    terms = lhs.split(',')
    if len(terms) != len(ops):
        raise ValueError('einsum: operand count mismatch')
    if '...' in lhs:
        nd = max(o.ndim - len(t.replace('...', '')) for t, o in zip(terms, ops) if '...' in t)
        letters = 'ABCDEFGHIJ'[:nd]
        nt = []
        for t, o in zip(terms, ops):
            if '...' in t:
                k = o.ndim - len(t.replace('...', ''))
                t = t.replace('...', letters[nd - k:])
            nt.append(t)
        terms = nt
        rhs = rhs.replace('...', letters)
    dims = {}
    for t, o in zip(terms, ops):
        if len(t) != o.ndim:
            raise ValueError('einstein sum subscripts string does not match the number of dimensions')
        for c, s in zip(t, o.shape):
            if dims.get(c, 1) != 1 and s != 1 and dims[c] != s:
                raise ValueError('operands could not be broadcast together')
            dims[c] = max(dims.get(c, 0), s) if s != 0 and dims.get(c, 1) != 0 else 0
    summed = [c for c in dims if c not in rhs]
    out = np.empty([dims[c] for c in rhs], dtype=object)
    rs = [raw(o) for o in ops]
    dt = A._promote([o.dtype for o in ops])
    for p in np.ndindex(*out.shape):
        env = dict(zip(rhs, p))
        acc, cols = num(0 if dt.kind in 'iu' else 0.0), [[] for _ in rs]
        for q in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, q))
            v = None
            for k, (t, r) in enumerate(zip(terms, rs)):
                x = r[tuple(env[c] if r.shape[i] != 1 else 0 for i, c in enumerate(t))]
                cols[k].append(x)
                v = num(x) if v is None else S.mul(v, num(x))
            acc = S.add(acc, v)
        if len(rs) == 2:
            acc = _nn_dot(cols[0], cols[1], acc)
        out[p] = acc
    if out.ndim == 0:
        return S.cast(out[()], dt)
    return _normal(mk(out, dt)) if dt.kind == 'f' else mk(out, dt).astype(dt)


@h('trace')
def trace(a, *args, **k):
    a = aslike(a)
    return sum_(mk(np.diagonal(raw(a)), a.dtype))


# --------------------------------------------------------------------------
# order and search (these decide comparisons by branching)
@h('nonzero')
def nonzero(a):
    a = aslike(a)
    m = decide_mask(raw(a if a.dtype == BOOL else a != 0))
    return np.nonzero(m)


@h('flatnonzero')
def flatnonzero(a):
    return nonzero(aslike(a).ravel())[0]


@h('argwhere')
def argwhere(a):
    a = aslike(a)
    return np.argwhere(decide_mask(raw(a if a.dtype == BOOL else a != 0)))


def _lt(a, b):
    a, b = num(a), num(b)
    if S.isnan(a):
        return False
    if S.isnan(b):
        return True
    return bool(S.mkbool_cmp(a, b, 'lt'))


def _order(keys, less):
    """stable order by insertion (branches on comparisons)"""
    out = []
    for i in range(len(keys)):
        j = len(out)
        while j > 0 and less(keys[i], keys[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return out


@h('argsort')
def argsort(a, axis=-1, kind=None, order=None, **k):
    a = aslike(a)
    if a.ndim == 0:
        return np.zeros(1, int)
    r = raw(a)
    if axis is None:
        r = r.reshape(-1)
        axis = 0
    ax = _axes(axis, r.ndim)[0]
    o = np.empty(r.shape, dtype=np.int64)
    m, q = np.moveaxis(r, ax, -1), np.moveaxis(o, ax, -1)
    for p in np.ndindex(*m.shape[:-1]):
        q[p] = _order(list(m[p]), _lt)
    return o


@h('sort')
def sort(a, axis=-1, kind=None, order=None, **k):
    a = aslike(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ix = argsort(a, axis)
    return mk(np.take_along_axis(raw(a), ix, axis), a.dtype)


@h('lexsort')
def lexsort(keys, axis=-1):
    ks = [raw(aslike(k)) for k in keys]
    n = len(ks[0])

    def less(i, j):
        for k in reversed(ks):
            if _lt(k[i], k[j]):
                return True
            if _lt(k[j], k[i]):
                return False
        return False
    return np.array(_order(list(range(n)), less), dtype=np.int64)


@h('argmin')
def argmin(a, axis=None, out=None, **k):
    return _argext(a, axis, _lt)


@h('argmax')
def argmax(a, axis=None, out=None, **k):
    return _argext(a, axis, lambda x, y: _lt(y, x))


def _argext(a, axis, less):
    a = aslike(a)
    if a.size == 0:
        raise ValueError('attempt to get argmin of an empty sequence')

    def one(v):
        b = 0
        for i in range(1, len(v)):
            if S.isnan(num(v[b])):
                break
            if S.isnan(num(v[i])) or less(v[i], v[b]):
                b = i
        return b
    r = raw(a)
    if a.dtype == BOOL:
        r = np.frompyfunc(num, 1, 1)(r)
    if axis is None:
        return np.int64(one(list(r.reshape(-1))))
    m = np.moveaxis(r, _axes(axis, r.ndim)[0], -1)
    o = np.empty(m.shape[:-1], dtype=np.int64)
    for p in np.ndindex(*o.shape):
        o[p] = one(list(m[p]))
    return o if o.ndim else o[()]


@h('searchsorted')
def searchsorted(a, v, side='left', sorter=None):
    a = raw(aslike(a))
    if sorter is not None:
        a = a[sorter]

    def one(x):
        i = 0
        while i < len(a) and (_lt(a[i], x) if side == 'left' else not _lt(x, a[i])):
            i += 1
        return i
    v = aslike(v)
    if v.ndim == 0:
        return np.int64(one(raw(v)[()]))
    o = np.empty(v.shape, dtype=np.int64)
    for p in np.ndindex(*v.shape):
        o[p] = one(raw(v)[p])
    return o


@h('digitize')
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


@h('unique')
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = aslike(ar)
    r = raw(a)
    if axis is None:
        rows = [(x,) for x in r.reshape(-1)]
    else:
        ax = _axes(axis, r.ndim)[0]
        m = np.moveaxis(r, ax, 0)
        rows = [tuple(m[i].reshape(-1)) for i in range(m.shape[0])]
    e = E.cur()
    lazy = e is not None and e.options.get('unique_order') == 'first' and not (return_index or return_inverse)

    def same(x, y):
        return bool(S.band(*[A._eq(p, q) for p, q in zip(x, y)]))

    def less(x, y):
        for p, q in zip(x, y):
            if _lt(p, q):
                return True
            if _lt(q, p):
                return False
        return False
    first, inv, cnt = [], [], []
    for i, x in enumerate(rows):
        for k2, j in enumerate(first):
            if same(rows[j], x):
                inv.append(k2)
                cnt[k2] += 1
                break
        else:
            first.append(i)
            cnt.append(1)
            inv.append(len(first) - 1)
    order = list(range(len(first))) if lazy else _order([rows[i] for i in first], less)
    index = np.array([first[o] for o in order], dtype=np.int64)
    if axis is None:
        vals = mk(r.reshape(-1)[index], a.dtype)
    else:
        vals = mk(np.take(r, index, axis=axis), a.dtype)
    out = [vals]
    if return_index:
        out.append(index)
    if return_inverse:
        rank = {o: i for i, o in enumerate(order)}
        out.append(np.array([rank[i] for i in inv], dtype=np.int64))
    if return_counts:
        out.append(np.array([cnt[o] for o in order], dtype=np.int64))
    return tuple(out) if len(out) > 1 else vals


@h('apply_along_axis')
def apply_along_axis(f, axis, a, *args, **kw):
    a = aslike(a)
    ax = _axes(axis, a.ndim)[0]
    m = mk(np.moveaxis(raw(a), ax, -1), a.dtype)
    res = [f(m[p], *args, **kw) for p in np.ndindex(*m.shape[:-1])]
    first = aslike(res[0])
    stack = arr([aslike(x) for x in res])
    out = stack.reshape(m.shape[:-1] + first.shape)
    if first.ndim:
        out = mk(np.moveaxis(raw(out), -1, ax), out.dtype)
    return out


@h('vectorize')
def vectorize(f, *a, **k):
    if 'signature' in k or 'excluded' in k:
        raise Unsupported('vectorize options')
    g = frompyfunc(f, 1, 1)

    def v(*args):
        r = g(*args)
        return r if not isinstance(r, SymArray) else arr(r.tolist())
    return v


@h('frompyfunc')
def frompyfunc(f, nin, nout):
    if nout != 1:
        raise Unsupported('frompyfunc with several results')

    def g(*args):
        b = np.broadcast_arrays(*[raw(aslike(x)) for x in args])
        o = np.empty(b[0].shape, dtype=object)
        for p in np.ndindex(*o.shape):
            o[p] = A._elem(f(*[x[p] for x in b]))
        return mk(o, A._promote([A.elem_dtype(x) for x in o.reshape(-1)]) if o.size else F64) if o.ndim else o[()]
    return g


for _n in ('may_share_memory', 'shares_memory'):
    HANDLERS[_n] = (lambda fn: lambda a, b, *x, **k: fn(raw(a), raw(b), *x, **k))(getattr(np, _n))


@h('result_type')
def result_type(*args):
    return np.result_type(*[a.dtype if is_sym(a) else a for a in args])


@h('can_cast')
def can_cast(f, t, casting='safe'):
    return np.can_cast(f.dtype if is_sym(f) else f, t, casting)


@h('put')
def put(a, ind, v, mode='raise'):
    np.put(raw(a), native_index(ind), raw(arr(v, a.dtype)), mode)


@h('copyto')
def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
    else:
        dst[where] = src


@h('fill_diagonal')
def fill_diagonal(a, val, wrap=False):
    for i in range(min(a.shape)):
        a[(i,) * a.ndim] = val


@h('isin', 'in1d')
def isin(el, test, **k):
    el, test = aslike(el), raw(aslike(test)).reshape(-1)
    f = lambda v: S.bor(*[A._eq(v, t) for t in test]) if len(test) else False
    if el.ndim == 0:
        return f(raw(el)[()])
    return mk(np.frompyfunc(f, 1, 1)(raw(el)), BOOL)


@h('extract')
def extract(cond, a):
    return aslike(a).ravel()[aslike(cond).ravel()]


@h('polyfit', 'percentile', 'quantile')
def _unsup(*a, **k):
    raise Unsupported('numpy function without a model')


# --------------------------------------------------------------------------
# linear algebra, exact
def _mat(a):
    r = raw(aslike(a))
    return np.frompyfunc(lambda v: S.cast(v, F64), 1, 1)(r) if r.size else r


def _det(m):
    n = m.shape[0]
    if n == 0:
        return num(1.0)
    if n == 1:
        return m[0, 0]
    if n == 2:
        return S.sub(S.mul(m[0, 0], m[1, 1]), S.mul(m[0, 1], m[1, 0]))
    tot = num(0.0)
    for j in range(n):
        minor = np.delete(m[1:], j, axis=1)
        t = S.mul(m[0, j], _det(minor))
        tot = S.add(tot, t) if j % 2 == 0 else S.sub(tot, t)
    return tot


@la('det')
def det(a):
    m = _mat(a)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return _det(m)


@la('norm')
def norm(x, ord=None, axis=None, keepdims=False):
    x = aslike(x)
    if x.dtype.kind in 'biu':
        x = x.astype(F64)
    if axis is None and ord is not None and x.ndim > 1:
        raise Unsupported('matrix norm')
    if isinstance(axis, tuple) and len(axis) == 1:
        axis = axis[0]
    if isinstance(axis, tuple) and ord is not None:
        raise Unsupported('matrix norm')
    if ord in (None, 2, 'fro'):
        r = np.square(x)
        return np.sqrt(sum_(r, axis=axis, keepdims=keepdims))
    if ord == 1:
        return sum_(np.absolute(x), axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return max_(np.absolute(x), axis=axis, keepdims=keepdims)
    if ord == -np.inf:
        return min_(np.absolute(x), axis=axis, keepdims=keepdims)
    raise Unsupported('norm order')


def _special(m):
    return any(S.is_special(num(v)) for v in m.reshape(-1))


@la('solve')
def solve(a, b):
    m = _mat(a)
    v = _mat(b)
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    if m.shape[0] != v.shape[0]:
        raise ValueError('solve: mismatch in core dimension')
    d = _det(m)
    if bool(S.mkbool_cmp(d, 0, 'eq')):
        raise np.linalg.LinAlgError('Singular matrix')
    cols = v.reshape(v.shape[0], -1)
    o = np.empty(cols.shape, dtype=object)
    for c in range(cols.shape[1]):
        for i in range(m.shape[0]):
            k = m.copy()
            k[:, i] = cols[:, c]
            o[i, c] = S.truediv(_det(k), d)
    return mk(o.reshape(v.shape), F64)


@la('inv')
def inv(a):
    m = _mat(a)
    return solve(a, arr(np.eye(m.shape[0])))


class Rank(SymNum):
    """rank of a matrix as a lazily compared integer: nz[k] = some k x k minor is nonzero"""
    __slots__ = ('nz',)

    def __init__(self, nz):
        self.nz = nz
        # value usable when a comparison is not with a constant
        t = z3.IntVal(0)
        for k in range(len(nz), 0, -1):
            pass
        SymNum.__init__(self, None, 'i', True)

    def _ge(self, k):
        k = int(k)
        if k <= 0:
            return True
        if k > len(self.nz):
            return False
        return self.nz[k - 1]()

    def force(self):
        r = 0
        while r < len(self.nz) and bool(self._ge(r + 1)):
            r += 1
        return r

    def _const(self, o):
        if isinstance(o, (int, np.integer)) and not isinstance(o, bool):
            return int(o)
        if isinstance(o, SymNum) and not isinstance(o, Rank) and not S._isterm(o.v) and o.v == int(o.v):
            return int(o.v)
        return None

    def _cmp(self, o, op):
        c = self._const(o)
        if c is None:
            return S.mkbool_cmp(num(self.force()), num(o.force() if isinstance(o, Rank) else o), op)
        if op == 'ge':
            return self._ge(c)
        if op == 'gt':
            return self._ge(c + 1)
        if op == 'lt':
            return S.bnot(self._ge(c))
        if op == 'le':
            return S.bnot(self._ge(c + 1))
        eq = S.band(self._ge(c), S.bnot(self._ge(c + 1)))
        return eq if op == 'eq' else S.bnot(eq)

    def __index__(self):
        return self.force()

    __int__ = __index__
    __hash__ = SymNum.__hash__

    def __array_ufunc__(self, *a, **k):
        ins = [x.force() if isinstance(x, Rank) else x for x in a[2:]]
        return getattr(a[0], a[1])(*ins, **k)


for _op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(Rank, '__%s__' % _op, (lambda op: lambda self, o: self._cmp(o, op))(_op))
for _op in ('add', 'sub', 'mul', 'radd', 'rsub', 'rmul'):
    setattr(Rank, '__%s__' % _op, (lambda op: lambda self, o: getattr(self.force(), '__%s__' % op)(o))(_op))


def _rank_above(m, tol):
    """number of singular values above tol: the positive eigenvalues of the Gram matrix minus
    tol^2, counted by Descartes' rule (exact, all roots are real)"""
    if m.shape[0] > m.shape[1]:
        m = m.T
    n = m.shape[0]
    if n > 3:
        raise Unsupported('matrix_rank with explicit tolerance')
    if bool(S.mkbool_cmp(tol, 0, 'lt')):
        return np.int64(n)
    g = raw(dot(mk(m, F64), mk(m.T, F64)))
    for i in range(n):
        g[i, i] = S.sub(g[i, i], S.mul(tol, tol))
    coef = [1]
    for k in range(1, n + 1):
        t = num(0.0)
        for ix in itertools.combinations(range(n), k):
            t = S.add(t, _det(g[np.ix_(ix, ix)]))
        if k % 2:
            t = S.neg(t)
        if bool(S.mkbool_cmp(t, 0, 'gt')):
            coef.append(1)
        elif bool(S.mkbool_cmp(t, 0, 'lt')):
            coef.append(-1)
    return np.int64(sum(a != b for a, b in zip(coef, coef[1:])))


@la('matrix_rank')
def matrix_rank(M, tol=None, hermitian=False, rtol=None):
    if rtol is not None:
        raise Unsupported('matrix_rank with relative tolerance')
    m = _mat(M)
    if m.ndim < 2:
        return np.int64(1) if bool(any_(mk(m, F64) != 0)) else np.int64(0)
    if m.size == 0:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    if _special(m):
        raise np.linalg.LinAlgError('SVD did not converge')
    r, c = m.shape
    cache = {}
    if tol is not None:
        if np.ndim(tol):
            raise Unsupported('matrix_rank with an array of tolerances')
        return _rank_above(m, num(A._elem(tol) if isinstance(tol, np.ndarray) else tol))

    def minor_nz(k):
        def f():
            if k not in cache:
                cache[k] = S.bor(*[S.mkbool_cmp(_det(m[np.ix_(rows, cols)]), 0, 'ne')
                                   for rows in itertools.combinations(range(r), k)
                                   for cols in itertools.combinations(range(c), k)])
            return cache[k]
        return f
    return Rank([minor_nz(k) for k in range(1, min(r, c) + 1)])


@la('lstsq')
def lstsq(a, b, rcond='warn'):
    m = _mat(a)
    v = _mat(b)
    if m.ndim != 2:
        raise np.linalg.LinAlgError('array must be two-dimensional')
    if v.shape[0] != m.shape[0]:
        raise np.linalg.LinAlgError('Incompatible dimensions')
    if _special(m) or _special(v):
        raise np.linalg.LinAlgError('SVD did not converge in Linear Least Squares')
    M, N = m.shape
    cols = v.reshape(M, -1)
    K = cols.shape[1]
    at = m.T
    ata = raw(dot(mk(at, F64), mk(m, F64)))
    atb = raw(dot(mk(at, F64), mk(cols, F64)))
    d = _det(ata)
    o = np.empty((N, K), dtype=object)
    res = mk(np.empty((0,), dtype=object), F64)
    rank = N
    if M >= N and not bool(S.mkbool_cmp(d, 0, 'eq')):
        for k in range(K):
            for i in range(N):
                t = ata.copy()
                t[:, i] = atb[:, k]
                o[i, k] = S.truediv(_det(t), d)
        if M > N:
            rr = np.empty((K,), dtype=object)
            for k in range(K):
                tot = num(0.0)
                for i in range(M):
                    e = S.sub(_mac(zip(m[i], o[:, k])), cols[i, k])
                    tot = S.add(tot, A._sq(e))
                rr[k] = SymNum(tot.v, 'f', True)
            res = mk(rr, F64)
    elif N == 1 or bool(all_(mk(m, F64) == 0)):
        o[...] = num(0.0)
        rank = 0
    elif N == 2 or M < N:
        if N > 2 or M < 1:
            raise Unsupported('rank-deficient lstsq')
        fro = num(0.0)
        for x in m.reshape(-1):
            fro = S.add(fro, A._sq(num(x)))
        for k in range(K):
            for i in range(N):
                o[i, k] = S.truediv(atb[i, k], fro)
        rank = 1
    else:
        raise Unsupported('rank-deficient lstsq')
    return mk(o.reshape((N,) + v.shape[1:]), F64), res, rank, mk(np.empty((0,), dtype=object), F64)


@la('matrix_norm', 'svd', 'eig', 'eigh', 'qr', 'pinv', 'cond', 'cholesky', 'eigvals')
def _la_unsup(*a, **k):
    raise Unsupported('numpy.linalg function without a model')


# --------------------------------------------------------------------------
# further functions, in terms of those above
@h('row_stack')
def row_stack(tup, **k):
    return HANDLERS['vstack'](tup, **k) if 'vstack' in HANDLERS else struct_call(np.vstack, (tup,), k)


@h('block')
def block(arrays):
    def depth(x):
        return 1 + depth(x[0]) if isinstance(x, list) else 0
    n = depth(arrays)
    nd = max(n, 1)

    def build(x, level):
        if isinstance(x, list):
            return concatenate_([build(y, level + 1) for y in x], -(n - level))
        x = aslike(x)
        return x.reshape((1,) * (nd - x.ndim) + x.shape) if x.ndim < nd else x
    return build(arrays, 0)


def concatenate_(xs, axis):
    return struct_call(np.concatenate, (xs,), {'axis': axis})


@h('convolve')
def convolve(a, v, mode='full'):
    a, v = aslike(a), aslike(v)
    if a.ndim > 1 or v.ndim > 1:
        raise ValueError('object too deep for desired array')
    if not a.size or not v.size:
        raise ValueError('a cannot be empty')
    dt = A._promote([a.dtype, v.dtype])
    x, y = raw(a).reshape(-1), raw(v).reshape(-1)
    if len(y) > len(x):
        x, y = y, x
    n, m = len(x), len(y)
    o = []
    for k in range(n + m - 1):
        t = 0
        for i in range(n):
            if 0 <= k - i < m:
                t = S.add(num(t), S.mul(num(x[i]), num(y[k - i])))
        o.append(t)
    if mode == 'same':
        o = o[(m - 1) // 2:(m - 1) // 2 + n]
    elif mode == 'valid':
        o = o[m - 1:n]
    elif mode != 'full':
        raise Unsupported('convolve mode')
    return arr(o, dt)


@h('correlate')
def correlate(a, v, mode='valid'):
    a, v = aslike(a), aslike(v)
    if len(v) > len(a):
        raise Unsupported('correlate with a longer second argument')
    return convolve(a, v[::-1], mode)


@h('median')
def median(a, axis=None, **k):
    a = aslike(a)
    if k or a.size == 0:
        raise Unsupported('median options')
    if axis is None:
        a, axis = a.ravel(), 0
    s = sort(a, axis=axis)
    n = s.shape[axis]
    s = s.swapaxes(0, axis) if s.ndim > 1 else s
    return s[n // 2] * 1.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


@h('select')
def select(condlist, choicelist, default=0):
    r = default
    for c, x in zip(reversed(list(condlist)), reversed(list(choicelist))):
        r = HANDLERS['where'](c, x, r)
    return r


@h('choose')
def choose(a, choices, out=None, mode='raise'):
    if out is not None or mode != 'raise':
        raise Unsupported('choose options')
    a = native_index(a)
    a = np.asarray(a)
    cs = [aslike(c) for c in choices]
    b = np.broadcast_arrays(a, *[raw(c) for c in cs])
    o = np.empty(b[0].shape, dtype=object)
    for p in np.ndindex(*o.shape):
        k = int(b[0][p])
        if not 0 <= k < len(cs):
            raise ValueError('invalid entry in choice array')
        o[p] = b[1 + k][p]
    return mk(o, A._promote([c.dtype for c in cs]))


@h('piecewise')
def piecewise(x, condlist, funclist, *args, **kw):
    x = aslike(x)
    cs = [aslike(c) for c in condlist] if not (is_sym(condlist) and aslike(condlist).ndim == x.ndim) else [condlist]
    fs = list(funclist)
    o = zeros(x.shape, x.dtype)
    if len(fs) == len(cs) + 1:
        rest = cs[0]
        for c in cs[1:]:
            rest = rest | c
        cs = cs + [~rest]
    if len(fs) != len(cs):
        raise ValueError('with %d condition(s), either %d or %d functions are expected' % (len(cs), len(cs), len(cs) + 1))
    for c, f in zip(cs, fs):
        if callable(f):
            v = x[c]
            if v.size:
                o[c] = f(v, *args, **kw)
        else:
            o[c] = f
    return o


@h('kron')
def kron(a, b):
    a, b = aslike(a), aslike(b)
    if a.ndim == b.ndim == 1:
        return (a[:, None] * b[None, :]).reshape(-1)
    if a.ndim == b.ndim == 2:
        return (a[:, None, :, None] * b[None, :, None, :]).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])
    raise Unsupported('kron of these dimensions')


@h('tensordot')
def tensordot(a, b, axes=2):
    a, b = aslike(a), aslike(b)
    if isinstance(axes, (int, np.integer)):
        ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ia, ib = axes
        ia = [ia] if isinstance(ia, (int, np.integer)) else list(ia)
        ib = [ib] if isinstance(ib, (int, np.integer)) else list(ib)
    ia, ib = [int(i) % a.ndim for i in ia], [int(i) % b.ndim for i in ib]
    ra = [i for i in range(a.ndim) if i not in ia]
    rb = [i for i in range(b.ndim) if i not in ib]
    if [a.shape[i] for i in ia] != [b.shape[i] for i in ib]:
        raise ValueError('shape-mismatch for sum')
    m = 1
    for i in ia:
        m *= a.shape[i]
    x = a.transpose(ra + ia).reshape(-1, m)
    y = b.transpose(ib + rb).reshape(m, -1)
    r = dot(x, y).reshape([a.shape[i] for i in ra] + [b.shape[i] for i in rb])
    return r if r.ndim else r[()]


@h('fmod')
def fmod(a, b):
    q = HANDLERS['trunc'](a / b) if 'trunc' in HANDLERS else proxy_ufunc('trunc')(a / b)
    return a - q * b


def proxy_ufunc(name):
    return _wrap_ufunc(getattr(np, name))


@h('divmod')
def divmod_(a, b):
    return proxy_ufunc('floor_divide')(a, b), proxy_ufunc('remainder')(a, b)


@h('modf')
def modf(a):
    t = proxy_ufunc('trunc')(a)
    return a - t, t * 1.0


@h('isreal')
def isreal(a):
    a = aslike(a)
    return np.ones(a.shape, dtype=bool) if a.ndim else True


@h('isneginf')
def isneginf(a):
    a = aslike(a)
    return proxy_ufunc('isinf')(a) & (a < 0)


@h('isposinf')
def isposinf(a):
    a = aslike(a)
    return proxy_ufunc('isinf')(a) & (a > 0)


@h('nanargmin', 'nanargmax')
def _nanarg(*a, **k):
    raise Unsupported('numpy function without a model')


@h('array_equiv')
def array_equiv(a, b):
    a, b = aslike(a), aslike(b)
    try:
        np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        return False
    return bool(all_(a == b))


@h('vander')
def vander(x, N=None, increasing=False):
    x = aslike(x)
    n = len(x) if N is None else N
    cols = [x ** k if k else x * 0 + 1 for k in range(n)]
    return HANDLERS['stack'](cols if increasing else cols[::-1], axis=1) if 'stack' in HANDLERS else struct_call(np.stack, (cols if increasing else cols[::-1],), {'axis': 1})


@h('polyval')
def polyval(p, x):
    r = aslike(x) * 0 if isinstance(x, (list, tuple, np.ndarray)) else 0
    for c in aslike(p):
        r = r * x + c
    return r


@h('require')
def require(a, dtype=None, requirements=None):
    return HANDLERS['asarray'](a, dtype)


@h('partition')
def partition(a, kth, axis=-1, **k):
    return sort(a, axis=axis)


@h('argpartition')
def argpartition(a, kth, axis=-1, **k):
    return HANDLERS['argsort'](a, axis=axis)


@h('union1d')
def union1d(a, b):
    return unique(concatenate_([aslike(a).ravel(), aslike(b).ravel()], 0))


@h('intersect1d')
def intersect1d(a, b, assume_unique=False, return_indices=False):
    if return_indices:
        raise Unsupported('intersect1d indices')
    u = unique(aslike(a))
    return u[isin(u, aslike(b))]


@h('setdiff1d')
def setdiff1d(a, b, assume_unique=False):
    u = unique(aslike(a))
    return u[~isin(u, aslike(b))]


@h('find_common_type', 'common_type')
def find_common_type(a, b=(), *more):
    if is_sym(a) or isinstance(a, np.ndarray):
        return np.float64
    return np.result_type(*(list(a) + list(b)))


@h('iterable')
def iterable(x):
    try:
        iter(x)
    except TypeError:
        return False
    return True


@h('nditer')
def nditer(a, *x, **k):
    if x or k:
        raise Unsupported('nditer options')
    return iter(aslike(a).ravel())


@la('slogdet')
def slogdet(a):
    raise Unsupported('numpy.linalg function without a model')


@la('multi_dot')
def multi_dot(arrays, out=None):
    arrays = list(arrays)
    r = dot(arrays[0], arrays[1])
    for x in arrays[2:]:
        r = dot(r, x)
    return r


@la('matrix_power')
def matrix_power(a, n):
    a = aslike(a)
    if n < 0:
        a, n = LA['inv'](a), -n
    r = eye(a.shape[0])
    for _ in range(n):
        r = dot(r, a)
    return r


# --------------------------------------------------------------------------
# the proxy modules
def _wrap_ufunc(u):
    class U:
        def __call__(self, *a, **k):
            # float inputs always take the exact path
            ins = [arr(x) if isinstance(x, (list, tuple)) else x for x in a]
            if any(is_sym(x) for x in ins) or is_sym(k.get('out')):
                return u(*ins, **k)
            if u.__name__ in A.UF and any(isinstance(x, (float, np.floating)) or
                                          isinstance(x, np.ndarray) and x.dtype.kind == 'f' for x in ins):
                return A.array_ufunc(u, '__call__', *[num(x) if not isinstance(x, np.ndarray) else arr(x) for x in ins], **k)
            return u(*ins, **k)

        def __getattr__(self, n):
            m = getattr(u, n)
            if n in ('reduce', 'accumulate', 'outer', 'at', 'reduceat'):
                return lambda *a, **k: m(*[arr(x) if isinstance(x, (list, tuple)) else x for x in a], **k)
            return m
    o = U()
    o.__name__ = u.__name__
    return o


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, MaskedSel))

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray)

    def __call__(cls, shape, dtype=float, *a, **k):
        return empty(shape if not isinstance(shape, list) or shape else (), dtype)


class ndarray_proxy(metaclass=_NdMeta):
    pass


def _native_fn(f):
    def g(*args, **kwargs):
        name = f.__name__
        if name in HANDLERS:
            return HANDLERS[name](*args, **kwargs)
        if contains_sym(args) or contains_sym(kwargs):
            return dispatch(f, args, kwargs)
        if name in STRUCT and args and not _all_int_native(args):
            return dispatch(f, args, kwargs)
        r = f(*args, **kwargs)
        return _lift_result(r)
    functools.update_wrapper(g, f, updated=())
    return g


def _all_int_native(args):
    a = args[0]
    if isinstance(a, np.ndarray):
        return a.dtype.kind in 'iub' and all(not isinstance(x, float) for x in args[1:])
    if isinstance(a, (list, tuple)) and a and all(isinstance(x, np.ndarray) and x.dtype.kind in 'iub' for x in a):
        return True
    return False


PREFER_NATIVE = set('''sum prod mean min max amin amax any all count_nonzero cumsum diff where clip dot nonzero
flatnonzero argwhere argsort sort argmin argmax searchsorted unique isin in1d array_equal outer
lexsort ptp'''.split())


def _maybe_native(handler, native):
    """integer/boolean native arrays (index bookkeeping) stay native"""
    def g(*args, **kwargs):
        if args and isinstance(args[0], np.ndarray) and not isinstance(args[0], SymArray) \
                and args[0].dtype.kind in 'iub' and not contains_sym(args) and not contains_sym(kwargs) \
                and not any(isinstance(x, float) for x in args):
            return native(*args, **kwargs)
        return handler(*args, **kwargs)
    g.__name__ = native.__name__
    return g


def _lift_result(r):
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray) and r.dtype.kind == 'f':
        return arr(r)
    if isinstance(r, tuple) and not hasattr(r, '_fields'):
        return tuple(_lift_result(x) for x in r)
    if isinstance(r, list):
        return [_lift_result(x) for x in r]
    return r


class Proxy(types.ModuleType):
    def __init__(self, name, target, table, over=None):
        super().__init__(name)
        self.__dict__['_target'] = target
        self.__dict__['_table'] = table
        self.__dict__.update(over or {})
        self.__path__ = []

    def __getattr__(self, n):
        if n.startswith('__') and n != '__version__':
            raise AttributeError(n)
        t = self._table
        if n in t:
            v = t[n]
            if self._target is np and n in PREFER_NATIVE:
                v = _maybe_native(v, getattr(np, n, None) or getattr(np, {'in1d': 'isin', 'trapz': 'trapezoid'}[n]))
        else:
            try:
                v = getattr(self._target, n)
            except AttributeError:
                if n in HANDLERS and self._target is np:
                    v = HANDLERS[n]
                else:
                    raise
            if isinstance(v, np.ufunc):
                v = _wrap_ufunc(v)
            elif isinstance(v, types.ModuleType):
                v = Proxy(self.__name__ + '.' + n, v, {})
            elif callable(v) and not isinstance(v, type):
                v = _native_fn(v)
        self.__dict__[n] = v
        return v


class _scalar_type_meta(type):
    pass


def build_numpy():
    over = {
        'bool': bool, 'object': object, 'int': int, 'float': float, 'str': str, 'complex': complex,
        'float_': np.float64, 'int_': np.int64, 'infty': np.inf, 'Inf': np.inf, 'Infinity': np.inf,
        'NaN': np.nan, 'NAN': np.nan, 'bool8': np.bool_,
        'ndarray': ndarray_proxy, '__version__': '1.19.5',
        'ComplexWarning': np.exceptions.ComplexWarning,
        'VisibleDeprecationWarning': np.exceptions.VisibleDeprecationWarning,
        'AxisError': np.exceptions.AxisError,
    }
    p = Proxy('numpy', np, {k: v for k, v in HANDLERS.items()}, over)
    for n in INFO:
        p.__dict__[n] = (lambda nm, fn: lambda a, *x, **k: fn(a, *x, **k))(n, INFO[n])
    p.__dict__['linalg'] = Proxy('numpy.linalg', np.linalg, LA)
    return p
