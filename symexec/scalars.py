"""Symbolic scalars: SymNum (exact real or integer, or a special float) and SymBool.

A SymNum is finite with an exact value (Fraction constant or z3 term) or one of
the concrete specials nan/+inf/-inf.  Whether an operation produces a special is
decided by branching, so that a term is always finite on its path.
"""
import math
import numbers
import operator
from fractions import Fraction

import numpy as np
import z3

from . import engine as E
from . import poly
from .engine import Unsupported, rat

NAN = float('nan')
INF = float('inf')


def _isterm(v):
    return isinstance(v, z3.ExprRef)


# --------------------------------------------------------------------------
# booleans
class SymBool:
    __slots__ = ('t',)
    size = 1
    ndim = 0
    shape = ()

    def __init__(self, t):
        self.t = t

    @property
    def dtype(self):
        return np.dtype(bool)

    def __bool__(self):
        return E.cur().branch(self.t)

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arrays
        return arrays.array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.dispatch(func, args, kwargs)

    def __and__(self, o):
        return band(self, o) if _boolish(o) else NotImplemented

    def __or__(self, o):
        return bor(self, o) if _boolish(o) else NotImplemented

    def __xor__(self, o):
        return bxor(self, o) if _boolish(o) else NotImplemented

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        if _boolish(o):
            return bnot(bxor(self, o))
        return num(self) == o

    def __ne__(self, o):
        return bnot(self.__eq__(o))

    def __hash__(self):
        return 0

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __float__(self):
        return float(int(self))

    def __add__(self, o):
        return num(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return num(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return num(self) - o

    def __rsub__(self, o):
        return o - num(self)

    def __lt__(self, o):
        return num(self) < o

    def __le__(self, o):
        return num(self) <= o

    def __gt__(self, o):
        return num(self) > o

    def __ge__(self, o):
        return num(self) >= o

    def any(self, *a, **k):
        return self

    all = any

    def item(self):
        return self

    def astype(self, dt, **k):
        return cast(self, np.dtype(dt))

    def __repr__(self):
        return '<symbool>'

    def __format__(self, spec):
        return '<symbool>'


def _boolish(x):
    return isinstance(x, (bool, np.bool_, SymBool))


def bterm(x):
    """z3 Bool or python bool of a boolish"""
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymNum):
        return bterm(x != 0)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bterm(x.view(np.ndarray)[()])
    return bool(x)


def mkbool(t):
    if t is True or t is False:
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def band(*xs):
    ts = []
    for x in xs:
        t = bterm(x)
        if t is False:
            return False
        if t is not True:
            ts.append(t)
    if not ts:
        return True
    return mkbool(ts[0] if len(ts) == 1 else z3.And(ts))


def bor(*xs):
    ts = []
    for x in xs:
        t = bterm(x)
        if t is True:
            return True
        if t is not False:
            ts.append(t)
    if not ts:
        return False
    return mkbool(ts[0] if len(ts) == 1 else z3.Or(ts))


def bnot(x):
    t = bterm(x)
    if t is True or t is False:
        return not t
    return mkbool(z3.Not(t))


def bxor(a, b):
    a, b = bterm(a), bterm(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool):
        a, b = b, a
    if isinstance(b, bool):
        return bnot(mkbool(a)) if b else mkbool(a)
    return mkbool(z3.Xor(a, b))


# --------------------------------------------------------------------------
# numbers
class SymNum:
    """v: Fraction | z3 Arith term | float nan/inf;  k: 'f' or 'i';  nn: known >= 0"""
    __slots__ = ('v', 'k', 'nn')
    size = 1
    ndim = 0
    shape = ()
    imag = 0

    def __init__(self, v, k='f', nn=False):
        self.v = v
        self.k = k
        self.nn = nn

    # -- numpy scalar protocol
    @property
    def dtype(self):
        return np.dtype(np.float64 if self.k == 'f' else np.int64)

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        from . import arrays
        return arrays.array_ufunc(ufunc, method, *inputs, **kwargs)

    def __array_function__(self, func, types, args, kwargs):
        from . import npshim
        return npshim.dispatch(func, args, kwargs)

    def item(self, *a):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def squeeze(self, *a, **k):
        return self

    def astype(self, dt, **k):
        return cast(self, np.dtype(dt))

    def conjugate(self):
        return self

    def is_integer(self):
        return mkbool_cmp(self - floor_(self), 0, 'eq')

    def sum(self, *a, **k):
        return self

    max = min = mean = sum

    def round(self, decimals=0):
        return round_(self, decimals)

    # -- concretising conversions
    def __float__(self):
        if not _isterm(self.v):
            return float(self.v)
        return float(E.cur().concretise_real(rterm(self)))

    def __int__(self):
        if not _isterm(self.v):
            return int(self.v)
        return E.cur().concretise_int(trunc_(self).v)

    def __index__(self):
        if self.k != 'i':
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        if not _isterm(self.v):
            return int(self.v)
        return E.cur().concretise_int(self.v)

    def __complex__(self):
        raise Unsupported('complex()')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        return 0

    # -- arithmetic
    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return abs_(self)

    def __round__(self, ndigits=None):
        return round_(self, ndigits, py=True)

    def __floor__(self):
        return cast(floor_(self), np.dtype(np.int64))

    def __ceil__(self):
        return cast(neg(floor_(neg(self))), np.dtype(np.int64))

    def __trunc__(self):
        return cast(self, np.dtype(np.int64))

    def __repr__(self):
        return str(float(self.v)) if not _isterm(self.v) else '<sym>'

    def __format__(self, spec):
        return repr(self)

    def __divmod__(self, o):
        return self // o, self % o


numbers.Real.register(SymNum)


def _binop(fn, rev=False):
    if rev:
        def op(self, o):
            o = num_or_none(o)
            return NotImplemented if o is None else fn(o, self)
    else:
        def op(self, o):
            o = num_or_none(o)
            return NotImplemented if o is None else fn(self, o)
    return op


def num_or_none(x):
    if isinstance(x, SymNum):
        return x
    if isinstance(x, (bool, np.bool_, SymBool, int, float, Fraction, np.integer, np.floating)):
        return num(x)
    return None


def num(x):
    """lift to SymNum"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return SymNum(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)), 'i', True)
    if isinstance(x, (bool, np.bool_)):
        return SymNum(Fraction(int(x)), 'i', bool(x) or True)
    if isinstance(x, (int, np.integer)):
        return SymNum(Fraction(int(x)), 'i', x >= 0)
    if isinstance(x, Fraction):
        return SymNum(x, 'f', x >= 0)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            return SymNum(x, 'f', x == INF)
        return SymNum(Fraction(x), 'f', x >= 0)
    if isinstance(x, z3.ArithRef):
        return SymNum(x, 'i' if x.is_int() else 'f')
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return num(x.view(np.ndarray)[()])
    if hasattr(x, '__float__') and not isinstance(x, (str, bytes)):
        f = x.__float__()
        return num(f)
    raise TypeError('cannot lift %r to a number' % type(x))


def is_special(a):
    return isinstance(a.v, float)


def rterm(a):
    """z3 Real term of a finite SymNum"""
    v = a.v
    if _isterm(v):
        return z3.ToReal(v) if v.is_int() else v
    return rat(v)


def iterm(a):
    v = a.v
    if _isterm(v):
        return v if v.is_int() else z3.ToInt(v)
    return z3.IntVal(int(v))


def _kind(a, b):
    return 'i' if a.k == 'i' and b.k == 'i' else 'f'


def _pair(a, b):
    """terms of compatible sort"""
    if a.k == 'i' and b.k == 'i':
        return iterm(a), iterm(b)
    return rterm(a), rterm(b)


def _sgn(a):
    """decided sign of a: -1, 0, 1 (branches)"""
    if isinstance(a.v, float):
        return 1 if a.v > 0 else -1
    if not _isterm(a.v):
        return (a.v > 0) - (a.v < 0)
    e = E.cur()
    if e.branch(a.v > 0):
        return 1
    if a.nn:
        return 0
    return 0 if e.branch(a.v == 0) else -1


def add(a, b):
    k = _kind(a, b)
    if is_special(a) or is_special(b):
        return SymNum(_spv(a) + _spv(b), 'f')
    if not _isterm(a.v) and not _isterm(b.v):
        return SymNum(a.v + b.v, k, a.v + b.v >= 0)
    if not _isterm(a.v) and a.v == 0 and k == b.k:
        return b
    if not _isterm(b.v) and b.v == 0 and k == a.k:
        return a
    x, y = _pair(a, b)
    return SymNum(x + y, k, a.nn and b.nn)


def _spv(a):
    return a.v if isinstance(a.v, float) else 0.0


def neg(a):
    if not _isterm(a.v):
        return SymNum(-a.v, a.k, a.v <= 0)
    return SymNum(-a.v, a.k)


def sub(a, b):
    if _isterm(a.v) and _isterm(b.v) and a.k == b.k and a.v.eq(b.v):
        return SymNum(Fraction(0), a.k, True)
    k = _kind(a, b)
    if is_special(a) or is_special(b):
        return SymNum(_spv(a) - _spv(b), 'f')
    if not _isterm(a.v) and not _isterm(b.v):
        return SymNum(a.v - b.v, k, a.v >= b.v)
    if not _isterm(b.v) and b.v == 0 and k == a.k:
        return a
    x, y = _pair(a, b)
    return SymNum(x - y, k)


def mul(a, b):
    k = _kind(a, b)
    if is_special(a) or is_special(b):
        if (is_special(a) and math.isnan(a.v)) or (is_special(b) and math.isnan(b.v)):
            return SymNum(NAN)
        s = _sgn(a) * _sgn(b)
        return SymNum(NAN if s == 0 else s * INF)
    if not _isterm(a.v) and not _isterm(b.v):
        return SymNum(a.v * b.v, k, a.v * b.v >= 0)
    for x, y in ((a, b), (b, a)):
        if not _isterm(x.v):
            if x.v == 0:
                return SymNum(Fraction(0), k, True)
            if x.v == 1 and y.k == k:
                return y
    x, y = _pair(a, b)
    return SymNum(x * y, k, (a.nn and b.nn) or (_isterm(a.v) and _isterm(b.v) and a.v.eq(b.v)))


def canon(x):
    """a normal form of polynomials, used to recognise equal ones"""
    c = z3.simplify(x, som=True, som_blowup=64, sort_sums=True)
    E.cur().keep.append(c)
    return c


def _quot(x, y):
    """Real term for x / y, y nonzero on this path (x, y Real terms)"""
    e = E.cur()
    x, y = z3.simplify(x), z3.simplify(y)
    if z3.is_rational_value(y):
        return x / y
    if x.eq(y):
        return rat(1)
    key = ('q', x.get_id(), y.get_id())
    if key in e.cache:
        return e.cache[key]
    e.keep += [x, y]
    cx, cy = canon(x), canon(y)
    if z3.is_rational_value(cy):
        q = e.cache[key] = z3.simplify(x / cy)
        return q
    ckey = ('qc', cx.get_id(), cy.get_id())
    q = e.cache.get(ckey)
    if q is None:
        q, sig = poly.known(e, 'q', x, y)
        if q is not None:
            e.cache[ckey] = q
    if q is None:
        q = e.fresh_real('q')
        e.define(q * y == x)
        e.defs.append(('q', q, x, y))
        poly.file(e, sig, e.defs[-1])
        for t in (q * y - x, x - q * y):
            e.zeros.add(canon(t).get_id())
        e.cache[ckey] = q
    e.cache[key] = q
    return q


def truediv(a, b):
    if is_special(a) or is_special(b):
        if (is_special(a) and math.isnan(a.v)) or (is_special(b) and math.isnan(b.v)):
            return SymNum(NAN)
        if is_special(b):
            return SymNum(NAN) if is_special(a) else SymNum(Fraction(0), 'f', True)
        s = _sgn(b)
        return SymNum(a.v if s >= 0 else -a.v)
    if not _isterm(b.v):
        if b.v == 0:
            s = _sgn(a)
            return SymNum(NAN if s == 0 else s * INF)
        if not _isterm(a.v):
            return SymNum(a.v / b.v, 'f', a.v / b.v >= 0)
        return SymNum(rterm(a) / rat(b.v), 'f', a.nn and b.v > 0)
    if not _isterm(a.v) and a.v == 0:
        # 0/b is 0 or nan
        if E.cur().branch(b.v == 0):
            return SymNum(NAN)
        return SymNum(Fraction(0), 'f', True)
    if E.cur().branch(b.v == 0):
        s = _sgn(a)
        return SymNum(NAN if s == 0 else s * INF)
    return SymNum(_quot(rterm(a), rterm(b)), 'f', a.nn and b.nn)


def floor_(a):
    """floor, keeps float kind"""
    if is_special(a):
        return a
    if a.k == 'i':
        return a
    if not _isterm(a.v):
        return SymNum(Fraction(math.floor(a.v)), 'f', a.v >= 0)
    return SymNum(z3.ToReal(z3.ToInt(a.v)), 'f', a.nn)


def ceil_(a):
    return neg(floor_(neg(a)))


def trunc_(a):
    """int kind, truncation toward zero"""
    if a.k == 'i':
        return a
    if is_special(a):
        raise ValueError('cannot convert float special to integer')
    if not _isterm(a.v):
        return SymNum(Fraction(int(a.v)), 'i', a.v >= 0)
    if a.nn:
        return SymNum(z3.ToInt(a.v), 'i', True)
    return SymNum(z3.If(a.v >= 0, z3.ToInt(a.v), -z3.ToInt(-a.v)), 'i')


def round_(a, nd=None, py=False):
    """half-to-even; py and nd None -> int kind"""
    if is_special(a):
        return a
    scale = Fraction(10) ** (nd or 0)
    if not _isterm(a.v):
        r = Fraction(round(a.v * scale)) / scale
        return SymNum(r, 'i' if (py and nd is None) or a.k == 'i' else 'f', r >= 0)
    if a.k == 'i':
        return a
    x = a.v * rat(scale) if scale != 1 else a.v
    f = z3.ToInt(x)
    fr = x - z3.ToReal(f)
    half = z3.Q(1, 2)
    r = z3.If(fr < half, f, z3.If(fr > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    if py and nd is None:
        return SymNum(r, 'i', a.nn)
    rr = z3.ToReal(r)
    return SymNum(rr / rat(scale) if scale != 1 else rr, 'f', a.nn)


def floordiv(a, b):
    q = truediv(a, b)
    if is_special(q):
        if _kind(a, b) == 'i':
            return SymNum(Fraction(0), 'i')
        return q
    r = floor_(q)
    if _kind(a, b) == 'i':
        return trunc_(r)
    return r


def mod(a, b):
    return sub(a, mul(floordiv(a, b), b))


def sqrt(a):
    if is_special(a):
        return SymNum(INF) if a.v == INF else SymNum(NAN)
    if not _isterm(a.v):
        if a.v < 0:
            return SymNum(NAN)
        n, d = a.v.numerator, a.v.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return SymNum(Fraction(rn, rd), 'f', True)
        x = rat(a.v)
    else:
        x = rterm(a)
        if not a.nn and E.cur().branch(x < 0):
            return SymNum(NAN)
    e = E.cur()
    x = z3.simplify(x)
    key = ('s', x.get_id())
    if key in e.cache:
        return e.cache[key]
    e.keep.append(x)
    # equal polynomials have the same root
    cx = canon(x)
    if z3.is_rational_value(cx) and _isterm(a.v):
        r = e.cache[key] = sqrt(SymNum(Fraction(cx.numerator_as_long(), cx.denominator_as_long()), 'f'))
        return r
    ckey = ('sc', cx.get_id())
    r = e.cache.get(ckey)
    if r is None:
        s, sig = poly.known(e, 's', x)
        if s is not None:
            r = e.cache[ckey] = SymNum(s, 'f', True)
    if r is None:
        s = e.fresh_real('s')
        e.define(s >= 0)
        e.define(s * s == x)
        e.defs.append(('s', s, x))
        poly.file(e, sig, e.defs[-1])
        for t in (s * s - x, x - s * s):
            e.zeros.add(canon(t).get_id())
        r = e.cache[ckey] = SymNum(s, 'f', True)
    e.cache[key] = r
    return r


def power(a, b):
    if not is_special(b) and not _isterm(b.v):
        p = b.v
        k = _kind(a, b)
        if p.denominator == 1 and abs(p) <= 8:
            n = int(abs(p))
            r = SymNum(Fraction(1), k, True)
            for _ in range(n):
                r = mul(r, a) if _ else SymNum(a.v, k if a.k == 'f' or k == 'i' else 'f', a.nn)
            if n and n % 2 == 0 and not r.nn:
                r = SymNum(r.v, r.k, True)
            if a.k == 'i' and k == 'f':
                r = cast(r, np.dtype(float))
            return r if p >= 0 else truediv(num(Fraction(1)), r)
        if p.denominator == 2 and abs(p) <= 8:
            s = sqrt(a)
            r = num(Fraction(1))
            for _ in range(int(abs(p) * 2)):
                r = mul(r, s)
            return r if p >= 0 else truediv(num(Fraction(1)), r)
    if not _isterm(a.v) and not _isterm(b.v):
        return num(float(a.v) ** float(b.v))
    raise Unsupported('power with a symbolic exponent')


def abs_(a):
    if not _isterm(a.v):
        return SymNum(abs(a.v), a.k, True)
    if a.nn:
        return a
    return SymNum(z3.If(a.v >= 0, a.v, -a.v), a.k, True)


def sign(a):
    if is_special(a):
        return a if math.isnan(a.v) else num(1.0 if a.v > 0 else -1.0)
    if not _isterm(a.v):
        return SymNum(Fraction((a.v > 0) - (a.v < 0)), a.k)
    one, zero = (z3.IntVal(1), z3.IntVal(0)) if a.v.is_int() else (rat(1), rat(0))
    return SymNum(z3.If(a.v > 0, one, z3.If(a.v == 0, zero, -one)), a.k)


_CMP = {'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge,
        'eq': operator.eq, 'ne': operator.ne}


def mkbool_cmp(a, b, op):
    a, b = num(a), num(b)
    if is_special(a) or is_special(b):
        if (is_special(a) and math.isnan(a.v)) or (is_special(b) and math.isnan(b.v)):
            return op == 'ne'
        return bool(_CMP[op](_spv(a), _spv(b)))
    if not _isterm(a.v) and not _isterm(b.v):
        return bool(_CMP[op](a.v, b.v))
    if _isterm(a.v) and _isterm(b.v) and a.v.eq(b.v):
        return op in ('le', 'ge', 'eq')
    if a.nn and not _isterm(b.v):
        if b.v < 0 or (b.v == 0 and op in ('lt', 'ge')):
            if op in ('lt', 'le', 'eq'):
                return False
            return True
    x, y = _pair(a, b)
    t = x != y if op == 'ne' else _CMP[op](x, y)
    return mkbool(t)


def ite(c, a, b):
    """symbolic if-then-else on numbers or booleans"""
    c = bterm(c)
    if c is True:
        return a
    if c is False:
        return b
    if _boolish(a) and _boolish(b):
        ta, tb = bterm(a), bterm(b)
        if isinstance(ta, bool) and isinstance(tb, bool) and ta == tb:
            return ta
        f = lambda t: z3.BoolVal(t) if isinstance(t, bool) else t
        return mkbool(z3.simplify(z3.If(c, f(ta), f(tb))))
    na, nb = num_or_none(a), num_or_none(b)
    if na is None or nb is None:
        return a if E.cur().branch(c) else b
    if is_special(na) or is_special(nb):
        return na if E.cur().branch(c) else nb
    if not _isterm(na.v) and not _isterm(nb.v) and na.v == nb.v and na.k == nb.k:
        return na
    x, y = _pair(na, nb)
    if x.eq(y):
        return na
    return SymNum(z3.If(c, x, y), _kind(na, nb), na.nn and nb.nn)


def minimum(a, b):
    a, b = num(a), num(b)
    for x in (a, b):
        if is_special(x) and math.isnan(x.v):
            return x
    return ite(mkbool_cmp(a, b, 'le'), a, b)


def maximum(a, b):
    a, b = num(a), num(b)
    for x in (a, b):
        if is_special(x) and math.isnan(x.v):
            return x
    r = ite(mkbool_cmp(a, b, 'ge'), a, b)
    if isinstance(r, SymNum) and (a.nn or b.nn) and not r.nn:
        r = SymNum(r.v, r.k, True)
    return r


def isnan(a):
    return is_special(a) and math.isnan(a.v)


def isinf(a):
    return is_special(a) and math.isinf(a.v)


def isfinite(a):
    return not is_special(a)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = num(a), num(b)
    if is_special(a) or is_special(b):
        if isnan(a) or isnan(b):
            return bool(equal_nan) and isnan(a) and isnan(b)
        return mkbool_cmp(a, b, 'eq')
    return mkbool_cmp(abs_(sub(a, b)), add(num(atol), mul(num(rtol), abs_(b))), 'le')


# uninterpreted functions ---------------------------------------------------
_F32 = z3.Function('f32', z3.RealSort(), z3.RealSort())


def uf(name, *args):
    args = [num(a) for a in args]
    if any(is_special(a) for a in args):
        return SymNum(NAN)
    f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
    return SymNum(z3.simplify(f(*[rterm(a) for a in args])), 'f')


def wrap(a, dt):
    """an integer result in a dtype narrower than 64 bits (those of 64 bits are taken as unbounded)"""
    if dt.itemsize >= 8 or is_special(a) or a.k != 'i':
        return a
    i = np.iinfo(dt)
    lo, hi = int(i.min), int(i.max)
    m = hi - lo + 1
    if not _isterm(a.v):
        return a if lo <= a.v <= hi else SymNum(Fraction((int(a.v) - lo) % m + lo), 'i')
    if E.cur().branch(z3.And(a.v >= lo, a.v <= hi)):
        return a
    return SymNum(z3.simplify((a.v - lo) % m + lo), 'i')


def cast(x, dt):
    """element conversion as ndarray.astype(dt)"""
    kind = dt.kind
    if kind == 'b':
        if _boolish(x):
            return bool(x) if not isinstance(x, SymBool) else x
        return num(x) != 0
    if kind == 'O':
        return x
    a = num(x)
    if kind == 'f':
        if is_special(a):
            return a
        if dt.itemsize == 8:
            if a.k == 'f':
                return a
            return SymNum(z3.ToReal(a.v) if _isterm(a.v) else a.v, 'f', a.nn)
        # narrower float: exact for constants, uninterpreted rounding for terms
        if not _isterm(a.v):
            return num(float(dt.type(float(a.v))))
        if a.k == 'i':
            return SymNum(z3.ToReal(a.v), 'f', a.nn)
        t = a.v
        if t.decl().name() == 'f32' or z3.is_to_real(t):
            return a                 # integers are assumed to stay below 2**24
        return SymNum(_F32(z3.simplify(t)), 'f', a.nn)
    if kind in 'iu':
        if is_special(a):
            return SymNum(Fraction(-2 ** 63), 'i')
        return wrap(trunc_(a), dt)
    if kind == 'c':
        raise Unsupported('complex dtype')
    raise Unsupported('cast to %s' % dt)


def f32(x):
    return cast(x, np.dtype(np.float32))


# trigonometry: uninterpreted with the identities the properties need -------
def sin(a):
    return _trig('sin', a)


def cos(a):
    return _trig('cos', a)


def _trig(name, a):
    a = num(a)
    if is_special(a):
        return SymNum(NAN)
    if not _isterm(a.v) and a.v == 0:
        return num(0.0 if name == 'sin' else 1.0)
    e = E.cur()
    x = z3.simplify(rterm(a))
    key = ('trig', x.get_id())
    if key not in e.cache:
        s, c = e.fresh_real('sin'), e.fresh_real('cos')
        e.keep.append(x)
        e.define(s * s + c * c == 1)
        e.defs.append(('fn', s, 'sin', x))
        e.defs.append(('fn', c, 'cos', x))
        # functional consistency against the other arguments seen on this path
        for (s2, c2, x2) in e.cache.setdefault('trigs', []):
            e.add(z3.Implies(x == x2, z3.And(s == s2, c == c2)))
        e.cache['trigs'].append((s, c, x))
        e.cache[key] = (s, c)
        e.cache['has_fn'] = True
    s, c = e.cache[key]
    return SymNum(s if name == 'sin' else c, 'f')


def arccos(a):
    """acos over [-1,1]; uninterpreted, strictly decreasing, acos(-x)=pi-acos(x)"""
    a = num(a)
    if is_special(a):
        return SymNum(NAN)
    e = E.cur()
    PI = Fraction(math.pi)
    if not _isterm(a.v):
        if a.v > 1 or a.v < -1:
            return SymNum(NAN)
        return num(math.acos(float(a.v)))
    if e.branch(z3.Or(a.v > 1, a.v < -1)):
        return SymNum(NAN)
    x = z3.simplify(rterm(a))
    key = ('acos', x.get_id())
    if key in e.cache:
        return e.cache[key]
    r = e.fresh_real('acos')
    e.keep.append(x)
    e.cache['has_fn'] = True
    e.defs.append(('fn', r, 'acos', x))
    e.add(z3.And(r >= 0, r <= rat(PI)))
    half = rat(PI / 2)
    pts = [(rat(1), rat(0)), (rat(-1), rat(PI)), (rat(0), half)]
    for x2, r2 in pts + e.cache.get('acoss', []):
        e.add(z3.And((x < x2) == (r > r2), (x == x2) == (r == r2)))
        e.add((x == -x2) == (r == rat(PI) - r2))
        e.add((x < -x2) == (r > rat(PI) - r2))
    e.cache.setdefault('acoss', []).append((x, r))
    out = SymNum(r, 'f', True)
    e.cache[key] = out
    return out


for _n, _f in (('add', add), ('sub', sub), ('mul', mul), ('truediv', truediv),
               ('floordiv', floordiv), ('mod', mod), ('pow', power)):
    setattr(SymNum, '__%s__' % _n, _binop(_f))
    setattr(SymNum, '__r%s__' % _n, _binop(_f, True))
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(SymNum, '__%s__' % _n, _binop(lambda a, b, _n=_n: mkbool_cmp(a, b, _n)))
