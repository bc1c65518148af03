"""Outward-rounded interval bounds of terms, from the constant bounds of their variables on the path.

A condition which is true (false) for every value within the bounds is decided without asking the
solver; everything else goes to the solver.  Bounds come from facts of the path condition of the
form  variable <= constant  and from the definitions of roots and quotients."""
import math
from fractions import Fraction

import z3

INF = math.inf
ALL = (-INF, INF)
FLIP = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}


def down(x):
    return math.nextafter(x, -INF)


def up(x):
    return math.nextafter(x, INF)


def const(f):
    try:
        x = float(f)
    except OverflowError:
        return ALL
    if math.isinf(x):
        return ALL
    return (x, x) if Fraction(x) == f else (down(x), up(x))


def add(a, b):
    lo, hi = a[0] + b[0], a[1] + b[1]
    if lo != lo or hi != hi:
        return ALL
    return down(lo), up(hi)


def neg(a):
    return -a[1], -a[0]


def prod(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def mul(a, b):
    if a == (1.0, 1.0):
        return b
    if b == (1.0, 1.0):
        return a
    p = [prod(x, y) for x in a for y in b]
    lo, hi = min(p), max(p)
    return (lo if lo == 0 and 0.0 in a + b else down(lo)), (hi if hi == 0 and 0.0 in a + b else up(hi))


def power(a, n):
    r = (1.0, 1.0)
    if n % 2 == 0 and a[0] < 0:
        a = (0.0, max(-a[0], a[1])) if a[1] > 0 else (-a[1], -a[0])
    for _ in range(n):
        r = mul(r, a)
    if n % 2 == 0 and r[0] < 0:
        r = (0.0, r[1])
    return r


def div(a, b):
    if b[0] <= 0 <= b[1]:
        return ALL
    inv = (0.0 if math.isinf(b[1]) else down(1 / b[1]), 0.0 if math.isinf(b[0]) else up(1 / b[0]))
    return mul(a, inv)


def root(a):
    lo, hi = max(a[0], 0.0), max(a[1], 0.0)
    return (max(0.0, down(math.sqrt(lo))) if lo > 0 else 0.0), (hi if math.isinf(hi) else up(math.sqrt(hi)))


class Bounds:
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.var = {}         # id of a constant -> bounds from facts
        self.defs = {}
        self.nd = self.nf = 0

    def load(self, e):
        for d in e.defs[self.nd:]:
            self.defs[d[1].get_id()] = d
        self.nd = len(e.defs)
        for c in e.pc[self.nf:]:
            self.fact(c)
        self.nf = len(e.pc)

    def fact(self, c):
        k = c.decl().kind()
        if k == z3.Z3_OP_AND:
            for x in c.children():
                self.fact(x)
            return
        n = False
        if k == z3.Z3_OP_NOT:
            n, c = True, c.arg(0)
            k = c.decl().kind()
        if k not in FLIP:
            return
        a, b = c.arg(0), c.arg(1)
        if self.number(b) is None:
            a, b, k = b, a, FLIP[k]
        v = self.number(b)
        if v is None or self.number(a) is not None:
            return
        ge = (k in (z3.Z3_OP_GE, z3.Z3_OP_GT)) != n
        f = Fraction(1)
        if a.decl().kind() == z3.Z3_OP_MUL and a.num_args() == 2 and self.number(a.arg(0)) is not None:
            f = self.number(a.arg(0))
            a = a.arg(1)
        if a.decl().kind() == z3.Z3_OP_TO_REAL:
            a = a.arg(0)
        if a.num_args() or f == 0:
            return
        v = v / f
        if f < 0:
            ge = not ge
        lo, hi = const(v)
        i = a.get_id()
        self.keep.append(a)
        o = self.var.get(i, ALL)
        self.var[i] = (max(o[0], lo), o[1]) if ge else (o[0], min(o[1], hi))
        self.memo.pop(i, None)

    @staticmethod
    def number(t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
        return None

    def of(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            self.keep.append(t)
            r = self.memo[i] = self._of(t)
        return r

    def _of(self, t):
        v = self.number(t)
        if v is not None:
            return const(v)
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = self.of(t.arg(0))
            for c in t.children()[1:]:
                r = add(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.of(t.arg(0))
            for c in t.children()[1:]:
                r = add(r, neg(self.of(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return neg(self.of(t.arg(0)))
        if k == z3.Z3_OP_MUL:
            count, order = {}, []
            for c in t.children():
                i = c.get_id()
                if i not in count:
                    order.append(c)
                count[i] = count.get(i, 0) + 1
            r = (1.0, 1.0)
            for c in order:
                r = mul(r, power(self.of(c), count[c.get_id()]) if count[c.get_id()] > 1 else self.of(c))
            return r
        if k == z3.Z3_OP_POWER:
            v = self.number(t.arg(1))
            if v is not None and v.denominator == 1 and 0 <= v <= 16:
                return power(self.of(t.arg(0)), int(v))
            return ALL
        if k == z3.Z3_OP_DIV:
            return div(self.of(t.arg(0)), self.of(t.arg(1)))
        if k == z3.Z3_OP_TO_REAL:
            return self.of(t.arg(0))
        if k == z3.Z3_OP_ITE:
            c = self.truth(t.arg(0))
            if c is not None:
                return self.of(t.arg(1) if c else t.arg(2))
            a, b = self.of(t.arg(1)), self.of(t.arg(2))
            return min(a[0], b[0]), max(a[1], b[1])
        if k == z3.Z3_OP_UNINTERPRETED and not t.num_args():
            r = self.var.get(t.get_id(), ALL)
            d = self.defs.get(t.get_id())
            if d is not None:
                if d[0] == 's':
                    o = root(self.of(d[2]))
                elif d[0] == 'q':
                    o = div(self.of(d[2]), self.of(d[3]))
                else:
                    o = (-1.0, 1.0) if d[2] in ('sin', 'cos') else ALL
                r = (max(r[0], o[0]), min(r[1], o[1]))
            return r
        return ALL

    def truth(self, c):
        """True / False when the condition holds / fails for every value within the bounds"""
        k = c.decl().kind()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_NOT:
            r = self.truth(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            all_known = True
            for x in c.children():
                r = self.truth(x)
                if r is stop:
                    return stop
                if r is None:
                    all_known = False
            return (not stop) if all_known else None
        if k in FLIP or k == z3.Z3_OP_EQ:
            a, b = c.arg(0), c.arg(1)
            if not z3.is_arith(a):
                return None
            x, y = self.of(a), self.of(b)
            if x[0] > x[1] or y[0] > y[1]:
                return None
            if k == z3.Z3_OP_EQ:
                return False if x[1] < y[0] or y[1] < x[0] else None
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                x, y = y, x
            # now x <= y (or x < y)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GE):
                return True if x[1] <= y[0] else False if x[0] > y[1] else None
            return True if x[1] < y[0] else False if x[0] >= y[1] else None
        return None


def truth(e, c):
    b = e.cache.get('bounds')
    if b is None:
        b = e.cache['bounds'] = Bounds()
    b.load(e)
    try:
        return b.truth(c)
    except RecursionError:
        return None
