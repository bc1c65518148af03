"""Cheap concrete models of a path: random inputs, the definitional facts evaluated in floating
point, every fact of the path condition checked with a margin.  Used to find inputs to replay on
the real code only; no verdict rests on it (a guess which satisfies a path condition up to
rounding is replayed, and the real run decides)."""
import math
from fractions import Fraction as F

import z3

EPS = 1e-9


class Reject(Exception):
    pass


class NumModel:
    def __init__(self, e, vals):
        self.env = dict(vals)
        self.memo = {}
        self.defs = {}
        for d in e.defs:
            self.defs[d[1].decl().name()] = d

    def var(self, t):
        n = t.decl().name()
        if n in self.env:
            return self.env[n]
        d = self.defs.get(n)
        if d is None:
            raise Reject(n)
        if d[0] == 's':
            x = self.ev(d[2])
            if x < -EPS:
                raise Reject(n)
            r = math.sqrt(max(x, 0.0))
        elif d[0] == 'fn':
            x = self.ev(d[3])
            if d[2] == 'acos' and abs(x) > 1:
                raise Reject(n)
            r = getattr(math, d[2])(x)
        else:
            y = self.ev(d[3])
            if abs(y) < 1e-7:
                raise Reject(n)
            r = self.ev(d[2]) / y
        self.env[n] = r
        return r

    def ev(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i][1]
        r = self._ev(t)
        if isinstance(r, float) and not math.isfinite(r):
            raise Reject('not finite')
        self.memo[i] = (t, r)      # keeps the term, so that its id is not reused
        return r

    def _ev(self, t):
        k = t.decl().kind()
        if z3.is_rational_value(t):
            return float(F(t.numerator_as_long(), t.denominator_as_long()))
        if z3.is_int_value(t):
            return float(t.as_long())
        if k == z3.Z3_OP_UNINTERPRETED:
            if t.num_args():
                raise Reject('function')
            return self.var(t)
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_ITE:
            return self.ev(t.arg(1)) if self.ev(t.arg(0)) else self.ev(t.arg(2))
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in t.children())
        if k == z3.Z3_OP_OR:
            bad = None
            for c in t.children():
                try:
                    if self.ev(c):
                        return True
                except Reject as err:
                    bad = err
            if bad:
                raise bad
            return False
        if k == z3.Z3_OP_NOT:
            return not self.ev(t.arg(0))
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(t.arg(0))) or self.ev(t.arg(1))
        if k == z3.Z3_OP_EQ and z3.is_bool(t.arg(0)):
            return self.ev(t.arg(0)) == self.ev(t.arg(1))
        a = [self.ev(c) for c in t.children()]
        if k in (z3.Z3_OP_TO_REAL,):
            return a[0]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for x in a:
                r *= x
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r -= x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            if abs(a[1]) < 1e-9:
                raise Reject('division')
            return a[0] / a[1]
        if k == z3.Z3_OP_TO_INT:
            r = math.floor(a[0])
            if abs(a[0] - round(a[0])) < EPS and a[0] != round(a[0]):
                raise Reject('margin')
            return float(r)
        if k == z3.Z3_OP_IS_INT:
            return a[0] == round(a[0])
        if k == z3.Z3_OP_POWER:
            return a[0] ** a[1]
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            d = a[0] - a[1]
            if d == 0:
                return k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_EQ)
            if abs(d) < EPS * max(1.0, abs(a[0]), abs(a[1])):
                # equal up to rounding: only equalities may be taken from it
                if k == z3.Z3_OP_EQ:
                    return True
                raise Reject('margin')
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                return d < 0
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                return d > 0
            return k == z3.Z3_OP_DISTINCT
        raise Reject('operator %s' % t.decl().name())

    # interface of z3 models used by the harness
    def eval(self, t, model_completion=True):
        try:
            r = self.ev(t)
        except Reject:
            return t
        if isinstance(r, bool):
            return z3.BoolVal(r)
        return z3.RealVal(F(r)) if F(r).denominator == 1 else z3.Q(F(r).numerator, F(r).denominator)


def bounds(e):
    """simple bounds and equalities on the inputs taken from the path condition"""
    names = {v.decl().name(): n for n, (k, v) in e.inputs.items()}
    lo, hi, eq = {}, {}, {}
    for c in e.pc:
        neg = z3.is_not(c)
        t = c.arg(0) if neg else c
        k = t.decl().kind()
        if k == z3.Z3_OP_EQ and not neg and not z3.is_bool(t.arg(0)):
            for x, y in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if x.num_args() == 0 and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if n in names and n not in eq and n not in e._vars(y)[0]:
                        eq[n] = y
                        break
            continue
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            continue
        x, y = t.arg(0), t.arg(1)
        up = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        if z3.is_rational_value(x) or z3.is_int_value(x):
            x, y, up = y, x, not up
        if not (z3.is_rational_value(y) or z3.is_int_value(y)):
            continue
        if neg:
            up = not up
        if x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_TO_REAL:
            x = x.arg(0)
        if x.num_args() or x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        n = x.decl().name()
        if n not in names:
            continue
        v = F(y.as_long()) if z3.is_int_value(y) else F(y.numerator_as_long(), y.denominator_as_long())
        if up:
            hi[n] = min(hi.get(n, v), v)
        else:
            lo[n] = max(lo.get(n, v), v)
    return lo, hi, eq


def guess(e, extra, rng, tries):
    """(input name -> Fraction, NumModel) or None"""
    lo, hi, eq = bounds(e)
    facts = list(extra) + e.pc
    for k in range(tries):
        den = (1, 1, 4, 1, 64)[k % 5]
        width = (3, 6, 4, 12, 5)[k % 5]
        vals = {}
        for n, (kind, v) in e.inputs.items():
            s = v.decl().name()
            a, b = lo.get(s, F(-width)), hi.get(s, F(width))
            if b - a > 2 * width:
                c = min(max(F(0), a + width), b - width)
                a, b = c - width, c + width
            d = 1 if kind == 'i' else den
            while kind != 'i' and (b - a) * d < 4 and d < 4096:
                d *= 4
            x, y = math.ceil(a * d), math.floor(b * d)
            if x > y:
                break
            vals[s] = F(rng.randint(x, y), d)
        else:
            m = NumModel(e, {s: float(v) for s, v in vals.items()})
            try:
                for s, t in eq.items():
                    # in order of appearance; chains are resolved when they are well-founded
                    m.memo.clear()
                    f = m.ev(t)
                    vals[s] = F(f).limit_denominator(2 ** 20) if abs(F(f).limit_denominator(64) - F(f)) > 1e-12 else F(f).limit_denominator(64)
                    m.env[s] = float(vals[s])
                m.memo.clear()
                m.env = {s: float(v) for s, v in vals.items()}
                if all(m.ev(c) is True for c in facts):
                    return {n: vals[v.decl().name()] for n, (kind, v) in e.inputs.items()}, m
            except (Reject, OverflowError, ZeroDivisionError):
                pass
    return None
