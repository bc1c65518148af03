"""Exact polynomial identities modulo the definitions of quotients and roots on a path.

A path defines q := x / y (y nonzero on the path) and s := sqrt(r).  An equality of two Real
terms is an identity under these definitions when, after multiplying by the (nonzero)
denominators and replacing s*s by r, every coefficient of the difference vanishes.  A positive
answer is a proof; a negative answer says nothing (the solver is asked then)."""
from fractions import Fraction

import cmath
import zlib

import z3

SCALES = [Fraction(n, d) for n, d in ((2, 1), (1, 2), (3, 1), (1, 3), (4, 1), (1, 4), (8, 1), (1, 8), (16, 1), (1, 16), (10, 1), (1, 10))]
CAP = 4000            # monomials of one polynomial
STEPS = 150000        # products of monomials in one decision


class TooLarge(Exception):
    pass


class Algebra:
    def __init__(self, defs):
        self.memo = {}
        self.keep = []
        self.order = {}           # atom id -> (position, definition)
        self.steps = 0
        self.loaded = 0
        self.values = {}
        self.filed = {}
        self.rules = {}
        self.load(defs)

    def load(self, defs):
        for d in defs[self.loaded:]:
            self.order[d[1].get_id()] = (self.loaded, d)
            self.loaded += 1

    # ---- polynomials: {((atom, exponent), ...): Fraction}, atoms ascending
    def atom(self, t):
        self.keep.append(t)
        return {((t.get_id(), 1),): Fraction(1)}

    def poly(self, t):
        i = t.get_id()
        r = self.memo.get(i)
        if r is None:
            self.keep.append(t)
            r = self.memo[i] = self._poly(t)
        return r

    def _poly(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = t.as_fraction() if z3.is_rational_value(t) else Fraction(t.as_long())
            return {(): Fraction(v)} if v else {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            out = {}
            for c in t.children():
                self.addto(out, self.poly(c), 1)
            return out
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            out = dict(self.poly(ch[0]))
            for c in ch[1:]:
                self.addto(out, self.poly(c), -1)
            return out
        if k == z3.Z3_OP_UMINUS:
            return {m: -c for m, c in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            out = {(): Fraction(1)}
            for c in t.children():
                out = self.mul(out, self.poly(c))
            return out
        if k == z3.Z3_OP_DIV:
            d = self.poly(t.arg(1))
            if len(d) == 1 and () in d:
                return {m: c / d[()] for m, c in self.poly(t.arg(0)).items()}
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)):
            p = t.arg(1).as_fraction()
            if p.denominator == 1 and 0 <= p <= 8:
                out = {(): Fraction(1)}
                for _ in range(int(p)):
                    out = self.mul(out, self.poly(t.arg(0)))
                return out
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(t.arg(0)) if t.arg(0).decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB,
                                                                    z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM) else self.atom(t.arg(0))
        return self.atom(t)

    def addto(self, out, p, k):
        self.steps += len(p)
        for m, c in p.items():
            v = out.get(m, 0) + k * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        if len(out) > CAP or self.steps > STEPS:
            raise TooLarge()

    def mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        self.steps += len(a) * len(b)
        if self.steps > STEPS:
            raise TooLarge()
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mono(m, n)
                v = out.get(k, 0) + c * d
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        if len(out) > CAP:
            raise TooLarge()
        return out

    @staticmethod
    def mono(m, n):
        if not m:
            return n
        if not n:
            return m
        x = dict(m)
        for a, e in n:
            x[a] = x.get(a, 0) + e
        return tuple(sorted(x.items()))

    def by_power(self, p, a):
        """[p_0, p_1, ...] with p = sum p_k a^k"""
        out = {}
        for m, c in p.items():
            e = 0
            rest = m
            for i, (b, k) in enumerate(m):
                if b == a:
                    e, rest = k, m[:i] + m[i + 1:]
                    break
            out.setdefault(e, {})[rest] = c
        return [out.get(k, {}) for k in range(max(out) + 1)] if out else []

    def latest(self, p):
        best = None
        for m in p:
            for a, e in m:
                o = self.order.get(a)
                if o is not None and o[1][0] in 'qs' and (best is None or o[0] > best[0]):
                    best = (o[0], a, o[1])
        return best

    def divides(self, y, p):
        """p / y for a one-term y, or None"""
        (ym, yc), = y.items()
        need = dict(ym)
        out = {}
        for m, c in p.items():
            x = dict(m)
            for a, e in need.items():
                if x.get(a, 0) < e:
                    return None
                x[a] -= e
                if not x[a]:
                    del x[a]
            out[tuple(sorted(x.items()))] = c / yc
        return out

    # ---- identities found before, used as rewriting rules (graded order, so this ends)
    @staticmethod
    def rank(m):
        return (sum([k for _, k in m]), tuple([(-a, k) for a, k in m]))

    def learn(self, p):
        if 2 <= len(p) <= 12 and len(self.rules) < 400:
            lead = max(p, key=self.rank)
            if any([self.order.get(a) is not None for a, _ in lead]):
                c = p[lead]
                self.rules.setdefault(lead[0][0], []).append((dict(lead), {m: -v / c for m, v in p.items() if m != lead}))

    def reduce(self, p):
        done, todo = {}, dict(p)
        while todo:
            m = max(todo, key=self.rank)
            c = todo.pop(m)
            x = dict(m)
            hit = None
            for a, _ in m:
                for lead, rest in self.rules.get(a, ()):
                    if all([x.get(b, 0) >= k for b, k in lead.items()]):
                        hit = (lead, rest)
                        break
                if hit:
                    break
            self.steps += 1 + len(todo) // 8
            if self.steps > STEPS:
                raise TooLarge()
            if hit is None:
                done[m] = c
                continue
            lead, rest = hit
            for b, k in lead.items():
                x[b] -= k
            base = tuple(sorted([(b, k) for b, k in x.items() if k]))
            self.addto(todo, self.mul({base: c}, rest), 1)
        return done

    def zero(self, p, rules=False):
        while True:
            if rules:
                p = self.reduce(p)
            if not p:
                return True
            b = self.latest(p)
            if b is None:
                return False
            d = b[2]
            ps = self.by_power(p, b[1])
            if d[0] == 's':
                r = self.poly(d[2])
                even, odd = {}, {}
                pw = {(): Fraction(1)}
                for k in range(0, len(ps), 2):
                    if k:
                        pw = self.mul(pw, r)
                    if ps[k]:
                        self.addto(even, self.mul(ps[k], pw), 1)
                    if k + 1 < len(ps) and ps[k + 1]:
                        self.addto(odd, self.mul(ps[k + 1], pw), 1)
                if odd and not self.zero(odd, rules):
                    return False
                p = even
                continue
            x, y = self.poly(d[2]), self.poly(d[3])
            if len(y) == 1:
                # from the top: p_k q^k = (p_k / y) x q^(k-1) where y divides
                while len(ps) > 1:
                    top = self.divides(y, ps[-1])
                    if top is None:
                        break
                    ps.pop()
                    ps[-1] = dict(ps[-1])
                    self.addto(ps[-1], self.mul(top, x), 1)
                    while len(ps) > 1 and not ps[-1]:
                        ps.pop()
            n = len(ps) - 1
            out = {}
            xs, ys = [{(): Fraction(1)}], [{(): Fraction(1)}]
            for k in range(n):
                xs.append(self.mul(xs[-1], x))
                ys.append(self.mul(ys[-1], y))
            for k in range(n + 1):
                if ps[k]:
                    self.addto(out, self.mul(self.mul(ps[k], xs[k]), ys[n - k]), 1)
            p = out


    # ---- values at one fixed point, to look equal terms up (no verdict rests on them)
    def value(self, t):
        i = t.get_id()
        r = self.values.get(i)
        if r is None:
            self.keep.append(t)
            r = self.values[i] = self._value(t)
        return r

    def _value(self, t):
        if z3.is_rational_value(t):
            return complex(t.numerator_as_long() / t.denominator_as_long())
        if z3.is_int_value(t):
            return complex(t.as_long())
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            return sum([self.value(c) for c in t.children()], 0j)
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = self.value(ch[0])
            for c in ch[1:]:
                r -= self.value(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.value(t.arg(0))
        if k == z3.Z3_OP_MUL:
            r = 1 + 0j
            for c in t.children():
                r *= self.value(c)
            return r
        if k == z3.Z3_OP_DIV:
            return self.value(t.arg(0)) / self.value(t.arg(1))
        if k == z3.Z3_OP_TO_REAL:
            return self.value(t.arg(0))
        o = self.order.get(t.get_id())
        if o is not None and o[1][0] == 's':
            return cmath.sqrt(self.value(o[1][2]))
        if o is not None and o[1][0] == 'q':
            return self.value(o[1][2]) / self.value(o[1][3])
        h = zlib.crc32((t.decl().name() if not t.num_args() else str(t.get_id())).encode())
        return complex(0.3 + (h % 9973) / 4001)

    def signature(self, v):
        return '%.8e %.8e' % (v.real, v.imag) if abs(v.imag) > 1e-12 * abs(v.real) else '%.8e' % v.real


def algebra(e):
    a = e.cache.get('algebra')
    if a is None:
        a = e.cache['algebra'] = Algebra(e.defs)
    a.load(e.defs)
    return a


def known(e, kind, x, y=None):
    """the symbol of a root (kind s) or quotient (kind q) defined before of an equal term, or
    None; and the key under which to file a new one"""
    a = algebra(e)
    try:
        v = a.value(x) if y is None else a.value(x) / a.value(y)
        if v == 0:
            return None, None
        sig = (kind, a.signature(v))
    except (ZeroDivisionError, OverflowError, ValueError):
        return None, None
    for d in a.filed.get(sig, ()):
        if identical(e, x, d[2]) if y is None else identical(e, x * d[3], d[2] * y):
            return d[1], sig
    if y is None:
        for k in SCALES:          # sqrt(k*k*r) = k*sqrt(r)
            for d in a.filed.get((kind, a.signature(v / (k * k))), ()):
                if identical(e, x, d[2] * z3.RealVal(k * k)):
                    return d[1] * z3.RealVal(k), sig
    return None, sig


def file(e, sig, d):
    if sig is not None:
        algebra(e).filed.setdefault(sig, []).append(d)


def identical(e, tx, ty):
    """the two Real terms are equal by the definitions of the path"""
    if len(e.defs) == 0:
        return False
    a = algebra(e)
    a.steps = 0
    try:
        p = dict(a.poly(tx))
        a.addto(p, a.poly(ty), -1)
    except (TooLarge, RecursionError):
        return False
    if not p:
        return True
    for reduce in ((True, False) if a.rules else (False,)):
        a.steps = 0
        try:
            if a.zero(p, reduce):
                a.learn(p)
                return True
        except (TooLarge, RecursionError):
            pass
    return False
