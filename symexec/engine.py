"""Path-exploring symbolic execution engine over z3.

One `Engine` explores one case (a harness function with fixed case parameters).
A case is re-executed once per path; every branch on a symbolic condition goes
through `Engine.branch`, which asks the solver which sides are feasible.
"""
import os
import random
import time
from fractions import Fraction

import z3

from . import bounds


SLOW = float(os.environ.get('VERIF_SLOW', 0))


class EngineStop(BaseException):
    """Base of the control-flow exceptions (BaseException, so code under test
    which catches Exception cannot swallow them)."""


class PathInfeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    """The code under test used an operation the encoding does not cover."""


class Budget(EngineStop):
    """Path or time budget of the case exhausted."""


_current = None


def cur():
    return _current


def set_current(e):
    global _current
    _current = e


def to_frac(x):
    """exact Fraction of a python/numpy finite number"""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    return Fraction(float(x)) if not hasattr(x, 'item') else to_frac(x.item())


def rat(fr):
    fr = Fraction(fr)
    return z3.RealVal(fr) if fr.denominator == 1 else z3.Q(fr.numerator, fr.denominator)


def model_fraction(m, term):
    """(Fraction, exact?) of a term under a model"""
    v = m.eval(term, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long()), True
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long()), True
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long()), False
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return Fraction(v.as_long()), True
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long()), True
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long()), False
    return None, False


class Stats:
    FIELDS = ('paths', 'branches', 'forks', 'queries', 'sat', 'unsat', 'unknown',
              'obligations', 'trivial', 'discharged', 'undecided', 'concretised', 'guessed', 'algebraic', 'bounded')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        return d


class Engine:
    def __init__(self, max_paths=4000, deadline=None, branch_ms=400, check_ms=10000, seed=1):
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self.branch_ms = branch_ms
        self.check_ms = check_ms
        self.seed = seed
        self.rng = random.Random(seed)
        self.stack = []          # decisions: [chosen, alternatives_left]
        self.funcs = set()       # functions of /repo executed symbolically
        self.options = {}
        self.escalate_ms = 2000
        self.undecided_notes = []
        self.candidates = []     # violation candidates
        self.max_candidates = 6
        self.truncated = None

    # ---- path lifecycle -------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.pc = []
        self.pc_ids = set()
        self.def_ids = set()
        self.defs = []           # definitional side constraints (sqrt, quotient, UF axioms)
        self.inputs = {}         # name -> (kind, z3 var)
        self.choices = {}        # name -> concrete
        self.concretised_path = False
        self.fresh_n = 0
        self.cache = {}
        self.zeros = set()       # ids of normal forms of polynomials which a definition makes zero
        self.var_cache = {}
        self.observed = []
        self.keep = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_ms)
        self.solver.set('random_seed', self.seed)
        self.events = []

    def explore(self, fn):
        """fn(engine) is run once per path; yields (engine) after each completed path"""
        prev = _current
        set_current(self)
        try:
            while True:
                if self.stats.paths >= self.max_paths:
                    self.truncated = 'max_paths %d' % self.max_paths
                    return
                if self.deadline and time.time() > self.deadline:
                    self.truncated = 'deadline'
                    return
                self.start_path()
                try:
                    fn(self)
                    self.stats.paths += 1
                except PathInfeasible:
                    pass
                except Unsupported as err:
                    self.stats.paths += 1
                    self.stats.undecided += 1
                    self.note('unsupported: %s' % err)
                except Budget as err:
                    self.truncated = str(err)
                    return
                if len(self.candidates) >= self.max_candidates:
                    self.truncated = 'enough candidates'
                    return
                # backtrack
                while self.stack and not self.stack[-1][1]:
                    self.stack.pop()
                if not self.stack:
                    return
                self.stack[-1][0] = self.stack[-1][1].pop()
        finally:
            set_current(prev)

    def note(self, s):
        if len(self.undecided_notes) < 20 and s not in self.undecided_notes:
            self.undecided_notes.append(s)

    # ---- constraints ----------------------------------------------------
    def define(self, c):
        """a fact which defines the newest fresh variable in it"""
        self.def_ids.add(c.get_id())
        self.add(c)

    def add(self, c):
        """conjoin a z3 Bool to the path condition"""
        i = c.get_id()
        if i in self.pc_ids:
            return
        self.pc_ids.add(i)
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, *assumps):
        t = time.time()
        if self.deadline and t > self.deadline:
            raise Budget('deadline')
        r = self.solver.check(*assumps)
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    def assume(self, c):
        """c: python bool or z3 Bool; harness assumption"""
        if c is True:
            return
        if c is False:
            raise PathInfeasible()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathInfeasible()
        self.add(c)

    def require_feasible(self):
        if self._check() == z3.unsat:
            raise PathInfeasible()

    def branch(self, c):
        """decide a symbolic condition on this path; returns python bool"""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        cid = c.get_id()
        if cid in self.pc_ids:
            return True
        nc = z3.simplify(z3.Not(c))
        if nc.get_id() in self.pc_ids:
            return False
        self.stats.branches += 1
        if self.pos < len(self.stack):
            d = self.stack[self.pos][0]
        else:
            b = bounds.truth(self, c)
            if b is not None:
                self.stats.bounded += 1
            ft = self._feasible(c) if b is None else z3.unsat if not b else z3.sat
            if ft == z3.unsat:
                d, alts = False, []
            else:
                ff = self._feasible(nc) if b is None else z3.unsat
                if ff == z3.unsat:
                    d, alts = True, []
                else:
                    # the side which is known to be feasible first
                    d = not (ft == z3.unknown and ff == z3.sat)
                    alts = [not d]
                    self.stats.forks += 1
            self.stack.append([d, alts])
        self.pos += 1
        self.add(c if d else nc)
        self.keep.append(c)
        self.keep.append(nc)
        return d

    def _feasible(self, c):
        r = self._check(c)
        if r == z3.unknown and self.escalate_ms:
            from . import numeric
            if numeric.guess(self, [c], self.rng, 10):
                return z3.sat
            if z3.is_or(c) and c.num_args() > 2 and len(self.pc) > 20:
                # a disjunction is infeasible when every alternative is
                rs = []
                for x in c.children():
                    rs.append(self.decide([x], self.escalate_ms)[0])
                    if rs[-1] != z3.unsat:
                        break
                else:
                    return z3.unsat
                if rs[-1] == z3.sat:
                    return z3.sat
            r = self.decide([c], self.escalate_ms)[0]
        return r

    def implied(self, c):
        """True when the path condition implies c (solver verdict)"""
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.pc_ids:
            return True
        # memoised in the decision stack so that replays do not ask again
        if self.pos < len(self.stack):
            d = self.stack[self.pos][0]
        else:
            d = bool(bounds.truth(self, c)) or self._check(z3.Not(c)) == z3.unsat
            self.stack.append([d, []])
        self.pos += 1
        return d

    def choose(self, options):
        """nondeterministic concrete choice (structure, sizes, modes)"""
        options = list(options)
        if not options:
            raise PathInfeasible()
        if len(options) == 1:
            return options[0]
        if self.pos < len(self.stack):
            d = self.stack[self.pos][0]
        else:
            d = 0
            self.stack.append([0, list(range(len(options) - 1, 0, -1))])
            self.stats.forks += 1
        self.pos += 1
        self.stats.branches += 1
        return options[d]

    def concretise_int(self, term):
        """enumerate the feasible values of an Int term, one per path"""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        for _ in range(64):
            if self.pos < len(self.stack):
                v = self.stack[self.pos][0]
            else:
                if self._check() != z3.sat:
                    raise PathInfeasible()
                f, _ = model_fraction(self.solver.model(), term)
                v = int(f)
                self.stack.append([v, []])
            self.pos += 1
            if self.branch(term == v):
                return v
        raise Unsupported('integer concretisation of an unbounded term')

    def concretise_real(self, term):
        """pin a term to one feasible value (DSE concretisation; incomplete, counted)"""
        self.concretised_path = True
        self.stats.concretised += 1
        if self.pos < len(self.stack):
            v = self.stack[self.pos][0]
        else:
            v = None
            for extra in ([z3.IsInt(term), term >= -8, term <= 8], []):
                if self._check(*extra) == z3.sat:
                    f, exact = model_fraction(self.solver.model(), term)
                    f = Fraction(float(f))
                    if self._check(term == rat(f)) != z3.unsat:
                        v = f
                        break
            if v is None:
                raise Unsupported('no representable value for concretisation')
            self.stack.append([v, []])
        self.pos += 1
        self.add(term == rat(v))
        return v

    def fresh_real(self, prefix):
        self.fresh_n += 1
        return z3.Real('%s!%d' % (prefix, self.fresh_n))

    # ---- obligations ----------------------------------------------------
    def model(self, extra=(), ms=None):
        """a model of pc & extra, or None (unsat) or 'unknown'"""
        r, m = self.decide(list(extra), ms or self.check_ms)
        if r == z3.sat:
            return m
        return None if r == z3.unsat else 'unknown'

    def _vars(self, t):
        """(names of the constants of a term, index of its newest fresh one)"""
        i = t.get_id()
        r = self.var_cache.get(i)
        if r is None:
            seen, todo, names, newest, top = set(), [t], set(), None, -1
            while todo:
                x = todo.pop()
                k = x.get_id()
                if k in seen:
                    continue
                seen.add(k)
                if x.num_args():
                    todo.extend(x.children())
                elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    names.add(n)
                    if '!' in n:
                        k = int(n.rsplit('!', 1)[1])
                        if k > top:
                            newest, top = n, k
            r = self.var_cache[i] = (frozenset(names), newest)
            self.keep.append(t)
        return r

    def _cone(self, extra):
        """the facts of the path condition which define the fresh variables `extra` depends on,
        and those which only talk about its variables; None when that is everything"""
        V = set()
        for c in extra:
            V |= self._vars(c)[0]
        facts = [(c,) + self._vars(c) for c in self.pc]
        taken = [False] * len(facts)
        grown = True
        while grown:
            grown = False
            for k in range(len(facts) - 1, -1, -1):
                if taken[k]:
                    continue
                c, vs, newest = facts[k]
                if vs <= V:
                    taken[k] = True
                elif newest in V and c.get_id() in self.def_ids:
                    taken[k] = grown = True
                    V |= vs
        if all(taken):
            return None
        return [f[0] for f, t in zip(facts, taken) if t] + extra

    def decide(self, extra, ms):
        t0 = time.time()
        if self.deadline:
            if t0 > self.deadline:
                raise Budget('deadline')
        extra = list(extra)
        cs = self.pc + extra
        res, m = z3.unknown, None
        stages = [(cs, _nla_solver, 0.35), (cs, _default_solver, 0.65)]
        if extra:
            cone = self._cone(extra)
            if cone is not None:
                # a subset of the path condition: only an unsat verdict is used
                stages = [(cone, _nla_solver, 0.2), (cone, _default_solver, 0.2)] + stages
        skip = False
        for cons, make, share in stages:
            if skip and cons is not cs:
                continue
            s = make()
            s.set('timeout', max(100, int(ms * share)))
            s.add(cons)
            res = s.check()
            self.stats.queries += 1
            if res == z3.sat:
                if cons is not cs:
                    skip, res = True, z3.unknown
                    continue
                m = s.model()
                break
            if res == z3.unsat:
                break
        self.stats.solver_s += time.time() - t0
        if SLOW and time.time() - t0 > SLOW:
            import traceback
            print('SLOW %.1fs %s' % (time.time() - t0, res), [str(x)[:300] for x in extra],
                  [f.lineno for f in traceback.extract_stack() if '/props/' in f.filename or 'skcurve' in f.filename],
                  len(cs), flush=True)
            if os.environ.get('VERIF_PC'):
                print('PC', [str(x) for x in self.pc if not os.environ['VERIF_PC'] or os.environ['VERIF_PC'] in str(x)])
        if res == z3.sat:
            self.stats.sat += 1
        elif res == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return res, m


def _nla_solver():
    return z3.Solver()


def _default_solver():
    return z3.SolverFor('QF_NRA')
