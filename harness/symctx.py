"""Symbolic context: runs a harness on symbolic values, turns its checks into solver
obligations, and replays every counterexample on the real code."""
import os
import random
import time
from fractions import Fraction

import numpy as np
import z3

from symexec import engine as E
from symexec import scalars as S
from symexec import arrays as A
from symexec import bounds
from symexec import numeric
from symexec import poly
from symexec.engine import rat, model_fraction
from symexec.scalars import SymNum, SymBool, num, bterm, mkbool, band, bor, bnot

F = Fraction


def _cond(c):
    """python bool or z3 Bool"""
    if isinstance(c, A.MaskedSel):
        c = c.force()
    if isinstance(c, np.ndarray):
        if c.size != 1:
            raise ValueError('ambiguous truth value')
        c = A._elem(c)
    if isinstance(c, SymNum):
        c = c != 0
    t = bterm(c) if isinstance(c, (SymBool, bool, np.bool_)) else bool(c)
    return t


def _plain(x):
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, (np.ndarray, np.generic, SymNum, SymBool, A.MaskedSel, int, float)):
        return x
    if hasattr(x, 'data'):
        return x.data
    return x


def _z(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


class SymCtx:
    symbolic = True

    def __init__(self, e, run):
        self.e = e
        self.run = run
        self.obs = []

    # ---- inputs
    def scalar(self, name, kind='f', lo=None, hi=None):
        v = z3.Int(name) if kind == 'i' else z3.Real(name)
        first = name not in self.e.inputs
        self.e.inputs[name] = (kind, v)
        if first:
            if lo is not None:
                self.e.add(v >= rat(lo) if kind == 'f' else v >= int(lo))
            if hi is not None:
                self.e.add(v <= rat(hi) if kind == 'f' else v <= int(hi))
        return SymNum(v, kind, lo is not None and lo >= 0)

    def real(self, name, lo=None, hi=None):
        return self.scalar(name, 'f', lo, hi)

    def int(self, name, lo=None, hi=None):
        return self.scalar(name, 'i', lo, hi)

    def bool(self, name):
        return self.scalar(name, 'i', 0, 1) == 1

    def choose(self, name, options):
        options = list(options)
        i = self.e.choose(range(len(options)))
        self.e.choices[name] = i
        return options[i]

    # ---- logic
    def assume(self, c):
        self.e.assume(_cond(c))
        self.dirty = True

    def all_(self, xs):
        return self._mk(z3.And, [_cond(x) for x in xs], False)

    def any_(self, xs):
        return self._mk(z3.Or, [_cond(x) for x in xs], True)

    def _mk(self, op, ts, absorbing):
        if any(t is absorbing for t in ts):
            return absorbing
        ts = [t for t in ts if not isinstance(t, bool)]
        if not ts:
            return not absorbing
        return mkbool(op(*ts)) if len(ts) > 1 else mkbool(ts[0])

    def and_(self, *xs):
        return self.all_(xs)

    def or_(self, *xs):
        return self.any_(xs)

    def not_(self, x):
        return bnot(mkbool(_z(_cond(x))))

    def ite(self, c, a, b):
        return S.ite(mkbool(_z(_cond(c))), a, b)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        a, b = _cond(a), _cond(b)
        return mkbool(z3.simplify(_z(a) == _z(b)))

    def is_true(self, c):
        """decides the condition on this path (forks)"""
        return self.e.branch(_cond(c))

    def sqrt(self, x):
        return S.sqrt(num(x))

    def abs(self, x):
        return S.abs_(num(x))

    # ---- obligations
    def check(self, label, c):
        t = _cond(c)
        self.obs.append((label, t))
        if isinstance(t, bool):
            return self.oblige(label, None if t else True, [])
        return self.oblige(label, z3.Not(t), [])

    def close(self, label, a, b, tol=1e-6, exact=True):
        """exact: equal as real numbers; otherwise equal up to tol (inputs must be bounded)"""
        a, b = A.aslike(_plain(a)), A.aslike(_plain(b))
        ra, rb = A.raw(a).reshape(-1), A.raw(b).reshape(-1)
        self.obs.append((label, list(ra)))
        if a.shape != b.shape:
            if a.size or b.size:
                return self.oblige(label, True, [])
            return self.oblige(label, None, [])
        ok = True
        negs, robs = [], []
        for x, y in zip(ra, rb):
            x, y = num(x), num(y)
            if S.is_special(x) or S.is_special(y):
                same = (S.is_special(x) and S.is_special(y)
                        and (x.v == y.v or (S.isnan(x) and S.isnan(y))))
                if not same:
                    return self.oblige(label, True, [])
                continue
            if not S._isterm(x.v) and not S._isterm(y.v):
                if x.v != y.v and abs(x.v - y.v) > F(tol) * max(1, abs(x.v), abs(y.v)):
                    return self.oblige(label, True, [])
                continue
            tx, ty = S.rterm(x), S.rterm(y)
            if tx.eq(ty):
                continue
            d = S.canon(tx - ty)
            if d.get_id() in self.e.zeros:
                continue
            if z3.is_rational_value(d):
                if d.numerator_as_long() != 0 and abs(F(d.numerator_as_long(), d.denominator_as_long())) > F(tol):
                    return self.oblige(label, True, [])
                continue
            if poly.identical(self.e, tx, ty):
                self.e.stats.algebraic += 1
                continue
            negs.append(tx != ty if exact else z3.Or(tx - ty > rat(F(tol)), ty - tx > rat(F(tol))))
            g = rat(F(1, 64))
            robs.append(z3.Or(tx - ty >= g, ty - tx >= g))
        if not negs:
            return self.oblige(label, None, [])
        if len(negs) <= 16:
            for n, r in zip(negs, robs):
                ok = self.oblige(label, n, [r]) and ok
                if not ok:
                    break
            return ok
        return self.oblige(label, z3.Or(*negs), [z3.Or(*robs)])

    def le(self, label, a, b, tol=1e-6):
        a, b = num(a), num(b)
        self.obs.append((label, [a, b]))
        c = _cond(a <= b)
        if isinstance(c, bool):
            return self.oblige(label, None if c else True, [])
        return self.oblige(label, z3.Not(c), [_z(_cond(a >= b + F(1, 64)))])

    def lt(self, label, a, b):
        return self.check(label, num(a) < num(b))

    def raises(self, label, excs, fn, *args, **kwargs):
        try:
            fn(*args, **kwargs)
        except excs:
            self.obs.append((label, True))
            return self.oblige(label, None, [])
        except Exception as err:
            self.run.note_exc(err)
            self.obs.append((label, False))
            return self.oblige(label, True, [])
        self.obs.append((label, False))
        return self.oblige(label, True, [])

    def fail(self, label, detail=''):
        return self.oblige(label, True, [])

    def reach(self, label):
        self.run.path_reached.add(label)

    def warned(self, fn, *args, **kwargs):
        import warnings
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            r = fn(*args, **kwargs)
        return r, [x.category for x in w]

    def oblige(self, label, neg, robust):
        """neg: None (holds trivially), True (violated on the whole path) or z3 Bool"""
        e = self.e
        e.stats.obligations += 1
        self.run.labels[label] = self.run.labels.get(label, 0) + 1
        if neg is None:
            e.stats.trivial += 1
            e.stats.discharged += 1
            return True
        if neg is True:
            r, m = e.decide([], e.check_ms)
            if r == z3.unsat:
                self.run.infeasible += 1
                e.stats.discharged += 1     # the path does not exist
                raise E.PathInfeasible()
            return self.run.candidate(label, [], robust)
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            e.stats.trivial += 1
            e.stats.discharged += 1
            return True
        pos = z3.simplify(z3.Not(neg))
        if pos.get_id() in e.pc_ids:
            e.stats.trivial += 1
            e.stats.discharged += 1
            return True
        if bounds.truth(e, neg) is False:
            e.stats.bounded += 1
            e.stats.discharged += 1
            return True
        r, m = e.decide([neg], e.check_ms)
        if r == z3.unsat:
            e.stats.discharged += 1
            e.keep.append(pos)
            e.add(pos)       # proved: usable as a lemma on the rest of the path
            return True
        ok = self.run.candidate(label, [neg], robust, unknown=(r != z3.sat))
        # continue the path where the obligation holds
        if e._check(pos) == z3.unsat:
            raise E.PathInfeasible()
        e.add(pos)
        return ok


class CaseRun:
    """explores one case"""

    def __init__(self, prop, name, fn, params, opts, replayer, tier, seed, deadline):
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.replayer = replayer
        o = dict(opts.get('opts', {}))
        thorough = tier == 'thorough'
        self.e = E.Engine(max_paths=o.pop('max_paths', 20000 if thorough else 3000), deadline=deadline,
                          branch_ms=o.pop('branch_ms', 500), check_ms=o.pop('check_ms', 60000 if thorough else 15000),
                          seed=seed)
        self.max_traces = o.pop('traces', 12 if thorough else 4)
        self.e.escalate_ms = o.pop('escalate_ms', 2000)
        self.e.options = o
        self.rng = random.Random('%s/%s/%s' % (seed, prop, name))
        self.violations = []
        self.unconfirmed = []
        self.labels = {}
        self.reached = {}
        self.path_reached = set()
        self.traces = 0
        self.trace_fail = []
        self.divergences = []
        self.samples = []
        self.infeasible = 0
        self.probes = 0
        self.excs = []

    def note_exc(self, err):
        if len(self.excs) < 5:
            self.excs.append('%s: %s' % (type(err).__name__, str(err)[:200]))

    def path(self, e):
        e.has_uf = False
        e.choices = {}
        self.path_reached = set()
        ctx = SymCtx(e, self)
        self.ctx = ctx
        try:
            self.fn(ctx, **self.params)
        except E.Unsupported:
            self.probe()
            raise
        except Exception as err:
            if e.decide([], e.check_ms)[0] == z3.unsat:
                self.infeasible += 1
                raise E.PathInfeasible()
            self.note_exc(err)
            import traceback
            self.last_tb = traceback.format_exc()
            if os.environ.get('VERIF_TB'):
                print(self.last_tb)
            self.ctx.e.stats.obligations += 1
            self.candidate('unexpected exception', [], [], exc=err)
            return
        if ctx.__dict__.get('dirty') and numeric.guess(e, [], self.rng, 10) is None:
            r, m = e.decide([], min(e.check_ms, 1500))
            if r == z3.unsat:
                self.infeasible += 1
                raise E.PathInfeasible()
        for r in self.path_reached:
            self.reached[r] = self.reached.get(r, 0) + 1
        k = e.stats.paths
        if self.traces < self.max_traces and (k < 3 or k in (5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610, 987)):
            self.trace()

    def probe(self):
        """a path the encoding could not finish: run the real code on a model of the prefix"""
        for i in range(2):
            s = self.sample([], randomise=bool(i))
            if s is None:
                return
            res = self.replayer.run(self.prop, self.name, s[0], dict(self.e.choices))
            if res['status'] in ('fail', 'exception'):
                self.violation(res, s[0], 'model of a path prefix')
                return

    # ---- models ---------------------------------------------------------
    def sample(self, extra, randomise=False, ms=None):
        """(inputs name->str, exact, model) or None.  Tries to give every input a short value."""
        e = self.e
        ms = ms or min(e.check_ms, 2000)
        pins = []
        names = list(e.inputs)
        m = None
        g = numeric.guess(e, extra, self.rng, 10) if randomise and names else None
        if g is not None:
            e.stats.guessed += 1
            return {n: str(v) for n, v in g[0].items()}, True, g[1], []
        if randomise and names:
            for width in (3, 6):
                p = [e.inputs[n][1] == self.rng.randint(-width, width) for n in names]
                r, mm = e.decide(extra + p, 300)
                if r == z3.sat:
                    m, pins = mm, p
                    break
            else:
                order = names[:]
                self.rng.shuffle(order)
                for n in order[:10]:
                    p = e.inputs[n][1] == self.rng.randint(-4, 4)
                    r, mm = e.decide(extra + pins + [p], 300)
                    if r == z3.sat:
                        pins.append(p)
                        m = mm
        if m is None:
            r, m = e.decide(extra, ms)
            if r != z3.sat:
                return None
            pins = []
        exact = True
        vals = {}
        t_end = time.time() + 8
        for n in names:
            kind, v = e.inputs[n]
            f, ex = model_fraction(m, v)
            if f is None:
                f, ex = F(0), False
            if ex and _nice(f):
                pins.append(v == rat(f) if kind == 'f' else v == int(f))
                vals[n] = f
                continue
            done = False
            for c in _shorter(f):
                if time.time() > t_end:
                    break
                r, mm = e.decide(extra + pins + [v == rat(c)], 400)
                if r == z3.sat:
                    m = mm
                    pins.append(v == rat(c))
                    vals[n] = c
                    done = True
                    break
            if not done:
                fl = F(float(f))
                vals[n] = fl
                if not (ex and fl == f):
                    exact = False
                else:
                    pins.append(v == rat(f))
        return {n: str(v) for n, v in vals.items()}, exact, m, pins

    # ---- candidates -----------------------------------------------------
    def candidate(self, label, extra, robust, unknown=False, exc=None):
        """the solver did not prove the obligation: find a model and replay it on the real code"""
        e = self.e
        tried = 0
        found = False
        for rb in [[r] for r in robust] + [[]]:
            for rnd in ((True, False, True) if unknown else (False, True, True)):
                s = self.sample(extra + rb, randomise=rnd, ms=min(e.check_ms, 6000))
                if s is None:
                    break
                found = True
                tried += 1
                res = self.replayer.run(self.prop, self.name, s[0], dict(e.choices))
                if res['status'] in ('fail', 'exception'):
                    self.violation(res, s[0], 'counterexample to "%s"' % label)
                    return False
            if tried >= 4:
                break
        if not found and self.probes < 4:
            # no model of the negation: run the real code on a cheap model of the path itself
            self.probes += 1
            g = numeric.guess(e, [], self.rng, 10)
            if g is not None:
                inputs = {n: str(v) for n, v in g[0].items()}
                res = self.replayer.run(self.prop, self.name, inputs, dict(e.choices))
                if res['status'] in ('fail', 'exception'):
                    self.violation(res, inputs, 'model of the path of "%s"' % label)
                    return False
        e.stats.undecided += 1
        if len(self.unconfirmed) < 10:
            d = {'label': label, 'models_replayed': tried,
                 'kind': 'solver unknown' if unknown and not found else 'not reproduced'}
            if exc is not None:
                d['exception'] = '%s: %s' % (type(exc).__name__, str(exc)[:200])
            self.unconfirmed.append(d)
        e.note('%s: %s' % (label, 'solver gave no verdict' if unknown and not found else 'counterexample not reproduced'))
        return False

    def violation(self, res, inputs, how):
        if len(self.violations) < 3:
            self.violations.append({'property': self.prop, 'case': self.name, 'params': _js(self.params),
                                    'inputs': inputs, 'choices': dict(self.e.choices), 'how': how,
                                    'failures': res['failures'][:5]})
        raise E.Budget('violation confirmed on the real code')

    # ---- traces ---------------------------------------------------------
    def trace(self):
        """run the real code on a model of this path and compare what was observed"""
        e = self.e
        s = self.sample([], randomise=True)
        if s is None:
            return
        inputs, exact, m, pins = s
        res = self.replayer.run(self.prop, self.name, inputs, dict(e.choices))
        if res['status'] in ('fail', 'exception') and exact:
            self.violation(res, inputs, 'real run of a model of path %d' % e.stats.paths)
        if res['status'] != 'ok':
            return
        mism = None
        known = not e.cache.get('has_fn') or isinstance(m, numeric.NumModel)
        if exact and known and not getattr(e, 'has_uf', False) and not e.concretised_path:
            mism = self.compare(m, res['obs'])
        if mism:
            if len(self.divergences) < 5:
                self.divergences.append({'inputs': inputs, 'choices': dict(e.choices), 'what': mism})
            return
        self.traces += 1
        if len(self.samples) < 2:
            self.samples.append({'case': self.name, 'inputs': {k: _short(v) for k, v in list(inputs.items())[:24]},
                                 'choices': dict(e.choices), 'checks': res['checks'],
                                 'compared': exact})

    def compare(self, m, obs):
        if len(obs) != len(self.ctx.obs):
            return 'number of observations %d, real %d' % (len(self.ctx.obs), len(obs))
        for (l1, v1), (l2, v2) in zip(self.ctx.obs, obs):
            if l1 != l2:
                return 'observation %s, real %s' % (l1, l2)
            if isinstance(v1, list):
                if len(v1) != len(v2):
                    return '%s: length' % l1
                for a, b in zip(v1, v2):
                    a = num(a)
                    if S.is_special(a):
                        f = a.v
                    elif S._isterm(a.v):
                        f, _ = model_fraction(m, S.rterm(a))
                        if f is None:
                            continue
                        f = float(f)
                    else:
                        f = float(a.v)
                    if f != f or b != b:
                        if (f != f) != (b != b):
                            return '%s: %r, real %r' % (l1, f, b)
                    elif abs(f - b) > 1e-6 * max(1, abs(f), abs(b)):
                        return '%s: %r, real %r' % (l1, f, b)
            else:
                t = v1 if isinstance(v1, bool) else m.eval(v1, model_completion=True)
                if not isinstance(t, bool):
                    if not (z3.is_true(t) or z3.is_false(t)):
                        continue
                    t = z3.is_true(t)
                if t != v2:
                    return '%s: %r, real %r' % (l1, t, v2)
        return None

    # ---- whole case -----------------------------------------------------
    def execute(self):
        t0 = time.time()
        e = self.e
        try:
            e.explore(self.path)
        except z3.Z3Exception as err:
            e.truncated = 'z3: %s' % str(err)[:200]
        trunc = e.truncated
        if trunc and 'violation' in trunc:
            trunc = None
        return {
            'case': self.name, 'params': _js(self.params), 'stats': e.stats.as_dict(), 'funcs': sorted(e.funcs),
            'violations': self.violations, 'unconfirmed': self.unconfirmed, 'notes': e.undecided_notes,
            'truncated': trunc, 'labels': self.labels, 'reached': self.reached, 'traces': self.traces,
            'divergences': self.divergences, 'samples': self.samples, 'excs': self.excs,
            'infeasible': self.infeasible, 'wall': round(time.time() - t0, 2),
        }


def _js(x):
    if isinstance(x, dict):
        return {str(k): _js(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [_js(v) for v in x]
    if isinstance(x, (str, int, float, bool, type(None))):
        return x
    return repr(x)


def _short(v):
    f = F(v)
    return str(f) if f.denominator <= 4096 else '%.6g' % float(f)


def _nice(f):
    d = f.denominator
    return d & (d - 1) == 0 and d <= 1024 and abs(f) < 2 ** 20


def _shorter(f):
    out = []
    for d in (1, 4, 64):
        c = F(round(f * d), d)
        if c not in out:
            out.append(c)
    c = F(float(f))
    if c not in out:
        out.append(c)
    return out
