"""C28: registries of methods."""
import itertools
import numpy as np
import skcurve as sk
from skcurve import _intersect as ix
from harness.api import case
from harness.common import *
from props.c12 import quiet
from props.c19 import P
from props.c24 import Recorder, fresh
from props.c26 import Half

ASSUMPTIONS = ['histories of at most four operations over two names']
OPTS = {'max_paths': 1500}


def shift_points(curve, by=1.0, fail=None):
    if fail is not None:
        raise fail
    return curve.data + by


class Half2(Half):
    pass


class Recorder2(Recorder):
    pass


def shift_twice(curve, by=1.0, fail=None):
    return shift_points(curve, 2 * by, fail)


def interp_value(c, name, f):
    return quiet(lambda: c.interpolate([0.0, 1.0], method=name, factor=f)).data


class Interp:
    register, names = sk.register_interpolator, sk.interp_methods
    good, bad = [Half, Half2], [int, Recorder, object, shift_points]
    builtin = ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps']
    error = sk.InterpolationError

    @staticmethod
    def lookup(ctx, name, what, c, f):
        h = sk.get_interpolator(name, c, factor=f)
        ctx.check('the registered class', type(h) is what)
        ctx.close('used', quiet(lambda: c.interpolate([0.0, 1.0], method=name, factor=f)).data, [[0, 0], [f, f]])

    @staticmethod
    def get(name, c):
        return sk.get_interpolator(name, c)

    @staticmethod
    def use(name, c, **o):
        return quiet(lambda: c.interpolate([0.0, 1.0], method=name, **o))


class Smooth:
    register, names = sk.register_smooth_method, sk.smooth_methods
    good, bad = [shift_points, shift_twice], []
    builtin = ['savgol', 'window']
    error = sk.SmoothingError

    @staticmethod
    def lookup(ctx, name, what, c, f):
        ctx.check('the registered function', sk.get_smooth_method(name) is what)
        k = 2 * f if what is shift_twice else f
        ctx.close('used', c.smooth(name, by=f).data, [[x + k for x in p] for p in c.data.tolist()])

    @staticmethod
    def get(name, c):
        return sk.get_smooth_method(name)

    @staticmethod
    def use(name, c, **o):
        return c.smooth(name, **o)


class Intersect:
    register, names = sk.register_intersect_method, sk.intersect_methods
    good, bad = [Recorder, Recorder2], [int, Half, object, shift_points]
    builtin = ['exact', 'almost']
    error = ix.IntersectionError

    @staticmethod
    def lookup(ctx, name, what, c, f):
        ctx.check('the registered class', type(sk.get_intersect_method(name, at=f)) is what)
        s = c.segments[0]
        ctx.close('used', s.intersect(s, method=name, at=f).intersect_point.data, s.point(f).data)

    @staticmethod
    def get(name, c):
        return sk.get_intersect_method(name)

    @staticmethod
    def use(name, c, **o):
        return c.intersect(method=name, **o)


REGS = {'interp': Interp, 'smooth': Smooth, 'intersect': Intersect}


def a_curve(ctx):
    return sk.Curve(array(rows(ctx, 'p', 2, 2, lo=-9, hi=9)), tdata=[0.0, 1.0])


@case(reg=sorted(REGS))
def built_in(ctx, reg):
    R = REGS[reg]
    c = a_curve(ctx)
    ns = R.names()
    ctx.check('the documented methods come first', isinstance(ns, list) and ns[:len(R.builtin)] == R.builtin)
    ctx.check('no name twice', len(set(ns)) == len(ns))
    ns.append('not a method')
    ctx.check('the list is a copy', 'not a method' not in R.names())
    for n in ('not a method', '', R.builtin[0].upper(), R.builtin[-1] + ' '):
        ctx.raises('unknown name', NameError, R.get, n, c)
        ctx.raises('unknown name used', NameError, R.use, n, c)
    for n in R.builtin:
        ctx.raises('built-in names are taken', ValueError, R.register(n), R.good[0])
        if R.bad:
            ctx.raises('built-in names are taken by any class', (ValueError, TypeError), R.register(n), R.bad[0])
    ctx.check('unchanged', R.names()[:len(R.builtin)] == R.builtin)


@case(reg=sorted(REGS), steps=[3], _thorough={'steps': [4]}, _opts=OPTS)
def history(ctx, reg, steps):
    """any history of registrations agrees with a dictionary which only grows"""
    R = REGS[reg]
    c = a_curve(ctx)
    f = ctx.scalar('f', 'f', 0, 1)
    names = [fresh(), fresh()]
    before = R.names()
    model = {}
    ops = ['new0', 'other0', 'new1'] + (['wrong'] if R.bad else []) + ['kept']
    for k in range(steps):
        op = ctx.choose('op%d' % k, ops)
        if op == 'wrong':
            for b in R.bad:
                ctx.raises('wrong class', (TypeError, ValueError) if names[0] in model else TypeError, R.register(names[0]), b)
        elif op == 'kept':
            deco = R.register(names[1])
            ctx.check('making a decorator registers nothing', R.names() == before + list(model))
        else:
            n, what = names[int(op[-1])], R.good[1 if op == 'other0' else 0]
            if n in model:
                ctx.raises('taken', ValueError, R.register(n), what)
            else:
                ctx.check('the decorator returns the object', R.register(n)(what) is what)
                model[n] = what
        ctx.check('names', R.names() == before + list(model))
        for n in names:
            if n in model:
                R.lookup(ctx, n, model[n], c, f)
            else:
                ctx.raises('not yet known', NameError, R.get, n, c)


@case(reg=sorted(REGS), err=['ValueError', 'TypeError', 'KeyError', 'ZeroDivisionError', 'RuntimeError', 'AttributeError'])
def errors_of_methods(ctx, reg, err):
    R = REGS[reg]
    c = a_curve(ctx)
    e = {'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError, 'ZeroDivisionError': ZeroDivisionError, 'RuntimeError': RuntimeError, 'AttributeError': AttributeError}[err]
    n = fresh()
    R.register(n)(R.good[0])
    want = e if reg == 'smooth' and err in ('ValueError', 'TypeError') else R.error
    ctx.raises('failure', want, R.use, n, c, fail=e('x'))
    ctx.raises('unknown parameter', TypeError if reg != 'interp' else R.error, R.use, n, c, nope=1)
    ctx.check('works afterwards', R.use(n, c) is not None)


@case(history=list(itertools.product(['set', 'default', 'plain'], repeat=2)))
def default_method(ctx, history):
    """the default intersection method is the one last set"""
    c = a_curve(ctx)
    s = c.segments[0]
    before = sk.default_intersect_method()
    ctx.check('exact by default', before == 'exact')
    now = before
    try:
        for h in history:
            n = fresh()
            if h == 'set':
                sk.register_intersect_method(n)(Recorder)
                ctx.check('not yet', sk.default_intersect_method() == now)
                sk.set_default_intersect_method(n)
                now = n
            elif h == 'default':
                sk.register_intersect_method(n, default=True)(Recorder)
                now = n
            else:
                sk.register_intersect_method(n)(Recorder)
            ctx.check('default', sk.default_intersect_method() == now)
            ctx.raises('unknown', NameError, sk.set_default_intersect_method, fresh())
            ctx.raises('taken', ValueError, sk.register_intersect_method('almost', default=True), Recorder)
            ctx.raises('wrong class', TypeError, sk.register_intersect_method(fresh(), default=True), int)
            ctx.check('default kept', sk.default_intersect_method() == now)
            if now != 'exact':
                ctx.close('used', s.intersect(s).intersect_point.data, s.point(0.5).data)
    finally:
        sk.set_default_intersect_method(before)
    ctx.check('set back', sk.default_intersect_method() == before)


@case(d=[2, 3], method=['interp', 'smooth', 'intersect'])
def own_curves(ctx, d, method):
    """methods get the very curve and the parameters"""
    r = rows(ctx, 'p', 3, d, lo=-9, hi=9)
    c = sk.Curve(array(r))
    k = ctx.scalar('k', 'f', -5, 5)
    seen = []
    n = fresh()
    if method == 'smooth':
        def mine(curve, a, *, b=1):
            seen.append((curve, a, b))
            return curve.data * a + b
        sk.register_smooth_method(n)(mine)
        got = c.smooth(n, a=k, b=2.0)
        ctx.check('given', len(seen) == 1 and seen[0][0] is c)
        ctx.close('answer', got.data, [[x * k + 2 for x in p] for p in r])
        ctx.check('float', got.dtype == np.dtype('f8'))
    elif method == 'interp':
        class Mine(sk.InterpolatorBase):
            def __init__(self, curve, *, a):
                super().__init__(curve)
                seen.append((curve, a))

            def _interpolate(self, grid):
                return np.stack([grid * seen[-1][1]] * d, axis=1)
        sk.register_interpolator(n)(Mine)
        g = [0.0, 1.0, 2.5]
        got = quiet(lambda: c.interpolate(g, method=n, a=k))
        ctx.check('given', len(seen) == 1 and seen[0][0] is c)
        ctx.close('answer', got.data, [[x * k] * d for x in g])
    else:
        sk.register_intersect_method(n)(Recorder)
        o = sk.get_intersect_method(n, at=k)
        ctx.check('new object each time', sk.get_intersect_method(n) is not o)
        got = c.intersect(method=o)
        ctx.check('given', o.seen[0][0] is c and o.seen[0][1] is c and len(got) == 4)
