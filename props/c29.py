"""C29: curve generators."""
import numpy as np
from scipy.special import fresnel
import skcurve as sk
from skcurve import curves
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['sine and cosine are functions with sin^2 + cos^2 = 1; the Fresnel integrals are functions; their values are not encoded',
               'start and stop within 50, other parameters within 20']


def span(ctx):
    return ctx.scalar('t0', 'f', -50, 50), ctx.scalar('t1', 'f', -50, 50)


def made(ctx, c, n, d, t0, t1):
    """size, kind and parameters; gives the parameters"""
    ctx.check('a curve', type(c) is sk.Curve)
    ctx.check('size', c.size == n and c.ndim == d and tuple(c.data.shape) == (n, d))
    ctx.check('float', c.dtype == np.dtype(np.float64))
    ctx.check('parametric', bool(c.isparametric))
    t = c.t.tolist()
    ctx.check('number of parameters', len(t) == n)
    for i, x in enumerate(t):
        if n == 1:
            ctx.close('start', x, t0)
        else:
            ctx.close('equally spaced', (x - t0) * (n - 1), (t1 - t0) * i)
    return t


def points(ctx, c, want):
    for p, w in zip(c.data.tolist(), want):
        for x, y in zip(p, w):
            ctx.close('point', x, y)


N = [1, 2, 3, 5]


@case(n=N, how=['name', 'position', 'default'])
def arc(ctx, n, how):
    t0, t1 = span(ctx)
    r, k = (ctx.scalar('r', 'f', -20, 20), ctx.scalar('c', 'f', -20, 20)) if how != 'default' else (1.0, 0.0)
    if how == 'name':
        c = curves.arc(t_start=t0, t_stop=t1, p_count=n, r=r, c=k)
    elif how == 'position':
        c = curves.arc(t0, t1, n, r, k)
    else:
        c = curves.arc(t0, t1, p_count=n)
    t = made(ctx, c, n, 2, t0, t1)
    points(ctx, c, [[np.cos(x) * r + k, np.sin(x) * r + k] for x in t])
    for p in c.data.tolist():
        ctx.close('on the circle', (p[0] - k) * (p[0] - k) + (p[1] - k) * (p[1] - k), r * r)


@case(n=N, how=['name', 'position', 'default'])
def lemniscate(ctx, n, how):
    t0, t1 = span(ctx)
    k = ctx.scalar('c', 'f', -20, 20) if how != 'default' else 1.0
    if how == 'name':
        c = curves.lemniscate_of_bernoulli(t_start=t0, t_stop=t1, p_count=n, c=k)
    elif how == 'position':
        c = curves.lemniscate_of_bernoulli(t0, t1, n, k)
    else:
        c = curves.lemniscate_of_bernoulli(t0, t1, p_count=n)
    t = made(ctx, c, n, 2, t0, t1)
    root = ctx.sqrt(2)
    for x, p in zip(t, c.data.tolist()):
        q = np.sin(x) * np.sin(x) + 1
        ctx.close('x', p[0] * q, k * root * np.cos(x), exact=False)
        ctx.close('y', p[1] * q, k * root * np.cos(x) * np.sin(x), exact=False)


@case(n=N, how=['name', 'position', 'default'])
def archimedean(ctx, n, how):
    t0, t1 = span(ctx)
    a, b = (ctx.scalar('a', 'f', -20, 20), ctx.scalar('b', 'f', -20, 20)) if how != 'default' else (1.5, -2.4)
    if how == 'name':
        c = curves.archimedean_spiral(t_start=t0, t_stop=t1, p_count=n, a=a, b=b)
    elif how == 'position':
        c = curves.archimedean_spiral(t0, t1, n, a, b)
    else:
        c = curves.archimedean_spiral(t0, t1, p_count=n)
    t = made(ctx, c, n, 2, t0, t1)
    points(ctx, c, [[(a + b * x) * np.cos(x), (a + b * x) * np.sin(x)] for x in t])


@case(n=N, how=['name', 'position'])
def euler(ctx, n, how):
    t0, t1 = span(ctx)
    c = curves.euler_spiral(t_start=t0, t_stop=t1, p_count=n) if how == 'name' else curves.euler_spiral(t0, t1, n)
    t = made(ctx, c, n, 2, t0, t1)
    s, k = fresnel(np.array(t))
    ctx.close('cosine integral', c.data[:, 0], k)
    ctx.close('sine integral', c.data[:, 1], s)


@case(n=N, how=['name', 'position', 'default'])
def lissajous(ctx, n, how):
    t0, t1 = span(ctx)
    q = [ctx.scalar(s, 'f', -20, 20) for s in ('aa', 'ba', 'a', 'b', 'd')] if how != 'default' else [1.0, 1.0, 3.0, 2.0, 0.0]
    aa, ba, a, b, d = q
    if how == 'name':
        c = curves.lissajous(t_start=t0, t_stop=t1, p_count=n, a_ampl=aa, b_ampl=ba, a=a, b=b, d=d)
    elif how == 'position':
        c = curves.lissajous(t0, t1, n, aa, ba, a, b, d)
    else:
        c = curves.lissajous(t0, t1, p_count=n)
    t = made(ctx, c, n, 2, t0, t1)
    points(ctx, c, [[aa * np.sin(a * x + d), ba * np.sin(b * x)] for x in t])


@case(n=N, how=['name', 'position', 'default'])
def helix(ctx, n, how):
    t0, t1 = span(ctx)
    a, b = (ctx.scalar('a', 'f', -20, 20), ctx.scalar('b', 'f', -20, 20)) if how != 'default' else (1.0, 1.0)
    if how == 'name':
        c = curves.helix(t_start=t0, t_stop=t1, p_count=n, a=a, b=b)
    elif how == 'position':
        c = curves.helix(t0, t1, n, a, b)
    else:
        c = curves.helix(t0, t1, p_count=n)
    t = made(ctx, c, n, 3, t0, t1)
    points(ctx, c, [[a * np.sin(x), a * np.cos(x), b * x] for x in t])
    for p in c.data.tolist():
        ctx.close('on the cylinder', p[0] * p[0] + p[1] * p[1], a * a)


@case(n=N, how=['name', 'position', 'default'])
def irregular_helix(ctx, n, how):
    t0, t1 = span(ctx)
    z0, z1 = (ctx.scalar('z0', 'f', -20, 20), ctx.scalar('z1', 'f', -20, 20)) if how != 'default' else (-2.0, 2.0)
    if how == 'name':
        c = curves.irregular_helix(t_start=t0, t_stop=t1, z_start=z0, z_stop=z1, p_count=n)
    elif how == 'position':
        c = curves.irregular_helix(t0, t1, z0, z1, n)
    else:
        c = curves.irregular_helix(t0, t1, p_count=n)
    t = made(ctx, c, n, 3, t0, t1)
    for i, (x, p) in enumerate(zip(t, c.data.tolist())):
        ctx.close('height', (p[2] - z0) * (n - 1), (z1 - z0) * i)
        r = p[2] * p[2] + 1
        ctx.close('x', p[0], r * np.sin(x))
        ctx.close('y', p[1], r * np.cos(x))


GENS = {'arc': (2, 0.0, 2 * np.pi), 'lemniscate_of_bernoulli': (2, 0.0, 2 * np.pi), 'archimedean_spiral': (2, 0.0, 5 * np.pi), 'euler_spiral': (2, -3 * np.pi / 2, 3 * np.pi / 2),
        'lissajous': (2, 0.0, 2 * np.pi), 'helix': (3, -3 * np.pi, 3 * np.pi), 'irregular_helix': (3, -4 * np.pi, 4 * np.pi)}


@case(gen=sorted(GENS), n=[2, 4])
def default_span(ctx, gen, n):
    """documented defaults of start and stop; the same call gives the same curve"""
    d, t0, t1 = GENS[gen]
    f = getattr(curves, gen)
    a, b = f(p_count=n), f(p_count=n)
    t = a.t.tolist()
    for i, x in enumerate(t):
        ctx.close('parameter', x, t0 + (t1 - t0) * i / (n - 1), exact=False)
    ctx.check('size', a.size == n and a.ndim == d and bool(a.isparametric))
    ctx.check('another object', a is not b)
    ctx.close('same', a.data, b.data)
    one = f(t0, t1, p_count=n)
    ctx.close('as given', one.data, a.data, exact=False)


@case(gen=sorted(GENS))
def no_points(ctx, gen):
    """none requested, none made"""
    t0, t1 = span(ctx)
    c = getattr(curves, gen)(t0, t1, p_count=0)
    ctx.check('empty', c.size == 0 and len(c) == 0)
    ctx.raises('negative count', ValueError, getattr(curves, gen), t0, t1, p_count=-1)
