"""C31: what a plot hands to the axes.

matplotlib is not installed here; its classes are replaced by recorders which keep the arguments
they are given.  skcurve.plot itself is the real code."""
import sys
import types
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *
from props.c12 import quiet

ASSUMPTIONS = ['matplotlib is replaced by objects which record the arguments they are given; what matplotlib does with them is outside']


class Rec:
    """keeps every call of every method"""
    def __init__(self, *args, **kwargs):
        self.made = (args, kwargs)
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def call(*args, **kwargs):
            self.calls.append((name, args, kwargs))
            return None
        return call

    def called(self, name):
        return [(a, k) for n, a, k in self.calls if n == name]


class Figure(Rec):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.bars = []

    def add_subplot(self, *args, **kwargs):
        self.calls.append(('add_subplot', args, kwargs))
        ax = Axes3D() if kwargs.get('projection') == '3d' else Axes()
        ax.figure = self
        return ax

    def colorbar(self, mappable, ax=None, **kwargs):
        self.calls.append(('colorbar', (mappable,), {'ax': ax}))
        bar = Rec()
        bar.ax = Rec()
        self.bars.append(bar)
        return bar


class Axes(Rec):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.figure = Figure()


class Axes3D(Axes):
    pass


class LineCollection(Rec):
    pass


class Line3DCollection(Rec):
    pass


class Normalize(Rec):
    pass


class ScalarMappable(Rec):
    def to_rgba(self, values):
        return ('colors of', values)


FIGURES = []


def figure(*a, **k):
    f = Figure()
    FIGURES.append(f)
    return f


def stub(name, **names):
    m = types.ModuleType(name)
    m.__dict__.update(names)
    m.__path__ = []
    sys.modules[name] = m
    if '.' in name:
        parent, _, last = name.rpartition('.')
        setattr(sys.modules[parent], last, m)
    return m


stub('matplotlib')
stub('matplotlib.collections', LineCollection=LineCollection)
stub('matplotlib.colors', Normalize=Normalize)
stub('matplotlib.cm', ScalarMappable=ScalarMappable)
stub('matplotlib.pyplot', figure=figure, Axes=Axes)
stub('mpl_toolkits')
stub('mpl_toolkits.mplot3d', Axes3D=Axes3D)
stub('mpl_toolkits.mplot3d.art3d', Line3DCollection=Line3DCollection)

from skcurve import plot  # noqa: E402


def axes_for(d, which):
    return {'none': None, 'flat': Axes(), 'space': Axes3D()}[which]


def columns(r, d):
    return [[p[j] for p in r] for j in range(d)]


@case(n=[0, 1, 2, 4], d=[2, 3], axes=['none', 'flat', 'space'], par=[False, True], _where=lambda n, d, axes, par: not (d == 3 and axes == 'flat') and not (par and n != 2))
def points(ctx, n, d, axes, par):
    """the coordinates go to the axes, one array for each dimension, with the given format and options"""
    c, r, t = curve(ctx, 'p', n, d, par)
    ax = axes_for(d, axes)
    del FIGURES[:]
    p = plot.curveplot(c, 'r-', color='k', marker='o', axes=ax)
    if ax is None:
        ctx.check('a new figure', len(FIGURES) == 1 and len(FIGURES[0].called('add_subplot')) == 1)
        ctx.check('kind of the axes', isinstance(p.axes, Axes3D) == (d == 3))
    else:
        ctx.check('the given axes', p.axes is ax and FIGURES == [])
    calls = p.axes.called('plot')
    ctx.check('drawn once', len(calls) == 1)
    args, kwargs = calls[0]
    ctx.check('format and options', len(args) == d + 1 and args[d] == 'r-' and kwargs == {'color': 'k', 'marker': 'o'})
    for j in range(d):
        ctx.close('coordinate %d' % j, np.array(args[j]), [x[j] for x in r])
    ctx.close('kept', c.data, r)


@case(n=[2, 3, 4], d=[2, 3], param=['t', 'cumarclen', 'chordlen'], marker=[False, True], _where=lambda n, d, param, marker: param in ('t', 'cumarclen') or (n == 3 and marker))
def coloured(ctx, n, d, param, marker):
    """one piece for each segment, coloured by the parameter over its range"""
    c, r, t = curve(ctx, 'p', n, d, param == 't')
    ax = axes_for(d, 'flat' if d == 2 else 'space')
    o = {'marker': 's'} if marker else {}
    p = quiet(lambda: plot.CurvePlot(c, param=param, param_cmap='gray', axes=ax, linewidths=3, **o))
    v = quiet(lambda: getattr(c, param))
    ctx.check('axes', p.axes is ax and ax.called('plot') == [])
    added = ax.called('add_collection' if d == 2 else 'add_collection3d')
    ctx.check('one collection', len(added) == 1 and not ax.called('add_collection3d' if d == 2 else 'add_collection'))
    lines = added[0][0][0]
    ctx.check('kind', type(lines) is (LineCollection if d == 2 else Line3DCollection))
    segs = np.array(lines.made[0][0])
    ctx.check('number of pieces', tuple(segs.shape) == (n - 1, 2, d))
    for k in range(n - 1):
        ctx.close('piece', segs[k], [r[k], r[k + 1]])
    ctx.check('options', lines.made[1].get('linewidths') == 3 and 'marker' not in lines.made[1])
    ctx.close('values', lines.called('set_array')[0][0][0], v)
    norm = lines.called('set_norm')[0][0][0]
    ctx.check('map', lines.called('set_cmap')[0][0][0] == 'gray')
    vs = v.tolist()
    lo, hi = norm.made[0]
    for x in vs:
        ctx.le('range', lo, x)
        ctx.le('range', x, hi)
    ctx.check('least', ctx.any_([lo == x for x in vs]))
    ctx.check('greatest', ctx.any_([hi == x for x in vs]))
    bars = ax.figure.called('colorbar')
    ctx.check('bar', len(bars) == 1 and bars[0][1] == {'ax': ax} and type(bars[0][0][0]) is ScalarMappable)
    ctx.check('map of the bar', bars[0][0][0].made[1].get('norm') is norm and bars[0][0][0].made[1].get('cmap') == 'gray')
    ctx.check('label', ax.figure.bars[0].ax.called('set_ylabel')[0][0] == (param,))
    sc = ax.called('scatter')
    ctx.check('markers', len(sc) == (1 if marker else 0))
    if marker:
        ctx.check('marker', sc[0][1].get('marker') == 's' and sc[0][1].get('c')[0] == 'colors of' and len(sc[0][0]) == d)
        for j in range(d):
            ctx.close('marked points', np.array(sc[0][0][j]), [x[j] for x in r])
    ctx.close('kept', c.data, r)


@case(n=[3, 4])
def normals(ctx, n):
    """normals start at the points"""
    x = vec(ctx, 'p', 2, lo=-9, hi=9)
    r = [vadd(x, [k, k * k]) for k in range(n)]
    c = sk.Curve(array([[v * 1.0 for v in q] for q in r]))
    ax = Axes()
    p = quiet(lambda: plot.curveplot(c, show_normals=True, axes=ax))
    ctx.check('drawn', len(ax.called('plot')) == 1)
    q = ax.called('quiver')
    ctx.check('arrows', len(q) == 1 and len(q[0][0]) == 4)
    f2 = quiet(lambda: c.frenet2)
    for j in range(2):
        ctx.close('from', np.array(q[0][0][j]), [v[j] for v in r])
        ctx.close('along', np.array(q[0][0][2 + j]), f2[:, j])
    ctx.check('not asked, not drawn', plot.curveplot(c, axes=Axes()).axes.called('quiver') == [])


@case(d=[2, 3])
def chain(ctx, d):
    """further curves go to the same axes"""
    a, ra, _ = curve(ctx, 'a', 2, d)
    b, rb, _ = curve(ctx, 'b', 3, d)
    ax = axes_for(d, 'space')
    p = plot.curveplot(a, 'x', axes=ax)
    q = p.curveplot(b, 'y', color='w')
    ctx.check('same axes', q.axes is ax and p.axes is ax and isinstance(q, plot.CurvePlot) and q is not p)
    calls = ax.called('plot')
    ctx.check('both', len(calls) == 2 and calls[0][0][d] == 'x' and calls[1][0][d] == 'y' and calls[1][1] == {'color': 'w'} and calls[0][1] == {})
    for (args, _), r in zip(calls, (ra, rb)):
        for j in range(d):
            ctx.close('coordinate', np.array(args[j]), [x[j] for x in r])
    quiet(lambda: q.curveplot(b, param='cumarclen', param_cmap='jet'))
    lines = ax.called('add_collection' if d == 2 else 'add_collection3d')
    ctx.check('coloured, too', len(lines) == 1 and lines[0][0][0].called('set_cmap')[0][0][0] == 'jet')


@case(n=[1, 3])
def refused(ctx, n):
    four, _, _ = curve(ctx, 'f', n, 4)
    three, _, _ = curve(ctx, 't', n, 3)
    for ax in (None, Axes(), Axes3D()):
        ctx.raises('four dimensions', ValueError, plot.curveplot, four, axes=ax)
    flat = Axes()
    ctx.raises('flat axes', TypeError, plot.curveplot, three, axes=flat)
    ctx.check('nothing drawn', flat.calls == [])
    ctx.raises('unknown parameter', AttributeError, quiet, lambda: plot.curveplot(three, param='nope', axes=Axes3D()))
    if n == 3:
        x = vec(ctx, 'x', 3, lo=-9, hi=9)
        bent = sk.Curve(array([[v * 1.0 for v in vadd(x, [k, k * k, 0])] for k in range(3)]))
        ctx.raises('normals in space', NotImplementedError, quiet, lambda: plot.curveplot(bent, show_normals=True, axes=Axes3D()))
