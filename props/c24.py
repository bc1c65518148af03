"""C24: intersection results and the selection of a method."""
import itertools
import warnings
import numpy as np
import skcurve as sk
from skcurve import _intersect as ix
from harness.api import case
from harness.common import *
from props.c12 import quiet
from props.c19 import P

ASSUMPTIONS = ['methods are compared on segments and curves of fixed directions and free positions (see C22, C23 and C21 for the answers themselves)']
OPTS = {'unique_order': 'first', 'max_paths': 400}
T = sk.IntersectionType
COUNT = itertools.count()


def fresh():
    return 'verif-method-%d' % next(COUNT)


def info_of(ctx, typ, d, kind):
    """(info, end points of the segment or the point twice)"""
    if typ == 'NONE':
        return T.NONE(), None, None
    a = vec(ctx, 'a', d, kind)
    if typ == 'EXACT':
        p = P(a)
        return T.EXACT(p), a, p
    b = vec(ctx, 'b', d, kind)
    s = sk.Segment(P(a), P(b))
    return getattr(T, typ)(s), (a, b), s


@case(typ=['NONE', 'EXACT', 'OVERLAP', 'ALMOST'], d=[1, 2, 3], kind=['f', 'i'])
def result(ctx, typ, d, kind):
    s1, _, _ = seg(ctx, 's', d)
    s2, _, _ = seg(ctx, 'r', d)
    info, w, obj = info_of(ctx, typ, d, kind)
    ctx.check('info', isinstance(info, sk.IntersectionInfo) and info.type == getattr(T, typ) and info.data is obj)
    x = sk.SegmentsIntersection(s1, s2, info)
    ctx.check('segments', x.segment1 is s1 and x.segment2 is s2)
    ctx.check('kept info', x.intersect_info == info and x.intersect_type == getattr(T, typ))
    ctx.check('truth', bool(x) == (typ != 'NONE'))
    p, s = x.intersect_point, x.intersect_segment
    if typ == 'NONE':
        ctx.check('nothing', p is None and s is None)
        ctx.check('constant', sk.NOT_INTERSECTED == info)
        return
    ctx.check('kinds', isinstance(p, sk.Point) and isinstance(s, sk.Segment) and p.ndim == d and s.ndim == d)
    if typ == 'EXACT':
        ctx.close('point', p.data, w)
        ctx.close('degenerate segment', s.data, [w, w])
        ctx.check('singular', s.singular)
    else:
        ctx.close('midpoint', p.data, [(y + z) / 2 for y, z in zip(*w)])
        ctx.close('segment', s.data, list(w))


@case(d=[2, 3])
def info_refused(ctx, d):
    p = P(vec(ctx, 'p', d))
    s = sk.Segment(p, P(vec(ctx, 'q', d)))
    for typ, bad in ((T.NONE, [p, s, 0, (1, 2)]), (T.EXACT, [None, s, p.data, 1.0]), (T.OVERLAP, [None, p, s.data, [p, p]]), (T.ALMOST, [None, p, (p, p), 0])):
        for i, b in enumerate(bad):
            ctx.raises('%s refuses %d' % (typ.name, i), ValueError, typ, b)
    ctx.raises('EXACT needs data', ValueError, T.EXACT)
    ctx.raises('OVERLAP needs data', ValueError, T.OVERLAP)
    ctx.raises('ALMOST needs data', ValueError, T.ALMOST)
    ctx.check('NONE takes None', T.NONE(None).data is None and T.NONE(None).type == T.NONE)


def pair(ctx, d, objs, kind='f'):
    """objects with one free coordinate of the relative position; clear of the tolerances"""
    k = ctx.scalar('k', 'f', -6, 6)
    for e in (0, 1, 2, 3, 4):
        for m in (-1, 1):
            g = k - m * e
            ctx.assume(ctx.any_([g == 0, g >= 0.01, g <= -0.01]))
    z = [0.0] * (d - 2)
    rows1, rows2 = [[0.0, 0.0] + z, [4.0, 0.0] + z, [4.0, 3.0] + z], [[k, -2.0] + z, [k, 1.0] + z, [k + 3, 1.0] + z]
    def make(o, r):
        return sk.Segment(P(r[0]), P(r[1])) if o == 's' else sk.Curve(array(r))
    return make(objs[0], rows1), make(objs[1], rows2)


def outcome(ctx, x):
    """types and ends of everything found"""
    xs = x if isinstance(x, list) else [x]
    for y in xs:
        ctx.check('is an intersection', isinstance(y, sk.SegmentsIntersection))
    return [(y.intersect_type, y.intersect_segment.data if y else None, y.segment1.data, y.segment2.data) for y in xs]


def same(ctx, label, a, b):
    ctx.check(label + ': a list or one', isinstance(a, list) == isinstance(b, list))
    a, b = outcome(ctx, a), outcome(ctx, b)
    ctx.check(label + ': number', len(a) == len(b))
    ctx.check(label + ': types', [x[0] for x in a] == [x[0] for x in b])
    for x, y in zip(a, b):
        if x[1] is not None and y[1] is not None:
            ctx.close(label + ': where', x[1], y[1])
        ctx.close(label + ': first', x[2], y[2])
        ctx.close(label + ': second', x[3], y[3])


@case(d=[2, 3], objs=['ss', 'cs', 'cc'], method=['exact', 'almost'], _opts=OPTS)
def selection(ctx, d, objs, method):
    """by name, by object and as the default"""
    a, b = pair(ctx, d, objs)
    params = {'dist_tol': 0.25, 'correct_overlap': True} if method == 'almost' else {}
    name = quiet(lambda: a.intersect(b, method=method, **params))
    obj = sk.get_intersect_method(method, **params)
    same(ctx, 'object', quiet(lambda: a.intersect(b, method=obj)), name)
    same(ctx, 'called', quiet(lambda: obj(a, b)), name)
    before = sk.default_intersect_method()
    ctx.check('default', before == 'exact')
    try:
        sk.set_default_intersect_method(method)
        ctx.check('new default', sk.default_intersect_method() == method)
        same(ctx, 'default', quiet(lambda: a.intersect(b, **params)), name)
        got, ws = ctx.warned(lambda: a.intersect(b, method=obj, feps=7))
        ctx.check('parameters ignored with a warning', ix.IntersectionWarning in ws)
        same(ctx, 'parameters ignored', got, name)
        ctx.raises('unknown default', NameError, sk.set_default_intersect_method, 'no such method')
        ctx.check('default kept', sk.default_intersect_method() == method)
    finally:
        sk.set_default_intersect_method(before)


@case(d=[2, 3], objs=['ss', 'cs', 'cc'])
def default_is_exact(ctx, d, objs):
    a, b = pair(ctx, d, objs)
    same(ctx, 'default', a.intersect(b), a.intersect(b, method='exact'))
    methods = sk.intersect_methods()
    ctx.check('listed', isinstance(methods, list) and methods[:2] == ['exact', 'almost'] and sk.default_intersect_method() in methods)


class Recorder(ix.IntersectionMethodBase):
    """reports the middle of the first segment"""
    def __init__(self, at=0.5, fail=None):
        self.at, self.fail, self.seen = at, fail, []

    def _intersect_segments(self, segment1, segment2):
        self.seen.append((segment1, segment2))
        if self.fail is not None:
            raise self.fail
        return T.EXACT(segment1.point(self.at))

    def _intersect_curves(self, curve1, curve2):
        self.seen.append((curve1, curve2))
        if self.fail is not None:
            raise self.fail
        return [sk.SegmentsIntersection(s, r, self._intersect_segments(s, r)) for s in curve1.segments for r in curve2.segments]


@case(d=[2, 3], objs=['ss', 'cs', 'sc', 'cc'], how=['object', 'name', 'default'])
def own_method(ctx, d, objs, how):
    """a method of the user answers for the given objects"""
    a, ra = obj_of(ctx, 'a', objs[0], d)
    b, rb = obj_of(ctx, 'b', objs[1], d)
    t = ctx.scalar('t', 'f', 0, 1)
    if how == 'object':
        ask = lambda x, y: x.intersect(y, method=Recorder(t)) if objs != 'sc' else ix.intersect(x, y, method=Recorder(t))
    else:
        nm = fresh()
        ctx.check('decorator', sk.register_intersect_method(nm)(Recorder) is Recorder)
        ctx.check('listed', nm in sk.intersect_methods() and sk.default_intersect_method() != nm)
        ask = lambda x, y: ix.intersect(x, y, method=nm if how == 'name' else None, at=t)
    before = sk.default_intersect_method()
    try:
        if how == 'default':
            sk.set_default_intersect_method(nm)
        x = ask(a, b)
    finally:
        sk.set_default_intersect_method(before)
    ctx.check('a list unless segments', isinstance(x, list) == (objs != 'ss'))
    xs = x if isinstance(x, list) else [x]
    pairs = list(itertools.product(range(len(ra) - 1), range(len(rb) - 1)))
    ctx.check('all pairs', len(xs) == len(pairs))
    for y, (i, j) in zip(xs, pairs):
        ctx.check('exact', y.intersect_type == T.EXACT)
        ctx.close('point', y.intersect_point.data, vadd(ra[i], vmul(vsub(ra[i + 1], ra[i]), t)))
        ctx.close('first', y.segment1.data, [ra[i], ra[i + 1]])
        ctx.close('second', y.segment2.data, [rb[j], rb[j + 1]])
        if objs[0] == 's':
            ctx.check('the given segment', y.segment1 is a)
        if objs[1] == 's':
            ctx.check('the given second segment', y.segment2 is b)


def obj_of(ctx, name, o, d, n=3):
    r = rows(ctx, name, 2 if o == 's' else n, d)
    return (sk.Segment(P(r[0]), P(r[1])), r) if o == 's' else (sk.Curve(array(r)), r)


@case(objs=['ss', 'cs', 'cc'], err=[ValueError, ZeroDivisionError, KeyError])
def failing_method(ctx, objs, err):
    a, _ = obj_of(ctx, 'a', objs[0], 2)
    b, _ = obj_of(ctx, 'b', objs[1], 2)
    ctx.raises('object', ix.IntersectionError, a.intersect, b, method=Recorder(fail=err('x')))
    nm = fresh()
    sk.register_intersect_method(nm)(Recorder)
    ctx.raises('name', ix.IntersectionError, a.intersect, b, method=nm, fail=err('x'))
    ctx.check('and then works', bool(a.intersect(b, method=nm)))


@case(objs=['ss', 'cs', 'cc'], d=[3, 4])
def refused(ctx, objs, d):
    a, _ = obj_of(ctx, 'a', objs[0], d)
    b, _ = obj_of(ctx, 'b', objs[1], d)
    low, _ = obj_of(ctx, 'l', objs[1], d - 1)
    for m in ('nope', '', 'EXACT'):
        ctx.raises('unknown %r' % m, NameError, a.intersect, b, method=m)
        ctx.raises('unknown getter %r' % m, NameError, sk.get_intersect_method, m)
    for m in (3, 1.5, [1], (), False):
        ctx.raises('not a method %r' % (m,), ValueError, a.intersect, b, method=m)
    for m in (None, 'exact', 'almost', Recorder()):
        ctx.raises('dimensions', ValueError, a.intersect, low, method=m)
    for m in (sk.get_intersect_method('exact'), sk.get_intersect_method('almost'), Recorder()):
        ctx.raises('dimensions of the call', ValueError, m, a, low)
        p = P(vec(ctx, 'p%d' % d, d))
        ctx.raises('not an object', TypeError, m, a, p)
        ctx.raises('not a first object', TypeError, m, p, a)
        ctx.raises('not a data array', TypeError, m, a, b.data)


@case(method=['exact', 'almost', 'own'], d=[2, 3], n=[0, 1, 2, 3])
def empty(ctx, method, d, n):
    """nothing meets an empty curve"""
    e = sk.Curve([], ndmin=d)
    m = Recorder() if method == 'own' else method
    c = sk.Curve(array(rows(ctx, 'c', n, d), d=d)) if n else sk.Curve([], ndmin=d)
    for x in (c.intersect(e, method=m), e.intersect(c, method=m), e.intersect(method=m)):
        ctx.check('nothing', isinstance(x, list) and x == [])
    if n == 2:
        s = sk.Segment(P(c.data[0]), P(c.data[1]))
        ctx.check('nothing on a segment', ix.intersect(s, e, method=m) == [] and e.intersect(s, method=m) == [])
    if method == 'own':
        ctx.check('not even asked', m.seen == [])
