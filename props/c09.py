"""C09: equality, membership, index, count."""
import numpy as np
import skcurve as sk
from harness.api import case
from harness.common import *

ASSUMPTIONS = ['different float coordinates compared for inequality differ by more than 1e-3 relative to their size; equality is '
               'required of identical coordinates; nothing is claimed in between except that all operations agree',
               'integer coordinates are at most 10000 in magnitude (closeness and equality coincide)']


def far(ctx, x, y):
    """clearly different values"""
    return ctx.or_(x - y > 0.001 + 0.001 * ctx.abs(x) + 0.001 * ctx.abs(y), y - x > 0.001 + 0.001 * ctx.abs(x) + 0.001 * ctx.abs(y))


def pt(ctx, name, d, kind):
    v = vec(ctx, name, d, kind, *((-10000, 10000) if kind == 'i' else (None, None)))
    return sk.Point(v, dtype=np.float64 if kind == 'f' else np.int64), v


def crv(ctx, name, n, d, par, kind):
    r = rows(ctx, name, n, d, kind, *((-10000, 10000) if kind == 'i' else (None, None)))
    t = vec(ctx, name + 't', n) if par else None
    if n:
        return sk.Curve(array(r, kind, d), tdata=t), r
    return sk.Curve([], ndmin=d, tdata=t, dtype=np.float64 if kind == 'f' else np.int64), r


def truth(ctx, x):
    """the boolean a comparison returned, decided on this path"""
    return ctx.is_true(x)


@case(d=[1, 2, 3], ka=['f', 'i'], kb=['f', 'i'])
def points(ctx, d, ka, kb):
    a, va = pt(ctx, 'a', d, ka)
    b, vb = pt(ctx, 'b', d, kb)
    e = truth(ctx, a == b)
    ctx.check('symmetric', ctx.iff(b == a, e))
    ctx.check('not equal', ctx.iff(a != b, not e))
    ctx.check('reflexive', a == a)
    ctx.check('copy', ctx.and_(a == sk.Point(a, dtype=a.dtype), sk.Point(a) == a))
    same = ctx.all_([x == y for x, y in zip(va, vb)])
    diff = ctx.any_([far(ctx, x, y) for x, y in zip(va, vb)])
    if ka == kb == 'i':
        diff = ctx.not_(same)
    ctx.check('equal coordinates', ctx.implies(same, e))
    ctx.check('different coordinates', ctx.implies(diff, not e))


@case(d=[2, 3])
def near(ctx, d):
    """the documented closeness: rtol 1e-5, atol 1e-8"""
    a, va = pt(ctx, 'a', d, 'f')
    e = vec(ctx, 'e', d)
    for x, h in zip(va, e):
        ctx.assume(ctx.and_(ctx.abs(h) <= 0.000005 * ctx.abs(x) + 0.000000005))
    b = sk.Point([x + h for x, h in zip(va, e)])
    ctx.check('close points are equal', ctx.and_(a == b, b == a))
    c, q = sk.Curve(array([va])), sk.Curve(array([b.data.tolist()]))
    ctx.check('close curves are equal', ctx.and_(c == q, q == c))
    ctx.check('membership of close points', ctx.and_(b in c, a in q))
    ctx.check('count of close points', c.count(b) == 1)


@case(da=[1, 2, 3], db=[1, 2, 3], _where=lambda da, db: da != db)
def different_dimensions(ctx, da, db):
    a, va = pt(ctx, 'a', da, 'f')
    b, vb = pt(ctx, 'b', db, 'f')
    ctx.check('points', ctx.and_(ctx.not_(a == b), ctx.not_(b == a), a != b))
    if min(da, db) >= 2:
        c, r = crv(ctx, 'p', 2, da, False, 'f')
        q, s = crv(ctx, 'q', 2, db, False, 'f')
        ctx.check('curves', ctx.and_(ctx.not_(c == q), ctx.not_(q == c)))
        ctx.check('not contained', ctx.and_(not (q in c), not (c in q), not (b in c), not (a in q)))
        ctx.raises('index', ValueError, c.index, b)
        ctx.raises('count', ValueError, c.count, b)
    s1 = sk.Segment(a, a)
    s2 = sk.Segment(b, b)
    ctx.check('segments', ctx.and_(ctx.not_(s1 == s2), ctx.not_(s2 == s1)))


@case(d=[2, 3], k=['f', 'i'])
def segments(ctx, d, k):
    a, va = pt(ctx, 'a', d, k)
    b, vb = pt(ctx, 'b', d, k)
    e, ve = pt(ctx, 'e', d, 'f')
    s, q = sk.Segment(a, b), sk.Segment(a, e)
    r = truth(ctx, s == q)
    ctx.check('as the second ends', ctx.iff(b == e, r))
    ctx.check('symmetric', ctx.iff(q == s, r))
    ctx.check('reflexive', s == s)
    r2 = truth(ctx, s == sk.Segment(e, b))
    ctx.check('as the first ends', ctx.iff(a == e, r2))
    r3 = truth(ctx, s == s.reverse())
    ctx.check('reversed segment equals iff ends equal', ctx.iff(a == b, r3))
    ctx.check('singular', ctx.iff(s.singular, r3))


@case(other=['none', 'list', 'number', 'str', 'array', 'segment', 'curve', 'point'])
def other_types(ctx, other):
    """comparison with other types is false"""
    a, va = pt(ctx, 'a', 2, 'f')
    c, r = crv(ctx, 'p', 2, 2, False, 'f')
    s = sk.Segment(a, a)
    o = {'none': None, 'list': list(va), 'number': 1.0, 'str': 'a', 'array': None, 'segment': s, 'curve': c, 'point': a}[other]
    if other == 'array':
        ctx.check('array in curve', not (np.array([1.0, 2.0]) in c))
        return
    for nm, x in (('point', a), ('curve', c), ('segment', s)):
        if nm != other:
            ctx.check(nm, ctx.and_(not (x == o), x != o))
    if other not in ('curve', 'point'):
        ctx.check('not in curve', not (o in c))


@case(n=[0, 1, 2, 3], m=[0, 1, 2, 3], d=[2, 3], ka=['f', 'i'], kb=['f', 'i'],
      _where=lambda n, m, d, ka, kb: abs(n - m) <= 1 and (d == 2 or n <= 2))
def curves(ctx, n, m, d, ka, kb):
    """curves are equal exactly when sizes agree and all points are equal"""
    a, ra = crv(ctx, 'p', n, d, False, ka)
    b, rb = crv(ctx, 'q', m, d, True, kb)
    e = truth(ctx, a == b)
    ctx.check('symmetric', ctx.iff(b == a, e))
    ctx.check('not equal', ctx.iff(a != b, not e))
    ctx.check('reflexive', ctx.and_(a == a, b == b))
    ctx.check('copy', ctx.and_(a == sk.Curve(a), sk.Curve(b) == b))
    if n != m:
        ctx.check('different sizes', not e)
        return
    ctx.check('as the points', ctx.iff(ctx.all_([sk.Point(x) == sk.Point(y) for x, y in zip(ra, rb)]), e))
    same = ctx.all_([x == y for x, y in zip(flat(ra), flat(rb))])
    diff = ctx.any_([far(ctx, x, y) for x, y in zip(flat(ra), flat(rb))])
    ctx.check('equal rows', ctx.implies(same, e))
    ctx.check('different rows', ctx.implies(diff, not e))


@case(n=[1, 2, 3], d=[2, 3])
def dtype_ignored(ctx, n, d):
    """the same integer values as int and as float are equal objects"""
    r = rows(ctx, 'p', n, d, 'i', -10000, 10000)
    a, b = sk.Curve(array(r, 'i')), sk.Curve(array(r, 'f'))
    ctx.check('curves', ctx.and_(a == b, b == a, a in b, b in a))
    for k in range(n):
        p, q = sk.Point(r[k], dtype=np.int64), sk.Point(r[k])
        ctx.check('points', ctx.and_(p == q, q == p, a[k] == p, b[k] == p, p == a[k], q == b[k]))
        ctx.check('contained', ctx.and_(p in b, q in a, p in a))
        ctx.check('counted', ctx.and_(b.count(p) >= 1, a.count(q) >= 1, a.count(p) == b.count(q)))
        ctx.check('indexed', ctx.and_(b.index(p) == a.index(q), a.index(p) == b.index(q)))


@case(n=[0, 1, 2, 3, 4], d=[2, 3], kc=['f', 'i'], kp=['f', 'i'], _where=lambda n, d, kc, kp: (d == 2 or n < 3) and (n < 4 or kc == kp), _thorough={'n': [5]})
def search(ctx, n, d, kc, kp):
    """membership, count and index are those of the list of point comparisons"""
    c, r = crv(ctx, 'c', n, d, False, kc)
    p, v = pt(ctx, 'v', d, kp)
    eq = [truth(ctx, c[k] == p) for k in range(n)]
    hits = [k for k in range(n) if eq[k]]
    for k in range(n):
        ctx.check('either order', ctx.iff(p == c[k], eq[k]))
    ctx.check('in', bool(p in c) == bool(hits))
    ctx.check('count', c.count(p) == len(hits))
    if hits:
        ctx.reach('found')
        ctx.check('index', c.index(p) == hits[0])
    else:
        ctx.reach('not found')
        ctx.raises('index', ValueError, c.index, p)


@case(n=[0, 1, 2, 3, 4], pat=['none', 'all', 'odd', 'ends'], use=['start', 'end', 'both'], par=[False, True])
def index_interval(ctx, n, pat, use, par):
    """index within a start/end interval gives the index in the curve"""
    v = [ctx.real('v0'), ctx.real('v1')]
    r = []
    for k in range(n):
        hit = {'none': False, 'all': True, 'odd': k % 2 == 1, 'ends': k in (0, n - 1)}[pat]
        if hit:
            r.append(list(v))
        else:
            w = [ctx.real('w%d' % k), ctx.real('z%d' % k)]
            ctx.assume(far(ctx, w[0], v[0]))
            r.append(w)
    c = sk.Curve(array(r), tdata=vec(ctx, 't', n) if par else None)
    p = sk.Point(v)
    a = ctx.choose('start', range(-n - 2, n + 3)) if use in ('start', 'both') else None
    b = ctx.choose('end', range(-n - 2, n + 3)) if use in ('end', 'both') else None
    hits = [k for k in range(n)[slice(a, b)] if {'none': False, 'all': True, 'odd': k % 2 == 1, 'ends': k in (0, n - 1)}[pat]]
    if hits:
        ctx.reach('found')
        ctx.check('index', c.index(p, a, b) == hits[0])
        if a is not None and b is not None:
            ctx.check('index by keyword', c.index(p, start=a, end=b) == hits[0])
    else:
        ctx.reach('not found')
        ctx.raises('index', ValueError, c.index, p, a, b)


@case(n=[0, 1, 2, 3, 4], m=[0, 1, 2, 3, 4], _where=lambda n, m: n * m <= 9, _opts={'max_paths': 6000}, _cost=3)
def subcurve_membership(ctx, n, m):
    """a curve is contained exactly when its points occur as a contiguous run (coordinates from three values)"""
    base = [[0.0, ctx.real('y0')], [5.0, ctx.real('y1')], [-3.0, ctx.real('y2')]]
    la = [ctx.choose('a%d' % k, [0, 1, 2][:min(3, k + 2)] if k else [0, 1]) for k in range(n)]
    lb = [ctx.choose('b%d' % k, [0, 1, 2] if n < 3 else [0, 1]) for k in range(m)]
    a = sk.Curve(array([base[k] for k in la]))
    b = sk.Curve(array([base[k] for k in lb]))
    want = m <= n and any([la[i:i + m] == lb for i in range(n - m + 1)])
    if m == 0 or n == 0:
        want = m <= n
    ctx.check('contained', bool(b in a) == want)


@case(n=[2, 3], m=[1, 2])
def subcurve_symbolic(ctx, n, m):
    a, ra = crv(ctx, 'a', n, 2, False, 'f')
    b, rb = crv(ctx, 'b', m, 2, False, 'f')
    got = truth(ctx, b in a)
    runs = [ctx.all_([a[i + j] == b[j] for j in range(m)]) for i in range(n - m + 1)]
    ctx.check('as the runs', ctx.iff(ctx.any_(runs), got))


@case(n=[1, 2, 3, 4], par=[False, True])
def own_parts(ctx, n, par):
    """every contiguous part of a curve and every point is contained in it"""
    c, r = crv(ctx, 'c', n, 2, par, 'f')
    for i in range(n):
        ctx.check('point', c[i] in c)
        ctx.check('counted', c.count(c[i]) >= 1)
        ctx.check('index', ctx.and_(c.index(c[i]) <= i, c.index(c[i], i) == i))
        for j in range(i, n):
            ctx.check('part', c[i:j + 1] in c)
    ctx.check('longer curve', not (c.append(c[0]) in c))


@case(n=[20, 70], d=[2, 3], kc=['f', 'i'], kp=['f', 'i'], at=[None, [0], [7, 8], [-1], [3, 11, 17]])
def long_search(ctx, n, d, kc, kp, at):
    """membership, count and index of a symbolic point in long curves"""
    hits = [k % n for k in at or []]
    if kc == 'i' or kp == 'i':
        v = vec(ctx, 'v', d, 'i', 100, 10000)
    else:
        v = vec(ctx, 'v', d, 'f', 100, 10000)
    r = path(n, d)
    for k in hits:
        r[k] = list(v)
    t = vec(ctx, 't', n)
    c = sk.Curve(array(r, kc), tdata=t)
    p = sk.Point(v, dtype=np.float64 if kp == 'f' else np.int64)
    ctx.check('in', bool(p in c) == bool(hits))
    ctx.check('count', c.count(p) == len(hits))
    for a, b in ((None, None), (0, None), (5, None), (-3, None), (None, 10), (4, -4), (-n, n), (8, 9), (n, None), (12, 5)):
        h = [k for k in range(n)[slice(a, b)] if k in hits]
        if h:
            ctx.check('index', c.index(p, a, b) == h[0])
        else:
            ctx.raises('index', ValueError, c.index, p, a, b)


@case(n=[20, 70], m=[3, 17, 20, 40], k=[0, 3, 'end', 'beyond'], change=[None, 0, 'mid', -1], kinds=['ff', 'fi', 'if', 'ii'],
      _where=lambda n, m, k, change, kinds: m <= n and (kinds == 'ff' or n == 20))
def long_contained(ctx, n, m, k, change, kinds):
    """a long curve contains its parts; a part with one changed point is not contained"""
    r = [[i] + x for i, x in enumerate(path(n, 1))]
    i = {'end': n - m, 'beyond': n - m + 1}.get(k, k)
    part = [list(x) for x in r][i:i + m]
    want = True
    if k == 'beyond' or len(part) < m:
        part = part + [[-1, -1]]
        want = False
    if change is not None:
        j = {'mid': len(part) // 2}.get(change, change)
        part[j][1] = ctx.scalar('new', 'f' if kinds[1] == 'f' else 'i', 50, 1000)
        want = False
    a = sk.Curve(array(r, kinds[0]), tdata=vec(ctx, 't', n))
    b = sk.Curve(array(part, kinds[1]))
    ctx.check('contained', bool(b in a) == want)
    same = len(part) == n and want
    ctx.check('equal', bool(a == b) == same and bool(b == a) == same and bool(a != b) != same)


@case(n=[6, 20], lead=[2, 5], _where=lambda n, lead: lead < n)
def repeated_prefix(ctx, n, lead):
    """a run is found although shorter partial runs come before it"""
    x = [ctx.real('x', 1, 10), ctx.real('y')]
    z = [-4.0, ctx.real('z')]
    r = [x] * (n - 1) + [z]
    a = sk.Curve(array(r))
    for m in range(1, n):
        ctx.check('run', sk.Curve(array([x] * m + [z])) in a)
    ctx.check('too long', not (sk.Curve(array([x] * n)) in a))
    r = ([x] * lead + [z]) * 2 + [x] * (lead + 1) + [z]
    a = sk.Curve(array(r))
    ctx.check('later run', sk.Curve(array([x] * (lead + 1) + [z])) in a)
    ctx.check('absent run', not (sk.Curve(array([x] * (lead + 2))) in a))
    ctx.check('overlapping', sk.Curve(array(r[lead - 1:])) in a)
    ctx.check('count', a.count(sk.Point(x)) == 3 * lead + 1 and a.count(sk.Point(z)) == 3)


@case(scale=[1.0, 1000000.0], d=[2, 3])
def scaled(ctx, scale, d):
    """the documented closeness (1e-5 relative to the value) also holds for large coordinates, and not more than that"""
    v = vec(ctx, 'v', d, 'f', 1, 2)
    i = ctx.choose('axis', range(d))
    a = [x * scale for x in v]
    near = list(a)
    near[i] = a[i] * 1.000004
    apart = list(a)
    apart[i] = a[i] * 1.0001
    p, q, s = sk.Point(a), sk.Point(near), sk.Point(apart)
    ctx.check('close points', ctx.and_(p == q, q == p))
    ctx.check('different points', ctx.and_(p != s, s != p))
    c = sk.Curve(array([a, apart, [0] * d]))
    ctx.check('membership', ctx.and_(q in c, sk.Curve(array([near])) in c, sk.Curve(array([near, apart])) in c,
                                     not (sk.Curve(array([near, near])) in c)))
    ctx.check('count', c.count(q) == 1)
    ctx.check('curves', ctx.and_(sk.Curve(array([a, a])) == sk.Curve(array([near, near])),
                                 sk.Curve(array([a, a])) != sk.Curve(array([a, apart]))))
