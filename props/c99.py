"""Not a property: self test of the encoding. NumPy and Python idioms a rewrite of the code may use, executed
symbolically; sampled models are compared with the real runtime (python3-vt check.py C99)."""
import collections
import functools
import itertools
import math
import operator
import numpy as np
from numpy import linalg as LA
import scipy.spatial.distance as sd
from harness.api import case
from harness.common import *

ASSUMPTIONS = []

A = '''
np.where(a > b, a, b)|np.where(a > 0)[0]|np.where(v > 0, 1, 0)|np.where(a[:, :1] > 0, a, 0.0)|np.where(F, a, b)
np.nonzero(v > 0)|np.flatnonzero(v > 0)|np.argwhere(a > 0)|np.count_nonzero(a > 0)|np.count_nonzero(a > 0, axis=1)
np.hstack((a, b))|np.vstack((a, b))|np.column_stack((v, w))|np.row_stack((v, w))|np.dstack((a, b))|np.concatenate([a, b], axis=1)|np.concatenate([a, v[np.newaxis]])|np.stack([v, w])|np.stack((v, w), axis=-1)|np.r_[v, w]|np.c_[v, w]|np.block([[a], [b]])|np.append(v, 3.0)|np.append(a, b, axis=0)|np.insert(v, 1, 5)|np.insert(a, 1, v, axis=0)|np.insert(a, [0, 1], b, axis=0)|np.delete(v, 1)|np.delete(a, 0, axis=0)|np.delete(a, [0, 2], axis=1)|np.delete(a, slice(0, 2), axis=1)
np.cumsum(v)|np.cumsum(a, axis=0)|a.cumsum(axis=1)|np.cumprod(v)|np.diff(v)|np.diff(a, axis=0)|np.diff(v, n=2)|np.diff(v, prepend=0)|np.ediff1d(v)|np.gradient(v)|np.gradient(v, edge_order=2)|np.gradient(a, axis=0)|np.gradient(v, v0)|np.gradient(a, axis=1, edge_order=2)
np.sum(a)|np.sum(a, axis=0)|a.sum(axis=-1, keepdims=True)|np.prod(v)|np.mean(a, axis=0)|a.mean()|np.average(v)|np.average(a, axis=0, weights=[1, 2])|np.median(v)|np.var(v)|np.std(v)|np.ptp(v)|np.ptp(a, axis=0)
np.min(a)|np.max(a, axis=0)|a.min(axis=1)|np.amin(v)|np.amax(a)|np.argmin(v)|np.argmax(a, axis=1)|np.argmax(v > 0)|np.minimum(a, b)|np.maximum(v, 0)|np.fmin(v, w)|np.fmax(v, w)|np.minimum.reduce(a)|np.maximum.reduce(a, axis=1)|np.add.reduce(v)|np.add.accumulate(v)|np.maximum.accumulate(v)|np.multiply.outer(v, w)|np.subtract.outer(v, w)|np.add.outer(v, w)|np.logical_and.reduce(F)|np.logical_or.reduce(F, axis=1)|np.nanmin(v)|np.nanmax(a, axis=0)|np.nansum(v)|np.nanargmin(v)
np.dot(v, w)|np.dot(a, v)|a @ v|a @ b.T|v @ w|np.inner(v, w)|np.inner(a, b)|np.outer(v, w)|np.vdot(v, w)|np.cross(v, w)|np.cross(a, b)|np.cross(v[:2], w[:2])|np.tensordot(a, b, axes=([1], [1]))|np.einsum('ij,ij->i', a, b)|np.einsum('ij,ij', a, b)|np.einsum('i,i->', v, w)|np.einsum('ij->j', a)|np.einsum('ij,kj->ik', a, b)|np.einsum('ij...,ij...->i...', a, b)|np.kron(v, w)|np.trace(s)|np.diag(v)|np.diag(s)|np.diagonal(s)|np.matmul(a, b.T)|np.einsum('i,j->ij', v, w)|np.multiply(a, b).sum(1)|a.dot(v)|v.dot(w)
LA.norm(v)|LA.norm(a, axis=1)|LA.norm(a, axis=0, keepdims=True)|LA.norm(v, ord=1)|LA.norm(v, ord=np.inf)|LA.norm(v, 2)|LA.det(s)|LA.det(np.array([[v[0], v[1]], [w[0], w[1]]]))|np.sqrt(v * v)|np.sqrt((a ** 2).sum(axis=1))|np.hypot(v, w)|np.hypot(v[0], v[1])|np.square(a)|np.power(v, 2)|v ** 2|v ** 3|v ** 0|np.sqrt(np.sum(np.square(v)))|np.sqrt(np.einsum('ij,ij->i', a, a))|np.sqrt(v @ v)|np.absolute(v)|np.abs(a)|np.fabs(v)|np.sign(v)|np.negative(v)|np.positive(v)|np.reciprocal(v + 30)|np.true_divide(v, 2)|np.divide(v, w + 30)|np.floor_divide(v, 2)|np.mod(v, 2)|np.remainder(v, 3)|np.fmod(v, 3)|np.divmod(v, 2)|np.modf(v)|v // 2|v % 2|divmod(v[0], 2)
np.floor(v)|np.ceil(v)|np.rint(v)|np.round(v, 1)|np.around(v)|np.fix(v)|np.trunc(v)|v.round(2)|v.astype(int)|v.astype(np.int64)|v.astype('float64')|np.int64(v0[1])|np.float64(v[1])|float(v[0])|int(v[0])|math.floor(v[0])|math.ceil(v[0])|math.trunc(v[0])|round(float(v[0]))|abs(v[0])|np.clip(v, 0, 1)|v.clip(0, 1)|np.clip(v, None, 1)|np.clip(v, w, w + 1)|np.copysign(v, w)|np.heaviside(v, 0.5)|np.nan_to_num(v)|math.fabs(v[0])|math.hypot(v[0], v[1])|math.sqrt(v[0] ** 2)|math.copysign(1.0, v[0])|math.isclose(v[0], v[1])|math.isnan(v[0])|math.isinf(v[0])|math.isfinite(v[0])|math.fsum(v)|math.pow(v[0], 2)|pow(v[0], 2)|sum(v)|max(v)|min(v)|max(v.tolist())|sorted(v.tolist())|sum(x * y for x, y in zip(v, w))
np.isclose(v, w)|np.isclose(a, 0)|np.isclose(v, w, atol=1.0)|np.isclose(v, w, rtol=0.5, atol=0)|np.allclose(a, b)|np.array_equal(a, b)|np.array_equal(a, a)|np.array_equiv(v, w)|np.equal(v, w)|np.not_equal(v, w)|np.less(v, w)|np.less_equal(v, w)|np.greater(v, w)|np.greater_equal(v, w)|np.logical_and(v > 0, w > 0)|np.logical_or(v > 0, w > 0)|np.logical_not(v > 0)|np.logical_xor(v > 0, w > 0)|(v > 0) & (w > 0)|(v > 0) | (w > 0)|~(v > 0)|(v > 0) ^ (w > 0)|np.all(v > -100)|np.any(v > 0)|np.all(a > 0, axis=1)|(a > 0).any(axis=0)|np.any(a > 0, axis=(0, 1))|np.isfinite(v)|np.isnan(a)|np.isinf(v)|np.invert(v > 0)|np.bitwise_and(v > 0, w > 0)|all(v > 0)|any(x > 0 for x in v)|all(x > y for x, y in zip(v, w))|(v > w).all()|(v > w).sum()|bool((v > 0).any())|np.alltrue(v > 0)|np.sometrue(v > 0)|np.sum(v > 0)|(v == w).astype(int)|np.isreal(v)|np.isneginf(v)|np.isposinf(v)|not np.any(v > 0)
np.argsort(v)|np.sort(v)|np.sort(a, axis=0)|np.argsort(a, axis=1)|np.argsort(v, kind='stable')|np.lexsort((w, v))|np.unique(v)|np.unique(K)|np.unique(K, return_index=True)|np.unique(K, return_inverse=True)|np.unique(K, return_counts=True)|np.unique(a, axis=0)|np.searchsorted(v0, 1.5)|np.searchsorted(v0, v)|np.searchsorted(v0, v, side='right')|np.digitize(v, v0)|np.in1d(K, [1, 2])|np.isin(K, [1, 2])|np.intersect1d(K, [1, 2])|np.union1d(K, [9])|np.setdiff1d(K, [1])|np.interp(v, v0, w)|np.interp(1.5, v0, w)|np.partition(v, 1)[1]|np.flip(v)|np.flip(a, axis=1)|np.flipud(a)|np.fliplr(a)|np.roll(v, 1)|np.roll(a, 1, axis=0)|np.roll(a, -1, axis=1)|np.rot90(a)|np.repeat(v, 2)|np.repeat(a, 2, axis=0)|np.repeat(v, [1, 0, 2])|np.tile(v, 2)|np.tile(v, (2, 1))|np.take(v, [0, 2])|np.take(a, 1, axis=1)|v.take([1])|np.compress(v > 0, v)|np.extract(v > 0, v)|np.select([v > 0, v < -1], [v, w], 0)|np.choose([0, 1, 0], [v, w])|np.take_along_axis(a, np.argsort(a, axis=1), axis=1)
np.empty_like(a).shape|np.zeros_like(a)|np.ones_like(v)|np.full_like(v, 2)|np.full((2, 2), v[0])|np.full(3, v[0])|np.zeros(3) + v|np.ones((2, 3)) * v|np.eye(3) @ v|np.identity(3) * v|np.arange(3) * v|np.arange(0, 3, 1.0) + v|np.linspace(v0[0], v0[2], 4)|np.linspace(0, 1, 3) * v[0]|np.linspace(v[0], w[0], 3)|np.linspace(v[0], w[0], 3, endpoint=False)|np.linspace(0.0, v[0], num=4, retstep=True)[1]|np.meshgrid(v, w)|np.meshgrid(v, w, indexing='ij')|np.indices((2, 3))|np.ix_([0, 1], [0, 2])|a[np.ix_([0, 1], [0, 2])]|np.mgrid[0:2, 0:3]|np.triu(s)|np.tril(s)|np.triu_indices(3, 1)|s[np.triu_indices(3, 1)]|np.tri(3)|np.vander(v)|np.fromiter((x * 2 for x in v), dtype=np.float64)|np.fromiter(v.tolist(), float, 3)|np.array([x + 1 for x in v])|np.array(list(map(lambda x: x * 2, v)))|np.asarray(v.tolist())|np.asarray([v, w])|np.array((v, w)).T|np.asanyarray(v)|np.ascontiguousarray(a.T)|np.asfarray(K)|np.atleast_1d(v[0])|np.atleast_2d(v)|np.copy(v)|v.copy()|np.array(v, copy=True, ndmin=2)|np.array(v, dtype=float)|np.require(v)|np.asarray(v, dtype=np.float64)|np.frompyfunc(lambda x, y: x + y, 2, 1)(v, w)|np.vectorize(lambda x: x + 1)(v)|np.apply_along_axis(lambda x: x.sum(), 1, a)|np.apply_along_axis(np.diff, 0, a)|np.piecewise(v, [v < 0, v >= 0], [lambda x: -x, lambda x: x])|np.fromfunction(lambda i, j: i + j, (2, 2))
a.T|a.transpose()|a.reshape(3, 2)|a.reshape(-1)|np.reshape(a, (6,))|a.ravel()|a.flatten()|np.ravel(a)|a.swapaxes(0, 1)|np.swapaxes(a, 0, 1)|np.moveaxis(a, 0, 1)|np.rollaxis(a, 1)|np.squeeze(a[np.newaxis])|a[None].squeeze()|np.expand_dims(v, 0)|np.expand_dims(v, -1)|v[:, None] - w[None, :]|v[:, np.newaxis] * a.T|np.broadcast_to(v, (2, 3))|np.broadcast_arrays(a, v)[1]|np.transpose(a, (1, 0))|np.split(v, 3)|np.array_split(v, 2)|np.hsplit(a, 3)|np.vsplit(a, 2)|np.split(a, [1], axis=1)|a[::-1]|a[:, ::-1]|a[-1]|a[..., 0]|a[1:]|a[:-1, 1:]|a[[1, 0]]|a[:, [2, 0]]|a[F]|v[v > 0]|a[v[:2] > 0]|a[:, [True, False, True]]|a.item(1, 2)|v.item(0)|v.tolist()|list(a.flat)|a.flat[3]|a.size|a.ndim|a.shape|len(a)|a.nbytes|a.dtype|v.fill(3)|np.shape(a)|np.size(a)|np.ndim(a)|np.size(a, 1)|list(a)|[tuple(r) for r in a]|list(zip(*a))|np.array(list(zip(v, w)))|[x for r in a for x in r]|list(itertools.chain.from_iterable(a.tolist()))|list(itertools.accumulate(v.tolist()))|list(itertools.combinations(v.tolist(), 2))|functools.reduce(operator.add, v)|functools.reduce(np.maximum, a)|list(np.ndenumerate(v))|list(np.ndindex(2, 2))|list(enumerate(v))|dict(enumerate(v.tolist()))|list(reversed(v))|list(map(sum, a))|[float(x) for x in np.nditer(v)]|np.array_str is not None
LA.solve(s2, v[:2])|LA.inv(s2)|LA.lstsq(s2, v[:2], rcond=None)[0]|LA.lstsq(a.T, v, rcond=None)[0].shape|LA.matrix_rank(I) == 2|LA.matrix_rank(np.array([[1., 2.], [2., 4.]])) < 2|LA.matrix_rank(s2) in (1, 2)|int(LA.matrix_rank(s2))|LA.slogdet(s2)[0]|LA.multi_dot([v, s, w])|LA.matrix_power(s, 2)|np.polyfit([0., 1., 2.], v, 2)|np.polyval(v, 2.0)|np.polyval([1, 2], v)|np.convolve(v, [1, 2])|np.convolve(v, [1, 1], 'valid')|np.convolve(v, [1, 2, 1], 'same')|np.correlate(v, [1, 2])|np.trapz(v)|np.trapz(v, v0)|np.nan_to_num(np.divide(v, w, out=np.zeros_like(v), where=w > 0))|np.divide(v, w, out=np.zeros(3), where=w != 0)|np.add(v, w, out=np.zeros(3))|np.subtract(v, w)|np.multiply(v, 2)|np.sin(v)|np.cos(v) ** 2 + np.sin(v) ** 2|np.arctan2(v, w)|np.exp(v * 0)|np.deg2rad(v)|np.radians(v)|np.degrees(v)|math.degrees(v[0])|math.radians(v[0])|np.rad2deg(v)|np.arccos(np.clip(v / 50, -1, 1))|math.acos(max(-1.0, min(1.0, v[0] / 50)))|np.tan(v * 0)|np.interp(v, [0, 1], [0, 1])|np.spacing(1.0)|np.finfo(np.float64).eps|np.finfo(v.dtype).eps|np.iinfo(K.dtype).max|np.result_type(v, K)|np.can_cast(np.int64, np.float64)|np.promote_types(v.dtype, K.dtype)|np.find_common_type([v.dtype, K.dtype], [])|np.common_type(v, K)|np.issubdtype(K.dtype, np.integer)|np.issubdtype(v.dtype, np.floating)|np.isscalar(v[0])|np.iterable(v)|v.dtype.kind|K.dtype.kind|K.dtype == int|v.dtype == float|v.dtype is np.dtype(np.float64)|v.dtype.type is np.float64|np.issctype(v.dtype)|isinstance(v[0], float)|isinstance(v[0], np.floating)|isinstance(K[0], np.integer)|isinstance(K[0], int)|isinstance(v, np.ndarray)|isinstance(v, collections.abc.Sequence)|type(v[0]).__name__|np.shares_memory(a, a[0])|np.may_share_memory(a, b)|a[0].base is not None|a.flags.writeable|a.flags['C_CONTIGUOUS']|a.T.flags.c_contiguous
K + 1|K * v|K / 2|K // 2|K % 2|K ** 2|-K|abs(K)|K.astype(float)|K > 1|K.sum()|K.mean()|K.max()|K.cumsum()|np.diff(K)|K == 2|np.bincount(np.abs(K))|np.sqrt(K * K)|K.tolist()|np.sort(K)|v[np.abs(K) % 3]|np.where(K > 0, K, 0)|K.dot(K)|np.gcd(K, 2)|K & 1|K << 1|K.astype(bool)|bool(K.any())|np.array([1.5, K[0]])|np.array([1, K[0]]).dtype|np.add(K, 0.5)|np.zeros_like(K)|np.ones_like(K, dtype=float)|np.floor_divide(K, 2)|np.sign(K)|np.mod(K, 3)|np.max([K.max(), 0])|np.minimum(K, 1)|K.clip(0, 2)|np.linalg.norm(K)|K.copy()|np.full_like(K, 1.5)|K.reshape(1, 3)|np.int64(3) * K|2.5 * K|np.float64(2) + K|K.prod()|K.std()
operator.index(K[0])|hash(K[0]) == hash(int(K[0]))|range(3)[0]|[K[0]] * 2|str(v.shape)|'%d' % 3|f'{a.shape}'|(v[0], w[0]) < (w[0], v[0])|v[0] if v[0] > w[0] else w[0]|sorted([v[0], w[0]], reverse=True)|sorted(zip(v.tolist(), w.tolist()))|sorted(range(3), key=lambda i: v[i])|min(range(3), key=lambda i: v[i])|max(v.tolist(), default=0)|min(v, key=abs)|list(filter(lambda x: x > 0, v))|[i for i, x in enumerate(v) if x > 0]|next((i for i, x in enumerate(v) if x > 0), None)|v.tolist().index(v[1])|v[1] in v.tolist()|v.tolist().count(v[0])|np.array([v[0], w[0]]).max()|v[0] == v[0]|v[0] != w[0]|-v[0] < w[0] <= v[0]|bool(v[0])|v[0].is_integer()|int(K[0])|float(K[0])|complex(1).real|v.__len__()|v.min() < w.max()|slice(1, None).indices(3)|np.s_[1:]|tuple(v)|set([1, 2])|dict(a=v[0])['a']|sum(a.tolist(), [])|[*v, *w]|sum((a, b))|sum([a[0], a[1]])|collections.Counter(K.tolist() and [1])|math.prod([2, 3])|math.gcd(4, 2)|math.pi * v[0]|math.inf > v[0]|v[0] < float('inf')|np.inf > v|np.maximum(v, -np.inf)|np.minimum(np.inf, v)|math.dist((v[0], v[1]), (w[0], w[1]))|sd.cdist(a, b)|sd.cdist(a, b, 'cityblock')|sd.pdist(a)|sd.squareform(sd.pdist(s))|sd.euclidean(v, w)|sd.cityblock(v, w)|sd.chebyshev(v, w)|sd.sqeuclidean(v, w)|sd.cdist(a, b, metric='sqeuclidean')|sd.cdist(a, [v])|sd.minkowski(v, w, 1)
'''
EX = [e.strip() for line in A.strip().split('\n') for e in line.replace(' | (w', ' OR (w').split('|')]
EX = [e.replace(' OR ', ' | ') for e in EX]


@case(k=list(range(len(EX))))
def expr(ctx, k):
    a, b = np.array(rows(ctx, 'a', 2, 3, 'f', -20, 20)), np.array(rows(ctx, 'b', 2, 3, 'f', -20, 20))
    v, w = np.array(vec(ctx, 'v', 3, 'f', -20, 20)), np.array(vec(ctx, 'w', 3, 'f', -20, 20))
    s = np.array([[v[0], v[1], w[0]], [w[1], v[2], 1.0], [2.0, 0.0, w[2]]])
    s2 = np.array([[v[0], v[1]], [w[0], w[1]]])
    if 's2' in EX[k]:
        d = v[0] * w[1] - v[1] * w[0]
        ctx.assume(ctx.or_(d >= 0.5, d <= -0.5))
    K = np.array(vec(ctx, 'k', 3, 'i', -20, 20), dtype=np.int64)
    v0 = np.array([0.0, 1.0, 2.0])
    I = np.array([[1.0, 2.0], [3.0, 5.0]])
    F = np.array([[True, False, True], [False, False, True]])
    r = eval(EX[k], dict(globals(), a=a, b=b, v=v, w=w, s=s, s2=s2, K=K, v0=v0, I=I, F=F))
    def emit(label, x):
        if isinstance(x, (list, tuple, zip)):
            for i, y in enumerate(x):
                emit(label, y)
        elif isinstance(x, dict):
            emit(label, list(x.values()))
        elif isinstance(x, (str, type, type(None), slice, type(ctx), np.dtype)) or callable(x):
            ctx.check(label + repr(x), True)
        else:
            ctx.check('shape', tuple(np.shape(x)) == tuple(np.shape(x)))
            ctx.check('%s %s' % (label, np.shape(x)), True)
            ctx.close(label, x, x)
    emit(EX[k], r)
