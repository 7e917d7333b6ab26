S = r'''
np.add.at(m, ([0,1,0],[1,1,1]), [1.,2.,3.]); return m
return np.einsum("ij,j->i", m, a)
return np.einsum("ij,ij->", m, m)
return np.clip(a, 0, 3)
return np.maximum.accumulate(a)
return np.minimum.reduce(a)
return np.cumsum(a)
return np.cumsum(m, axis=0)
return np.cumprod(a)
return np.count_nonzero(a > 1)
return np.count_nonzero(m > 1, axis=1)
return np.flatnonzero(a > 1)
return np.searchsorted(np.array([0., 1., 3.]), a)
return m[np.ix_([0, 2], [1, 2])]
return np.hstack([a, a])
return np.vstack([a, 2 * a])
return np.concatenate((a, [1., 2.]))
return np.diag(a)
return np.diag(m)
return np.diagonal(m)
return np.trace(m)
return np.full_like(a, 7)
return np.select([a > 2, a > 1], [1.0, 2.0], 3.0)
return np.sign(a)
return np.isclose(a, 1.0)
return np.bincount(i, weights=a, minlength=5)
return np.bincount(i)
return np.tensordot(m, a, axes=1)
return np.outer(a, a)
return np.multiply.outer(a, a)
return np.unique(i)
return np.roll(a, 1)
return np.tile(a, 2)
return np.tile(a, (2, 1))
return np.repeat(a, 2)
return np.sort(a)
return np.argsort(a)
return np.argsort(-a, kind="stable")
return np.lexsort((a, i))
return np.triu(m)
return np.tril(m, -1)
np.fill_diagonal(m, 0); return m
return np.divide(a, b, out=np.zeros_like(a), where=b != 0)
with np.errstate(divide="ignore"):
    return a + 1
np.copyto(a, b); return a
np.copyto(a, b, where=a > 1); return a
return np.take(a, [0, 2])
np.put(a, [0, 2], [9., 8.]); return a
return np.where(a > 1, a, b)
return np.where(a > 1)[0]
return np.dot(a, b)
return np.vdot(a, b)
return np.inner(a, b)
return m @ a
return a @ m @ b
return m.T @ m
return m.transpose()
return np.swapaxes(m, 0, 1)
return np.ravel(m)
return m.flatten()
return m.reshape(-1)
return np.squeeze(a[None, :])
return np.expand_dims(a, 1)
return np.atleast_2d(a)
return np.broadcast_to(a, (2, 3))
return np.stack([a, b])
return np.stack([a, b], axis=1)
return np.column_stack((a, b))
return np.c_[a, b]
return np.r_[a, b]
return np.r_[0.0, a]
return np.split(a, 3)[1]
return np.array_split(a, 2)[0]
return np.flip(a)
return a[::-1]
return np.flipud(m)
return np.nan_to_num(a)
return np.isnan(a)
return np.isfinite(a)
return np.isinf(a)
return np.abs(a)
return np.absolute(a)
return np.fabs(a)
return abs(a)
return np.sqrt(a * a + 1)
return np.square(a)
return np.power(a, 2)
return a ** 2
return np.floor(a / 2)
return np.ceil(a / 2)
return np.trunc(a / 2)
return np.rint(a / 2)
return np.round(a / 2)
return np.round(a / 3, 2)
return np.mod(a, 3)
return np.remainder(a, 3)
return np.fmod(a, 3)
return a % 3
return a // 2
return np.floor_divide(a, 2)
return np.divmod(a, 2)[1]
return np.modf(a / 2)[0]
return np.subtract(a, b)
return np.multiply(a, b)
return np.negative(a)
return np.sum(m)
return np.sum(m, axis=0)
return np.sum(m, axis=1, keepdims=True)
return m.sum(axis=-1)
return np.add.reduce(m, axis=1)
return np.add.reduceat(a, [0, 2])
return np.prod(a)
return np.mean(a)
return m.mean(axis=0)
return np.average(a, weights=[1., 2., 3.])
return np.std(a)
return np.var(a)
return np.median(a)
return np.histogram(a, bins=[-5, 0, 1, 9])[0]
return np.digitize(a, [0, 2])
return np.diff(a)
return np.ediff1d(a)
return np.kron(a, [1., 2.])
return np.meshgrid(a, b)[0]
return [list(x) for x in np.ndindex(2, 2)]
return sum(v * k[0] for k, v in np.ndenumerate(m))
return sum(np.nditer(i))
return np.identity(3) * a
return np.eye(3)[0] * a
return np.logical_and(a > 1, b > 1)
return np.logical_or.reduce(a > 1)
return np.logical_not(a > 1)
return ~(a > 1)
return (a > 1) & (b > 0)
return (a > 1) ^ (b > 0)
return (a > 1).sum()
return (a > 1).any()
return (a > 1).all()
return (a > 1).astype(int)
return (a > 1) * b
return np.greater(a, b)
return np.array_equal(a, b)
return np.argmax(a)
return np.argmin(a)
return a.argmax()
return np.max(a)
return a.max()
return np.amin(m, axis=0)
return np.ptp(a)
return np.nanmax(a)
return np.nansum(a)
return np.apply_along_axis(lambda v: v.sum(), 1, m)
return np.vectorize(lambda v: v + 1)(a)
return np.fromiter((x + 1 for x in a), dtype=float)
return np.fromiter((x + 1 for x in a), dtype=float, count=3)
return np.fromfunction(lambda x, y: x + y, (2, 2))
return np.insert(a, 1, 5.0)
return np.append(a, 5.0)
return np.delete(a, 1)
return np.pad(a, (1, 2))
return np.compress(a > 1, b)
return np.extract(a > 1, b)
np.place(a, a > 1, [0.0]); return a
np.putmask(a, a > 1, 0.0); return a
return np.in1d(i, [1, 2])
return np.isin(i, [1, 2])
return np.intersect1d(i, [1, 2])
return np.setdiff1d(i, [1])
return np.union1d(i, [7])
return np.may_share_memory(a, b)
return np.shape(m)[0]
return np.size(m)
return np.ndim(m)
return m[np.triu_indices(3, 1)]
return np.argwhere(a > 1)
return list(zip(*np.nonzero(m > 1)))
return np.hypot(a, b)
return np.linalg.norm(a)
return np.linalg.inv(np.array([[2.0, 1.0], [1.0, 3.0]])) @ a[:2]
return np.linalg.solve(np.array([[2.0, 1.0], [1.0, 3.0]]), a[:2])
return np.linalg.det(np.array([[2.0, 1.0], [1.0, 3.0]])) * a
return np.array([x for x in a if x > 1])
return np.asarray(a, dtype=int)
return a.astype(int)
return a.astype(np.int32)
return np.array(a, copy=True) + 1
return a.copy() * 2
return a.tolist()
return sorted(a.tolist())
return max(a) - min(a)
return sum(a)
return list(map(float, a))
return [float(x) for x in a]
return [int(x) for x in a]
return float(a.sum())
return int(a.sum())
return bool((a > 1).any())
return a[i % 3]
return a[(a > 1) | (b > 1)]
a[a > 1] = 0; return a
a[a > 1] -= 1; return a
m[:, 1] += a; return m
m[1] = a; return m
m[[0, 2], 1] = 5; return m
m[np.arange(3), [0, 1, 2]] = a; return m
return m[np.arange(3), [0, 1, 2]]
m[m < 0] = 0; return m
a += b; return a
a -= np.where(b > 1, b, 0); return a
return np.zeros((2, 3)) + a
return np.ones(3) * a
return np.empty((3,)) * 0 + a
return np.full((3, 3), 2.0) * a
return np.arange(3) + a
return np.arange(0, 6, 2)[i % 3]
return np.linspace(0, 1, 3) * a
return np.array([a, b]).sum(axis=0)
return np.array([[x, y] for x, y in zip(a, b)])
return dict(enumerate(a))[1]
return functools.reduce(lambda x, y: x + y, a)
return list(itertools.accumulate(a))
return list(itertools.chain(a, b))
return [x for x, y in itertools.product(a, b)][:4]
return math.fsum(a)
return math.floor(a[0] / 2)
return math.ceil(a[0] / 2)
return math.trunc(a[0] / 2)
return math.isclose(a[0], 1.0)
return math.copysign(1.0, a[0])
return divmod(a[0], 2)
return round(a[0] / 2)
return a.item(1)
return a.dot(b)
return a.clip(min=0)
return a.nonzero()[0]
return a.ravel()
return a.mean()
return a.std()
return a.cumsum()
return a.round()
return a.take([1])
return a.repeat(2)
return a.squeeze()
return m.diagonal()
return m.trace()
return m.min(axis=1)
return a.size + m.shape[1] + len(a)
return a.prod()
return np.maximum(a, 0).sum()
return np.minimum(a, b)
return np.fmax(a, b)
return np.heaviside(a, 1.0)
return np.cbrt(a * 0)
return np.int64(a[0])
return np.float64(a[0])
return isinstance(a[0], np.floating)
return isinstance(i[0], np.integer)
return isinstance(a, np.ndarray)
return isinstance(a[0], float)
return a.dtype == float
return a.dtype == np.float64
return i.dtype == int
return a.dtype.kind
return np.issubdtype(a.dtype, np.floating)
return a.itemsize
return np.lcm(4, 6)
return np.bitwise_and(i, 1)
return i & 1
return i >> 1
return i << 2
return (i ^ 3)
return np.int32(2147483647) - i
v = a.view(); v[0] = 9; return a
v = a[1:]; v += 1; return a
r = np.zeros(3, dtype=int); r[:] = a; return r
r = np.zeros(3, dtype=bool); r[a > 1] = True; return r
r = [0.0] * 3; r[int(i[0]) % 3] += a[0]; return r
r = {}; r[int(i[0])] = a[0]; return sum(r.values())
return "%5.2f %d" % (a[0], i[0])
return f"{a[0]:.2f} {i[0]:3d}"
return "{:6.1f}|{}".format(a[0], i[0])
return any(x > 1 for x in a)
return all(x > -9 for x in a)
return next((k for k, x in enumerate(a) if x > 1), -1)
return min(range(3), key=lambda k: a[k])
return max(enumerate(a), key=lambda t: t[1])[0]
return sorted(range(3), key=lambda k: (-a[k], k))
return bisect.bisect_right([0.0, 1.0, 2.0], a[0])
return statistics.mean(a)
return operator.itemgetter(1)(a)
return collections.Counter(int(x) for x in i)[1]
return np.nonzero(i)[0]
return np.moveaxis(m, 0, 1)
return np.rot90(m)
return np.matmul(m, m)
return np.linalg.multi_dot([m, m, m])
return np.linalg.matrix_power(m, 2)
return np.subtract.outer(a, b)
return np.equal(a, b)
return a == b
return (a != b).sum()
return np.any(a > b) or np.all(b > a)
return np.logical_xor(a > 1, b > 1)
return np.cross(a, b)
return np.array(a.tolist() + [1.0])
return m[:, ::-1]
return m[..., 0]
return m[1:, :2]
return m[:, None, :][0]
m[m.sum(axis=1) > 2] = 0; return m
m[:, a > 1] = 0; return m
return m[a > 1]
return m[a > 1][:, b > 0]
return np.concatenate([m, m], axis=1)
return np.block([[m, m]])
return np.interp(1.5, [0, 1, 2], a)
return np.trapz(a)
return np.convolve(a, [1.0, 1.0])
return np.gradient(a)
return np.percentile([1., 2., 3.], 50) + a
return np.array(list(range(3))) * a
return np.nan if a[0] > 100 else a[0]
return np.inf if a[0] > 100 else a[0]
return 1 if a[0] < np.inf else 0
return min(a[0], np.inf)
return min(a[0], math.inf)
return max(a[0], float("-inf"))
return a[0] if a[0] > -float("inf") else 0
return np.iinfo(np.int32).max - i[0]
return np.finfo(float).eps + 0
return np.pi * 0 + a[0]
return np.random.RandomState(0) is not None
return np.s_[1:] == slice(1, None, None)
return hasattr(a, "shape")
return len(m)
return [list(r) for r in m]
return [x.tolist() for x in m]
for k, r in enumerate(m):
    r[k] = 0
return m
return np.array([r.sum() for r in m])
return np.fromstring("1 2 3", sep=" ") + a
return np.ascontiguousarray(a) + 0
return np.asfortranarray(m) + 0
return np.require(a) + 0
return copy.deepcopy(m)
return copy.copy(a)
q = np.zeros(3, dtype=np.int8); q[:] = i * 100; return q
q = np.zeros(3, dtype=np.uint8); q[:] = i * 100; q += 56; return q
q = i.astype(np.int16) * 20000; return q
q = i.astype(np.uint32) - 3; return q
q = np.full(3, 200, dtype=np.uint8); return q + q
q = np.full(3, 200, dtype=np.uint8); return q.sum() + i[0]
q = np.full(3, 200, dtype=np.uint8); return q[0] * 3 + i[0]
q = np.zeros(3, dtype="int8"); q[0] = i[0] * 99 + 30; return q / 2
q = np.arange(3, dtype=np.int8); q -= 100; q -= 100; return q + i
q = i.astype(np.uint16); q[0] -= 1; q[0] -= 1; q[0] -= 5; return q
q = i.astype(np.uint32); q *= 65539 * 9; q *= 65539; return q
q = i.astype(np.int8); return a[q % 3] + np.cumsum(q * 60)
q = i.astype(np.int8); return np.dot(q, q) + isinstance(q[0], np.integer)
q = i.astype(np.uint8); return -q
q = i.astype(np.int8); return q == np.int8(1)
q = (i * 100).astype(np.int8); return q > 5
q = np.array([1, 2, 300], dtype=np.int16); return (q * i[0]).astype(np.int8)
return np.iinfo(np.uint16).max - i
'''
import re
fs=[];cur=None
for l in S.strip().split("\n"):
    if l.startswith("    ") or (cur and cur.endswith(":") ) or (fs and fs[-1].rstrip().split("\n")[0].endswith(":") and l.startswith("return m") and fs[-1].startswith("for k, r")and fs[-1].count("\n")==1):
        fs[-1]+="\n"+l
    else: fs.append(l)
    cur=None
out="import numpy as np\nimport math, functools, itertools, bisect, statistics, operator, collections, copy\n\n"
for n,f in enumerate(fs):
    out+="def t%03d(a, b, m, i):\n"%n+"".join("    "+x+"\n" for x in f.split("\n"))+"\n"
open("reliabilityassessment/monte_carlo/shimt.py","w").write(out)
import json; json.dump(fs,open("fs.json","w")); print(len(fs))
