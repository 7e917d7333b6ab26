S=[
"""from collections import namedtuple
T = namedtuple("T", "x y")
t = T(a[0], b[0])
return t.x + t._replace(y=3).y""",
"""from dataclasses import dataclass
@dataclass
class P:
    x: float
    y: float = 0.0
p = P(a[0])
p.y += b[0]
return p.x * 2 + p.y""",
"""import contextlib
with contextlib.suppress(ZeroDivisionError):
    return a[0] + 1
return 0""",
"""out = []
def add(x):
    nonlocal out
    out = out + [x]
for x in a:
    add(x)
return out""",
"""if (n := int(i[0])) > 1:
    return n + a[0]
return n""",
"""match int(i[0]):
    case 0:
        return a[0]
    case 1 | 2:
        return b[0]
    case _:
        return 0""",
"""try:
    x = a[7]
except IndexError:
    x = a[0]
finally:
    y = 1
return x + y""",
"""def g():
    for x in a:
        yield x * 2
return sum(g())""",
"""f = lambda x, *r, k=1: x * k + len(r)
return f(a[0], 1, 2, k=3)""",
"""d = dict(x=a[0], y=b[0])
return {**d, "z": 1}["x"]""",
"""d = collections.defaultdict(float)
for k, x in zip(i, a):
    d[int(k)] += x
return [d[k] for k in sorted(d)]""",
"""q = collections.deque(a)
q.rotate(1)
return list(q)""",
"""s = {int(x) for x in i}
return len(s)""",
"""x, *r = a
return x + sum(r)""",
"""(p, q), z = (a[0], b[0]), a[2]
return p - q + z""",
"""for k in range(3):
    if a[k] > 1:
        break
else:
    k = 9
return k""",
"""k = 0
while True:
    if k >= 3 or a[k] > 1:
        break
    k += 1
return k""",
"""return a[0] if a[0] > b[0] else b[0]""",
"""return 0 < a[0] <= 3 < 5""",
"""return not a[0] > 1""",
"""return (a[0] > 1) - (b[0] > 1)""",
"""return (a[0] > 1) * 5 + 1""",
"""return bool(a[0] > 1) is True""",
"""return 1 if a[0] > 1 and b[0] > 0 or a[2] == 2 else 0""",
"""return [1, 2][a[0] > 1]""",
"""return [10, 20, 30][int(i[0])]""",
"""return (10, 20, 30)[i[0]]""",
"""return {0: 5, 1: 6, 2: 7}[int(i[0])]""",
"""return {0: 5, 1: 6}.get(int(i[0]), 9)""",
"""return int(i[0]) in (0, 2)""",
"""return a[0] in (1, 2)""",
"""return a[0] in a.tolist()""",
"""return 5 in i""",
"""return list(i).index(3)""",
"""return i.tolist().count(1)""",
"""return int(a[0] > 1)""",
"""return float(i[0]) / 2""",
"""return int(a[0]) // 2""",
"""return -int(a[0]) // 2""",
"""return int(-a[0] / 2)""",
"""return int(a[0]) % 3""",
"""return -i[0] % 3""",
"""return np.mod(-i, 3)""",
"""return i // 2""",
"""return i / 2""",
"""i[0] /= 1
return i""",
"""i += 1
return i""",
"""i[:] = a
return i""",
"""i[0] = a[0] / 2
return i""",
"""i[1] += a[0] / 2
return i""",
"""x = i.astype(float)
x[0] = a[0] / 2
return x""",
"""x = np.zeros(3, dtype=np.int32)
x[0] = 2 ** 31 - 1
return x""",
"""m[0][1] = a[0]
return m""",
"""r = m[0]
r += 1
return m""",
"""r = m[[0]]
r += 1
return m""",
"""m[m[:, 0] > 1, 1] = -1
return m""",
"""x = m[:, 0]
x[x > 1] = 7
return m""",
"""m[1, :] -= m[0, :] * a[0]
return m""",
"""m[[0, 1]] = m[[1, 0]]
return m""",
"""m[:, [0, 1]] = m[:, [1, 0]]
return m""",
"""a[0], a[1] = a[1], a[0]
return a""",
"""np.negative(a, out=a)
return a""",
"""np.add(a, b, out=a)
return a""",
"""np.multiply(a, 2, out=a, where=a > 1)
return a""",
"""np.maximum(a, 0, out=a)
return a""",
"""np.clip(a, 0, 2, out=a)
return a""",
"""np.cumsum(a, out=a)
return a""",
"""a.fill(3)
return a""",
"""a.sort()
return a""",
"""x = a.tolist()
x.sort(key=lambda v: -v)
return x""",
"""x = a.tolist()
x.reverse()
return x""",
"""x = sorted(zip(a, b), key=lambda t: (t[0], t[1]))
return x""",
"""return sorted(a, reverse=True)""",
"""return list(reversed(a))""",
"""return [x for r in m for x in r if x > 1]""",
"""return np.array([[x > 1 for x in r] for r in m]).sum()""",
"""return sum(x > 1 for x in a)""",
"""return sum(1 for x in a if x > 1)""",
"""return max((x for x in a if x > 1), default=-1)""",
"""return max(a, key=lambda x: -x)""",
"""return min(a[0], b[0], 1)""",
"""return max(0, *a)""",
"""return max(0.0, float(a[0]))""",
"""return abs(a[0]) + abs(int(i[0]))""",
"""return pow(a[0], 2)""",
"""return a[0] ** 0.5 if a[0] > 0 else 0""",
"""return np.sqrt(a[0]) if a[0] > 0 else 0""",
"""return math.sqrt(abs(a[0]))""",
"""return round(a[0] / 2, 1)""",
"""return np.round(a[0] / 2)""",
"""return np.floor(a[0] / 2)""",
"""return math.floor(a[0]) + math.ceil(a[0])""",
"""return a[0].astype(int)""",
"""return a[0].item()""",
"""return a[0:1].item()""",
"""return a.sum().item()""",
"""return i[0].item() + 1""",
"""return int(i[0].item())""",
"""return range(int(i[0]))[-1] if i[0] > 0 else -1""",
"""return [k for k in range(i[0])]""",
"""return np.arange(i[0])""",
"""return np.zeros(i[0]).size""",
"""return np.zeros((i[0], 2)).shape[0]""",
"""return np.repeat(a[0], 3)""",
"""return np.repeat(a, [1, 0, 2])""",
"""return np.repeat(a, i)[:2]""",
"""return a[:i[0]].sum()""",
"""return a[i[0]:].sum()""",
"""return a[-1 - i[0]]""",
"""return m[i[0], i[2]]""",
"""m[i[0], i[2]] += 1
return m""",
"""return m[i[0]].sum()""",
"""return m[:, i[0]]""",
"""return a[slice(0, i[0])].sum()""",
"""x = np.zeros(4)
x[i] = a
return x""",
"""x = np.zeros(4)
x[i] += 1
return x""",
"""x = np.zeros(4)
np.add.at(x, i, a)
return x""",
"""x = np.zeros((4, 2))
np.add.at(x, (i, 1), 1)
return x""",
"""x = np.zeros((4, 2))
x[i, 0] = a
return x""",
"""return np.where(a > 1)[0].size""",
"""return np.where(a > 1)[0][-1] if (a > 1).any() else -1""",
"""w = np.where(a > 1)[0]
return w[0] if len(w) else -1""",
"""(w,) = np.nonzero(a > 1)
return w.tolist()""",
"""r, c = np.where(m > 1)
return m[r, c].sum()""",
"""mask = a > 1
mask[0] = False
return a[mask].sum()""",
"""mask = (a > 1) & ~(b > 0)
return np.count_nonzero(mask)""",
"""mask = np.zeros(3, dtype=bool)
mask |= a > 1
return mask""",
"""mask = np.ones(3, bool)
mask &= a > 1
return mask.sum()""",
"""return np.where(np.isnan(a), 0, a)""",
"""return np.where(a > 1, 1, np.where(a < 0, -1, 0))""",
"""return np.where(a > 1, a, 0).astype(int)""",
"""return np.sum(a[a > 1])""",
"""return np.sum(np.where(a > 1, a, 0.0))""",
"""return np.dot(a, a > 1)""",
"""return (a * (a > 1)).sum()""",
"""return np.any(m > 4, axis=0)""",
"""return np.all(m > -2, axis=1)""",
"""return m.any(axis=0)""",
"""return m.max(axis=0, initial=0)""",
"""return a.max(initial=2)""",
"""return np.max(a, where=a < 2, initial=-9)""",
"""return a.sum(where=a > 1)""",
"""return m.sum(axis=(0, 1))""",
"""return np.linalg.norm(m, axis=1) ** 2""",
"""return (m ** 2).sum(axis=1)""",
"""return np.array([a]).T.shape""",
"""return (a[:, None] * b[None, :]).sum(axis=1)""",
"""return (a.reshape(3, 1) - b).T""",
"""return (a[:, np.newaxis] > b).sum(axis=0)""",
"""return np.arange(9).reshape(3, 3) @ a""",
"""return m.reshape(1, 9).sum()""",
"""return np.resize(a, 5)""",
"""return a.reshape(-1, 1).repeat(2, axis=1)""",
"""return np.tile(a[:, None], (1, 2))""",
"""return np.array([*a, *b])""",
"""return [*a.tolist(), 1.0]""",
"""s = ""
for x in a:
    s += "%4.1f" % x
return len(s) > 0""",
"""return len("".join("%d" % int(x) for x in i)) == 3""",
"""import types
ns = types.SimpleNamespace(x=a[0])
return ns.x""",
"""from enum import IntEnum
class K(IntEnum):
    A = 0
    B = 1
return a[K.B] + a[K.A]""",
"""from functools import partial
return partial(lambda x, y: x + y, a[0])(b[0])""",
"""from functools import lru_cache
@lru_cache(None)
def f(n):
    return n if n < 2 else f(n - 1) + f(n - 2)
return f(5) + a[0]""",
"""from itertools import groupby
return [sum(g) for k, g in groupby(a, key=lambda x: bool(x > 1))]""",
"""from itertools import combinations
return [x + y for x, y in combinations(a, 2)]""",
"""from itertools import pairwise
return [y - x for x, y in pairwise(a)]""",
"""from itertools import count, islice
return [a[k] for k in islice(count(), 3)]""",
"""from itertools import takewhile
return list(takewhile(lambda x: x > 0, a))""",
"""from itertools import starmap
return list(starmap(lambda x, y: x * y, zip(a, b)))""",
"""import operator
return functools.reduce(operator.add, a)""",
"""import heapq
h = [(a[0], 0), (a[1], 1), (a[2], 2)]
heapq.heapify(h)
return [heapq.heappop(h)[1] for _ in range(3)]""",
"""import bisect
l = [0.0, 2.0]
bisect.insort(l, a[0])
return l""",
"""assert a.shape == (3,)
return a[0]""",
"""if a.ndim != 1:
    raise ValueError("bad")
return a[0]""",
"""x = a[0]
x += 1
return a[0] - x""",
"""x = a
x = x + 1
return a""",
"""del b
return a[0]""",
"""global _g
_g = a[0]
return _g""",
"""return type(a[0])(3)""",
"""return isinstance(a[0], (int, float))""",
"""return isinstance(int(i[0]), int)""",
"""return np.isscalar(a[0])""",
"""return np.ndim(a[0])""",
"""return np.asarray(a[0]).ndim""",
"""return np.atleast_1d(a[0])[0]""",
"""return np.array(a[0]) + 1""",
"""return np.array([a[0], 1])[0]""",
"""return np.array([int(i[0]), 1.5]).sum()""",
"""return np.array([1, 2, 3])[i[0]] / 2""",
"""x = np.array([1, 2, 3])
x[0] = a[0]
return x""",
"""x = np.array([0] * 3)
x[1] = a[0] / 2
return x""",
"""x = np.array([[0.0] * 2] * 2)
x[0, 0] = a[0]
return x""",
"""x = [[0.0] * 2 for _ in range(2)]
x[0][0] = a[0]
return np.array(x)""",
"""x = np.zeros_like(m, dtype=int)
x[0, 0] = a[0] / 2
return x""",
"""x = np.empty_like(a)
x[:] = a / 2
return x""",
"""x = np.zeros(3, "float64")
x += i
return x""",
"""x = np.zeros(3, dtype="int")
x += i
return x""",
"""x = np.zeros((2, 3), order="F")
x[1] = a
return x""",
"""return np.ones_like(i) * a""",
"""return np.eye(3, dtype=int) + 0""",
"""return np.sign(a[0]) * abs(a[0])""",
"""return np.minimum(a[0], b[0])""",
"""return np.abs(a[0] - b[0])""",
"""return np.isclose(a[0], 1)""",
"""return np.allclose(a, a)""",
"""return np.where(a[0] > 1, 5, 6)""",
"""return np.where(a[0] > 1, 5, 6) + 0""",
"""return float(np.where(a[0] > 1, 5, 6))""",
"""return np.sum([a[0], b[0]])""",
"""return np.max([a[0], b[0]])""",
"""return np.mean([a[0], b[0]])""",
"""return np.dot([a[0], 1], [2, b[0]])""",
"""return np.sum(x for x in [1.0, 2.0])""",
"""return np.hstack((a[0], b))""",
"""return np.concatenate(([a[0]], b))""",
"""return np.append([], a)""",
"""return np.append(np.array([]), a[0])""",
"""return np.array([]).size""",
"""return np.stack([r for r in m]).sum()""",
"""return np.vstack([m, a])[-1]""",
"""return np.insert(m, 1, a, axis=0)[1]""",
"""return np.delete(m, 0, axis=0).shape[0]""",
"""return np.delete(m, [0, 1], axis=1)""",
"""return np.cumsum(a)[-1]""",
"""return np.cumsum(a[::-1])[::-1]""",
"""return np.diff(np.concatenate(([0], a)))""",
"""return np.searchsorted([0, 1, 2], a[0], side="right")""",
"""return np.digitize(a[0], [0, 2])""",
"""return np.argmax(a > 1)""",
"""return (a > 1).argmax()""",
"""return (a > 1).tolist()""",
"""return (a > 1).nonzero()[0]""",
"""return a.argsort()[::-1]""",
"""return a[a.argsort()]""",
"""return a[np.argsort(-a, kind="mergesort")]""",
"""return np.argmax(m)""",
"""return np.unravel_index(np.argmax(m), m.shape)""",
"""return np.argmax(m, axis=1)""",
"""return np.take_along_axis(m, np.argmax(m, axis=1)[:, None], axis=1).ravel()""",
"""return np.argmin(np.abs(a - 1))""",
"""return np.fabs(a[0])""",
"""return math.fabs(a[0]) + math.hypot(3, 4)""",
"""return math.prod(a)""",
"""return math.inf > a[0]""",
"""return -math.inf < a[0]""",
"""x = math.inf
for v in a:
    if v < x:
        x = v
return x""",
"""x = -np.inf
for v in a:
    x = max(x, v)
return x""",
"""x = np.full(3, np.inf)
x[0] = a[0]
return x.min()""",
"""x = np.full(3, np.nan)
x[:] = a
return x""",
"""x = np.full(3, -1)
x[0] = a[0]
return x""",
"""x = 1e30
for v in a:
    x = min(x, v)
return x""",
"""return a[0] * 1e-9 > 0""",
"""return 10 ** 6 + a[0]""",
"""return 1_000 + a[0]""",
"""return a[0] // 1""",
"""return int(a[0] / 3 * 3)""",
"""return np.int_(a[0]) + np.intp(1)""",
"""return np.float64(i[0]) / 2""",
"""return np.bool_(a[0] > 1)""",
"""return a.astype("int64") // 2""",
"""return a.astype(bool)""",
"""return (a != 0).astype(float)""",
"""return a.copy().tolist()""",
"""return a.dtype == np.dtype(float)""",
"""return m.T.copy()[0]""",
"""return m.flat[4]""",
"""return [x for x in m.flat][:3]""",
"""for x in np.nditer(np.zeros(2)):
    pass
return a[0]""",
"""return [k for k, x in np.ndenumerate(a) if x > 1]""",
"""return list(map(lambda x, y: x + y, a, b))""",
"""return list(filter(lambda x: x > 1, a))""",
"""return dict(zip("abc", a))["b"]""",
"""return {k: v for k, v in enumerate(a)}[0]""",
"""return any(a > 1)""",
"""return all(b > -5)""",
"""return "x" if a[0] > 1 else "y" """,
"""return str(int(i[0])) == "1" """,
"""return a is not None""",
"""return a[0] is None""",
"""return a == None""",
"""return len(a[a > 1])""",
"""return a[a > 1].size == 0""",
"""return a[a > 1].sum() if a[a > 1].size else 0""",
"""return id(a) == id(a)""",
"""return np.shares_memory(a, a[1:])""",
"""return hash((int(i[0]), 1)) == hash((int(i[0]), 1))""",
]
import json
out="import numpy as np\nimport math, functools, itertools, bisect, statistics, operator, collections, copy\n\n"
for n,f in enumerate(S):
    out+="def t%03d(a, b, m, i):\n"%n+"".join("    "+x+"\n" for x in f.split("\n"))+"\n"
compile(out,"x","exec")
open("reliabilityassessment/monte_carlo/shimt.py","w").write(out)
json.dump(S,open("fs.json","w")); print(len(S))
