"""numpy as the symbolically executed code sees it.

Arrays keep numpy's own indexing, slicing, views and broadcasting (they *are* numpy
object arrays); the elements are symbolic numbers, and every array remembers which
element type it stands for so that stores truncate or wrap as the real one does.
"""
import types
from fractions import Fraction

import numpy as np

from . import sym
from .sym import NAN, EngineError, Num, SymB, ite, lift, real, smax, smin, trunc

NARROW = {"i4": np.int32, "i1": np.int8, "i2": np.int16, "u1": np.uint8, "u2": np.uint16, "u4": np.uint32, "u8": np.uint64}
INTS = {"i8": np.int64, **NARROW}
KINDS = {"f", "b", "o", *INTS}
TABLES = ()  # columns and tables of the pandas model


def kind_of(t):
    """Element kind of a dtype specification."""
    if isinstance(t, DT):
        return t.kind_
    if t is None or t is float or t is _bfloat:
        return "f"
    if t is int or t is _bint:
        return "i8"
    if t is bool or t is np.bool_ or t is _bbool:
        return "b"
    if t is object or t is str:
        return "o"
    d = np.dtype(t)
    if d.kind == "f":
        return "f"
    if d.kind in "iu":
        return "%s%d" % (d.kind, d.itemsize)
    if d.kind == "b":
        return "b"
    return "o"


def cast(x, kind):
    if kind == "o":
        return x
    if isinstance(x, str):
        x = Fraction(x)
    if kind == "b":
        if isinstance(x, Num):
            return x if x is NAN else (x != 0)
        return bool(x) if not isinstance(x, SymB) else x
    if kind == "f" and sym._inf(x):
        return x
    n = lift(x)
    if n is NotImplemented:
        if isinstance(x, np.ndarray) and x.size == 1:
            return cast(x.reshape(-1)[0], kind)
        raise TypeError("cannot cast %r" % (x,))
    if kind == "f":
        return n if n is NAN else real(n)
    if type(n) is sym.I32:
        return n if kind == "i4" else sym.plain(n)
    n = trunc(n)
    if kind == "i4":
        return sym.i32(n)
    if kind in NARROW:
        return sym.wrap_int(n, 8 * int(kind[1]), kind[0] == "i")
    return n


_cast_vec = np.frompyfunc(cast, 2, 1)


def _reduce(a, axis, kw, fn, comb=None):
    """Options of a numpy reduction: keepdims and initial; anything else is refused rather than ignored."""
    kw = {k: v for k, v in kw.items() if v is not None and v is not np._NoValue}
    keep, init, cond = kw.pop("keepdims", False), kw.pop("initial", None), kw.pop("where", True)
    if cond is not True:
        neutral = lift(0) if comb is _add else lift(init) if comb in (smax, smin) and init is not None else None
        if neutral is None:
            raise EngineError("option of a reduction is not modelled: where")
        a = arr(a)
        cond = np.broadcast_to(np.asarray(_bools(_toarr(cond))), a.shape)
        a = arr(_map(lambda c, e: e if bool(c) else neutral, cond, a), a.knd)
    if kw.pop("dtype", None) not in (None, float, int) or kw.pop("ddof", 0) or kw:
        raise EngineError("option of a reduction is not modelled: %s" % (list(kw) or "where/dtype/ddof"))
    if isinstance(axis, (tuple, list)):
        a = a if isinstance(a, SA) else arr(a)
        ax = sorted(int(x) % a.ndim for x in axis)
        if keep:
            raise EngineError("reduction over several axes with keepdims")
        if len(ax) == a.ndim:
            axis = None
        else:
            b = np.moveaxis(np.asarray(a), ax, range(len(ax)))
            b = b.reshape((-1,) + b.shape[len(ax) :]).view(SA)
            b.knd = a.knd
            a, axis = b, 0
    if axis is not None:
        axis = int(axis)
    r = fn(a, axis)
    if init is not None:
        if comb is None:
            raise EngineError("initial value of a reduction is not modelled")
        r = _map(lambda e: comb(lift(init), e), r) if isinstance(r, np.ndarray) else comb(lift(init), r)
        r = _wrap(r)
    if keep:
        nd = np.ndim(a)
        if axis is None:
            r = _wrap(np.full((1,) * nd, r, dtype=object))
        else:
            r = _wrap(np.expand_dims(np.asarray(r), axis))
    return r


def _add(x, y):
    return lift(x) + lift(y)


def _width(inputs):
    """The narrow integer type of an operation whose other operands are single numbers, if it has one."""
    ks = {_ukind(x) for x in inputs if np.ndim(x) > 0}
    if not ks & set(NARROW) or not ks <= {"b", *INTS}:
        return None
    t = np.result_type(*[INTS.get(k, np.bool_) for k in ks])
    k = "%s%d" % (t.kind, t.itemsize)
    return k if k in NARROW else None


def _ukind(x):
    return x.knd if isinstance(x, SA) else kind_of(x.dtype) if isinstance(x, np.ndarray) else "i8"


class Bytes(tuple):
    """The content of an array as a key; only comparing, joining and hashing make sense."""

    def __add__(self, o):
        return Bytes(tuple(self) + tuple(o))


class SA(np.ndarray):
    """A numpy object array of symbolic numbers."""

    knd = "f"

    def __array_finalize__(self, obj):
        self.knd = getattr(obj, "knd", "f")

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        r = np.asarray(arr)
        if r.ndim == 0:
            return r[()]
        r = r.view(SA)
        r.knd = _infer(r) if r.dtype == object else "b"
        return r

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(x) if isinstance(x, SA) else x for x in inputs]
        ins = [_obj(x) if isinstance(x, np.ndarray) and x.dtype != object and _mix(ufunc) else x for x in ins]
        name = ufunc.__name__
        width = _width(inputs) if method == "__call__" else None
        if method == "__call__" and name in _UF2 and out is None:
            r = _UF2[name](*ins)
            if isinstance(r, tuple):
                return tuple(_wrap(x) for x in r)
        elif method == "reduce" and name in ("maximum", "minimum", "fmax", "fmin"):
            op = smax if "max" in name else smin
            kw.setdefault("axis", 0)
            return _reduce(ins[0], kw.pop("axis"), kw, lambda a, x: _red(a, x, op), op)
        elif method == "reduce" and name in ("logical_or", "logical_and"):
            a = np.asarray(_bools(ins[0]))
            r = getattr(ufunc, method)(a, **{k: v for k, v in kw.items() if k in ("axis", "keepdims")})
        elif out is not None:
            o = out[0]
            if method == "__call__" and name in _UF2 and not isinstance(o, tuple):
                where_ = kw.pop("where", True)
                tmp = _UF2[name](*ins)
                if where_ is not True:
                    tmp = _map(lambda c, x, y: x if bool(c) else y, np.broadcast_to(np.asarray(_bools(_toarr(where_))), o.shape), np.broadcast_to(np.asarray(tmp), o.shape), np.asarray(o))
            else:
                where_ = kw.pop("where", True)
                tmp = getattr(ufunc, method)(*ins, **{k: v for k, v in kw.items() if k != "out"})
                if where_ is not True:
                    tmp = _map(lambda c, x, y: x if bool(c) else y, np.broadcast_to(np.asarray(_bools(_toarr(where_))), o.shape), np.broadcast_to(np.asarray(tmp), o.shape), np.asarray(o))
            if isinstance(o, SA):
                if o.knd in INTS and np.size(tmp) and np.asarray(tmp).dtype == object and _infer(np.asarray(tmp)) == "f":
                    raise np.core._exceptions._UFuncOutputCastingError(
                        ufunc, "same_kind", np.dtype(float), np.dtype(int), 0
                    )
                o[...] = tmp
                return o
            o[...] = tmp
            return o
        else:
            r = getattr(ufunc, method)(*ins, **kw)
        r = _wrap(r)
        if isinstance(r, SA) and r.dtype == object:
            if not r.size and name not in ("divide", "true_divide") and all(getattr(x, "knd", "i8") != "f" and not isinstance(x, float) for x in inputs):
                r.knd = "i8"
            if width is not None and r.knd in INTS:
                r = arr(r, width)
        return r

    def __array_function__(self, func, types_, args, kwargs):
        return super().__array_function__(func, types_, args, kwargs)

    def __getitem__(self, key):
        r = super().__getitem__(_key(key))
        if isinstance(r, np.ndarray):
            return r
        if self.dtype == object:
            return _scalar(r, self.knd)
        return r

    def __setitem__(self, key, val):
        key = _key(key)
        if self.dtype != object:
            if isinstance(val, np.ndarray) and val.dtype == object:
                val = np.array([bool(v) for v in val.reshape(-1)]).reshape(val.shape)
            elif isinstance(val, (Num, SymB)):
                val = bool(val)
            super().__setitem__(key, val)
            return
        if isinstance(val, (list, tuple, range) + TABLES):
            val = _toarr(val)
        if isinstance(val, np.ndarray):
            v = np.asarray(val)
            if v.dtype != object:
                v = _obj(v)
            if v.ndim == 0:
                v = cast(v[()], self.knd)
            else:
                v = np.asarray(_cast_vec(v, self.knd))
            super().__setitem__(key, v)
        elif isinstance(val, str):
            super().__setitem__(key, cast(val, self.knd))
        else:
            super().__setitem__(key, cast(val, self.knd))

    def fill(self, v):
        self[...] = v

    def astype(self, t, **kw):
        return convert(self, kind_of(t))

    def copy(self, order="C"):
        r = np.array(np.asarray(self), copy=True).view(SA)
        r.knd = self.knd
        return r

    def tolist(self):
        return np.asarray(self).tolist()

    def tobytes(self, *a, **k):
        return Bytes(self.copy().tolist() if self.ndim < 2 else self.copy().reshape(-1).tolist())

    def item(self, *a):
        if not a:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1 to a Python scalar")
            return np.asarray(self).reshape(-1)[0]
        return np.asarray(self).item(*a)

    def sum(self, axis=None, **kw):
        return _reduce(self, axis, kw, SA._sum, _add)

    def _sum(self, axis):
        if self.dtype != object:
            return _wrap(np.asarray(self).sum(axis=axis))
        a = np.asarray(self)
        if axis is None:
            t = Num(0, None, "i" if (self.knd in INTS or self.knd == "b") else "r")
            for e in a.reshape(-1):
                t = t + lift(e)
            return t
        return _wrap(np.add.reduce(a, axis=axis, initial=Num(0, None, "i" if self.knd != "f" else "r")))

    def mean(self, axis=None, **kw):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis, **kw) / Num(n, None, "i")

    def max(self, axis=None, **kw):
        return _reduce(self, axis, kw, lambda a, x: _red(np.asarray(a), x, smax), smax)

    def min(self, axis=None, **kw):
        return _reduce(self, axis, kw, lambda a, x: _red(np.asarray(a), x, smin), smin)

    def any(self, axis=None, **kw):
        return _reduce(self, axis, kw, lambda a, x: _wrap(np.asarray(_bools(a)).any(axis=x)))

    def all(self, axis=None, **kw):
        return _reduce(self, axis, kw, lambda a, x: _wrap(np.asarray(_bools(a)).all(axis=x)))

    def nonzero(self):
        return np.asarray(_bools(self)).nonzero()

    def var(self, axis=None, ddof=0, **kw):
        return var(self, axis, ddof, **kw)

    def std(self, axis=None, ddof=0, **kw):
        return std(self, axis, ddof, **kw)

    def clip(self, min=None, max=None, **kw):
        return clip(self, min, max)

    def round(self, decimals=0, **kw):
        return _wrap(_map(lambda e: lift(e).__round__(decimals), self))

    def argmax(self, axis=None, **kw):
        return argext(self, axis, lambda a, b: a > b)

    def argmin(self, axis=None, **kw):
        return argext(self, axis, lambda a, b: a < b)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def cumsum(self, axis=None, **kw):
        out = kw.pop("out", None)
        self = arr(self, "i8") if self.knd in NARROW else self
        r = _wrap(np.add.accumulate(np.asarray(self).reshape(-1) if axis is None else np.asarray(self), axis=axis or 0))
        if out is not None:
            out[...] = r
            return out
        return r

    def argsort(self, axis=-1, kind=None, **kw):
        return argsort(self, axis)

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(np.asarray(self).reshape(-1)[0])

    def __int__(self):
        return int(np.asarray(self).reshape(-1)[0])

    def __index__(self):
        return np.asarray(self).reshape(-1)[0].__index__()

    def __float__(self):
        return float(np.asarray(self).reshape(-1)[0])

    def __contains__(self, v):
        return any(bool(e == v) for e in np.asarray(self).reshape(-1))

    def __deepcopy__(self, memo):
        return self.copy()

    def __format__(self, spec):
        return str(self)

    def __str__(self):
        if self.ndim == 0:
            return str(np.asarray(self)[()])
        return "[" + (" " if self.ndim == 1 else "\n ").join(str(x) for x in self) + "]"

    def __repr__(self):
        return "array(" + str(self.tolist()) + ")"

    def __pow__(self, o):
        return _wrap(_map(lambda e: lift(e) ** o, self)) if not isinstance(o, np.ndarray) else super().__pow__(o)

    def __reduce__(self):
        return (_unpickle, (self.tolist(), self.shape, self.knd))

    def view(self, *a, **k):
        return super().view(*a, **k)

    @property
    def flat(self):
        return _Flat(self)


class _Flat:
    """a.flat: indexing, assignment and iteration in row order."""

    def __init__(self, a):
        self.a, self.base = a, a

    def __iter__(self):
        return iter(np.asarray(self.a).reshape(-1))

    def __len__(self):
        return self.a.size

    def __getitem__(self, k):
        return self.a.reshape(-1)[k]

    def __setitem__(self, k, v):
        ix = np.arange(self.a.size)[_key(k)]
        if np.ndim(ix) == 0:
            self.a[np.unravel_index(int(ix), self.a.shape)] = v
            return
        vs = np.broadcast_to(np.asarray(_toarr(v)), ix.shape) if isinstance(v, (list, tuple, np.ndarray)) else [v] * ix.size
        for i, x in zip(ix, vs):
            self.a[np.unravel_index(int(i), self.a.shape)] = x


def _unpickle(lst, shape, knd):
    return arr(np.array(lst, dtype=object).reshape(shape), knd)


def _scalar(r, knd):
    if isinstance(r, (Num, SymB)):
        return r
    if knd == "o":
        return r
    n = lift(r)
    return r if n is NotImplemented else n


def _infer(a):
    k = None
    for e in np.asarray(a).reshape(-1):
        if isinstance(e, Num):
            if e.k == "r":
                return "f"
            if type(e) is not sym.I32:
                k = "i8"
            else:
                k = "i4" if k in (None, "i4", "b") else k
        elif isinstance(e, (bool, SymB, np.bool_)):
            k = k or "b"
        elif isinstance(e, int):
            k = "i8"
        elif isinstance(e, (float, Fraction)):
            return "f"
        else:
            return "o"
    return k or "f"


_MIXABLE = None


def _mix(ufunc):
    return ufunc.__name__ not in ("logical_not", "logical_and", "logical_or", "invert", "bitwise_and", "bitwise_or", "bitwise_xor")


def _obj(a):
    a = np.asarray(a)
    if a.dtype == object:
        return a
    if a.dtype.kind not in "biuf":
        return a
    r = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        r[()] = lift(a[()])
        return r
    fl = a.reshape(-1)
    out = np.empty(fl.shape, dtype=object)
    for i in range(fl.size):
        out[i] = lift(fl[i])
    return out.reshape(a.shape)


def _wrap(r):
    if isinstance(r, SA):
        return r
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return _scalar(r[()], "f")
        if r.dtype == object:
            r = r.view(SA)
            r.knd = _infer(r)
            return r
        if r.dtype == bool:
            r = r.view(SA)
            r.knd = "b"
            return r
        if r.dtype.kind in "iuf":
            k = kind_of(r.dtype)
            return arr(r, k)
        return r
    if isinstance(r, (np.floating, np.integer, float)):
        return lift(r)
    if isinstance(r, tuple):
        return tuple(_wrap(x) for x in r)
    return r


def _bools(a):
    """Concrete bool array (forks on symbolic truth)."""
    a = np.asarray(a)
    if a.dtype == bool:
        return a
    f = a.reshape(-1)
    out = np.empty(f.shape, dtype=bool)
    for i in range(f.size):
        out[i] = bool(f[i] != 0) if isinstance(f[i], Num) else bool(f[i])
    return out.reshape(a.shape)


def _key1(k):
    if isinstance(k, Num):
        return k.__index__()
    if isinstance(k, SymB):
        return bool(k)
    if isinstance(k, np.ndarray):
        if k.dtype == object:
            return _idx(k)
        return np.asarray(k)
    if isinstance(k, slice):
        return slice(*(None if p is None else (p.__index__() if not isinstance(p, int) else p) for p in (k.start, k.stop, k.step)))
    if isinstance(k, (list, range)):
        return _idx(_toarr(list(k)))
    if isinstance(k, tuple):
        k = tuple(_key1(x) for x in k)
        return np.array(k) if any(isinstance(x, np.ndarray) for x in k) else k
    return k


def _key(k):
    if isinstance(k, tuple):
        return tuple(_key1(x) for x in k)
    return _key1(k)


def _idx(k):
    k = np.asarray(k)
    if k.dtype != object:
        return k
    f = k.reshape(-1)
    if f.size and all(isinstance(e, (bool, SymB, np.bool_)) for e in f):
        return _bools(k)
    if f.size and any(isinstance(e, Num) and e.k == "r" for e in f):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    return np.array([int(e.__index__()) for e in f], dtype=int).reshape(k.shape)


def _toarr(x):
    """array from nested python data, object-safe."""
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, TABLES):
        return x.to_numpy()
    if isinstance(x, (Num, SymB)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        parts = [_toarr(e) if isinstance(e, (list, tuple, np.ndarray, range) + TABLES) else e for e in x]
        if parts and all(isinstance(p, np.ndarray) and p.ndim > 0 for p in parts):
            if len({p.shape for p in parts}) != 1:
                raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
            return np.stack([_obj(p) for p in parts])
        a = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            if isinstance(p, np.ndarray):
                if p.size != 1:
                    raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
                p = p.reshape(-1)[0]
            a[i] = p
        if a.size and all(isinstance(e, (bool, np.bool_)) for e in a):
            return a.astype(bool)
        return a
    return np.asarray(x)


def arr(x, knd=None):
    """SA of the given kind."""
    a = _toarr(x)
    if knd is None:
        if a.dtype == bool:
            return a.view(SA) if not isinstance(a, SA) else a
        if isinstance(a, SA):
            knd = a.knd
        else:
            knd = _infer(a) if a.dtype == object else kind_of(a.dtype)
    if knd == "o" and a.dtype.kind not in "biufO":
        return a
    o = np.asarray(_obj(a)) if a.dtype != object else np.asarray(a)
    if o.size and knd != "o":
        o = np.asarray(_cast_vec(o, knd))
        if o.dtype != object:
            o = o.astype(object)
    else:
        o = o.astype(object)
    o = np.array(o, copy=True)
    if knd == "b" and all(isinstance(e, (bool, np.bool_)) for e in o.reshape(-1)):
        r = o.astype(bool).view(SA)
        r.knd = "b"
        return r
    r = o.view(SA)
    r.knd = knd
    return r


def convert(a, knd):
    return arr(a, knd)


def _map(f, *arrs):
    return np.frompyfunc(f, len(arrs), 1)(*[_obj(np.asarray(_toarr(a))) if isinstance(a, (np.ndarray, list, tuple)) else a for a in arrs])


def _red1(xs, op):
    """Reduction of a list; constants are folded first where the order does not matter."""
    xs = [x if sym._inf(x) else lift(x) for x in xs]
    if op in (smax, smin) and not any(x is NAN or sym._inf(x) for x in xs):
        cs = [x for x in xs if x.l is None]
        if len(cs) > 1:
            best = max(cs, key=lambda x: x.c) if op is smax else min(cs, key=lambda x: x.c)
            if all(x.k == best.k for x in cs):
                xs = [x for x in xs if x.l is not None] + [best]
    t = xs[0]
    for e in xs[1:]:
        t = op(t, e)
    return t


def _red(a, axis, op):
    a = _obj(np.asarray(_toarr(a)))
    if axis is None:
        f = a.reshape(-1)
        if f.size == 0:
            raise ValueError("zero-size array to reduction operation which has no identity")
        return _red1(list(f), op)
    a = np.moveaxis(a, axis, 0)
    if op in (smax, smin) and a.ndim > 1 and a.shape[0] > 8:
        out = np.empty(a.shape[1:], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = _red1([a[(j,) + i] for j in range(a.shape[0])], op)
        return _wrap(out)
    if op in (smax, smin) and a.ndim == 1 and a.shape[0]:
        return _red1(list(a), op)
    t = a[0]
    f = np.frompyfunc(op, 2, 1)
    for i in range(1, a.shape[0]):
        t = f(t, a[i])
    return _wrap(t)


def argext(a, axis, better):
    a = np.asarray(_toarr(a))
    if a.dtype == bool:
        return _wrap((a.argmax(axis=axis)))
    if a.ndim > 1 and axis is not None:
        m = np.moveaxis(a, axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = argext(m[i], None, better)
        return _wrap(out)
    f = a.reshape(-1)
    if f.size == 0:
        raise ValueError("attempt to get argmax of an empty sequence")
    if f.size > 4:  # no branching; the position becomes a term
        bi, best = lift(0), lift(f[0])
        for i in range(1, f.size):
            c = better(lift(f[i]), best)
            bi, best = ite(c, lift(i), bi), ite(c, lift(f[i]), best)
        return bi
    bi = 0
    for i in range(1, f.size):
        if bool(better(lift(f[i]), lift(f[bi]))):
            bi = i
    return Num(bi, None, "i")


def argsort(a, axis=-1, kind=None, **kw):
    import functools

    a = np.asarray(_toarr(a))
    if a.ndim > 1 and axis is not None:
        m = np.moveaxis(a, int(axis), -1)
        out = np.empty(m.shape, dtype=object)
        for i in np.ndindex(m.shape[:-1]):
            out[i] = np.asarray(argsort(m[i]))
        return arr(np.moveaxis(out, -1, int(axis)), "i8")
    f = list(a.reshape(-1))
    ix = sorted(
        range(len(f)), key=functools.cmp_to_key(lambda i, j: -1 if bool(f[i] < f[j]) else (1 if bool(f[i] > f[j]) else 0))
    )
    return arr(ix, "i8")


def clip(a, a_min=None, a_max=None, **kw):
    lo = kw.get("min", a_min)
    hi = kw.get("max", a_max)
    if not isinstance(a, (np.ndarray, list, tuple)):
        return lift(a).clip(lo, hi)
    r = a
    if lo is not None:
        r = _map(smax, r, lo)
    if hi is not None:
        r = _map(smin, r, hi)
    return _wrap(r)


def _pre(x):
    if isinstance(x, (list, tuple)):
        return np.asarray(_obj(_toarr(x)))
    if isinstance(x, np.ndarray):
        return np.asarray(_obj(x))
    return x


def matmul(a, b):
    a, b = _pre(a), _pre(b)
    return _wrap(np.matmul(a, b))


def dot(a, b):
    a, b = _pre(a), _pre(b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return _wrap(a * b)
    return _wrap(np.dot(a, b))


def _bin(op):
    def f(a, b):
        arrs = [x for x in (a, b) if isinstance(x, np.ndarray)]
        if not arrs:
            return op(a, b)
        return _map(op, a, b)

    return f


def _un(op):
    def f(a):
        if isinstance(a, np.ndarray):
            return _map(op, a)
        return op(lift(a))

    return f


def _tdiv(a, b):
    return sym.div(lift(a), lift(b))


_UF2 = {
    "maximum": _bin(smax),
    "minimum": _bin(smin),
    "fmax": _bin(smax),
    "fmin": _bin(smin),
    "true_divide": _bin(_tdiv),
    "divide": _bin(_tdiv),
    "absolute": _un(abs),
    "floor": _un(lambda e: lift(e).floor()),
    "ceil": _un(lambda e: lift(e).ceil()),
    "trunc": _un(lambda e: lift(e).trunc()),
    "rint": _un(lambda e: lift(e).rint()),
    "sqrt": _un(lambda e: sym.sqrt(lift(e))),
    "square": _un(lambda e: lift(e) * lift(e)),
    "log": _un(lambda e: sym.uf("log", e)),
    "exp": _un(lambda e: sym.uf("exp", e)),
    "negative": _un(lambda e: -lift(e)),
    "sign": _un(lambda e: ite(lift(e) > 0, lift(1), ite(lift(e) < 0, lift(-1), lift(0)))),
    "power": _bin(lambda a, b: lift(a) ** lift(b)),
    "float_power": _bin(lambda a, b: real(lift(a) ** lift(b))),
    "isnan": _un(lambda e: e is NAN),
    "isfinite": _un(lambda e: e is not NAN),
    "isinf": _un(lambda e: False),
    "logical_not": lambda a: ~_bools(a),
    "logical_and": lambda a, b: _bools(np.asarray(_toarr(a))) & _bools(np.asarray(_toarr(b))),
    "logical_or": lambda a, b: _bools(np.asarray(_toarr(a))) | _bools(np.asarray(_toarr(b))),
    "logical_xor": lambda a, b: _bools(np.asarray(_toarr(a))) ^ _bools(np.asarray(_toarr(b))),
    "signbit": _un(lambda e: lift(e) < 0),
    "fabs": _un(lambda e: real(abs(lift(e)))),
    "fmod": _bin(lambda a, b: lift(a) - lift(b) * sym.trunc(sym.div(lift(a), lift(b)))),
    "hypot": _bin(lambda a, b: sym.sqrt(lift(a) * lift(a) + lift(b) * lift(b))),
    "heaviside": _bin(lambda a, b: ite(lift(a) > 0, lift(1), ite(lift(a) < 0, lift(0), lift(b)))),
    "copysign": _bin(lambda a, b: ite(lift(b) >= 0, abs(lift(a)), -abs(lift(a)))),
    "divmod": lambda a, b: (_bin(lambda x, y: lift(x) // lift(y))(a, b), _bin(lambda x, y: lift(x) % lift(y))(a, b)),
    "modf": lambda a: (_un(lambda e: lift(e) - lift(e).trunc())(a), _un(lambda e: lift(e).trunc())(a)),
}


class DT(type):
    """Stand-in for numpy scalar types: usable as dtype and as a conversion."""


def _mkdt(name, kind, npt):
    class T(metaclass=DTMeta):
        kind_ = kind

    T.np_type = npt
    T.__name__ = name
    return T


class DTMeta(type):
    def __call__(cls, x=0):
        if isinstance(x, (list, tuple, np.ndarray)):
            return arr(x, cls.kind_)
        return cast(x, cls.kind_)

    def __instancecheck__(cls, x):
        if isinstance(x, Num):
            return (type(x) is sym.I32) == (cls.kind_ == "i4") and (x.k == "i") == ((cls.kind_ in INTS or cls.kind_ == "int"))
        return isinstance(x, cls.np_type)

    def __eq__(cls, o):
        return cls is o or o is cls.np_type

    def __hash__(cls):
        return id(cls)


DT = DTMeta


def _bint(*a):
    raise NotImplementedError


_bfloat = _bbool = _bint


def set_builtin_types(i, f, b):
    global _bint, _bfloat, _bbool
    _bint, _bfloat, _bbool = i, f, b


def _shape(s):
    if isinstance(s, (Num, int, np.integer)):
        return (int(s.__index__()),)
    return tuple(int(x.__index__()) for x in s)


def full(shape, v, dtype="infer", **kw):
    if isinstance(v, str):
        return np.full(shape, v, dtype=None if dtype == "infer" else dtype)
    shape = _shape(shape)
    if isinstance(dtype, str) and dtype == "infer" or dtype is None:
        k = "b" if isinstance(v, (bool, SymB)) else "f" if sym._inf(v) else ("i8" if lift(v).k == "i" else "f")
    else:
        k = kind_of(dtype)
    if k == "b":
        r = np.full(shape, bool(v)).view(SA)
        r.knd = "b"
        return r
    r = np.empty(shape, dtype=object).view(SA)
    r.knd = k
    np.asarray(r)[...] = cast(v, k) if k != "o" else v
    return r


def zeros(shape, dtype=float, **kw):
    return full(shape, 0, dtype if dtype is not None else float)


def ones(shape, dtype=float, **kw):
    return full(shape, 1, dtype if dtype is not None else float)


def empty(shape, dtype=float, **kw):
    return full(shape, 0, dtype if dtype is not None else float)


def _like(v):
    def f(a, dtype=None, shape=None, **kw):
        a = arr(a) if not isinstance(a, SA) else a
        k = (a.knd if a.dtype == object else "b") if dtype is None else kind_of(dtype)
        r = np.empty(a.shape if shape is None else _shape(shape), dtype=object).view(SA)
        r.knd = k
        if k == "b":
            return full(a.shape, bool(v), bool)
        np.asarray(r)[...] = cast(v, k)
        return r

    return f


def full_like(a, v, dtype=None, **kw):
    a = arr(a) if not isinstance(a, SA) else a
    r = np.empty(a.shape, dtype=object).view(SA)
    r.knd = (a.knd if a.dtype == object else "b") if dtype is None else kind_of(dtype)
    np.asarray(r)[...] = cast(v, r.knd)
    return r


def identity(n, dtype=float, **kw):
    n = int(n.__index__())
    r = zeros((n, n), dtype)
    for i in range(n):
        r[i, i] = 1
    return r


def eye(n, m=None, k=0, dtype=float, **kw):
    n = int(n.__index__())
    m = n if m is None else int(m.__index__())
    r = zeros((n, m), dtype)
    for i in range(n):
        if 0 <= i + k < m:
            r[i, i + k] = 1
    return r


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    if isinstance(x, (map, filter, types.GeneratorType)):
        raise EngineError("array from a generator")
    a = _toarr(x)
    if dtype is not None:
        if kind_of(dtype) == "o":
            r = np.asarray(a)
            return r if r.dtype.kind in "US" else np.array(_obj(r))
        r = arr(a, kind_of(dtype))
    elif a.dtype.kind in "US":
        return a
    elif a.dtype == object and any(isinstance(e, (str, type(None))) for e in a.reshape(-1)):
        return a
    else:
        r = arr(a) if a.dtype != bool else (np.array(a).view(SA))
    if a.ndim == 0 and isinstance(x, (Num, int, float, Fraction)):
        z = np.empty((), dtype=object).view(SA)
        np.asarray(z)[()] = cast(lift(x), kind_of(dtype) if dtype is not None else ("i8" if lift(x).k == "i" else "f"))
        z.knd = kind_of(dtype) if dtype is not None else ("i8" if lift(x).k == "i" else "f")
        return z
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **kw):
    if isinstance(x, SA) and (dtype is None or kind_of(dtype) == x.knd):
        return x
    return array(x, dtype)


def arange(*a, dtype=None, **kw):
    a = [lift(x) for x in a]
    if all(x.concrete for x in a):
        if all(x.k == "i" for x in a):
            return arr(list(range(*[int(x.c) for x in a])), kind_of(dtype) if dtype is not None else "i8")
        st, en, sp = (lift(0), a[0], lift(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else lift(1))
        out, v = [], st
        while bool(v < en):
            out.append(v)
            v = v + sp
        return arr(out, kind_of(dtype) if dtype is not None else "f")
    return arr(list(range(*[x.__index__() for x in a])), kind_of(dtype) if dtype is not None else "i8")


def where(c, *ab):
    if not ab:
        return tuple(_wrap(x) for x in np.nonzero(_bools(np.asarray(_toarr(c)))))
    a, b = ab
    if not any(isinstance(x, (np.ndarray, list, tuple)) for x in (c, a, b)):
        return ite(c if isinstance(c, (bool, SymB)) else c != 0, a, b)
    cc = np.asarray(_toarr(c)) if isinstance(c, (list, tuple, np.ndarray)) else c
    f = lambda x, p, q: ite(x if isinstance(x, (bool, SymB, np.bool_)) else x != 0, p, q)  # noqa: E731
    f2 = lambda x, p, q: f(bool(x) if isinstance(x, np.bool_) else x, p, q)  # noqa: E731
    return _wrap(np.frompyfunc(f2, 3, 1)(cc, _pre(a), _pre(b)))


def nonzero(a):
    return tuple(_wrap(x) for x in np.nonzero(_bools(np.asarray(_toarr(a)))))


def flatnonzero(a):
    return _wrap(np.flatnonzero(_bools(np.asarray(_toarr(a)))))


def argwhere(a):
    return _wrap(np.argwhere(_bools(np.asarray(_toarr(a)))))


def count_nonzero(a, axis=None, **kw):
    return _reduce(_toarr(a), axis, kw, lambda x, d: _wrap(np.count_nonzero(_bools(np.asarray(x)), axis=d)))


def nsum(a, axis=None, **kw):
    if isinstance(a, types.GeneratorType):
        return sum(a)
    a = arr(a) if not isinstance(a, SA) else a
    return a.sum(axis=axis, **kw)


def bincount(x, weights=None, minlength=0):
    ix = [int(e.__index__()) for e in np.asarray(_toarr(x)).reshape(-1)]
    n = max([int(minlength)] + [i + 1 for i in ix])
    out = zeros(n, int if weights is None else float)
    for j, i in enumerate(ix):
        out[i] += 1 if weights is None else weights[j]
    return out


def _gauss(A, Bm):
    """Solve A X = B by Gauss-Jordan with first nonzero pivot (exact)."""
    A = [[real(e) for e in row] for row in np.asarray(_obj(_toarr(A)))]
    Bm = [[real(e) for e in row] for row in np.asarray(_obj(_toarr(Bm)))]
    n = len(A)
    for c in range(n):
        p = None
        for r in range(c, n):
            if bool(A[r][c] != 0):
                p = r
                break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        A[c], A[p] = A[p], A[c]
        Bm[c], Bm[p] = Bm[p], Bm[c]
        pv = A[c][c]
        A[c] = [e / pv for e in A[c]]
        Bm[c] = [e / pv for e in Bm[c]]
        for r in range(n):
            if r != c and not (A[r][c].concrete and A[r][c].c == 0):
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
                Bm[r] = [x - f * y for x, y in zip(Bm[r], Bm[c])]
    return Bm


class _Linalg:
    LinAlgError = np.linalg.LinAlgError
    multi_dot = staticmethod(lambda *a, **k: multi_dot(*a, **k))
    matrix_power = staticmethod(lambda *a, **k: matrix_power(*a, **k))

    @staticmethod
    def inv(a):
        n = len(a)
        if n == 0:
            return zeros((0, 0))
        return arr(_gauss(a, [[1 if i == j else 0 for j in range(n)] for i in range(n)]), "f")

    @staticmethod
    def solve(a, b):
        b = np.asarray(_toarr(b))
        if b.ndim == 1:
            return arr([r[0] for r in _gauss(a, b.reshape(-1, 1))], "f")
        return arr(_gauss(a, b), "f")

    pinv = inv

    @staticmethod
    def det(a):
        a = np.asarray(_obj(_toarr(a)))
        n = a.shape[0]
        if n == 1:
            return real(a[0, 0])
        t = lift(0)
        for j in range(n):
            m = np.delete(np.delete(a, 0, 0), j, 1)
            s = a[0, j] * _Linalg.det(m)
            t = t + (s if j % 2 == 0 else -s)
        return t

    @staticmethod
    def norm(a, ord=None, axis=None, **kw):
        if ord not in (None, 2, "fro") or kw or ord == 2 and np.ndim(a) > 1 and axis is None:
            raise EngineError("options of np.linalg.norm")
        if axis is not None:
            return _wrap(_map(lambda e: sym.sqrt(lift(e)), nsum(_map(lambda e: lift(e) * lift(e), a), axis=axis)))
        return sym.sqrt(sum(lift(e) * lift(e) for e in np.asarray(_toarr(a)).reshape(-1)))


class _AddUf:
    """np.add / np.maximum ... called directly, with .accumulate/.reduce/.at."""

    def __init__(self, uf):
        self.uf = uf

    def __call__(self, *a, out=None, **kw):
        n = self.uf.__name__
        a2 = [(_wrap(np.asarray(_toarr(x))) if isinstance(x, (list, tuple, np.ndarray)) else x) for x in a]
        if not any(isinstance(x, np.ndarray) for x in a2):
            if n in _UF2:
                return _UF2[n](*[x if isinstance(x, bool) else lift(x) for x in a2])
            r = np.frompyfunc(_PY.get(n) or _nope(n), len(a2), 1)(*[lift(x) for x in a2])
            return r
        if out is not None:
            kw["out"] = out
        return _wrap(self.uf(*a2, **kw))

    def accumulate(self, a, axis=0, **kw):
        return _wrap(self.uf.accumulate(_pre(a), axis=axis))

    def reduce(self, a, axis=0, **kw):
        if self.uf.__name__ in ("maximum", "minimum"):
            op = smax if self.uf.__name__ == "maximum" else smin
            return _reduce(a, axis, kw, lambda x, d: _red(x, d, op), op)
        return _wrap(self.uf.reduce(_pre(a), axis=axis, **kw))

    def outer(self, a, b):
        return _wrap(self.uf.outer(_pre(a), _pre(b)))

    def reduceat(self, a, idx, axis=0, **kw):
        ix = [int(x) for x in np.asarray(_toarr(idx)).reshape(-1)]
        m = np.moveaxis(_pre(a), axis, 0)
        out = [self.reduce(arr(m[i:j] if j > i else m[i : i + 1]), axis=0) for i, j in zip(ix, ix[1:] + [m.shape[0]])]
        return arr(out) if m.ndim == 1 else _wrap(np.moveaxis(np.stack([np.asarray(x) for x in out]), 0, axis))

    def at(self, a, idx, b=None):
        idx = _key(idx)
        ii = np.arange(a.size).reshape(a.shape)[idx]
        if isinstance(b, (list, tuple)):
            b = _toarr(b)
        bb = np.broadcast_to(np.asarray(_pre(b)) if isinstance(b, np.ndarray) else np.array([b], dtype=object)[0:1], ii.shape) if not np.isscalar(ii) else None
        flat = list(np.ndindex(a.shape))
        if bb is None:
            p = flat[int(ii)]
            a[p] = self(a[p], b)
            return
        for p, v in zip(ii.reshape(-1), bb.reshape(-1)):
            a[flat[p]] = self(a[flat[p]], v)


def _nope(n):
    def f(*a):
        raise EngineError("ufunc %s not modelled on scalars" % n)

    return f


_PY = {
    "add": lambda a, b: a + b,
    "subtract": lambda a, b: a - b,
    "multiply": lambda a, b: a * b,
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": lambda a, b: a == b,
    "not_equal": lambda a, b: a != b,
    "floor_divide": lambda a, b: a // b,
    "remainder": lambda a, b: a % b,
    "mod": lambda a, b: a % b,
}


def isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    f = lambda x, y: abs(lift(x) - lift(y)) <= lift(atol) + lift(rtol) * abs(lift(y))  # noqa: E731
    if not any(isinstance(x, (np.ndarray, list, tuple)) for x in (a, b)):
        return f(a, b)
    return _wrap(_bools(_map(f, a, b)))


def allclose(a, b, **kw):
    r = isclose(a, b, **kw)
    return r if isinstance(r, (bool, SymB)) else bool(np.asarray(r).all())


def array_equal(a, b):
    a, b = arr(a), arr(b)
    return a.shape == b.shape and bool(np.asarray(_bools(np.asarray(a == b))).all())


def unique(a, **kw):
    if kw:
        raise EngineError("np.unique options")
    f = [lift(e) for e in np.asarray(_toarr(a)).reshape(-1)]
    o = argsort(arr(f))
    out = []
    for i in np.asarray(o):
        e = f[int(i.c)]
        if not out or bool(out[-1] != e):
            out.append(e)
    return arr(out)


def sort(a, axis=-1, **kw):
    a = arr(a)
    if a.ndim == 1:
        return a[argsort(a)]
    m = np.moveaxis(np.asarray(a), axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        out[i] = np.asarray(sort(m[i]))
    return arr(np.moveaxis(out, -1, axis), a.knd)


def diff(a, n=1, axis=-1, **kw):
    a = arr(a)
    a = np.moveaxis(np.asarray(a), axis, -1)
    return _wrap(np.moveaxis(a[..., 1:] - a[..., :-1], -1, axis))


def pad(a, pw, *args, **kw):
    a = arr(a)
    if isinstance(pw, (tuple, list)) and not any(isinstance(p, (tuple, list, np.ndarray)) for p in pw):
        pw = [[pw[0], pw[-1]]] * a.ndim
    pw = np.array([[int(x) for x in p] for p in pw]) if isinstance(pw, (tuple, list)) else np.full((a.ndim, 2), int(pw))
    if pw.shape != (a.ndim, 2):
        pw = np.broadcast_to(pw, (a.ndim, 2))
    r = zeros(tuple(int(s + p[0] + p[1]) for s, p in zip(a.shape, pw)), int if a.knd in INTS else float)
    r[tuple(slice(int(p[0]), int(p[0]) + s) for s, p in zip(a.shape, pw))] = a
    return r


def interp(x, xp, fp, **k):
    if k:
        raise EngineError("options of np.interp")
    if isinstance(x, (np.ndarray, list, tuple)):
        return _wrap(_map(lambda e: interp(e, xp, fp), x))
    x = lift(x)
    xp, fp = [[lift(e) for e in np.asarray(_toarr(v)).reshape(-1)] for v in (xp, fp)]
    if bool(x <= xp[0]):
        return real(fp[0])
    for i in range(1, len(xp)):
        if bool(x <= xp[i]):
            return fp[i - 1] + sym.div((fp[i] - fp[i - 1]) * (x - xp[i - 1]), xp[i] - xp[i - 1])
    return real(fp[-1])


def nround(a, decimals=0, **kw):
    if isinstance(a, (np.ndarray, list, tuple)):
        return arr(a).round(decimals)
    return lift(a).__round__(decimals)


def nmin(a, axis=None, **kw):
    return _reduce(_toarr(a), axis, kw, lambda x, d: _red(x, d, smin), smin)


def nmax(a, axis=None, **kw):
    return _reduce(_toarr(a), axis, kw, lambda x, d: _red(x, d, smax), smax)


def nany(a, axis=None, **kw):
    return _reduce(_toarr(a), axis, kw, lambda x, d: _wrap(np.any(_bools(np.asarray(x)), axis=d)))


def nall(a, axis=None, **kw):
    return _reduce(_toarr(a), axis, kw, lambda x, d: _wrap(np.all(_bools(np.asarray(x)), axis=d)))


def ncopy(a, **kw):
    return arr(a)


def fill_diagonal(a, v):
    for i in range(min(a.shape)):
        a[i, i] = v


def prod(a, axis=None, **kw):
    if kw:
        raise EngineError("options of np.prod")
    if axis is None:
        t = lift(1)
        for e in np.asarray(_toarr(a)).reshape(-1):
            t = t * e
        return t
    return _wrap(np.multiply.reduce(_pre(a), axis=axis))


def cumsum(a, axis=None, **kw):
    return arr(a).cumsum(axis, **kw)


def mean(a, axis=None, **kw):
    return arr(a).mean(axis, **kw)


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return mean(a, axis)
    w = arr(weights)
    a = arr(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(np.asarray(a), axis, -1)
        return _tdiv_arr(dot(_wrap(m), w), w.sum())
    return sym.div((a * w).sum(), w.sum())


def _tdiv_arr(a, b):
    return _wrap(_map(_tdiv, a, b))


def var(a, axis=None, ddof=0, **kw):
    if kw:
        raise EngineError("options of np.var")
    a = arr(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(np.asarray(a), axis, -1)
        out = np.empty(m.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = var(m[i], ddof=ddof)
        return _wrap(out)
    f = [lift(x) for x in np.asarray(a).reshape(-1)]
    n = len(f)
    if n == ddof or not n:
        return NAN
    mu = sym.div(_red1(f, lambda x, y: x + y), lift(n))
    return sym.div(_red1([(x - mu) * (x - mu) for x in f], lambda x, y: x + y), lift(n - ddof))


def std(a, axis=None, ddof=0, **kw):
    r = var(a, axis, ddof, **kw)
    return _wrap(_map(lambda e: sym.sqrt(lift(e)), r)) if isinstance(r, np.ndarray) else sym.sqrt(r)


def median(a, axis=None, **kw):
    if axis is not None and np.ndim(a) > 1 or kw:
        raise EngineError("np.median of an axis")
    f = list(np.asarray(sort(arr(_toarr(a)).reshape(-1))))
    n = len(f)
    return real(f[n // 2]) if n % 2 else sym.div(f[n // 2 - 1] + f[n // 2], lift(2))


def nan_to_num(a, copy=True, nan=0.0, **kw):
    f = lambda e: lift(nan) if e is NAN else lift(e)  # noqa: E731
    if not isinstance(a, (np.ndarray, list, tuple)):
        return f(a)
    r = _wrap(_map(f, a))
    if not copy and isinstance(a, np.ndarray):
        a[...] = r
        return a
    return r


def select(conds, choices, default=0):
    if not conds:
        raise ValueError("select with an empty condition list is not possible")
    shp = np.broadcast_shapes(*[np.shape(x) for x in list(conds) + list(choices) + [default]])
    r = np.broadcast_to(np.asarray(_pre(_toarr(default)) if isinstance(default, (list, tuple, np.ndarray)) else np.array(lift(default), dtype=object)), shp)
    for c, v in reversed(list(zip(conds, choices))):
        v = _toarr(v) if isinstance(v, (list, tuple)) else v
        r = _map(lambda cc, x, y: ite(cc, lift(x), lift(y)) if isinstance(cc, SymB) else (x if bool(cc) else y), np.broadcast_to(np.asarray(_toarr(c)), shp), v, r)
    return _wrap(r)


def unravel_index(i, shape, **kw):
    if isinstance(i, (np.ndarray, list, tuple)):
        ix = np.array([int(x) for x in np.asarray(_toarr(i)).reshape(-1)], dtype=int).reshape(np.shape(i))
        return tuple(arr(x, "i8") for x in np.unravel_index(ix, _shape(shape)))
    out, i = [], lift(i)
    for n in reversed(_shape(shape)):
        out.append(i % n)
        i = i // n
    return tuple(reversed(out))


def take_along_axis(a, ix, axis):
    jx = np.asarray(_toarr(ix))
    jx = np.array([int(x.__index__()) for x in jx.reshape(-1)], dtype=int).reshape(jx.shape)
    return _wrap(np.take_along_axis(np.asarray(arr(a)), jx, axis))


def repeat(a, n, axis=None):
    if isinstance(n, (np.ndarray, list, tuple)):
        n = [int(x.__index__()) for x in np.asarray(_toarr(n)).reshape(-1)]
    else:
        n = int(n.__index__())
    r = np.repeat(np.asarray(_pre(a)) if isinstance(a, (np.ndarray, list, tuple)) else np.array([lift(a)], dtype=object), n, axis=axis)
    return arr(r, a.knd) if isinstance(a, SA) else arr(r)


def savetxt(f, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", **kw):
    from . import world

    if not hasattr(f, "write"):
        raise EngineError("np.savetxt to a file name")
    X = arr(X) if not isinstance(X, SA) else X
    X = X.reshape(-1, 1) if X.ndim == 1 else X
    if header:
        f.write(comments + header + newline)
    for r in np.asarray(X):
        fm = delimiter.join([fmt] * len(r)) if isinstance(fmt, str) and fmt.count("%") == 1 else fmt if isinstance(fmt, str) else delimiter.join(fmt)
        f.write(world.fmt(fm, tuple(r)) + newline)
    if footer:
        f.write(comments + footer + newline)


def copyto(dst, src, casting="same_kind", where=True):
    src = _toarr(src) if isinstance(src, (list, tuple)) else src
    if where is True:
        dst[...] = src
        return
    w = np.broadcast_to(np.asarray(_bools(_toarr(where))), dst.shape)
    v = np.broadcast_to(np.asarray(src), dst.shape) if isinstance(src, np.ndarray) else None
    for p in np.ndindex(dst.shape):
        if bool(w[p]):
            dst[p] = v[p] if v is not None else src


def multi_dot(arrays, **kw):
    import functools

    return functools.reduce(dot, arrays)


def matrix_power(a, n):
    r = eye(a.shape[0])
    if int(n) < 0:
        raise EngineError("negative matrix power")
    for _ in range(int(n)):
        r = matmul(r, a)
    return r


def isscalar(x):
    return isinstance(x, (Num, SymB)) or np.isscalar(x)


def searchsorted(a, v, side="left", **kw):
    if isinstance(v, (np.ndarray, list, tuple)):
        v = np.asarray(_toarr(v))
        if v.ndim:
            return arr(_map(lambda e: searchsorted(a, e, side), v), "i8")
        v = v[()]
    n = 0
    for e in np.asarray(_toarr(a)).reshape(-1):
        if bool(e < v) if side == "left" else bool(e <= v):
            n += 1
        else:
            break
    return Num(n, None, "i")


def digitize(v, bins, right=False):
    return searchsorted(bins, v, "left" if right else "right")


def lexsort(keys, axis=-1):
    import functools

    ks = [list(np.asarray(_toarr(k)).reshape(-1)) for k in keys][::-1]

    def cmp(i, j):
        for k in ks:
            if bool(k[i] < k[j]):
                return -1
            if bool(k[i] > k[j]):
                return 1
        return 0

    return arr(sorted(range(len(ks[0])), key=functools.cmp_to_key(cmp)), "i8")


def isin(a, vals, **kw):
    v = list(np.asarray(_toarr(list(vals) if not isinstance(vals, np.ndarray) else vals)).reshape(-1))
    return _wrap(_bools(_map(lambda e: any(bool(e == x) for x in v), a)))


class _Random:
    def __getattr__(self, n):
        return getattr(np.random, n)


def _iinfo(t):
    return np.iinfo(getattr(t, "np_type", None) or INTS[kind_of(t)])


def _finfo(t=float):
    return np.finfo(np.float32 if getattr(t, "__name__", "") == "float32" else np.float64)


OVERRIDE = dict(
    zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0),
    full_like=full_like, identity=identity, eye=eye, array=array, asarray=asarray, asanyarray=asarray,
    ascontiguousarray=asarray, arange=arange, where=where, nonzero=nonzero, flatnonzero=flatnonzero, argwhere=argwhere,
    count_nonzero=count_nonzero, sum=nsum, bincount=bincount, linalg=_Linalg, isclose=isclose, allclose=allclose,
    array_equal=array_equal, unique=unique, sort=sort, argsort=argsort, diff=diff, pad=pad, interp=interp,
    round=nround, around=nround, round_=nround, min=nmin, amin=nmin, max=nmax, amax=nmax, any=nany, all=nall,
    copy=ncopy, clip=clip, dot=dot, matmul=matmul, inner=dot, vdot=dot, fill_diagonal=fill_diagonal, prod=prod,
    cumsum=cumsum, mean=mean, average=average, nan_to_num=nan_to_num, isscalar=isscalar, searchsorted=searchsorted,
    var=var, std=std, median=median, select=select, copyto=copyto, iinfo=_iinfo, finfo=_finfo, nanmean=mean,
    savetxt=savetxt, array2string=lambda a, *k, **kw: str(arr(a)), array_str=lambda a, *k, **kw: str(arr(a)), array_repr=lambda a, *k, **kw: repr(arr(a)),
    unravel_index=unravel_index, take_along_axis=take_along_axis, repeat=repeat,
    digitize=digitize, lexsort=lexsort, isin=isin, random=_Random(),
    argmax=lambda a, axis=None, **k: argext(a, axis, lambda x, y: x > y),
    argmin=lambda a, axis=None, **k: argext(a, axis, lambda x, y: x < y),
    float64=_mkdt("float64", "f", np.float64), float32=_mkdt("float32", "f", np.float32),
    float_=_mkdt("float64", "f", np.float64),
    int32=_mkdt("int32", "i4", np.int32), int64=_mkdt("int64", "i8", np.int64), int_=_mkdt("int64", "i8", np.int64),
    intp=_mkdt("int64", "i8", np.int64), intc=_mkdt("int32", "i4", np.int32),
    **{t.__name__: _mkdt(t.__name__, k, t) for k, t in NARROW.items() if k != "i4"}, short=_mkdt("int16", "i2", np.int16), byte=_mkdt("int8", "i1", np.int8),
    ubyte=_mkdt("uint8", "u1", np.uint8), ushort=_mkdt("uint16", "u2", np.uint16), uintc=_mkdt("uint32", "u4", np.uint32), uint=_mkdt("uint64", "u8", np.uint64),
    integer=_mkdt("integer", "i8", np.integer), floating=_mkdt("floating", "f", np.floating),
)  # fmt: skip


class NpShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        if n in OVERRIDE:
            return OVERRIDE[n]
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            w = _AddUf(v)
        elif isinstance(v, type) or isinstance(v, types.ModuleType) or not callable(v):
            if isinstance(v, float):
                v = lift(Fraction(v)) if v == v and abs(v) != float("inf") else v
            return v
        else:

            def w(*a, **k):
                a = [_pre(x) if isinstance(x, np.ndarray) else _norm(x) for x in a]
                k = {x: (_pre(y) if isinstance(y, np.ndarray) else _norm(y)) for x, y in k.items()}
                return _wrap(v(*a, **k))

        self.__dict__[n] = w
        return w


def _norm(x):
    if isinstance(x, Num) and x.concrete and x.k == "i":
        return int(x.c)
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(e, np.ndarray) for e in x):
            return type(x)(_pre(e) for e in x)
        if x and any(isinstance(e, (list, tuple, Num)) for e in x):
            return type(x)(_norm(e) for e in x)
    return x


NP = NpShim()
