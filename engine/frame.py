"""The part of pandas the input reader may use, over text files that may contain symbolic numbers."""
import collections
import csv
import io
import operator
import types

from . import npshim, world
from .npshim import np
from .sym import NAN, EngineError, Num, SymB, lift

_text = str


def _cell(s):
    t = s.strip()
    m = world.TOK.fullmatch(t)
    if m:
        return world._TOKENS[int(m.group(1))][0]
    try:
        return int(t)
    except ValueError:
        pass
    if world.TOK.search(t):
        return s
    try:
        return world.SFloat(t)
    except ValueError:
        return s


class PInt(int):
    """A whole number of a table: numpy's methods on top of int."""

    def item(self):
        return int(self)

    def astype(self, t, **kw):
        return lift(int(self)).astype(t)

    dtype = property(lambda self: npshim.np.int64)


def _val(x):
    if type(x) in (int, PInt):
        return PInt(x)
    return x if isinstance(x, (Num, str)) or x is None else lift(x)


def _isint(x):
    return isinstance(x, int) or (isinstance(x, Num) and x.k == "i")


def _array(v):
    """numpy's array for the values of one column."""
    v = list(v)
    if any(isinstance(x, str) for x in v):
        a = np.empty(len(v), dtype=object)
        a[:] = v
        return a
    if not v:
        return np.array([], dtype=object)
    if any(isinstance(x, SymB) or isinstance(x, bool) for x in v):
        return npshim.arr(v, "b")
    return npshim.arr(v, "i8" if all(_isint(x) for x in v) else "f")


def _vals(x):
    """values of a column given in any form"""
    if isinstance(x, Series):
        return list(x.v)
    if isinstance(x, np.ndarray):
        return [x[i] for i in range(len(x))]
    return list(x)


def _at(k, labels, n):
    """positions picked by a label (or labels) or, without labels, by position; single: whether one is picked"""
    if isinstance(k, slice):
        if labels is None or k == slice(None):
            return list(range(n))[k], False
        if k.step is not None:
            raise EngineError("step in a slice of labels")
        i = 0 if k.start is None else labels.index(_key(k.start))
        j = n - 1 if k.stop is None or (isinstance(_key(k.stop), int) and _key(k.stop) >= n and labels == list(range(n))) else labels.index(_key(k.stop))
        return list(range(i, j + 1)), False
    if isinstance(k, (Series, np.ndarray, list, tuple, range)):
        q = _vals(k)
        if q and all(isinstance(x, (bool, SymB, np.bool_)) for x in q):
            if len(q) != n:
                raise IndexError("Boolean index has wrong length")
            return [i for i, x in enumerate(q) if bool(x)], False
        return [_at(x, labels, n)[0] for x in q], False
    k = _key(k)
    if labels is None:
        i = range(n)[k]
    else:
        if k not in labels:
            raise KeyError(k)
        i = labels.index(k)
    return i, True


def _key(k):
    return k if isinstance(k, str) else int(k.__index__())


class _Loc:
    """loc (by label) and iloc (by position), of a column or of a table"""

    def __init__(self, d, by_label):
        self.d, self.by_label = d, by_label

    def _rows(self, k):
        return _at(k, list(self.d.index) if self.by_label else None, len(self.d))

    def __getitem__(self, k):
        d = self.d
        if isinstance(d, Series):
            r, one = self._rows(k)
            return _val(d.v[r]) if one else Series([d.v[i] for i in r], d.name, [d.index[i] for i in r])
        r, c = k if isinstance(k, tuple) else (k, slice(None))
        r, one = self._rows(r)
        c, onec = _at(c, d.cols if self.by_label else None, len(d.cols))
        if onec:
            return self_col(d, c)[r] if one else Series([d.data[d.cols[c]][i] for i in r], d.cols[c], [d.index[i] for i in r])
        cols = [d.cols[j] for j in c]
        if one:
            return Row([d.data[x][r] for x in cols], d.index[r], cols)
        return DataFrame(cols, {x: [d.data[x][i] for i in r] for x in cols}, [d.index[i] for i in r])

    def __setitem__(self, k, x):
        raise EngineError("assignment into a pandas selection is not modelled")


def self_col(d, c):
    return [_val(x) for x in d.data[d.cols[c]]]


class Series:
    def __init__(self, data=None, name=None, index=None, dtype=None):
        if isinstance(data, dict):
            index, data = list(data), data.values()
        v = _vals(data if data is not None else [])
        if dtype is not None:
            v = _vals(_array(v).astype(dtype))
        self.v, self.name = v, name
        self.index = list(range(len(v))) if index is None else list(index)

    def _new(self, v):
        return type(self)(v, self.name, self.index)

    def to_numpy(self, dtype=None, copy=False):
        r = _array(self.v)
        return r if dtype is None else r.astype(dtype)

    @property
    def values(self):
        return self.to_numpy()

    array = values

    @property
    def dtype(self):
        return _array(self.v).dtype

    def item(self):
        if len(self.v) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self.v[0]

    def squeeze(self):
        return _val(self.v[0]) if len(self.v) == 1 else self

    def astype(self, t):
        if t is str:
            return self._new([str(x) for x in self.v])
        return self._new(_vals(_array(self.v).astype(t)) if self.v else [])

    def tolist(self):
        return list(self.v)

    to_list = tolist

    def to_dict(self):
        return dict(zip(self.index, self.v))

    def items(self):
        return zip(self.index, self.v)

    def keys(self):
        return list(self.index)

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(self.v)

    def __contains__(self, k):
        return k in self.index

    def __getitem__(self, k):
        return _Loc(self, not isinstance(k, slice))[k]

    iloc = property(lambda self: _Loc(self, False))
    loc = property(lambda self: _Loc(self, True))
    iat, at = iloc, loc

    def get(self, k, default=None):
        return self[k] if k in self.index else default

    def map(self, f):
        if isinstance(f, Series):
            f = f.to_dict()
        if isinstance(f, dict):
            f = f.__getitem__
        return self._new([f(_val(x)) for x in self.v])

    apply = map

    def copy(self, deep=True):
        return self._new(self.v)

    def reset_index(self, drop=False):
        if not drop:
            raise EngineError("pandas Series.reset_index(drop=False)")
        return Series(self.v, self.name)

    def head(self, n=5):
        return self.iloc[:n]

    def fillna(self, x):
        return self._new([x if y is None or y is NAN else y for y in self.v])

    def isna(self):
        return self._new([y is None or y is NAN for y in self.v])

    isnull = isna

    def isin(self, xs):
        xs = _vals(xs)
        return self._new([any(bool(x == y) for y in xs) for x in self.v])

    def sum(self):
        return _array(self.v).sum() if self.v else 0

    def max(self):
        return _array(self.v).max()

    def min(self):
        return _array(self.v).min()

    def any(self):
        return bool(_array(self.v).any())

    def all(self):
        return bool(_array(self.v).all())

    def cumsum(self):
        return self._new(_vals(_array(self.v).cumsum()))

    def abs(self):
        return self._new([abs(x) for x in self.v])

    def unique(self):
        out = []
        for x in self.v:
            if not any(bool(x == y) for y in out):
                out.append(x)
        return _array(out)

    @property
    def size(self):
        return len(self.v)

    @property
    def shape(self):
        return (len(self.v),)

    @property
    def empty(self):
        return not self.v

    @property
    def str(self):
        return _Str(self)

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.to_numpy())

    def _op(self, o, f):
        if isinstance(o, Series):
            if o.index != self.index:
                raise EngineError("pandas operation on columns with different rows")
            o = o.v
        elif isinstance(o, (np.ndarray, list, tuple)):
            o = _vals(o)
            if len(o) != len(self.v):
                raise ValueError("Lengths must match")
        else:
            o = [o] * len(self.v)
        num = lambda x: x if isinstance(x, (_text, SymB, bool, type(None))) else lift(x)  # noqa: E731
        return Series([f(num(x), num(y)) for x, y in zip(self.v, o)], self.name, self.index)

    def __neg__(self):
        return self._new([-lift(x) for x in self.v])

    def __invert__(self):
        return self._new([~x if isinstance(x, SymB) else not x for x in self.v])

    def __getattr__(self, n):
        if n in ("__array_interface__", "__array_struct__", "__array_priority__") or n.startswith("__"):
            raise AttributeError(n)
        raise EngineError("pandas Series.%s is not modelled" % n)

    __array_ufunc__ = None
    __hash__ = None


for _n in "add sub mul truediv floordiv mod pow and or".split():
    _f = getattr(operator, "__%s__" % _n)
    setattr(Series, "__%s__" % _n, lambda s, o, f=_f: s._op(o, f))
    setattr(Series, "__r%s__" % _n, lambda s, o, f=_f: s._op(o, lambda x, y: f(y, x)))
for _n in "eq ne lt le gt ge".split():
    _f = getattr(operator, _n)
    setattr(Series, "__%s__" % _n, lambda s, o, f=_f: s._op(o, f))
    setattr(Series, _n, lambda s, o, f=_f: s._op(o, f))


class _Str:
    """Text methods of a column."""

    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        return self.s._new([x[k] for x in self.s.v])

    def split(self, pat=None, n=-1, expand=False):
        v = [x.split(pat, n) for x in self.s.v]
        if expand:
            m = max(map(len, v), default=0)
            return DataFrame(list(range(m)), {j: [x[j] if j < len(x) else None for x in v] for j in range(m)}, self.s.index)
        return self.s._new(v)

    def __getattr__(self, n):
        if n not in "strip lstrip rstrip upper lower replace startswith endswith zfill".split():
            raise EngineError("pandas Series.str.%s is not modelled" % n)
        return lambda *a: self.s._new([getattr(x, n)(*a) for x in self.s.v])


class Row(Series):
    def __init__(self, vals, name, cols):
        super().__init__(vals, name, cols)

    def _new(self, v):
        return Row(v, self.name, self.index)

    def __getitem__(self, k):
        return super().__getitem__(k) if not isinstance(k, int) or k in self.index else self.iloc[k]

    def __getattr__(self, n):
        if not n.startswith("__") and n in self.__dict__.get("index", ()):
            return self[n]
        return super().__getattr__(n)


class DataFrame:
    def __init__(self, cols, data=None, index=None):
        if data is None and isinstance(cols, dict):
            cols, data = list(cols), {k: _vals(v) for k, v in cols.items()}
        self.cols, self.data = list(cols), data
        n = len(data[self.cols[0]]) if self.cols else 0
        self.index = list(range(n)) if index is None else list(index)

    @property
    def columns(self):
        return Columns(self.cols)

    def keys(self):
        return list(self.cols)

    def items(self):
        return ((c, self[c]) for c in self.cols)

    def __len__(self):
        return len(self.index)

    @property
    def shape(self):
        return (len(self), len(self.cols))

    @property
    def size(self):
        return len(self) * len(self.cols)

    @property
    def empty(self):
        return not len(self)

    def __getitem__(self, k):
        if isinstance(k, (list, Columns)) and all(isinstance(x, str) for x in k):
            for x in k:
                self.data[x]
            return DataFrame(k, {c: self.data[c] for c in k}, self.index)
        if isinstance(k, slice):
            return self.iloc[k]
        if isinstance(k, (Series, np.ndarray, list)):
            return self.loc[k]
        return Series(self.data[k], k, self.index)

    def __setitem__(self, k, x):
        if not isinstance(x, (Series, np.ndarray, list)):
            x = [x] * len(self)
        if len(x) != len(self):
            raise ValueError("Length of values does not match length of index")
        if k not in self.cols:
            self.cols = self.cols + [k]
        self.data = dict(self.data, **{k: _vals(x)}) if isinstance(k, str) else {**self.data, k: _vals(x)}

    def __contains__(self, k):
        return k in self.cols

    def __iter__(self):
        return iter(self.cols)

    iloc = property(lambda self: _Loc(self, False))
    loc = property(lambda self: _Loc(self, True))
    iat, at = iloc, loc

    def copy(self, deep=True):
        return DataFrame(self.cols, {c: list(self.data[c]) for c in self.cols}, self.index)

    def head(self, n=5):
        return self.iloc[:n]

    def get(self, k, default=None):
        return self[k] if k in self.cols else default

    def pop(self, k):
        s = self[k]
        self.cols = [c for c in self.cols if c != k]
        self.data = {c: self.data[c] for c in self.cols}
        return s

    def drop(self, labels=None, axis=0, columns=None):
        gone = columns if columns is not None else labels
        if columns is None and axis not in (1, "columns"):
            raise EngineError("pandas DataFrame.drop of rows")
        gone = [gone] if isinstance(gone, str) else list(gone)
        cols = [c for c in self.cols if c not in gone]
        return DataFrame(cols, {c: self.data[c] for c in cols}, self.index)

    def rename(self, columns):
        f = columns.get if isinstance(columns, dict) else lambda c, _: columns(c)
        cols = [f(c, c) for c in self.cols]
        return DataFrame(cols, {f(c, c): self.data[c] for c in self.cols}, self.index)

    def set_index(self, k):
        cols = [c for c in self.cols if c != k]
        return DataFrame(cols, {c: self.data[c] for c in cols}, [_key(x) for x in self.data[k]])

    def reset_index(self, drop=False):
        if not drop:
            raise EngineError("pandas DataFrame.reset_index(drop=False)")
        return DataFrame(self.cols, self.data)

    def fillna(self, x):
        return DataFrame(self.cols, {c: self[c].fillna(x).v for c in self.cols}, self.index)

    def astype(self, t):
        ts = t if isinstance(t, dict) else {c: t for c in self.cols}
        return DataFrame(self.cols, {c: self[c].astype(ts[c]).v if c in ts else self.data[c] for c in self.cols}, self.index)

    def iterrows(self):
        for i in range(len(self)):
            yield self.index[i], self.iloc[i]

    def itertuples(self, index=True, name="Pandas"):
        head = (["Index"] if index else []) + [str(c) for c in self.cols]
        T = collections.namedtuple(name, head, rename=True) if name else lambda *a: a
        for i in range(len(self)):
            yield T(*([self.index[i]] if index else []), *[_val(self.data[c][i]) for c in self.cols])

    def to_dict(self, orient="dict"):
        if orient == "list":
            return {c: list(self.data[c]) for c in self.cols}
        if orient == "series":
            return {c: self[c] for c in self.cols}
        if orient == "records":
            return [{c: self.data[c][i] for c in self.cols} for i in range(len(self))]
        if orient == "dict":
            return {c: dict(zip(self.index, self.data[c])) for c in self.cols}
        raise EngineError("pandas DataFrame.to_dict(%r) is not modelled" % orient)

    def squeeze(self, axis=None):
        if len(self.cols) == 1:
            s = self[self.cols[0]]
            return s.squeeze() if axis is None else s
        return self.iloc[0] if len(self) == 1 and axis is None else self

    def to_numpy(self, dtype=None, copy=False):
        rows = [[self.data[c][i] for c in self.cols] for i in range(len(self))]
        if any(isinstance(x, str) for r in rows for x in r):
            a = np.empty((len(rows), len(self.cols)), dtype=object)
            for i, r in enumerate(rows):
                for j, x in enumerate(r):
                    a[i, j] = x
            return a
        if not rows:
            return np.empty((0, len(self.cols)), dtype=object)
        r = npshim.arr(rows, "i8" if all(_isint(x) for r in rows for x in r) else "f")
        return r if dtype is None else r.astype(dtype)

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.to_numpy())

    @property
    def values(self):
        return self.to_numpy()

    @property
    def T(self):
        return DataFrame(list(self.index), {x: [self.data[c][i] for c in self.cols] for i, x in enumerate(self.index)}, self.cols)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in self.__dict__.get("cols", ()):
            return self[n]
        raise EngineError("pandas DataFrame.%s is not modelled" % n)

    __array_ufunc__ = None


class Columns(list):
    """Names of the columns."""

    def tolist(self):
        return list(self)

    to_list = tolist

    @property
    def size(self):
        return len(self)

    def get_loc(self, k):
        return self.index(k)


npshim.TABLES += (Series, DataFrame)


class Pandas(types.ModuleType):
    def __init__(self, w):
        super().__init__("pandas")
        self._w = w
        self.DataFrame, self.Series = DataFrame, Series

    def read_csv(self, path, header="infer", **kw):
        index_col, usecols, dtype = kw.pop("index_col", None), kw.pop("usecols", None), kw.pop("dtype", None)
        kw = {k: v for k, v in kw.items() if (k, v) not in (("sep", ","), ("delimiter", ","), ("encoding", "utf-8"), ("engine", "c"), ("engine", "python"))}
        if kw:
            raise EngineError("options of read_csv: %s" % ", ".join(kw))
        with self._w.open(str(path)) as f:
            text = f.read()
        rows = [r for r in csv.reader(io.StringIO(text)) if r]
        if header is None:
            cols = list(range(max((len(r) for r in rows), default=0)))
        else:
            cols, rows = rows[0], rows[1:]
        data = {}
        for j, c in enumerate(cols):
            v = [_cell(r[j]) for r in rows]
            if any(isinstance(x, str) for x in v):
                v = [r[j] for r in rows]
            elif any(isinstance(x, Num) and x.k != "i" for x in v):
                v = [world.SFloat(x) if not isinstance(x, Num) else x for x in v]
            data[c] = v
        d = DataFrame(cols, data)
        if usecols is not None:
            d = d[[c for c in cols if (usecols(c) if callable(usecols) else c in usecols)]]
        if dtype is not None:
            d = d.astype(dtype)
        if index_col:
            d = d.set_index(index_col if isinstance(index_col, _text) else cols[index_col])
        elif index_col is not None and index_col is not False:
            d = d.set_index(cols[index_col])
        return d

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise EngineError("pandas.%s is not modelled" % n)
