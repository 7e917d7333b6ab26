"""Loads /repo modules for symbolic execution and models their environment.

The source of each module is read from the working tree on every run; the only rewriting is
float literals -> exact rationals, `/` -> exact division, `%` on strings -> formatting that
keeps symbolic arguments, and a call counter at the head of every function.
"""
import ast
import builtins
import io
import math
import os
import re
import sys
import types
from decimal import Decimal
from fractions import Fraction

from . import npshim, sym
from .sym import NAN, EngineError, Num, SymB, ite, lift, smax, smin, trunc

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "reliabilityassessment"

# --------------------------------------------------------------------------- formatting
TOK = re.compile("⟦(\\d+)⟧")
_TOKENS = []


def reset_tokens():
    del _TOKENS[:]


def token(n, spec=""):
    if isinstance(n, Num) and n.concrete and n is not NAN:
        try:
            if n.k == "i":
                return format(int(n.c), spec)
            return format(float(n.c), spec)
        except ValueError:
            return format(float(n.c), spec)
    _TOKENS.append((n, spec))
    return "⟦%d⟧" % (len(_TOKENS) - 1)


_FMT = re.compile(r"%(\((?P<key>\w+)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(\.(?P<prec>\*|\d+))?(?P<type>[diouxXeEfFgGcrsa%])")


def fmt(s, args):
    if not isinstance(s, str):
        return s % args
    if isinstance(args, npshim.SA):
        args = (args,) if args.ndim == 0 else args
    if not isinstance(args, tuple) and not isinstance(args, dict):
        args = (args,)
    if isinstance(args, dict):
        def rep(m):
            return _one(m, args[m.group("key")])
        return _FMT.sub(lambda m: "%" if m.group("type") == "%" else rep(m), s)
    it = iter(args)
    used = [0]

    def nxt():
        used[0] += 1
        try:
            return next(it)
        except StopIteration:
            raise TypeError("not enough arguments for format string")

    def rep(m):
        if m.group("type") == "%":
            return "%"
        if m.group("width") == "*" or m.group("prec") == "*":
            spec = m.group("flags") or ""
            spec += str(int(nxt())) if m.group("width") == "*" else m.group("width") or ""
            pr = m.group("prec") and (str(int(nxt())) if m.group("prec") == "*" else m.group("prec"))
            m = _FMT.match("%" + spec + ("." + pr if pr else "") + m.group("type"))
        return _one(m, nxt())

    out = _FMT.sub(rep, s)
    if used[0] != len(args):
        raise TypeError("not all arguments converted during string formatting")
    return out


def _one(m, v):
    t = m.group("type")
    if isinstance(v, npshim.np.ndarray) and v.size == 1:
        v = v.reshape(-1)[0]
    if isinstance(v, SymB):
        v = v.num()
    if t in "sra":
        if isinstance(v, Num):
            return token(v, "")
        return "%s" % (v,) if t == "s" else "%r" % (v,)
    if isinstance(v, Fraction):
        v = lift(v)
    if isinstance(v, Num):
        if v is NAN:
            if t in "di":
                raise ValueError("cannot convert float NaN to integer")
            return "nan"
        if v.concrete:
            x = int(v.c) if t in "di" else float(v.c)
            return ("%" + (m.group("flags") or "") + (m.group("width") or "") + ("." + m.group("prec") if m.group("prec") else "") + t) % x
        if t in "di":
            v = trunc(v)
        return " " + token(v, t) + " "
    spec = "%" + (m.group("flags") or "") + (m.group("width") or "").replace("*", "") + ("." + m.group("prec") if m.group("prec") else "") + t
    return spec % v


def values(text):
    """All numbers of a text: literals and symbolic tokens, in order."""
    out = []
    for m in re.finditer("⟦(\\d+)⟧|[-+]?(?:\\d+\\.?\\d*|\\.\\d+)(?:[eE][-+]?\\d+)?|\\bnan\\b|\\binf\\b", text):
        if m.group(1) is not None:
            out.append(_TOKENS[int(m.group(1))][0])
        else:
            s = m.group(0)
            if s == "nan":
                out.append(NAN)
            elif re.fullmatch(r"[-+]?\d+", s):
                out.append(lift(int(s)))
            else:
                out.append(lift(Fraction(s)) if s != "inf" else NAN)
    return out


# --------------------------------------------------------------------------- builtins
class IntMeta(type):
    def __call__(cls, x=0, *a, **k):
        if isinstance(x, Num):
            return trunc(x)
        if isinstance(x, SymB):
            return x.num()
        if isinstance(x, npshim.np.ndarray) and x.size == 1:
            return trunc(lift(x.reshape(-1)[0]))
        if isinstance(x, str) and TOK.search(x):
            return trunc(values(x)[0])
        return int(x, *a, **k)

    def __instancecheck__(cls, x):
        if isinstance(x, Num):
            return x.k == "i"
        return isinstance(x, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SInt(int, metaclass=IntMeta):
    pass


class FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, str) and x.strip().lower().lstrip("+-") in ("inf", "infinity", "nan"):
            return float(x)
        if isinstance(x, str):
            if TOK.search(x):
                return sym.real(values(x)[0])
            return lift(Fraction(x.strip()))
        if isinstance(x, npshim.np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if isinstance(x, float) and (x != x or abs(x) == float("inf")):
            return x
        return sym.real(lift(x))

    def __instancecheck__(cls, x):
        if isinstance(x, Num):
            return x.k == "r"
        return isinstance(x, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SFloat(float, metaclass=FloatMeta):
    pass


npshim.set_builtin_types(SInt, SFloat, bool)


def stype(*a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Num):
            return SInt if x.k == "i" else SFloat
        if isinstance(x, SymB):
            return bool
        t = type(x)
        return SInt if t is int else SFloat if t is float else t
    return type(*a, **k)


def smax_b(*a, key=None, default=None):
    return _ext(max, smax, a, key, default)


def smin_b(*a, key=None, default=None):
    return _ext(min, smin, a, key, default)


def _ext(py, op, a, key, default):
    if len(a) == 1:
        a = list(a[0])
    if key is not None:
        return py(a, key=key)
    if not a:
        if default is not None:
            return default
        raise ValueError("max() arg is an empty sequence")
    if not any(isinstance(x, (Num, SymB)) for x in a):
        return py(a)
    t = a[0]
    for x in a[1:]:
        if sym._inf(x) or sym._inf(t):
            t = op(t, x)
            continue
        if lift(x) is NotImplemented or lift(t) is NotImplemented:
            return py(a)
        t = op(t, x)
    return t


def sround(x, n=None):
    if isinstance(x, Num):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


def ssum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def spow(a, b, m=None):
    if m is not None:
        return pow(a, b, m)
    return lift(a) ** lift(b) if not isinstance(a, npshim.np.ndarray) else a**b


def sdiv(a, b):
    if type(a) in (int, Num, Fraction, float, bool) and type(b) in (int, Num, Fraction, float, bool):
        a, b = lift(a), lift(b)
        if b is not NAN and b.concrete and b.c == 0 and a is not NAN:
            # the element type is unknown here: numpy would give nan/inf
            return sym.div(a, b)
        return sym.div(a, b)
    return a / b


class SMath(types.ModuleType):
    def __init__(self):
        super().__init__("math")

    @staticmethod
    def floor(x):
        return sym.floor(x) if isinstance(x, Num) else math.floor(x)

    @staticmethod
    def ceil(x):
        return -sym.floor(-x) if isinstance(x, Num) else math.ceil(x)

    @staticmethod
    def trunc(x):
        return sym.trunc(x) if isinstance(x, Num) else math.trunc(x)

    @staticmethod
    def sqrt(x):
        r = sym.sqrt(lift(x))
        if r is NAN:
            raise ValueError("math domain error")
        return r

    @staticmethod
    def pow(a, b):
        return sym.real(lift(a) ** lift(b))

    @staticmethod
    def fabs(x):
        return sym.real(abs(lift(x)))

    @staticmethod
    def fmod(a, b):
        q = sym.trunc(sym.div(lift(a), lift(b)))
        return lift(a) - lift(b) * q

    @staticmethod
    def copysign(a, b):
        a, b = sym.real(lift(a)), lift(b)
        return ite(b >= 0, abs(a), -abs(a))

    @staticmethod
    def hypot(*a):
        return sym.sqrt(ssum(lift(x) * lift(x) for x in a))

    @staticmethod
    def modf(x):
        x = sym.real(lift(x))
        t = sym.real(sym.trunc(x))
        return x - t, t

    @staticmethod
    def isinf(x):
        return False if isinstance(x, Num) else math.isinf(x)

    @staticmethod
    def isfinite(x):
        return x is not NAN if isinstance(x, Num) else math.isfinite(x)

    @staticmethod
    def log(x, *b):
        return sym.uf("log", lift(x))

    @staticmethod
    def exp(x):
        return sym.uf("exp", lift(x))

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = lift(a), lift(b)
        return abs(a - b) <= smax(lift(rel_tol) * smax(abs(a), abs(b)), lift(abs_tol))

    @staticmethod
    def isnan(x):
        return x is NAN

    @staticmethod
    def fsum(it):
        return ssum(it)

    @staticmethod
    def prod(it):
        t = 1
        for x in it:
            t = t * x
        return t

    def __getattr__(self, n):
        return getattr(math, n)


class FakeFile(io.StringIO):
    def __init__(self, world, name, mode):
        self.w, self.nm, self.md = world, name, mode
        init = world.files.get(name, "") if ("a" in mode or "r" in mode) else ""
        if "r" in mode and name not in world.files:
            raise FileNotFoundError(2, "No such file or directory", name)
        super().__init__()
        self.write(init)
        if "r" in mode:
            self.seek(0)
        if "w" in mode:
            world.files[name] = ""

    def close(self):
        if not self.closed and "r" not in self.md:
            self.w.files[self.nm] = self.getvalue()
        super().close()

    def flush(self):
        if not self.closed and "r" not in self.md:
            self.w.files[self.nm] = self.getvalue()


# --------------------------------------------------------------------------- loader
class _Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            f = Fraction(Decimal(repr(n.value)))
            return ast.copy_location(
                ast.Call(ast.Name("__lit__", ast.Load()), [ast.Constant(f.numerator), ast.Constant(f.denominator)], []), n
            )
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__div__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name("__mod__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name("pow", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            # keep in-place semantics for arrays, exact division for scalars
            return ast.copy_location(
                ast.Assign(
                    [ast.Name(n.target.id, ast.Store())],
                    ast.Call(ast.Name("__idiv__", ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], []),
                ),
                n,
            )
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        name = self.mod + "." + ".".join(self.stack)
        n.args = self.visit(n.args)
        doc = [n.body[0]] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        body = [self.visit(s) for s in n.body[len(doc):]]
        flat = []
        for b in body:
            flat.extend(b if isinstance(b, list) else [b])
        n.body = [ast.Expr(ast.Call(ast.Name("__enter__", ast.Load()), [ast.Constant(name)], []))] + (flat or [ast.Pass()])
        self.stack.pop()
        return n

    def visit_JoinedStr(self, n):
        for i, v in enumerate(n.values):
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n


def _mod(a, b):
    if isinstance(a, str):
        return fmt(a, b)
    return a % b


def _idiv(a, b):
    if isinstance(a, npshim.np.ndarray):
        a[...] = a / b
        return a
    return sdiv(a, b)


def _clone(x, memo):
    """A deep copy that keeps shared objects shared, as pickling and unpickling does."""
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, (Num, str, bytes, int, float, bool, type(None))):
        return x
    if isinstance(x, npshim.np.ndarray):
        r = x.copy()
        if r.dtype == object:
            for i, e in enumerate(r.reshape(-1)):
                if not isinstance(e, Num):
                    raise EngineError("pickled array of %s" % type(e).__name__)
    elif isinstance(x, dict):
        r = memo.setdefault(id(x), (x, {}))[1]
        for k, v in x.items():
            r[_clone(k, memo)] = _clone(v, memo)
    elif isinstance(x, list):
        r = memo.setdefault(id(x), (x, []))[1]
        r.extend(_clone(v, memo) for v in x)
    elif isinstance(x, tuple):
        r = tuple(_clone(v, memo) for v in x)
    else:
        raise EngineError("pickled %s" % type(x).__name__)
    memo[id(x)] = (x, r)
    return r


class Blob:
    """Pickled content."""

    def __init__(self, obj):
        self.obj = _clone(obj, {})


class BinFile:
    def __init__(self, world, name, mode):
        self.w, self.name, self.mode = world, name, mode
        if mode[0] == "r" and not isinstance(world.files.get(name), list):
            raise FileNotFoundError(2, "No such file or directory", name)
        if mode[0] == "x" and name in world.files:
            raise FileExistsError(17, "File exists", name)
        if mode[0] in "wx" or name not in world.files:
            world.files[name] = []
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.mode = ""

    def flush(self):
        pass

    def write(self, blob):
        if not isinstance(blob, Blob):
            raise EngineError("binary content")
        if not self.mode or self.mode[0] == "r" and "+" not in self.mode:
            raise ValueError("file is not open for writing")
        self.w.files[self.name].append(blob)

    def take(self):
        if not self.mode or self.mode[0] != "r":
            raise ValueError("file is not open for reading")
        c = self.w.files[self.name]
        if self.pos >= len(c):
            raise EOFError("Ran out of input")
        self.pos += 1
        return c[self.pos - 1]

    read = take


class SPickle(types.ModuleType):
    """pickle: what was written comes back, as copies."""

    HIGHEST_PROTOCOL, DEFAULT_PROTOCOL = 5, 4

    def __init__(self):
        super().__init__("pickle")

    @staticmethod
    def dumps(obj, *a, **k):
        return Blob(obj)

    @staticmethod
    def loads(blob, **k):
        return _clone(blob.obj, {})

    @staticmethod
    def dump(obj, fp, *a, **k):
        fp.write(Blob(obj))

    @staticmethod
    def load(fp, **k):
        return _clone(fp.take().obj, {})

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise EngineError("pickle.%s is not modelled" % n)


class _Root:
    """A package reached by a plain import."""

    def __init__(self, world, name):
        self.__dict__.update(_w=world, _n=name)

    def __getattr__(self, k):
        n = self._n + "." + k
        return self._w.load(n) if os.path.isfile(World._path(n)) else _Root(self._w, n)


class World:
    """One symbolic copy of the package: modules, files, captured output."""

    def __init__(self):
        self.mods = {}
        self.code = {}
        self.files = {}
        self.entered = {}
        self.stubs = {}
        self.np = npshim.NP
        self.math = SMath()
        self.pickle = SPickle()
        self.printed = []

    def reset(self):
        """Modules are loaded anew, so that no path sees what another left in them."""
        self.mods = {}
        self.files = {}
        self.printed = []
        reset_tokens()

    def open(self, name, mode="r", *a, **k):
        name = os.path.normpath(str(name))
        if "b" in mode:
            return self.binopen(name, mode)
        return FakeFile(self, str(name), mode)

    def pathlib(self):
        """pathlib with a Path whose files are the modelled ones."""
        import pathlib

        W = self

        class Path(pathlib.PurePosixPath):
            def open(self, mode="r", *a, **k):
                return W.open(self, mode)

            def write_text(self, t, *a, **k):
                with W.open(self, "w") as f:
                    return f.write(t)

            def read_text(self, *a, **k):
                with W.open(self) as f:
                    return f.read()

            def exists(self):
                return os.path.normpath(str(self)) in W.files

            is_file = exists

            def unlink(self, missing_ok=False):
                if not self.exists() and not missing_ok:
                    raise FileNotFoundError(2, "No such file or directory", str(self))
                W.files.pop(os.path.normpath(str(self)), None)

            def touch(self, *a, **k):
                W.files.setdefault(os.path.normpath(str(self)), "")

            def mkdir(self, *a, **k):
                pass

            def resolve(self, *a):
                return self

            absolute = resolve

            @classmethod
            def cwd(cls):
                return cls(".")

        m = types.ModuleType("pathlib")
        m.__dict__.update({k: v for k, v in vars(pathlib).items() if not k.startswith("__")})
        m.Path = m.PosixPath = Path
        return m

    def binopen(self, name, mode):
        return BinFile(self, name, mode)

    def _print(self, *a, sep=" ", end="\n", file=None, flush=False):
        f = sys.stdout if file is None else file
        if hasattr(f, "write") and f not in (sys.__stdout__, sys.__stderr__, sys.stderr) and (file is not None or isinstance(f, io.StringIO)):
            f.write((" " if sep is None else sep).join(str(x) for x in a) + ("\n" if end is None else end))

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if name in self.stubs:
            return self.stubs[name]
        if name.split(".")[0] == "pandas":
            from . import frame

            return frame.Pandas(self)
        if name == "numpy.linalg" and fromlist:
            return self.np.linalg
        if name == "numpy" or name.startswith("numpy."):
            return self.np
        if name == "math":
            return self.math
        if name == "pathlib":
            return self.pathlib()
        if name == "pickle":
            return self.pickle
        if level:
            base = globals["__name__"].split(".")[:-level]
            name = ".".join(base + ([name] if name else []))
        if name.split(".")[0] == PKG:
            if not fromlist:
                return _Root(self, PKG)
            if not os.path.isfile(self._path(name)):
                class _P:
                    pass
                p = _P()
                for f in fromlist:
                    setattr(p, f, self.load(name + "." + f))
                return p
            return self.load(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    @staticmethod
    def _path(name):
        return os.path.join(REPO, *name.split(".")) + ".py"

    def load(self, name):
        if not name.startswith(PKG):
            name = PKG + "." + name
        if name in self.mods:
            return self.mods[name]
        path = self._path(name)
        if name not in self.code:
            with builtins.open(path) as f:
                src = f.read()
            tree = _Tr(name[len(PKG) + 1 :]).visit(ast.parse(src, path))
            ast.fix_missing_locations(tree)
            self.code[name] = compile(tree, path, "exec")
        m = types.ModuleType(name)
        m.__file__ = path
        b = dict(vars(builtins))
        b.update(
            open=self.open, print=self._print, int=SInt, float=SFloat, max=smax_b, min=smin_b, round=sround, sum=ssum,
            pow=spow, type=stype, __import__=self._import,
        )  # fmt: skip
        g = m.__dict__
        g["__builtins__"] = b
        g["__lit__"] = lambda p, q: Num(Fraction(p, q), None, "r")
        g["__div__"] = sdiv
        g["__mod__"] = _mod
        g["__idiv__"] = _idiv
        g["__enter__"] = self._enter
        self.mods[name] = m
        exec(self.code[name], g)
        return m

    def _enter(self, name):
        self.entered[name] = self.entered.get(name, 0) + 1
