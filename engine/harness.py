"""One harness, two modes: symbolic (decide by solver) and concrete (replay on the real code)."""
import contextlib
import copy
import functools
import importlib
import inspect
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import npshim, rat, sym, world
from .sym import NAN, BudgetExceeded, Ctx, EngineError, Num, PathAbort, PathTimeout, SymB, ite, lift, smax, smin, tob


class CheckFailed(Exception):
    pass


class Base:
    """Shared harness vocabulary."""

    def opt(self, mod, name):
        """An alternative implementation kept next to the used one; None when it is gone."""
        return getattr(self.load(mod), name, None)

    def all_(self, *xs):
        r = True
        for x in xs:
            r = self.and_(r, x)
        return r

    def any_(self, *xs):
        r = False
        for x in xs:
            r = self.or_(r, x)
        return r

    def sum_(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def dot(self, a, b):
        return self.sum_(x * y for x, y in zip(a, b))

    def bound(self, f, a, k):
        """Arguments of a call by parameter name."""
        return dict(inspect.signature(f).bind(*a, **k).arguments)

    def params(self, f):
        """Names of the parameters without a default."""
        return [n for n, p in inspect.signature(f).parameters.items() if p.default is p.empty]

    def replace(self, mod, stub, name=None):
        """Put a stand-in for a function of the package everywhere it was imported; returns the original."""
        f = self.fn(mod, name)
        f = getattr(f, "__stub_of__", f)
        stub.__stub_of__ = f
        for m in self.modules():
            for k, v in list(m.__dict__.items()):
                if v is f or (isinstance(v, types.FunctionType) and getattr(v, "__stub_of__", None) is f):
                    setattr(m, k, stub)
        self._stubs = True
        return f

    _stubs = False

    def unstub(self):
        """Undo every replace, also in modules that were imported meanwhile."""
        if self._stubs:
            for m in self.modules():
                for k, v in list(m.__dict__.items()):
                    f = getattr(v, "__stub_of__", None) if isinstance(v, types.FunctionType) else None
                    if f is not None:
                        setattr(m, k, f)
            self._stubs = False


# --------------------------------------------------------------------------- symbolic
class SymH(Base):
    symbolic = True

    def __init__(self, W, ctx, case):
        self.W, self.ctx, self.case = W, ctx, case
        self.pend = []
        self.obs = []
        self.np = W.np
        self.math = W.math
        self._undo = []

    # inputs
    def _new(self, name, sort, lo, hi):
        v = z3.Int(name) if sort == "i" else z3.Real(name)
        if name in self.ctx.inputs:
            raise EngineError("duplicate input " + name)
        self.ctx.inputs[name] = (sort, v)
        n = Num.atom(v)
        cs = []
        if lo is not None:
            cs.append(v >= sym._zconst(sym.frac(lo), sort))
        if hi is not None:
            cs.append(v <= sym._zconst(sym.frac(hi), sort))
        for c in cs:
            self.ctx.assume_expr(c)
        for x, op in ((lo, ">="), (hi, "<=")):
            if x is not None:
                sym.learn(sym._fact(n - lift(sym.frac(x)), op))
        return n

    def int(self, name, lo=None, hi=None):
        return self._new(name, "i", lo, hi)

    def real(self, name, lo=None, hi=None):
        return self._new(name, "r", lo, hi)

    def const(self, x):
        return x if isinstance(x, Num) else lift(sym.frac(x)) if not isinstance(x, int) else lift(x)

    def pick(self, name, lo, hi):
        """A symbolic int whose every value is explored as its own path."""
        return int(self.ctx.concretize(self.int(name, lo, hi)))

    def assume(self, cond):
        e = tob(cond)
        if z3.is_true(e):
            return
        if isinstance(cond, SymB) and cond.f is not None:
            sym.learn(cond.f)
        self.ctx.assume_expr(e)
        self.ctx.ensure_feasible()

    # values
    def arr(self, x, kind=None):
        k = {"f": "f", "i": "i8", "i4": "i4", "b": "b", None: None}[kind]
        return npshim.arr(x, k)

    def zeros(self, shape, kind="f"):
        return npshim.zeros(shape, float if kind == "f" else int)

    def lst(self, a):
        return list(np.asarray(a).reshape(-1)) if isinstance(a, np.ndarray) else list(a)

    def scalar(self, a):
        if isinstance(a, np.ndarray):
            a = np.asarray(a).reshape(-1)[0]
        n = lift(a)
        return a if n is NotImplemented else n

    def and_(self, a, b):
        return sym.mkb(z3.And(tob(a), tob(b)))

    def or_(self, a, b):
        return sym.mkb(z3.Or(tob(a), tob(b)))

    def not_(self, a):
        return sym.mkb(z3.Not(tob(a)))

    def ite(self, c, a, b):
        return ite(c, a, b)

    def max(self, a, b):
        return smax(a, b)

    def min(self, a, b):
        return smin(a, b)

    def abs(self, a):
        return abs(lift(a))

    def trunc(self, a):
        return sym.trunc(lift(a))

    def floor(self, a):
        return sym.floor(lift(a))

    def div(self, a, b):
        return sym.div(lift(a), lift(b))

    def mod(self, a, b):
        return sym.mod(lift(a), lift(b))

    def sqrt(self, a):
        return sym.sqrt(lift(a))

    def isnan(self, a):
        return a is NAN

    # code under test
    def load(self, mod):
        return self.W.load(mod)

    def modules(self):
        return list(self.W.mods.values())

    def patch(self, mod, **kw):
        m = self.W.load(mod)
        for k, v in kw.items():
            self._undo.append((m, k, m.__dict__.get(k, self)))
            m.__dict__[k] = v

    def fn(self, mod, name=None):
        m = self.W.load(mod)
        return getattr(m, name or mod.split(".")[-1])

    def cleanup(self):
        for m, k, v in reversed(self._undo):
            if v is self:
                m.__dict__.pop(k, None)
            else:
                m.__dict__[k] = v
        self._undo = []
        self.unstub()

    def restart(self):
        self.cleanup()
        self.W.files = {}
        self.W.printed = []

    def call(self, f, *a, **k):
        """Call; returns (result, exception)."""
        try:
            return f(*a, **k), None
        except EngineError:
            raise
        except (Exception, SystemExit) as ex:
            return None, ex

    def file(self, name):
        return self.W.files.get(os.path.normpath(str(name)))

    def put_file(self, name, text):
        self.W.files[os.path.normpath(str(name))] = text

    def text(self, v):
        """A number as it may appear in a text file."""
        return " " + world.token(lift(v)) + " " if isinstance(v, Num) else repr(v)

    def values(self, text):
        return world.values(text)

    # assertions
    def check_eq(self, label, a, b, when=True, tol=None):
        a, b = self.scalar(a), self.scalar(b)
        if a is NAN or b is NAN or not isinstance(a, Num) or not isinstance(b, Num):
            ok = z3.BoolVal(a is NAN and b is NAN)
            self.pend.append((label, tob(when), ok, ok))
            return
        d = a - b
        if d.concrete:
            # a tolerance of half a unit stands for a number that was printed without decimals
            ok = z3.BoolVal(d.c == 0 or (tol is not None and tol >= 0.5 and abs(d.c) <= tol))
            self.pend.append((label, tob(when), ok, z3.BoolVal(abs(d.c) <= Fraction(1, 100)) if d.k == "r" else ok))
            return
        e = d.z()
        if d.k == "i":
            ok = e == 0
            self.pend.append((label, tob(when), ok, ok))
        else:
            m = z3.RealVal("1/100")
            ok = e == 0
            if rat.has_div(e):
                ok = rat.zero_form(e)
                ok = e == 0 if ok is None else ok
            self.pend.append((label, tob(when), ok, z3.And(e <= m, e >= -m)))

    def check_le(self, label, a, b, when=True, tol=None):
        a, b = self.scalar(a), self.scalar(b)
        if a is NAN or b is NAN:
            self.pend.append((label, tob(when), z3.BoolVal(False), z3.BoolVal(False)))
            return
        d = a - b
        if d.concrete:
            ok = z3.BoolVal(d.c <= 0)
            self.pend.append((label, tob(when), ok, z3.BoolVal(d.c <= Fraction(1, 100))))
            return
        self.pend.append((label, tob(when), d.z() <= 0, d.z() <= (z3.RealVal("1/100") if d.k == "r" else 0)))

    def check(self, label, cond, when=True):
        e = tob(cond)
        self.pend.append((label, tob(when), e, e))

    def fail(self, label):
        self.check(label, False)

    def exists_better(self, label, build):
        """Violated when the solver finds fresh witnesses satisfying build(fresh) (a z3-level existential)."""
        names = []

        def fresh(name):
            v = z3.Real("w!" + name)
            names.append(v)
            return Num.atom(v)

        cond = build(fresh)
        e = z3.Not(tob(cond))
        self.pend.append((label, z3.BoolVal(True), e, e))

    def observe(self, name, v):
        if isinstance(v, np.ndarray):
            for i, e in enumerate(np.asarray(v).reshape(-1)):
                self.obs.append(("%s[%d]" % (name, i), e))
        elif isinstance(v, (list, tuple)):
            for i, e in enumerate(v):
                self.observe("%s[%d]" % (name, i), e)
        else:
            self.obs.append((name, v))


# --------------------------------------------------------------------------- concrete
class ConH(Base):
    symbolic = False

    def __init__(self, case, vals):
        self.case, self.vals = case, vals
        self.failed = []
        self.obs = []
        self.np = np
        import math

        self.math = math
        self._undo = []
        self.tol = 1e-5
        self.aborted = False

    def int(self, name, lo=None, hi=None):
        return int(self.vals[name]) if name in self.vals else int(self._default(lo, hi))

    def real(self, name, lo=None, hi=None):
        return float(self.vals[name]) if name in self.vals else float(self._default(lo, hi))

    @staticmethod
    def _default(lo, hi):
        # an input created only after the point where the symbolic run stopped
        return lo if lo is not None else hi if hi is not None else 0

    def const(self, x):
        return x if isinstance(x, int) else float(x)

    def pick(self, name, lo, hi):
        return int(self.vals.get(name, lo))

    def assume(self, cond):
        if not bool(cond):
            self.aborted = True
            raise PathAbort()

    def arr(self, x, kind=None):
        if kind is None:
            return np.array(x)
        return np.array(x, dtype={"f": float, "i": int, "i4": np.int32, "b": bool}[kind])

    def zeros(self, shape, kind="f"):
        return np.zeros(shape, dtype=float if kind == "f" else int)

    def lst(self, a):
        return list(np.asarray(a).reshape(-1))

    def scalar(self, a):
        if isinstance(a, np.ndarray):
            return a.reshape(-1)[0]
        return a

    def and_(self, a, b):
        return bool(a) and bool(b)

    def or_(self, a, b):
        return bool(a) or bool(b)

    def not_(self, a):
        return not bool(a)

    def ite(self, c, a, b):
        return a if c else b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def abs(self, a):
        return abs(a)

    def trunc(self, a):
        return int(a + 1e-9 if a > 0 else a - 1e-9)

    def floor(self, a):
        import math

        return math.floor(a)

    def div(self, a, b):
        return a / b

    def mod(self, a, b):
        return a % b

    def sqrt(self, a):
        return a**0.5

    def isnan(self, a):
        return a != a

    def load(self, mod):
        if not mod.startswith(world.PKG):
            mod = world.PKG + "." + mod
        return importlib.import_module(mod)

    def modules(self):
        return [m for n, m in list(sys.modules.items()) if n.split(".")[0] == world.PKG and m is not None]

    def fn(self, mod, name=None):
        return getattr(self.load(mod), name or mod.split(".")[-1])

    def patch(self, mod, **kw):
        m = self.load(mod)
        for k, v in kw.items():
            self._undo.append((m, k, m.__dict__.get(k, self)))
            setattr(m, k, v)

    def cleanup(self):
        for m, k, v in reversed(self._undo):
            if v is self:
                m.__dict__.pop(k, None)
            else:
                setattr(m, k, v)
        self._undo = []
        self.unstub()

    def restart(self):
        self.cleanup()
        for n in os.listdir(self.dir):
            n = os.path.join(self.dir, n)
            shutil.rmtree(n) if os.path.isdir(n) else os.remove(n)
        os.chdir(self.dir)

    def call(self, f, *a, **k):
        try:
            with np.errstate(all="ignore"):
                return f(*a, **k), None
        except (Exception, SystemExit) as ex:
            return None, ex

    def file(self, name):
        if not os.path.exists(name):
            return None
        with open(name) as f:
            return f.read()

    def put_file(self, name, text):
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, "w") as f:
            f.write(text)

    def text(self, v):
        return repr(v)

    def values(self, text):
        out = []
        for m in re.finditer("[-+]?(?:\\d+\\.?\\d*|\\.\\d+)(?:[eE][-+]?\\d+)?|\\bnan\\b|\\binf\\b", text):
            s = m.group(0)
            out.append(float(s) if not re.fullmatch(r"[-+]?\d+", s) else int(s))
        return out

    def check_eq(self, label, a, b, when=True, tol=None):
        if not bool(when):
            return
        a, b = self.scalar(a), self.scalar(b)
        t = tol if tol is not None else self.tol * max(1.0, abs(b) if b == b else 1.0)
        if not (abs(a - b) <= t):
            self.failed.append("%s: got %r, required %r" % (label, a, b))

    def check_le(self, label, a, b, when=True, tol=None):
        if not bool(when):
            return
        a, b = self.scalar(a), self.scalar(b)
        t = tol if tol is not None else self.tol * max(1.0, abs(b) if b == b else 1.0)
        if not (a <= b + t):
            self.failed.append("%s: %r should be <= %r" % (label, a, b))

    def check(self, label, cond, when=True):
        if bool(when) and not bool(cond):
            self.failed.append(label)

    def fail(self, label):
        self.failed.append(label)

    def exists_better(self, label, build):
        r = lp_exists(build)
        if r:
            self.failed.append("%s: witness %s" % (label, r))

    def observe(self, name, v):
        if isinstance(v, np.ndarray):
            for i, e in enumerate(v.reshape(-1)):
                self.obs.append(("%s[%d]" % (name, i), e))
        elif isinstance(v, (list, tuple)):
            for i, e in enumerate(v):
                self.observe("%s[%d]" % (name, i), e)
        else:
            self.obs.append((name, v))


def lp_exists(build):
    """Concrete-mode existential: solve with z3 over the fresh reals."""
    s = z3.Solver()
    names = []

    def fresh(name):
        v = z3.Real("w!" + name)
        names.append(v)
        return Num.atom(v)

    s.add(tob(build(fresh)))
    if s.check() == z3.sat:
        m = s.model()
        return {str(v): float(sym._zval(m.eval(v, model_completion=True))) for v in names}
    return None


# --------------------------------------------------------------------------- earlier use
class Earlier:
    """A harness whose inputs are fixed numbers and which checks nothing: an earlier use of the same functions."""

    def __init__(self, H, k, vals, calls):
        self._H, self._k, self._vals, self._calls = H, k, vals, calls

    def __getattr__(self, n):
        return getattr(self._H, n)

    def _frac(self, name):
        if self._k < 3:
            return Fraction(1 + self._k, 4)
        return Fraction(zlib.crc32(("%s %d" % (name, self._k)).encode()) % 257, 256)

    def _value(self, name, lo, hi):
        if name in self._vals:
            return Fraction(self._vals[name])
        lo, hi = [x if x is None else x.c if isinstance(x, Num) else sym.frac(x) for x in (lo, hi)]
        lo = lo if lo is not None else hi - 10 if hi is not None else Fraction(0)
        hi = hi if hi is not None else lo + 10
        return lo + (hi - lo) * self._frac(name)

    def int(self, name, lo=None, hi=None):
        x = int(self._value(name, lo, hi) // 1)
        return self._H.const(max(x, lo) if lo is not None and not isinstance(lo, Num) else x)

    def real(self, name, lo=None, hi=None):
        x = self._value(name, lo, hi)
        y = Fraction(int(x * 16), 16)
        return self._H.const(y if abs(y) >= 1 else x)

    def pick(self, name, lo, hi):
        return int(self._value(name, lo, hi) // 1)

    def assume(self, cond):
        if not bool(cond):
            raise Unfit()

    def fn(self, mod, name=None):
        return self._record((mod, name), self._H.fn(mod, name))

    def opt(self, mod, name):
        f = self._H.opt(mod, name)
        return f and self._record((mod, name), f)

    def _record(self, key, f):
        @functools.wraps(f)
        def g(*a, **k):
            if key not in self._calls:
                self._calls[key] = _copied(self._H, (a, k))
            return f(*a, **k)

        return g

    def _none(self, *a, **k):
        pass

    check = check_eq = check_le = fail = exists_better = observe = _none

    def call(self, f, *a, **k):
        r, ex = self._H.call(f, *a, **k)
        if isinstance(ex, Unfit):
            raise ex
        return r, ex


class Unfit(Exception):
    pass


def _copied(H, x):
    """A deep copy, None for what cannot be copied."""
    try:
        return world._clone(x, {}) if H.symbolic else copy.deepcopy(x)
    except (EngineError, TypeError, ValueError):
        return None


class Later:
    """The same harness, but each call of a function is followed by an unrelated call of it with earlier figures."""

    def __init__(self, H, calls):
        self._H, self._calls = H, calls

    def __getattr__(self, n):
        return getattr(self._H, n)

    def fn(self, mod, name=None):
        return self._follow((mod, name), self._H.fn(mod, name))

    def opt(self, mod, name):
        f = self._H.opt(mod, name)
        return f and self._follow((mod, name), f)

    def _follow(self, key, f):
        H, c, left = self._H, self._calls.get(key), [4]

        @functools.wraps(f)
        def g(*a, **k):
            r = f(*a, **k)
            if c is not None and left[0] and not H._undo and not H._stubs:
                left[0] -= 1
                with contextlib.suppress(EngineError, ArithmeticError, ValueError, IndexError):
                    b, kb = _copied(H, c)
                    f(*b, **kb)
            return r

        return g


def use_before(fn, H, case, vals, calls):
    """Runs the harness once with fixed inputs, so that the checks see functions that were used before."""
    for k in range(1 if vals else 12):
        calls.clear()
        try:
            fn(Earlier(H, k, vals, calls), case)
            return True
        except (Unfit, EngineError, ArithmeticError, ValueError, IndexError):
            pass
        finally:
            H.restart()
    return False


def run(fn, H, case):
    if "before" in case:
        case = dict(case)
        n, after = case.pop("before"), case.pop("after", False)
        calls = {}
        H.used = use_before(fn, H, case, n if isinstance(n, dict) else {}, calls)
        if after:
            H = Later(H, calls)
    fn(H, case)


# --------------------------------------------------------------------------- drivers
def _alarm(sig, frm):
    raise PathTimeout()


class timelimit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_concrete(fn, case, vals, limit=30):
    """Run the harness on the real code. Returns dict(failed, exc, obs, aborted)."""
    for n in [n for n in sys.modules if n.split(".")[0] == world.PKG]:
        del sys.modules[n]  # a run sees nothing of the runs before
    H = ConH(case, vals)
    cwd = os.getcwd()
    d = H.dir = tempfile.mkdtemp(prefix="vrun-")
    exc = None
    so = sys.stdout
    try:
        os.chdir(d)
        sys.stdout = open(os.devnull, "w")
        try:
            with timelimit(limit), np.errstate(all="ignore"):
                run(fn, H, case)
        except PathAbort:
            H.aborted = True
        except PathTimeout:
            H.failed.append("does not terminate within %ds" % limit)
        except BaseException as ex:  # noqa
            if isinstance(ex, KeyboardInterrupt):
                raise
            exc = ex
            H.failed.append("raises %s: %s at %s" % (type(ex).__name__, str(ex)[:100], _where(ex)))
    finally:
        H.cleanup()
        sys.stdout.close()
        sys.stdout = so
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
    return dict(failed=[] if H.aborted else H.failed, exc=type(exc).__name__ if exc else None, obs=H.obs, aborted=H.aborted)


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    for f in reversed(tb):
        if "/%s/" % world.PKG in f.filename:
            return "%s:%s" % (os.path.relpath(f.filename, world.REPO), f.name)
    return "%s:%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].name, tb[-1].lineno) if tb else "?"


def model_vals(ctx, m, inputs):
    out = {}
    for n, (k, v) in inputs.items():
        x = sym._zval(m.eval(v, model_completion=True))
        out[n] = int(x) if k == "i" else Fraction(x)
    return out


def fvals(vals):
    return {n: (v if isinstance(v, int) else float(v)) for n, v in vals.items()}


def nice_model(ctx, extra, inputs, tries):
    """Model of path & extra; first with inputs on a dyadic grid (exact floats)."""
    s = ctx.solver
    for scale in (1, 16):
        s.push()
        s.add(*extra)
        for n, (k, v) in inputs.items():
            if k == "r":
                g = z3.Int("grid!" + n)
                s.add(v * scale == z3.ToReal(g), g <= 2**22, g >= -(2**22))
            else:
                pass
        s.set("timeout", 1500)
        t = time.time()
        r = s.check()
        ctx.solver_time += time.time() - t
        ctx.queries += 1
        s.set("timeout", 20000)
        m = s.model() if r == z3.sat else None
        s.pop()
        if m is not None:
            return m
    return None


def explore(fn, case, opts):
    """Symbolically execute the harness over all paths; returns a result dict."""
    W = world.World()
    ctx = Ctx(
        max_paths=opts.get("max_paths", 20000), time_limit=opts.get("time", 300.0), query_ms=opts.get("query_ms", 20000)
    )
    sym.set_ctx(ctx)
    res = dict(
        case=case, paths=0, feasible=0, aborted=0, obligations=0, violations=[], unreproduced=[], errors=[], validated=0,
        mismatches=[], samples=[], entered={}, truncated=False, exc_paths=0,
    )  # fmt: skip
    maxval = opts.get("validate", 6)
    seen_labels = set()
    t0 = time.time()
    nviol = 0
    try:
        while True:
            if res["paths"] >= ctx.max_paths:
                res["truncated"] = True
                break
            ctx.start_run()
            W.reset()
            H = SymH(W, ctx, case)
            res["paths"] += 1
            exc = None
            ended = None
            try:
                with timelimit(opts.get("path_time", 120)):
                    run(fn, H, case)
            except PathAbort:
                ended = "abort"
            except PathTimeout as ex:
                ended = "timeout"
                exc = ex
            except EngineError as ex:
                ended = "engine"
                exc = ex
            except BudgetExceeded as ex:
                res["truncated"] = True
                res["errors"].append("budget: %s" % ex)
                H.cleanup()
                break
            except (Exception, SystemExit) as ex:
                ended = "exc"
                exc = ex
            H.cleanup()
            if "before" in case:
                res["used_before"] = getattr(H, "used", False)
                if not res["used_before"] and ended is None and not isinstance(case["before"], dict):
                    # no guessed figures fit the assumptions: take those of a model of this path
                    m = nice_model(ctx, [], dict(ctx.inputs), 1)
                    if m is not None:
                        vals = fvals(model_vals(ctx, m, ctx.inputs))
                        return explore(fn, dict(case, before=vals), opts)
            if ended == "abort":
                res["aborted"] += 1
            else:
                bad = _finish(H, ctx, fn, case, res, ended, exc, seen_labels, maxval, opts)
                if bad:
                    nviol += 1
            if nviol >= opts.get("max_viol", 3):
                res["stopped_early"] = True
                break
            if not ctx.backtrack():
                break
    except BudgetExceeded as ex:
        res["truncated"] = True
        res["errors"].append("budget: %s" % ex)
    res.update(
        queries=ctx.queries, solver_s=round(ctx.solver_time, 3), decisions=ctx.decisions, unknowns=ctx.unknowns,
        wall_s=round(time.time() - t0, 3),
    )  # fmt: skip
    res["entered"] = W.entered
    return res


def _finish(H, ctx, fn, case, res, ended, exc, seen, maxval, opts):
    s = ctx.solver
    inputs = dict(ctx.inputs)
    # is this path feasible at all (an earlier 'unknown' or late assumption may have hidden it)?
    if ctx.model is None:
        r = ctx.check()
        if r == z3.unsat:
            res["aborted"] += 1
            return False
        m = s.model() if r == z3.sat else None
    else:
        m = ctx.model
    res["feasible"] += 1
    if ended == "engine":
        msg = "%s" % exc
        # the path may still be a real failure; try to reproduce below, else report as engine limit
        tb = _where(exc)
        res["errors"].append("engine: %s [%s]" % (msg, tb))
        return False
    if ended in ("exc", "timeout"):
        res["exc_paths"] += 1
        label = (
            "does not terminate" if ended == "timeout" else "raises %s: %s at %s" % (type(exc).__name__, str(exc)[:120], _where(exc))
        )
        return _report(H, ctx, fn, case, res, label, [], m, inputs, seen, opts, tb=exc)
    # obligations
    pend = [(l, w, e, em) for (l, w, e, em) in H.pend]
    res["obligations"] += len(pend)
    live = []
    for l, w, e, em in pend:
        if z3.is_true(e) or z3.is_false(w):
            continue
        live.append((l, w, e, em))
    found = False
    guard = 0
    live0 = list(live)
    while live and guard < 6:
        guard += 1
        s.push()
        s.add(z3.Or([z3.And(w, z3.Not(e)) for _, w, e, _ in live]))
        r = ctx.check()
        mm = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unsat:
            break
        if r == z3.unknown:
            # try one by one
            still = []
            for l, w, e, em in live:
                s.push()
                s.add(w, z3.Not(e))
                r1 = ctx.check()
                m1 = s.model() if r1 == z3.sat else None
                s.pop()
                if r1 == z3.sat:
                    still.append((l, w, e, em, m1))
                elif r1 == z3.unknown:
                    res["errors"].append("inconclusive: solver unknown on %s" % l)
            for l, w, e, em, m1 in still:
                found |= _report(H, ctx, fn, case, res, l, [w, z3.Not(e)], m1, inputs, seen, opts, margin=[w, z3.Not(em)])
            break
        hit = [
            x for x in live if z3.is_true(mm.eval(z3.And(x[1], z3.Not(x[2])), model_completion=True))
        ] or live[:1]
        l, w, e, em = hit[0]
        found |= _report(H, ctx, fn, case, res, l, [w, z3.Not(e)], mm, inputs, seen, opts, margin=[w, z3.Not(em)])
        base = _base(l)
        live = [x for x in live if _base(x[0]) != base]
    # validation of the encoding: run a model of this path on the real code
    if not found and res["validated"] + len(res["mismatches"]) < maxval:
        vm = nice_model(ctx, [], inputs, 1) or m
        if vm is not None:
            _validate(H, ctx, fn, case, res, vm, inputs, seen)
    elif not found and len(res["samples"]) < 2 and m is not None:
        res["samples"].append(dict(case=_j(case), inputs=_jv(fvals(model_vals(ctx, m, inputs)))))
    return found


def _base(l):
    return re.sub(r"[\[\(].*?[\]\)]|\d+", "", l)


def _eval_obs(m, v):
    if v is NAN:
        return float("nan")
    if isinstance(v, SymB):
        return 1.0 if z3.is_true(m.eval(v.e, model_completion=True)) else 0.0
    if isinstance(v, Num):
        if v.concrete:
            return float(v.c)
        return float(sym._zval(m.eval(v.z(), model_completion=True)))
    try:
        return float(v)
    except Exception:
        return str(v)


def _validate(H, ctx, fn, case, res, m, inputs, seen):
    try:
        vals = fvals(model_vals(ctx, m, inputs))
        want = [(n, _eval_obs(m, v)) for n, v in H.obs]
    except EngineError:
        return
    r = run_concrete(fn, case, vals)
    if r["aborted"]:
        return
    if r["failed"]:
        # the real code fails on a path the encoding considers fine: float rounding or an engine gap
        res["mismatches"].append(dict(inputs=vals, failed=r["failed"][:3]))
        return
    got = dict(r["obs"])
    for n, w in want:
        if n not in got:
            res["mismatches"].append(dict(inputs=vals, missing=n))
            return
        try:
            g = float(got[n])
        except Exception:
            if str(got[n]) != str(w):
                res["mismatches"].append(dict(inputs=vals, at=n, symbolic=str(w), real=str(got[n])))
                return
            continue
        if isinstance(w, str):
            continue
        if not (abs(g - w) <= 1e-4 * max(1.0, abs(w)) or (g != g and w != w)):
            res["mismatches"].append(dict(inputs=vals, at=n, symbolic=w, real=g))
            return
    res["validated"] += 1
    if len(res["samples"]) < 2:
        res["samples"].append(
            dict(case=_j(case), inputs=_jv(vals), observed={n: w for n, w in want[:12]})
        )


def _jv(vals):
    items = list(vals.items())
    return dict(items[:40])


def _j(case):
    return {k: v for k, v in case.items() if isinstance(v, (int, float, str, bool, list, tuple, type(None)))}


def _report(H, ctx, fn, case, res, label, extra, m, inputs, seen, opts, margin=None, tb=None):
    """Confirm a counterexample on the real code."""
    base = _base(label)
    if base in seen:
        return True
    cands = []
    if margin is not None:
        cands.append(margin)
    cands.append(extra)
    tried = 0
    last = None
    blocks = []
    for ex in cands + cands[-1:] * 2:
        mm = nice_model(ctx, list(ex) + blocks, inputs, 2)
        if mm is None:
            ctx.solver.push()
            ctx.solver.add(*(list(ex) + blocks))
            r = ctx.check()
            mm = ctx.solver.model() if r == z3.sat else None
            ctx.solver.pop()
        if mm is None:
            continue
        try:
            vals = fvals(model_vals(ctx, mm, inputs))
        except EngineError:
            continue
        tried += 1
        r = run_concrete(fn, case, vals, opts.get("replay_time", 30))
        last = r
        if r["failed"]:
            seen.add(base)
            res["violations"].append(dict(label=label, inputs=vals, case=case, observed=r["failed"][:6]))
            return True
        # move away: block this neighbourhood on one real input
        blk = []
        for n, (k, v) in inputs.items():
            x = vals[n]
            if k == "r":
                q = sym._zconst(Fraction(x), "r")
                blk.append(z3.Or(v > q + 1, v < q - 1))
            else:
                blk.append(v != int(x))
        if blk:
            blocks = [z3.Or(blk)]
    seen.add(base)
    info = dict(label=label, tried=tried)
    if last is not None:
        info["inputs"] = vals
    if tb is not None:
        info["trace"] = "".join(traceback.format_exception(type(tb), tb, tb.__traceback__))[-1500:]
    res["unreproduced"].append(info)
    return False
