"""Symbolic numbers, path-forking context and the solver interface.

A number is a linear form  c + sum(coef_i * atom_i)  over exact rationals; an atom is a
z3 variable or an opaque z3 term (product, quotient, floor, ite).  Machine floats are
modelled as mathematical reals, int32 storage as two's complement wrap-around.
"""
import math
import time
from fractions import Fraction
from numbers import Number

import z3


class EngineError(Exception):
    """The encoding cannot continue (unsupported construct, limits)."""


class PathAbort(BaseException):
    """The current path ends (infeasible assumption)."""


class PathTimeout(BaseException):
    """The current path ran too long."""


class BudgetExceeded(BaseException):
    pass


# --------------------------------------------------------------------------- context
class Ctx:
    def __init__(self, max_paths=20000, time_limit=300.0, query_ms=20000, max_dec=4000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.solver.set("random_seed", 1)
        self.prefix = []  # list of [choice, other_pending, extra]
        self.pos = 0
        self.model = None
        self.atoms = {}
        self.fresh = 0
        self.inputs = {}
        self.queries = 0
        self.solver_time = 0.0
        self.unknowns = 0
        self.decisions = 0
        self.max_paths = max_paths
        self.max_dec = max_dec
        self.deadline = time.time() + time_limit
        self.cache = {}
        self.facts = {}
        self.hashed = {}
        self.axioms = set()

    # -- z3 plumbing
    def check(self):
        if time.time() > self.deadline:
            raise BudgetExceeded("time budget of the case exhausted")
        t = time.time()
        r = self.solver.check()
        self.solver_time += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def start_run(self):
        self.pos = 0
        self.fresh = 0
        self.inputs = {}
        self.cache = {}
        self.facts = {}
        self.hashed = {}
        self.model = None

    def replaying(self):
        return self.pos < len(self.prefix)

    def assume_expr(self, e):
        """Add an assumption at the current level (skipped while replaying)."""
        if self.replaying():
            return
        self.solver.add(e)
        self.model = None

    def ensure_feasible(self):
        if self.replaying():
            return
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.sat:
                self.model = self.solver.model()

    def decide(self, e):
        """Fork on the z3 Boolean e; returns the Python bool of this path."""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        key = e.get_id()
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
            self.pos += 1
            self.cache[key] = (ch, e)
            return ch
        self.decisions += 1
        if len(self.prefix) > self.max_dec:
            raise EngineError("too many decisions on one path")
        ne = z3.Not(e)
        side = None
        if self.model is not None:
            v = self.model.eval(e, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        mod = self.model
        if side is None:
            self.solver.push()
            self.solver.add(e)
            r = self.check()
            if r == z3.sat:
                mod = self.solver.model()
                side = True
            elif r == z3.unknown:
                side, mod = True, None
            self.solver.pop()
            if side is None:
                # e infeasible: its negation is implied (or the path is infeasible)
                self.prefix.append([False, False, None])
                self.pos += 1
                self.solver.push()
                self.solver.add(ne)
                self.model = None
                self.ensure_feasible()
                self.cache[key] = (False, e)
                return False
        # side is feasible under mod; is the other one?
        self.solver.push()
        self.solver.add(ne if side else e)
        r = self.check()
        omod = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        other = r != z3.unsat
        # always explore True first for determinism
        choice = side
        if other and not side and (r == z3.sat):
            choice, mod = True, omod
        self.prefix.append([choice, other, None])
        self.pos += 1
        self.solver.push()
        self.solver.add(e if choice else ne)
        self.model = mod
        self.cache[key] = (choice, e)
        # remember how to add the alternative
        self.prefix[-1][2] = ne if choice else e
        return choice

    def backtrack(self):
        """Move to the next unexplored branch; False when exhausted."""
        while self.prefix:
            choice, other, alt = self.prefix[-1]
            self.solver.pop()
            if other:
                self.prefix[-1] = [not choice, False, None]
                self.solver.push()
                self.solver.add(alt)
                return True
            self.prefix.pop()
        return False

    def concretize(self, num, limit=400):
        """Return a concrete int value of num on this path, forking over all of them."""
        if num.l is None:
            return num.c
        ex = num.z()
        for _ in range(limit):
            if self.pos < len(self.prefix):
                rec = self.prefix[self.pos]
                v = rec[3] if len(rec) > 3 else None
                if v is None:
                    raise EngineError("nondeterministic replay in concretize")
                ch = rec[0]
                self.pos += 1
                if ch:
                    return v
                continue
            self.ensure_feasible()
            if self.model is None:
                raise EngineError("cannot concretise: solver unknown")
            mv = self.model.eval(ex, model_completion=True)
            v = _zval(mv)
            self.decisions += 1
            cond = ex == _zconst(v, num.k)
            self.solver.push()
            self.solver.add(z3.Not(cond))
            r = self.check()
            self.solver.pop()
            self.prefix.append([True, r != z3.unsat, z3.Not(cond), v])
            self.pos += 1
            self.solver.push()
            self.solver.add(cond)
            self.model = None if r != z3.unsat else self.model
            return v
        raise EngineError("symbolic value used as an index has too many values")

    def backtrack_fix(self):
        pass

    def new_name(self, base):
        self.fresh += 1
        return "%s!%d" % (base, self.fresh)


# patched backtrack keeps recorded concretised value
def _backtrack(self):
    while self.prefix:
        rec = self.prefix[-1]
        self.solver.pop()
        if rec[1]:
            new = [not rec[0], False, None]
            if len(rec) > 3:
                new.append(rec[3])
            self.prefix[-1] = new
            self.solver.push()
            self.solver.add(rec[2])
            return True
        self.prefix.pop()
    return False


Ctx.backtrack = _backtrack

CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def _zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    s = z3.simplify(v)
    if s is not v and (z3.is_int_value(s) or z3.is_rational_value(s)):
        return _zval(s)
    raise EngineError("no value for %s" % v)


def _zconst(v, k):
    if k == "i":
        return z3.IntVal(int(v))
    v = Fraction(v)
    return z3.RealVal(str(v.numerator) + "/" + str(v.denominator)) if v.denominator != 1 else z3.RealVal(
        v.numerator
    )


# --------------------------------------------------------------------------- numbers
_ATOMS = {}


def _atom(e):
    i = e.get_id()
    if i not in _ATOMS:
        _ATOMS[i] = e
    return i


def frac(x):
    """Exact rational of a Python number; floats by their shortest decimal form."""
    if isinstance(x, Num):
        return Fraction(x.c)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise EngineError("non-finite float literal")
        return Fraction(repr(x))
    return Fraction(x)


class Num(Number):
    __slots__ = ("c", "l", "k")

    def __init__(self, c=0, l=None, k="r"):
        self.c = c
        self.l = l if l else None
        self.k = k

    # ---- helpers
    @property
    def concrete(self):
        return self.l is None

    def z(self):
        """z3 term of sort Int (k == 'i') or Real."""
        if self.l is None:
            return _zconst(self.c, self.k)
        terms = []
        if self.k == "i":
            for a, co in self.l.items():
                e = _ATOMS[a]
                terms.append(e if co == 1 else z3.IntVal(int(co)) * e)
            if self.c != 0:
                terms.append(z3.IntVal(int(self.c)))
        else:
            for a, co in self.l.items():
                e = _ATOMS[a]
                if e.is_int():
                    e = z3.ToReal(e)
                terms.append(e if co == 1 else _zconst(co, "r") * e)
            if self.c != 0:
                terms.append(_zconst(self.c, "r"))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zr(self):
        if self.k == "i":
            return Num(self.c, self.l, "r").z()
        return self.z()

    @staticmethod
    def atom(e):
        return Num(0, {_atom(e): 1}, "i" if e.is_int() else "r")

    # ---- conversions
    def __bool__(self):
        if self.l is None:
            return self.c != 0
        return bool(self != 0)

    def __index__(self):
        if self.l is None:
            if self.k == "i" or (self.c == int(self.c)):
                if self.k != "i":
                    raise TypeError("'float' object cannot be interpreted as an integer")
                return int(self.c)
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.k != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(CTX.concretize(self))

    def __int__(self):
        t = trunc(self)
        return int(t.c) if t.l is None else int(CTX.concretize(t))

    def __float__(self):
        if self.l is None:
            return float(self.c)
        raise EngineError("float() of a symbolic value at a C boundary")

    def __complex__(self):
        raise EngineError("complex()")

    def __hash__(self):
        # equal numbers must have equal hashes, whether they are known or not
        if self.l is None:
            if self.k == "r" and CTX is not None and len(CTX.hashed) < 16:
                CTX.hashed.setdefault(self.c)
            return hash(self.c)
        if self.k == "r":
            for v in list(CTX.hashed):
                if bool(self == Num(v, None, "r")):
                    return hash(v)
            return 4711
        return hash(CTX.concretize(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        if self.l is None:
            return (Num, (self.c, None, self.k))
        raise EngineError("pickling a symbolic value")

    def __repr__(self):
        if self.l is None:
            return repr(int(self.c)) if self.k == "i" else repr(float(self.c))
        return self.__format__("")

    def __format__(self, spec):
        from . import world

        return world.token(self, spec)

    def __str__(self):
        return self.__format__("")

    # ---- numpy-scalar look-alike API
    def astype(self, t, **kw):
        from . import npshim

        return npshim.cast(self, npshim.kind_of(t))

    def item(self):
        return self

    def copy(self):
        return self

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self != 0

    def all(self, *a, **k):
        return self != 0

    def tolist(self):
        return self

    def clip(self, min=None, max=None, **k):
        r = self
        if min is not None:
            r = smax(r, min)
        if max is not None:
            r = smin(r, max)
        return r

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(np.int64 if self.k == "i" else np.float64)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    def is_integer(self):
        return floor(self) == self

    # ---- arithmetic
    def _bin(self, o):
        if type(o) is Num:
            return o
        return lift(o)

    def __add__(self, o):
        if type(o) is not Num:
            o = lift(o)
            if o is NotImplemented:
                return NotImplemented
        if o is NAN:
            return NAN
        k = "i" if self.k == "i" and o.k == "i" else "r"
        if self.l is None:
            return Num(self.c + o.c, o.l, k)
        if o.l is None:
            return Num(self.c + o.c, self.l, k)
        d = dict(self.l)
        for a, co in o.l.items():
            n = d.get(a, 0) + co
            if n == 0:
                d.pop(a, None)
            else:
                d[a] = n
        return Num(self.c + o.c, d, k)

    __radd__ = __add__

    def __neg__(self):
        if self.l is None:
            return Num(-self.c, None, self.k)
        return Num(-self.c, {a: -co for a, co in self.l.items()}, self.k)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not Num:
            o = lift(o)
            if o is NotImplemented:
                return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if type(o) is not Num:
            o = lift(o)
            if o is NotImplemented:
                return NotImplemented
        if o is NAN:
            return NAN
        k = "i" if self.k == "i" and o.k == "i" else "r"
        if self.l is None:
            self, o = o, self
        if o.l is None:
            f = o.c
            if f == 0:
                return Num(0, None, k)
            if self.l is None:
                return Num(self.c * f, None, k)
            return Num(self.c * f, {a: co * f for a, co in self.l.items()}, k)
        x, y = (self.z(), o.z()) if k == "i" else (self.zr(), o.zr())
        if _text(x) > _text(y):
            x, y = y, x
        return Num.atom(z3.simplify(x * y, som=True))

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return div(o, self)

    def __floordiv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(lift(o), self)

    def __mod__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            from . import world

            return world.fmt(o, self)
        return mod(lift(o), self)

    def __divmod__(self, o):
        return self // o, self % o

    def __and__(self, o):
        if isinstance(o, (SymB, bool)):
            return mkb(z3.And(tob(self), tob(o)))
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if self.k != "i" or o.k != "i":
            raise TypeError("unsupported operand type(s) for &: 'float' and 'int'")
        if self.concrete and o.concrete:
            return Num(int(self.c) & int(o.c), None, "i")
        if self.concrete:
            return o & self
        if o.concrete and o.c >= 0 and (int(o.c) & (int(o.c) + 1)) == 0:
            return mod(self, Num(int(o.c) + 1, None, "i"))
        raise EngineError("& of symbolic integers")

    __rand__ = __and__

    def _bits(name, f, conc):
        def op(self, o):
            o = lift(o)
            if o is NotImplemented:
                return NotImplemented
            if self.k != "i" or o.k != "i":
                raise TypeError("unsupported operand type(s) for %s: 'float' and 'int'" % name)
            if self.concrete and o.concrete:
                return Num(conc(int(self.c), int(o.c)), None, "i")
            if not o.concrete or f is None:
                raise EngineError("%s of symbolic integers" % name)
            return f(self, int(o.c))

        return op

    __or__ = _bits("|", None, lambda a, b: a | b)
    __xor__ = _bits("^", None, lambda a, b: a ^ b)
    __ror__, __rxor__ = __or__, __xor__
    __lshift__ = _bits("<<", lambda a, n: a * (1 << n), lambda a, b: a << b)
    __rshift__ = _bits(">>", lambda a, n: a // (1 << n), lambda a, b: a >> b)

    def __rlshift__(self, o):
        return lift(o) << self

    def __rrshift__(self, o):
        return lift(o) >> self

    def __invert__(self):
        if self.k != "i":
            raise TypeError("bad operand type for unary ~: 'float'")
        return -self - 1

    def __pow__(self, o, m=None):
        return power(self, lift(o))

    def __rpow__(self, o):
        return power(lift(o), self)

    def __abs__(self):
        if self.l is None:
            return Num(abs(self.c), None, self.k)
        return ite(self >= 0, self, -self)

    def __round__(self, n=None):
        if n is None or n == 0:
            r = rint(self)
            return r if n == 0 else Num(r.c, r.l, "i")
        p = 10 ** n
        return div(rint(self * p), lift(p))

    def __floor__(self):
        f = floor(self)
        return f

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return trunc(self)

    # numpy object-ufunc fallbacks
    def floor(self):
        f = floor(self)
        return Num(f.c, f.l, self.k)

    def ceil(self):
        f = -floor(-self)
        return Num(f.c, f.l, self.k)

    def trunc(self):
        f = trunc(self)
        return Num(f.c, f.l, self.k)

    def rint(self):
        f = rint(self)
        return Num(f.c, f.l, self.k)

    def sqrt(self):
        return sqrt(self)

    def log(self):
        return uf("log", self)

    def exp(self):
        return uf("exp", self)

    # ---- comparisons
    def _cmp(self, o, op):
        if type(o) is not Num:
            if isinstance(o, (float,)) and o in (float("inf"), float("-inf")):
                pos = o > 0
                return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
            o = lift(o)
            if o is NotImplemented:
                return NotImplemented
        if self is NAN or o is NAN:
            return op == "!="
        d = self - o
        if d.l is None:
            c = d.c
            return {
                "<": c < 0,
                "<=": c <= 0,
                ">": c > 0,
                ">=": c >= 0,
                "==": c == 0,
                "!=": c != 0,
            }[op]
        f = _fact(d, op)
        v = known(f)
        if v is not None:
            return v
        e = d.z()
        zero = z3.IntVal(0) if d.k == "i" else z3.RealVal(0)
        z = {
            "<": lambda: e < zero,
            "<=": lambda: e <= zero,
            ">": lambda: z3.Not(e <= zero),
            ">=": lambda: z3.Not(e < zero),
            "==": lambda: e == zero,
            "!=": lambda: z3.Not(e == zero),
        }[op]()
        return SymB(z, f)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._cmp(o, "==")
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, "!=")


class _Nan(Num):
    """Result of an undefined numpy operation (x/0, sqrt of a negative)."""

    __slots__ = ()

    def _same(self, *a, **k):
        return self

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _same
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __neg__ = __abs__ = _same
    __pow__ = __round__ = floor = ceil = trunc = rint = sqrt = log = exp = _same

    def __bool__(self):
        return True

    def __repr__(self):
        return "NaN"

    def __int__(self):
        raise ValueError("cannot convert float NaN to integer")

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def _cmp(self, o, op):
        return op == "!="

    def z(self):
        raise EngineError("undefined value reached the solver")

    zr = z

    def astype(self, *a, **k):
        return self

    def __hash__(self):
        return 0


for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__"):
    setattr(_Nan, _n, lambda self, o: False)
_Nan.__ne__ = lambda self, o: True
NAN = _Nan(0, None, "r")


# Bounds of linear forms that hold on the current path (asserted to the solver as well).
_NOT = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}
_FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


def _fact(d, op):
    """d op 0 as (form, op, threshold), the form with leading coefficient 1."""
    items = sorted(d.l.items())
    lead = items[0][1]
    if lead != 1:
        items = [(a, Fraction(co) / lead) for a, co in items]
        return tuple(items), op if lead > 0 else _FLIP[op], Fraction(-d.c) / lead
    return tuple(items), op, -d.c


def known(f):
    """Whether the path's bounds settle a comparison."""
    b = CTX.facts.get(f[0]) if CTX is not None else None
    if b is None:
        return None
    (lo, ls, hi, hs), op, t = b, f[1], f[2]
    above = lo is not None and (lo > t or (lo == t and ls))  # form > t
    below = hi is not None and (hi < t or (hi == t and hs))  # form < t
    least = lo is not None and lo >= t
    most = hi is not None and hi <= t
    if op == "<":
        return True if below else False if least else None
    if op == "<=":
        return True if most else False if above else None
    if op == ">":
        return True if above else False if most else None
    if op == ">=":
        return True if least else False if below else None
    same = True if least and most else False if above or below else None
    return same if op == "==" or same is None else not same


def learn(f, truth=True):
    form, op, t = f
    if not truth:
        op = _NOT[op]
    if op == "!=":
        return
    lo, ls, hi, hs = CTX.facts.get(form, (None, False, None, False))
    if op in (">", ">=", "==") and (lo is None or t > lo or (t == lo and op == ">")):
        lo, ls = t, op == ">"
    if op in ("<", "<=", "==") and (hi is None or t < hi or (t == hi and op == "<")):
        hi, hs = t, op == "<"
    CTX.facts[form] = (lo, ls, hi, hs)


class SymB:
    """A symbolic Boolean."""

    __slots__ = ("e", "f")

    def __init__(self, e, f=None):
        self.e = e
        self.f = f

    def __bool__(self):
        r = CTX.decide(self.e)
        if self.f is not None:
            learn(self.f, r)
        return r

    def __and__(self, o):
        return mkb(z3.And(self.e, tob(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkb(z3.Or(self.e, tob(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkb(z3.Xor(self.e, tob(o)))

    __rxor__ = __xor__

    def __invert__(self):
        r = mkb(z3.Not(self.e))
        if self.f is not None and isinstance(r, SymB):
            r.f = (self.f[0], _NOT[self.f[1]], self.f[2])
        return r

    def logical_not(self):
        return ~self

    def num(self):
        return ite(self, Num(1, None, "i"), Num(0, None, "i"))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SymB)):
            return mkb(self.e == tob(o))
        return self.num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymB)):
            return mkb(z3.Xor(self.e, tob(o)))
        return self.num() != o

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __format__(self, spec):
        return format(bool(self), spec)

    def any(self):
        return self

    all = any

    def astype(self, t, **k):
        from . import npshim

        return npshim.cast(self, npshim.kind_of(t))


def _arith(name):
    def f(self, o):
        return getattr(self.num(), name)(o)

    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __lt__ __le__ __gt__ __ge__"
    " __floordiv__ __mod__ __pow__"
).split():
    setattr(SymB, _n, _arith(_n))
SymB.__neg__ = lambda self: -self.num()


def mkb(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymB(e)


def tob(x):
    """z3 Boolean of a bool-like."""
    if isinstance(x, SymB):
        return x.e
    if isinstance(x, Num):
        r = x != 0
        return tob(r)
    return z3.BoolVal(bool(x))


class I32(Num):
    """A 32-bit integer: operations among such numbers wrap, with anything else they widen."""

    __slots__ = ()

    def __reduce__(self):
        if self.l is None:
            return (I32, (self.c, None, "i"))
        raise EngineError("pickling a symbolic value")

    @property
    def dtype(self):
        import numpy as np

        return np.dtype(np.int32)


def plain(x):
    """The same number without a storage width."""
    return Num(x.c, x.l, x.k) if type(x) is I32 else x


def i32(x):
    """Two's complement 32-bit number."""
    if type(x) is I32:
        return x
    n = wrap_int(x, 32)
    return I32(n.c, n.l, "i")


def _narrow(name):
    wide = getattr(Num, name)

    def op(self, o=None, *a):
        r = wide(self, o, *a) if o is not None else wide(self)
        if (o is None or type(o) is I32) and isinstance(r, Num) and r is not NAN and r.k == "i":
            return i32(r)
        return r

    setattr(I32, name, op)


for _n in "add radd sub rsub mul rmul floordiv rfloordiv mod rmod neg pos abs invert and rand or ror xor rxor lshift rlshift rshift rrshift".split():
    _narrow("__%s__" % _n)


def lift(x):
    t = type(x)
    if t is Num or t is _Nan or t is I32:
        return x
    if t is bool:
        return Num(int(x), None, "i")
    if t is int:
        return Num(x, None, "i")
    if t is Fraction:
        return Num(x, None, "r")
    if t is float:
        if x != x or x in (float("inf"), float("-inf")):
            if x != x:
                return NAN
            raise EngineError("infinite float in arithmetic")
        return Num(Fraction(repr(x)), None, "r")
    if t is SymB:
        return x.num()
    import numpy as np

    if isinstance(x, np.bool_):
        return Num(int(x), None, "i")
    if isinstance(x, np.integer):
        return Num(int(x), None, "i")
    if isinstance(x, np.floating):
        return lift(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return NotImplemented


def real(x):
    n = lift(x)
    return Num(n.c, n.l, "r") if n.k == "i" else n


def ite(c, a, b):
    if c is True or c is False:
        return a if c else b
    if not isinstance(c, SymB):
        return a if c else b
    if isinstance(a, (bool, SymB)) and isinstance(b, (bool, SymB)):
        return mkb(z3.simplify(z3.If(c.e, tob(a), tob(b))))
    a, b = lift(a), lift(b)
    if a is NAN or b is NAN:
        return a if bool(c) else b
    d = a - b
    if d.l is None and d.c == 0:
        return a
    k = "i" if a.k == "i" and b.k == "i" else "r"
    if k == "i":
        return Num.atom(z3.If(c.e, a.z(), b.z()))
    return Num.atom(z3.If(c.e, a.zr(), b.zr()))


_TEXT = {}


def _text(x):
    """The text of a term, remembered while the term lives in this table."""
    k = x.get_id()
    t = _TEXT.get(k)
    if t is None or not t[0].eq(x):
        if len(_TEXT) > 20000:
            _TEXT.clear()
        t = _TEXT[k] = (x, str(x))
    return t[1]


def _inf(x):
    return x.__class__ is float and (x == float("inf") or x == -float("inf"))


def smax(a, b):
    if _inf(a) or _inf(b):
        a, b = (a, b) if _inf(a) else (b, a)
        return a if a > 0 else b
    a, b = lift(a), lift(b)
    if (a <= b) is True:
        return b
    return ite(a >= b, a, b)


def smin(a, b):
    if _inf(a) or _inf(b):
        a, b = (a, b) if _inf(a) else (b, a)
        return a if a < 0 else b
    a, b = lift(a), lift(b)
    if (a >= b) is True:
        return b
    return ite(a <= b, a, b)


def floor(x):
    """floor as an int-kind number."""
    x = lift(x)
    if x.k == "i":
        return x
    if x.l is None:
        return Num(math.floor(x.c), None, "i")
    # split off integral part: integer atoms with integer coefficients
    ip, fp, ok = {}, {}, False
    for a, co in x.l.items():
        if _ATOMS[a].is_int() and Fraction(co).denominator == 1:
            ip[a] = int(co)
        else:
            fp[a] = co
    ci = math.floor(x.c)
    if not fp:
        return Num(ci, ip, "i")
    rest = Num(x.c - ci, fp, "r")
    # all-integer atoms with rational coefficients: use integer division
    if all(_ATOMS[a].is_int() for a in fp):
        den = Fraction(rest.c).denominator
        for co in fp.values():
            den = den * Fraction(co).denominator // math.gcd(den, Fraction(co).denominator)
        n = Num(int(rest.c * den), {a: int(co * den) for a, co in fp.items()}, "i")
        t = Num.atom(n.z() / z3.IntVal(den))
    else:
        t = Num.atom(z3.ToInt(rest.z()))
    return t + Num(ci, ip, "i")


def trunc(x):
    x = lift(x)
    if x is NAN:
        raise ValueError("cannot convert float NaN to integer")
    if x.k == "i":
        return x
    if x.l is None:
        return Num(math.trunc(x.c), None, "i")
    f = floor(x)
    d = real(f) - x
    if d.l is None and d.c == 0:
        return f
    return ite(x >= 0, f, -floor(-x))


def rint(x):
    x = lift(x)
    if x.k == "i":
        return x
    if x.l is None:
        return Num(round(x.c), None, "i")
    f = floor(x + Fraction(1, 2))
    # banker's tie: x + 1/2 integral and f odd -> f - 1
    tie = real(f) == x + Fraction(1, 2)
    if tie is True or isinstance(tie, SymB):
        odd = mod(f, lift(2)) == 1
        return ite(mkb(z3.And(tob(tie), tob(odd))), f - 1, f)
    return f


def div(a, b):
    if not isinstance(a, Num):
        a = lift(a)
    if not isinstance(b, Num):
        b = lift(b)
    if a is NAN or b is NAN:
        return NAN
    if b.l is None:
        if b.c == 0:
            CTX_note("division by zero")
            return NAN
        f = Fraction(1) / Fraction(b.c)
        if a.l is None:
            return Num(a.c * f, None, "r")
        return Num(a.c * f, {k: v * f for k, v in a.l.items()}, "r")
    if bool(b == 0):
        CTX_note("division by zero")
        return NAN
    if a.l is None and a.c == 0:
        return Num(0, None, "r")
    # proportional numerator: a = t*b
    t = _ratio(a, b)
    if t is not None:
        return Num(t, None, "r")
    return Num.atom(a.zr() / b.zr())


def _ratio(a, b):
    if a.l is None or set(a.l) != set(b.l):
        return None
    it = iter(a.l)
    k0 = next(it)
    t = Fraction(a.l[k0]) / Fraction(b.l[k0])
    if all(Fraction(a.l[k]) == t * b.l[k] for k in a.l) and Fraction(a.c) == t * b.c:
        return t
    return None


def CTX_note(msg):
    if CTX is not None:
        CTX.notes = getattr(CTX, "notes", 0) + 1


def floordiv(a, b):
    k = "i" if a.k == "i" and b.k == "i" else "r"
    if b.l is None:
        if b.c == 0:
            if k == "i":
                raise ZeroDivisionError("integer division or modulo by zero")
            return NAN
        q = floor(div(a, b))
        return Num(q.c, q.l, k)
    v = Num(CTX.concretize(b), None, b.k) if b.k == "i" else None
    if v is None:
        raise EngineError("floor division by a symbolic real")
    return floordiv(a, v)


def mod(a, b):
    if b.l is not None:
        if b.k == "i":
            b = Num(CTX.concretize(b), None, "i")
        else:
            raise EngineError("modulo by a symbolic real")
    q = floordiv(a, b)
    if q is NAN:
        return NAN
    r = a - b * q
    k = "i" if a.k == "i" and b.k == "i" else "r"
    return Num(r.c, r.l, k)


def power(a, b):
    if a is NAN or b is NAN:
        return NAN
    if b.l is not None:
        raise EngineError("symbolic exponent")
    e = Fraction(b.c)
    if e == Fraction(1, 2):
        return sqrt(a)
    if e.denominator != 1:
        raise EngineError("fractional exponent")
    n = int(e)
    r = Num(1, None, "i" if a.k == "i" and b.k == "i" else "r")
    for _ in range(abs(n)):
        r = r * a
    if n < 0:
        r = div(Num(1, None, "r"), r)
    if b.k == "r":
        r = Num(r.c, r.l, "r")
    return r


def sqrt(a):
    a = real(a)
    if a.l is None:
        if a.c < 0:
            return NAN
        p, q = math.isqrt(a.c.numerator if isinstance(a.c, Fraction) else a.c), math.isqrt(
            a.c.denominator if isinstance(a.c, Fraction) else 1
        )
        if Fraction(p * p, q * q) == a.c:
            return Num(Fraction(p, q), None, "r")
        if a.c and CTX is None:
            return Num(Fraction(math.sqrt(a.c)), None, "r")
    elif bool(a < 0):
        return NAN
    name = CTX.new_name("sqrt")
    v = z3.Real(name)
    s = Num.atom(v)
    CTX.assume_expr(z3.And(v >= 0, v * v == a.z()))
    return s


_UF = {}


def uf(name, x):
    """Uninterpreted real function with a few sound axioms."""
    x = real(x)
    if x is NAN:
        return NAN
    if x.l is None and name in ("exp", "log"):
        # a known argument: the double the real code computes
        try:
            return Num(Fraction(getattr(math, name)(float(x.c))), None, "r")
        except (ValueError, OverflowError):
            CTX_note(name + " out of range")
            return NAN
    if name not in _UF:
        _UF[name] = z3.Function("uf_" + name, z3.RealSort(), z3.RealSort())
    return Num.atom(_UF[name](x.z()))


def wrap_int(x, bits, signed=True):
    """Wrap of an int-kind number on store: two's complement, or modulo."""
    x = lift(x)
    h, m = 1 << (bits - 1) if signed else 0, 1 << bits
    if x.l is None:
        return Num((int(x.c) + h) % m - h, None, "i")
    return mod(x + h, Num(m, None, "i")) - h
