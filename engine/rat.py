"""Rational-function normal form of a z3 real term: P / Q with polynomials P, Q.

Used to restate `term == 0` as `P == 0` (every division on a path has a nonzero denominator,
which the path has already decided), so that identities need no nonlinear search.
"""
from fractions import Fraction

import z3

CAP = 6000


class TooBig(Exception):
    pass


# polynomial: dict {monomial: coef}; monomial: tuple of (var id, exp) sorted
ONE = {(): Fraction(1)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        n = r.get(m, 0) + s * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    if len(r) > CAP:
        raise TooBig()
    return r


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 40 * CAP:
        raise TooBig()
    if len(a) == 1 and () in a:
        c = a[()]
        return {m: c * x for m, x in b.items()}
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    if len(r) > CAP:
        raise TooBig()
    return r


def monic(p):
    """Scaled so that the leading coefficient is 1; returns (key, scale)."""
    lead = max(p)
    c = p[lead]
    return frozenset((m, x / c) for m, x in p.items()), c


class R:
    """p / prod(factor^mult)."""

    __slots__ = ("p", "q")

    def __init__(self, p, q=None):
        self.p, self.q = p, q or {}


def lift_to(r, q):
    p = r.p
    for f, m in q.items():
        for _ in range(m - r.q.get(f, 0)):
            p = pmul(p, dict(f))
    return p


def add(a, b):
    if not a.p:
        return b
    if not b.p:
        return a
    q = dict(a.q)
    for f, m in b.q.items():
        q[f] = max(q.get(f, 0), m)
    p = padd(lift_to(a, q), lift_to(b, q))
    return R(p, q if p else {})


def mul(a, b):
    if not a.p or not b.p:
        return R({})
    q = dict(a.q)
    for f, m in b.q.items():
        q[f] = q.get(f, 0) + m
    pa, pb = a.p, b.p
    # cancel a numerator that is itself a factor
    for x in (0, 1):
        p = (pa, pb)[x]
        if len(p) > 1 or (len(p) == 1 and () not in p):
            k, c = monic(p)
            if q.get(k):
                q[k] -= 1
                if not q[k]:
                    del q[k]
                if x == 0:
                    pa = {(): c}
                else:
                    pb = {(): c}
    return R(pmul(pa, pb), q)


def inv(a):
    if not a.p:
        raise TooBig()
    p = ONE
    for f, m in a.q.items():
        for _ in range(m):
            p = pmul(p, dict(f))
    if len(a.p) == 1 and () in a.p:
        return R({m: c / a.p[()] for m, c in p.items()})
    k, c = monic(a.p)
    return R({m: x / c for m, x in p.items()}, {k: 1})


def _walk(e, memo, leaves):
    i = e.get_id()
    if i in memo:
        return memo[i]
    k = e.decl().kind() if z3.is_app(e) else None
    if z3.is_int_value(e):
        r = R({(): Fraction(e.as_long())} if e.as_long() else {})
    elif z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = R({(): f} if f else {})
    elif k == z3.Z3_OP_ADD:
        r = R({})
        for c in e.children():
            r = add(r, _walk(c, memo, leaves))
    elif k == z3.Z3_OP_SUB:
        cs = e.children()
        r = _walk(cs[0], memo, leaves)
        for c in cs[1:]:
            x = _walk(c, memo, leaves)
            r = add(r, R({m: -v for m, v in x.p.items()}, x.q))
    elif k == z3.Z3_OP_UMINUS:
        x = _walk(e.arg(0), memo, leaves)
        r = R({m: -v for m, v in x.p.items()}, x.q)
    elif k == z3.Z3_OP_MUL:
        r = R(ONE)
        for c in e.children():
            r = mul(r, _walk(c, memo, leaves))
    elif k == z3.Z3_OP_DIV:
        r = mul(_walk(e.arg(0), memo, leaves), inv(_walk(e.arg(1), memo, leaves)))
    elif k == z3.Z3_OP_TO_REAL:
        r = _walk(e.arg(0), memo, leaves)
    elif k == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and 0 < e.arg(1).as_long() < 6:
        b = _walk(e.arg(0), memo, leaves)
        r = b
        for _ in range(e.arg(1).as_long() - 1):
            r = mul(r, b)
    else:
        leaves[i] = e
        r = R({((i, 1),): Fraction(1)})
    memo[i] = r
    return r


def has_div(e, seen=None):
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_DIV or k == z3.Z3_OP_MUL and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in x.children()) > 1:
                return True
            st.extend(x.children())
    return False


def zero_form(e):
    """A z3 Boolean equivalent to e == 0 (given nonzero denominators), or None when too big."""
    try:
        leaves = {}
        r = _walk(e, {}, leaves)
    except (TooBig, RecursionError):
        return None
    if not r.p:
        return z3.BoolVal(True)
    if len(r.p) == 1 and () in r.p:
        return z3.BoolVal(False)
    if len(r.p) > 400:
        return None
    ts = []
    for m, c in r.p.items():
        t = z3.RealVal("%d/%d" % (c.numerator, c.denominator))
        for v, ex in m:
            x = leaves[v]
            x = z3.ToReal(x) if x.is_int() else x
            for _ in range(ex):
                t = t * x
        ts.append(t)
    return z3.simplify(z3.Sum(ts)) == 0
