"""Transmission harness pieces shared by C12 and C13."""
from fractions import Fraction

from .C07 import build, lp


def conc_net(H, ends, na, NR, b):
    """Concrete network data as the real tm1 builds it."""
    LP = lp(H, ends)
    BLP = H.arr([[H.const(x), H.const(1), H.const(1)] for x in b], "f")
    BN = H.arr([[H.const(i)] + [H.const(0)] * 4 for i in range(na)], "f")
    bl0, BB, LT, ZB = H.fn("monte_carlo.tm1")(BN, LP, BLP, NR)
    return LP, bl0, BB, LT, ZB


def eps(H):
    """MW slack granted for the program's own numerical thresholds."""
    return H.const(Fraction(1, 1000)) if H.symbolic else 1e-3


def le(H, label, a, b, when=True):
    H.check_le(label, a, b + eps(H), when=when)


def near(H, label, a, b, when=True):
    H.check(label, H.and_(a - b <= eps(H), b - a <= eps(H)), when=when)


def flows_ok(H, what, ends, na, NR, b, F, inj, cap, lim, check_inj=True):
    """Flows respect limits, follow a single set of angles and carry the given injections."""
    for i in range(len(ends)):
        le(H, "%s: line %d forward limit" % (what, i), F[i], cap[i][0])
        le(H, "%s: line %d backward limit" % (what, i), 0 - F[i], cap[i][1])
    for a in range(na):
        out = 0
        for i, (j, k) in enumerate(ends):
            if j == a:
                out = out + F[i]
            if k == a:
                out = out - F[i]
        le(H, "%s: export limit of area %d" % (what, a), out, lim[a][1])
        le(H, "%s: import limit of area %d" % (what, a), 0 - out, lim[a][0])
        if check_inj:
            near(H, "%s: flows leaving area %d equal its net injection" % (what, a), out, inj[a])
    # angles: spanning tree from the reference
    th = {NR: 0}
    used = set()
    go = True
    while go:
        go = False
        for i, (j, k) in enumerate(ends):
            if b[i] == 0:
                continue
            if j in th and k not in th:
                th[k] = th[j] - H.div(F[i], b[i])
                used.add(i)
                go = True
            elif k in th and j not in th:
                th[j] = th[k] + H.div(F[i], b[i])
                used.add(i)
                go = True
    for i, (j, k) in enumerate(ends):
        if i not in used and b[i] != 0:
            near(H, "%s: flow on line %d follows the angle difference" % (what, i), F[i], (th[j] - th[k]) * b[i])
        if b[i] == 0:
            near(H, "%s: no flow on a line without admittance" % what, F[i], 0)


def better(H, ends, na, NR, b, J, cap, lim, total, load=None):
    """Constraint builder: a feasible dispatch that curtails less than `total` (by more than 0.01 MW).

    Without `load` only deficits are curtailed (no loss sharing); with it any load may be.
    """
    e = 10 * eps(H)

    def build_(fresh):
        th = [0 if a == NR else fresh("th%d" % a) for a in range(na)]
        c = [fresh("c%d" % a) for a in range(na)]
        g = [fresh("g%d" % a) for a in range(na)]
        cs = []
        F = [(th[j] - th[k]) * b[i] for i, (j, k) in enumerate(ends)]
        for i in range(len(ends)):
            cs += [F[i] <= cap[i][0], 0 - F[i] <= cap[i][1]]
        tot = 0
        for a in range(na):
            out = 0
            for i, (j, k) in enumerate(ends):
                if j == a:
                    out = out + F[i]
                if k == a:
                    out = out - F[i]
            if load is None:
                d, s = H.max(0 - J[a], 0), H.max(J[a], 0)
            else:
                d, s = load[a], load[a] + J[a]
            cs += [c[a] >= 0, c[a] <= d, g[a] >= 0, g[a] <= s, out == g[a] - d + c[a], out <= lim[a][1], 0 - out <= lim[a][0]]
            tot = tot + c[a]
        cs.append(tot + e <= total)
        r = True
        for x in cs:
            r = z_and(r, x)
        return r

    return build_


def z_and(a, b):
    import z3

    from engine import sym

    return sym.mkb(z3.And(sym.tob(a), sym.tob(b)))
