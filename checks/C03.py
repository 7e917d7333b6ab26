"""C03 random streams and state draws."""
from .common import cumulative, fake_rng

M31 = 2**31

BOUNDS = (
    "any seed in [1, 2^31-1] per stream; any cumulative probability row (non-decreasing, last entry 1); up to 2 units "
    "and 1 line at once (thorough: 3 and 2), each one of 6 units and 5 lines with given values for the others; int32 storage wrap-around encoded exactly"
)
OUTSIDE = "statistical quality of the generator; a zero seed; draws that hit a threshold exactly (either side accepted)"
ALONE = False
ASSUMPTIONS = ["each stream starts from a nonzero seed", "cumulative probability rows end at exactly 1"]


def nxt(H, s, mul):
    # multiply, keep the low 32 bits, clear the sign: the value modulo 2^31
    w = H.mod(s * mul + M31, 2 * M31) - M31
    return w + M31 if w < 0 else w


def seeding(H, case):
    """Every unit and line gets its own successive value of the same sequence, inside the generator's range."""
    nu, nl = case["nu"], case["nl"]
    seeder = H.fn("monte_carlo.seeder")
    J = H.const(case["seed"]) if case.get("seed") else H.int("JSEED", 1, M31 - 1)
    ig, il = seeder(J, nu, nl)
    H.check("one stream per unit", len(ig) >= nu)
    H.check("one stream per line", len(il) >= nl)
    s = J
    seq = list(H.lst(ig)[:nu]) + list(H.lst(il)[:nl])
    for i, v in enumerate(seq):
        # the required value lies in [0, 2^31) by construction
        s = nxt(H, s, 9649599)
        H.check_eq("stream %d seed continues the seeding sequence" % i, v, s)
        H.observe("seed%d" % i, v)


def streams(H, case, states):
    """Seeds and cumulative probabilities: arbitrary for the free units or lines, given ones for the others."""
    s0, P = [], []
    for i in range(case["n"]):
        if i in case.get("free", range(case["n"])):
            s0.append(H.int("s%d" % i, 1, M31 - 1))
            P.append(cumulative(H, "p%d_" % i, states))
        else:
            s0.append(H.const((2027 + 918273645 * i) % M31))
            P.append([H.div(H.const((k + 1) * (5 + i % 3)), states * 8) for k in range(states - 1)] + [H.const(1)])
    return s0, P


def units(H, case):
    """A unit's state is the one whose probability interval contains its own next uniform draw."""
    n = case["n"]
    gstate = H.fn("monte_carlo.gstate")
    s0, P = streams(H, case, 3)
    D = [H.real("d%d" % i, 0, 1) for i in range(n)]
    extra = [H.int("sx", 1, M31 - 1)]
    seeds = H.arr(s0 + extra, "i4")
    pct, av = gstate(seeds, H.arr(P, "f"), H.arr([H.const(100)] * n, "f"), H.arr(D, "f"), H.arr([H.const(1)] * n, "f"))
    for i in range(n):
        s1 = nxt(H, s0[i], 65539)
        H.check_eq("unit %d: its stream advances by one step" % i, seeds[i], s1)
        u = H.div(s1, M31)
        full, der = H.scalar(pct[i]) == 1, H.scalar(pct[i]) == D[i]
        out = H.scalar(pct[i]) == 0
        H.check("unit %d: fully available when the draw is below its full-capacity probability" % i, full, when=u < P[i][0])
        H.check("unit %d: derated when the draw is in the derated band" % i, der, when=H.and_(u > P[i][0], u < P[i][1]))
        H.check("unit %d: on outage when the draw is above both" % i, out, when=u > P[i][1])
        H.check("unit %d: a state of zero probability is never drawn (no outage)" % i, H.or_(full, der), when=P[i][1] == 1)
        H.check("unit %d: a state of zero probability is never drawn (always full)" % i, full, when=P[i][0] == 1)
        H.observe("pct%d" % i, pct[i])
    H.check_eq("streams of other units are untouched", seeds[n], extra[0])


def lines(H, case):
    n = case["n"]
    lstate = H.fn("monte_carlo.lstate")
    s0, P = streams(H, case, 6)
    seeds = H.arr(s0 + [H.const(7)], "i4")
    st = lstate(seeds, H.arr([[P[i][k] for i in range(n)] for k in range(6)], "f"))
    for i in range(n):
        s1 = nxt(H, s0[i], 65539)
        H.check_eq("line %d: its stream advances by one step" % i, seeds[i], s1)
        u = H.div(s1, M31)
        band(H, "line %d" % i, st[i], u, P[i])
        H.observe("st%d" % i, st[i])
    H.check_eq("streams of other lines are untouched", seeds[n], 7)


def band(H, what, st, u, P):
    lo = 0
    for k in range(6):
        cond = H.and_(u > lo, u < P[k]) if k < 5 else u > lo
        H.check("%s: state %d when the draw is in its band" % (what, k + 1), st == k + 1, when=cond)
        H.check("%s: state %d of zero probability is never drawn" % (what, k + 1), st != k + 1, when=H.and_(P[k] == lo, u > 0))
        lo = P[k]


def alternatives(H, case):
    """The vectorised samplers draw from the same distribution table."""
    which = case["which"]
    if which == "_gstate":
        f = H.opt("monte_carlo.gstate", "_gstate")
        if f is None:
            return H.check("alternative absent", True)
        n = 2
        P = [cumulative(H, "p%d_" % i, 3) for i in range(n)]
        D = [H.real("d%d" % i, 0, 1) for i in range(n)]
        R = [H.real("r%d" % i, 0, 1000) for i in range(n)]
        S = [H.pick("m%d" % i, 0, 1) for i in range(n)]
        U = [H.real("u%d" % i, 0, 1) for i in range(n)]
        for u in U:
            H.assume(u < 1)
        rng = fake_rng(H, "monte_carlo.gstate", U)
        pct, av = f(H.arr(P, "f"), H.arr(R, "f"), H.arr(D, "f"), H.arr(S, "f"), rng)
        for i in range(n):
            p = H.scalar(pct[i])
            H.check("unit %d full" % i, p == 1, when=U[i] < P[i][0])
            H.check("unit %d derated" % i, p == D[i], when=H.and_(U[i] > P[i][0], U[i] < P[i][1]))
            H.check("unit %d out" % i, p == 0, when=U[i] > P[i][1])
            H.check_eq("unit %d available capacity" % i, H.scalar(av[i]), p * R[i] * S[i])
        return
    mod = "monte_carlo.line_prob_sampling"
    f = H.opt(mod, which)
    if f is None:
        return H.check("alternative absent", True)
    n = 2
    U = [H.real("u%d" % i, 0, 1) for i in range(n)]
    for u in U:
        H.assume(u < 1)
    fake_rng(H, mod, U)
    if which == "lstate":
        P = [cumulative(H, "p%d_" % i, 6) for i in range(n)]
        st = f(H.arr(P, "f"))
    else:
        row = cumulative(H, "p", 6)
        P = [row] * n
        st = f(n, H.arr(row, "f"))
    for i in range(n):
        band(H, "line %d" % i, st[i], U[i], P[i])


HARNESSES = dict(seeding=seeding, units=units, lines=lines, alternatives=alternatives)


def cases(tier):
    t = tier == "thorough"
    for nu, nl in [(1, 1), (2, 1), (1, 2)] + ([(2, 2), (3, 1)] if t else []):
        yield "seeding", dict(nu=nu, nl=nl), {}
    for n in (1, 2) + ((3,) if t else ()):
        yield "units", dict(n=n), dict(weight=5)
    for n in (1,) + ((2,) if t else ()):
        yield "lines", dict(n=n), dict(weight=5)
    yield "seeding", dict(nu=7, nl=5, seed=20250611), {}
    for k in range(6):
        yield "units", dict(n=6, free=[k]), dict(weight=5)
    for k in range(5):
        yield "lines", dict(n=5, free=[k]), dict(weight=5)
    for w in ("_gstate", "lstate", "lstate_original", "discrete_prob_gen"):
        yield "alternatives", dict(which=w), {}
