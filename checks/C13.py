"""C13 hourly transmission evaluation: line states, contracts first, then emergency help."""
from .C07 import lp
from .net import better, flows_ok, le, near

BOUNDS = (
    "2 areas with two parallel lines and 3 areas in a ring, every reference area; symbolic area surpluses/shortages, "
    "every combination of 3 line states (full, derated with another admittance, out of service) that keeps the network "
    "connected, concrete contract flows (none, and one zero-sum schedule), symbolic capacity multipliers on one line, "
    "with and without area limits, both sharing modes; two evaluations in a row (the second reuses the stored network)"
)
OUTSIDE = "line states that split the network; contract schedules that cannot be carried in full; symbolic contract sizes"
ALONE = False
ASSUMPTIONS = ["exact real arithmetic; 0.001 MW slack, 0.01 MW for optimality", "contracts sum to zero over the areas"]

STATES = ((-10, 120, 90), (-6, 70, 50), (0, 0, 0))


def solve(H, ends, na, NR, b, inj):
    """Flows for balanced injections on a concrete connected network (exact elimination)."""
    from fractions import Fraction

    red = [a for a in range(na) if a != NR]
    n = len(red)
    A = [[Fraction(0)] * (2 * n) for _ in range(n)]
    for i in range(n):
        A[i][n + i] = Fraction(1)
    for (j, k), x in zip(ends, b):
        for p, q, v in ((j, j, x), (k, k, x), (j, k, -x), (k, j, -x)):
            if p != NR and q != NR:
                A[red.index(p)][red.index(q)] += v
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [v / A[c][c] for v in A[c]]
        for r in range(n):
            if r != c:
                A[r] = [u - A[r][c] * v for u, v in zip(A[r], A[c])]
    c = (lambda v: H.const(v)) if H.symbolic else float
    th = {NR: 0}
    for i in range(n):
        th[red[i]] = H.sum_(c(A[i][n + j]) * inj[red[j]] for j in range(n))
    return [(th[j] - th[k]) * c(x) for (j, k), x in zip(ends, b)]


def one(H, case, tag, IFLAG, st, T, BN, bl0, BB, LT, ZB, LP, BLPA, NLS):
    ends, na, NR = case["ends"], case["na"], case["NR"]
    nl = len(ends)
    b = [STATES[s][0] for s in st]
    S = [H.const(case["s1"][a]) if case.get("s1") and case["s1"][a] is not None else H.real("s%s%d" % (tag, a), -400, 400) for a in range(na)]
    for a in range(na):
        H.assume(S[a] <= T[a] if T[a] < 0 else S[a] >= T[a] if T[a] > 0 else H.abs(S[a]) >= 0)
    if case.get("signs"):
        for a in range(na):
            H.assume(S[a] > 0 if case["signs"][a] > 0 else S[a] <= 0)
    load = [H.const(500 + 10 * a) for a in range(na)]
    sys = H.arr([load[a] + S[a] for a in range(na)], "f")
    mult = [[H.const(1), H.const(1)] for _ in range(nl)]
    if case.get("mult"):
        mult[0] = [H.real("m%s0" % tag, 0, 2), H.real("m%s1" % tag, 0, 2)]
    if case.get("weak"):
        mult[0] = [H.div(H.const(case["weak"][0]), 4), H.div(H.const(case["weak"][1]), 4)]
    lim = [[H.scalar(BN[a, 3])] * 2 for a in range(na)]
    cap = [[STATES[st[i]][1] * mult[i][0], STATES[st[i]][2] * mult[i][1]] for i in range(nl)]
    half = [H.const(int(x) // 2) for x in T]
    jf, F, SADJ = H.fn("monte_carlo.transm")(
        IFLAG, 0, 100, 99, 0, BN, BLPA, bl0, BB, LT, ZB, LP, NR, H.arr(mult, "f"), H.arr([s + 1 for s in st], "i"), NLS,
        H.arr(half, "f"), H.arr([T[a] - half[a] for a in range(na)], "f"), sys, H.arr(load, "f"),
        H.arr([1], "f"), H.arr([1], "f"),
    )  # fmt: skip
    adj = [H.scalar(SADJ[a]) for a in range(na)]
    for a in range(na):
        H.check_eq("%s area limits are restored" % tag, BN[a, 3], lim[a][0])
        H.check_eq("%s area limits are restored" % tag, BN[a, 4], lim[a][1])
    H.observe("adj" + tag, adj)
    F1 = solve(H, ends, na, NR, b, T)
    ok = True
    for i in range(nl):
        ok = H.and_(ok, H.and_(F1[i] <= cap[i][0], 0 - F1[i] <= cap[i][1]))
    for a in range(na):
        ok = H.and_(ok, H.and_(T[a] <= lim[a][1], 0 - T[a] <= lim[a][0]))
    if not ok:
        return  # contracts cannot be carried in full
    J = [S[a] - T[a] for a in range(na)]
    short = H.any_(*[J[a] < 0 for a in range(na)])
    H.check("%s flag: a shortage remains after contracts exactly when an area is still short" % tag, (jf == 1) == short if H.symbolic else (jf == 1) == bool(short))
    if jf != 1:
        for a in range(na):
            near(H, "%s margin after contracts of area %d" % (tag, a), adj[a], J[a])
        return
    cap2, lim2 = cap, lim
    if NLS:
        cap2 = [[H.max(cap[i][0] - F1[i], 0), H.max(cap[i][1] + F1[i], 0)] for i in range(nl)]
        lim2 = [[lim[a][0] + T[a], lim[a][1] - T[a]] for a in range(na)]
    else:
        J = S
    cur = [H.max(adj[a], 0) for a in range(na)]
    inj = [adj[a] + J[a] for a in range(na)]
    for a in range(na):
        if NLS:
            le(H, "%s unserved load of area %d is not above its shortage" % (tag, a), cur[a], H.max(0 - J[a], 0))
            le(H, "%s area %d with a surplus does not import" % (tag, a), 0, inj[a], when=J[a] >= 0)
        else:
            le(H, "%s unserved load of area %d is not above its load" % (tag, a), cur[a], load[a])
    F2 = solve(H, ends, na, NR, b, inj)
    flows_ok(H, tag + " emergency help", ends, na, NR, b, F2, inj, cap2, lim2)
    H.exists_better(
        tag + " total unserved load is the least possible",
        better(H, ends, na, NR, b, J, cap2, lim2, H.sum_(cur), load=None if NLS else load),
    )


def grid(H, case):
    ends, na, NR = case["ends"], case["na"], case["NR"]
    nl = len(ends)
    LP = lp(H, ends)
    BLPA = H.arr([[H.const(v) for s in range(6) for v in STATES[min(s, 2)]] for _ in range(nl)], "f")
    L = H.const(case["lim"]) if case.get("lim") else H.const(30000)
    BN = H.arr([[H.const(a), H.const(0), H.const(0), L, L] for a in range(na)], "f")
    bl0, BB, LT, ZB = H.zeros(nl), H.zeros((na, na)), H.zeros(na, "i"), H.zeros((na, na))
    one(H, case, "first:", 0, case["st"][0], case["T"], BN, bl0, BB, LT, ZB, LP, BLPA, case["NLS"])
    base = [-10] * nl
    want = H.fn("monte_carlo.tm1")(BN, LP, H.arr([[H.const(x), H.const(0), H.const(0)] for x in base], "f"), NR)
    for x, y in zip(H.lst(BB) + H.lst(ZB) + H.lst(LT) + H.lst(bl0), H.lst(want[1]) + H.lst(want[3]) + H.lst(want[2]) + H.lst(want[0])):
        near(H, "stored network is that of the lines' first state", x, y)
    if len(case["st"]) > 1:
        case2 = dict(case, s1=None)
        one(H, case2, "second:", 1, case["st"][1], case["T"], BN, bl0, BB, LT, ZB, LP, BLPA, case["NLS"])


HARNESSES = dict(grid=grid)


def cases(tier):
    t = tier == "thorough"
    big = dict(max_paths=6000, time=700, weight=5)
    for NR in (0, 1):
        for st in ((0, 0), (1, 0), (2, 0), (0, 2), (1, 1)):
            for T in ([0, 0], [30, -30]):
                c = dict(ends=[(0, 1), (1, 0)], na=2, NR=NR, NLS=1, st=[list(st)], T=T)
                yield "grid", c, {}
                if st == (1, 0) or t:
                    yield "grid", dict(c, lim=80), dict(weight=2)
                    yield "grid", dict(c, NLS=0), dict(weight=2)
        yield "grid", dict(ends=[(0, 1), (1, 0)], na=2, NR=NR, NLS=1, st=[[0, 0]], T=[20, -20], mult=1, signs=[1, -1]), dict(weight=2)
        yield "grid", dict(ends=[(0, 1), (1, 0)], na=2, NR=NR, NLS=1, st=[[2, 1], [0, 2]], T=[20, -20], s1=[90, -250]), dict(weight=2)
    ring = [(0, 1), (1, 2), (2, 0)]
    for NR in (0, 1, 2):
        for n, st in enumerate(((2, 0, 0), (0, 2, 1), (1, 0, 2), (0, 0, 0))):
            for k, T in enumerate(([0, 0, 0], [30, -20, -10])):
                c = dict(ends=ring, na=3, NR=NR, NLS=1, st=[list(st)], T=T, signs=[1, -1, -1])
                if t or (n < 3 and k == (NR + n) % 2 and (NR, n) != (2, 1)):
                    yield "grid", c, dict(big)
                if t:
                    yield "grid", dict(c, signs=[1, 1, -1], T=[20 * k, 10 * k, -30 * k]), dict(big)
                    if n < 3:
                        yield "grid", dict(c, lim=100), dict(big)
        # a contract passing through a third area, against or with the help that area needs; the line in between is weak
        c = dict(ends=[(0, 1), (2, 1), (2, 0)], na=3, NR=NR, NLS=1, st=[[1, 0, 0]], T=[-60, 0, 60], signs=[-1, -1, 1], s1=None if t else [-70, None, None])
        if t or NR == 1:
            yield "grid", dict(c, weak=[1, 4]), dict(big)
        if t or NR == 0:
            yield "grid", dict(c, ends=[(1, 0), (2, 1), (2, 0)], weak=[4, 1]), dict(big)
        c = dict(ends=ring, na=3, NR=NR, NLS=1, T=[30, -20, -10], s1=[150, -120, -200], signs=[1, -1, -1])
        if t or NR == 0:
            yield "grid", dict(c, st=[[0, 1, 0], [1, 2, 0]]), dict(big)
        yield "grid", dict(c, st=[[1, 0, 2]], lim=100), {}
        if t:
            yield "grid", dict(c, NLS=0, s1=None, st=[[1, 0, 2]]), dict(big)
            yield "grid", dict(c, st=[[1, 0, 2], [2, 0, 0]], lim=100), dict(big)
