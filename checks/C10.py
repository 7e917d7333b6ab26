"""C10 balancing injections before the flow calculation."""

BOUNDS = "2 to 5 areas (thorough 6), arbitrary real injections and positive loads, every order of areas, both sharing modes"
OUTSIDE = "more areas; total load zero in the loss-sharing mode"
ALONE = False
ASSUMPTIONS = ["loads are non-negative and their total is positive in the loss-sharing mode"]


def balance(H, case):
    n, NLS, lt = case["n"], case["NLS"], case["lt"]
    f = H.opt("monte_carlo.assign", case["which"])
    if f is None:
        return H.check("alternative absent", True)
    J = [H.real("j%d" % i, -1000, 1000) for i in range(n)]
    L = [H.real("l%d" % i, 0, 1000) for i in range(n)]
    if NLS == 0:
        H.assume(H.sum_(L) >= 1)
    INJ, LOD = H.arr(J, "f"), H.arr(L, "f")
    # which areas have a surplus, and which side is larger, is a case distinction of its own
    up = [bool(x > 0) for x in J]
    pos = H.sum_(x for x, u in zip(J, up) if u)
    neg = H.sum_(0 - x for x, u in zip(J, up) if not u)
    short = bool(neg > pos)
    R, C = f(INJ, LOD, H.arr(lt, "i"), n, NLS)
    H.check_eq("balanced injections sum to zero", H.sum_(H.scalar(R[i]) for i in range(n)), 0)
    cur = H.sum_(H.scalar(C[i]) for i in range(n))
    H.check_eq("curtailment equals the pool deficit", cur, neg - pos, when=short)
    SL = H.sum_(L)
    for i in range(n):
        r, c = H.scalar(R[i]), H.scalar(C[lt[i]])
        # (in a deficit pool the shares below fix the curtailment, so its sign needs no query of its own)
        H.check_le("no negative curtailment", 0, c, when=not short)
        # surplus pool
        H.check_eq("no curtailment when the pool has enough", c, 0, when=neg <= pos)
        H.check_eq("deficits are served in full when the pool has enough", r, J[i], when=H.and_(neg <= pos, J[i] <= 0))
        H.check_eq("surpluses are scaled down in proportion", r * pos, J[i] * neg, when=H.all_(neg <= pos, J[i] > 0), tol=0.05)
        # deficit pool
        if NLS != 0:
            H.check_eq("surplus areas give all they have", r, J[i], when=H.and_(short, J[i] > 0))
            H.check_eq("deficit areas are served in proportion", r * neg, J[i] * pos, when=H.and_(short, J[i] <= 0), tol=0.05)
            H.check_eq("curtailment is the part not served", c, r - J[i], when=short)
        else:
            H.check_eq("the deficit is shared by load", c * SL, L[lt[i]] * (neg - pos), when=short, tol=0.05)
            H.check_eq("injections move by the curtailment", r, J[i] + c, when=short)
        H.check_eq("input injections are kept", INJ[i], J[i])
        H.check_eq("input loads are kept", LOD[i], L[i])
    H.observe("R", [H.scalar(R[i]) for i in range(n)])
    H.observe("C", C)


HARNESSES = dict(balance=balance)


def cases(tier):
    orders = {2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [1, 2, 0], [2, 1, 0], [0, 2, 1]], 4: [[0, 1, 2, 3], [1, 3, 2, 0]], 5: [[3, 0, 4, 1, 2]], 6: [[4, 1, 5, 0, 2, 3]]}
    for n in (2, 3, 4, 5) + ((6,) if tier == "thorough" else ()):
        for lt in orders[n]:
            for NLS in (0, 1):
                for w in ("assign", "_assign"):
                    yield "balance", dict(n=n, lt=lt, NLS=NLS, which=w), dict(weight=n)
