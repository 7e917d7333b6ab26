"""C09 DC power flow: line flows follow the angles and balance the injections in every area."""
from .C07 import build, connected, lp

BOUNDS = (
    "networks of up to 5 areas and 7 lines with parallel and reversed lines, every reference area; "
    "arbitrary real injections, angles and admittances for single steps; admittances of one line symbolic (others fixed) "
    "when the network solution is composed end to end; every ordering of areas"
)
OUTSIDE = "larger networks"
ALONE = False
ASSUMPTIONS = ["the injections sum to zero or the reference area takes up the difference"]


def lines(H, case):
    ends, na = case["ends"], case["na"]
    flo = H.fn("monte_carlo.flo")
    th = [H.real("th%d" % i, -10, 10) for i in range(na)]
    b = [H.real("b%d" % i, -100, 100) for i in range(len(ends))]
    BLP = H.arr([[x, H.const(50), H.const(60)] for x in b], "f")
    S, F = flo(lp(H, ends), BLP, H.arr(th, "f"))
    out = [0] * na
    for i, (j, k) in enumerate(ends):
        f = (th[j] - th[k]) * b[i]
        H.check_eq("flow on line %d is its admittance times the angle difference" % i, F[i], f)
        out[k] = out[k] + f
        out[j] = out[j] - f
    for a in range(na):
        H.check_eq("net inflow of area %d is the sum of its line flows" % a, S[a], out[a])
    H.check_eq("net inflows cancel over the pool", H.sum_(H.scalar(S[a]) for a in range(na)), 0)
    H.observe("F", F)


def angles(H, case):
    na = case["na"]
    theta, thetac = H.fn("monte_carlo.theta"), H.fn("monte_carlo.thetac")
    Z = [[H.real("z%d_%d" % (i, j), -10, 10) for j in range(na)] for i in range(na)]
    J = [H.real("j%d" % i, -100, 100) for i in range(na)]
    T = theta(H.arr(Z, "f"), H.arr(J, "f"))
    for i in range(na):
        H.check_eq("angle at position %d" % i, T[i], H.sum_(Z[i][k] * J[k] for k in range(na)))
    LT = []
    for i in range(na):
        k = H.pick("lt%d" % i, 0, na - 1)
        H.assume(all(k != x for x in LT))
        LT.append(k)
    th = [H.real("th%d" % i, -10, 10) for i in range(na)]
    C = thetac(H.arr(th, "f"), H.arr(LT, "i"))
    for i in range(na):
        H.check_eq("angle assigned to the area at position %d" % i, C[LT[i]], th[i] if i < na - 1 else 0)


def network(H, case):
    """tm1, angles and flows composed: what flows out of an area is what is injected there."""
    ends, na, NR = case["ends"], case["na"], case["NR"]
    b = [H.const(2 + i) for i in range(len(ends))]
    if case["sym"] is not None:
        b[case["sym"]] = H.real("b", 1, 50)
    cap = H.const(100)
    LP = lp(H, ends)
    BLP = H.arr([[x, cap, cap] for x in b], "f")
    BN = H.arr([[H.const(i)] + [H.const(0)] * 4 for i in range(na)], "f")
    _, BB, LT, ZB = H.fn("monte_carlo.tm1")(BN, LP, BLP, NR)
    J = [H.real("j%d" % i, -100, 100) for i in range(na)]
    lt = [int(x) for x in H.lst(LT)]
    INJ = H.arr([J[k] for k in lt], "f")
    T = H.fn("monte_carlo.theta")(ZB, INJ)
    C = H.fn("monte_carlo.thetac")(T, LT)
    S, F = H.fn("monte_carlo.flo")(LP, BLP, C)
    H.check_eq("reference area has zero angle", C[NR], 0)
    tot = 0
    for a in range(na):
        net = 0
        for i, (j, k) in enumerate(ends):
            if j == a:
                net = net + H.scalar(F[i])
            if k == a:
                net = net - H.scalar(F[i])
        if a != NR:
            H.check_eq("flows leaving area %d equal its injection" % a, net, J[a], tol=1e-4)
            tot = tot + J[a]
        else:
            H.check_eq("the reference area takes up the difference", net, 0 - H.sum_(J[x] for x in range(na) if x != NR), tol=1e-4)
        H.check_eq("net inflow reported for area %d" % a, S[a], 0 - net)
    for i, (j, k) in enumerate(ends):
        H.check_eq("line %d follows the angle difference" % i, F[i], (H.scalar(C[j]) - H.scalar(C[k])) * b[i])


HARNESSES = dict(lines=lines, angles=angles, network=network)

NETS = [
    ([(0, 1)], 2), ([(1, 0), (0, 1)], 2), ([(0, 1), (1, 2)], 3), ([(2, 0), (1, 2)], 3), ([(0, 1), (1, 2), (2, 0)], 3),
    ([(0, 1), (0, 1), (2, 1)], 3), ([(0, 1), (1, 2), (2, 3), (3, 0)], 4), ([(3, 1), (1, 0), (2, 1), (1, 2)], 4),
]  # fmt: skip
BIG = [([(0, 1), (1, 2), (2, 3), (3, 4), (4, 0), (1, 4), (4, 1)], 5), ([(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], 4), ([(0, 1), (0, 2), (0, 3), (1, 2), (3, 2)], 4)]


def cases(tier):
    t = tier == "thorough"
    for ends, na in NETS + BIG:
        yield "lines", dict(ends=ends, na=na), {}
    for na in (2, 3, 4):
        yield "angles", dict(na=na), {}
    for ends, na in NETS + BIG:
        if not connected(ends, na):
            continue
        for NR in range(na):
            for s in [None, 0] + ([len(ends) - 1] if t else []):
                if (na == 5 or na == 4 and NR % 2) and s is not None and not t:
                    continue
                yield "network", dict(ends=ends, na=na, NR=NR, sym=s), dict(weight=na)
