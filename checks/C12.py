"""C12 least load curtailment within transmission limits."""
from .net import better, conc_net, eps, flows_ok, le, near

BOUNDS = (
    "2 areas with one or two parallel lines, 3 areas in a chain and in a ring, every reference area (thorough: 4 areas "
    "in a ring, all sign patterns); symbolic net injections of every area in [-500, 500] MW, with symbolic line "
    "capacities in both directions or symbolic import/export limits on the 2-area networks (thorough: also one symbolic "
    "line of a 3-area ring); concrete admittances; every simplex path explored to its end; 0.001 MW slack for the "
    "program's own thresholds, 0.01 MW for optimality"
)
OUTSIDE = "networks that a line outage splits; more than 3 areas (thorough 4); symbolic admittances inside the LP"
ALONE = False
ASSUMPTIONS = [
    "connected network; with loss sharing the import and export limit of an area are equal and the available capacity "
    "is not negative",
    "exact real arithmetic instead of floating point",
]


def setup(H, case):
    ends, na, NR, b = case["ends"], case["na"], case["NR"], case["b"]
    LP, bl0, BB, LT, ZB = conc_net(H, ends, na, NR, b)
    J = [H.real("j%d" % a, -500, 500) if a in case["sj"] else H.const(case["j0"][a]) for a in range(na)]
    cap = [[H.real("f%d" % i, 0, 300), H.real("r%d" % i, 0, 300)] if i in case["sc"] else [H.const(120), H.const(90)] for i in range(len(ends))]
    if case["lim"]:
        lim = [[H.real("im%d" % a, 0, 600), H.real("ex%d" % a, 0, 600)] if case["lim"] == 2 else [H.real("lim%d" % a, 0, 600)] * 2 for a in range(na)]
    else:
        lim = [[H.const(30000)] * 2 for a in range(na)]
    signs = case.get("signs")
    if signs:
        for a in range(na):
            H.assume(J[a] > 0 if signs[a] > 0 else J[a] <= 0)
    return ends, na, NR, b, LP, bl0, BB, LT, ZB, J, cap, lim


def run(H, case, NLS, load):
    ends, na, NR, b, LP, bl0, BB, LT, ZB, J, cap, lim = setup(H, case)
    if load is not None:
        for a in range(na):
            H.assume(J[a] + load[a] >= 0)
    BN = H.arr([[H.const(a), load[a] if load else H.const(0), J[a], lim[a][0], lim[a][1]] for a in range(na)], "f")
    BLP = H.arr([[H.const(b[i])] + cap[i] for i in range(len(ends))], "f")
    B0, Z0 = H.lst(BB), H.lst(ZB)
    F, ind = H.fn("monte_carlo.tm2")(
        BN, LP, BLP, bl0, BB, ZB, LT, NR, NLS, H.zeros((na, 6)), 100, 99, 0, 0, H.arr([1], "f"), H.arr([1], "f")
    )  # fmt: skip
    F = H.lst(F)
    inj = [H.scalar(BN[a, 1]) for a in range(na)]
    cur = [H.scalar(BN[a, 2]) for a in range(na)]
    for x, y in zip(B0 + Z0, H.lst(BB) + H.lst(ZB)):
        H.check_eq("network matrices are left as they were", y, x)
    for a in range(na):
        H.check_eq("area %d: limits are left as they were" % a, BN[a, 3], lim[a][0])
        H.check_eq("area %d: limits are left as they were" % a, BN[a, 4], lim[a][1])
    flows_ok(H, "dispatch", ends, na, NR, b, F, inj, cap, lim)
    H.observe("F", F)
    H.observe("cur", cur)
    return ends, na, NR, b, J, cap, lim, F, inj, cur


def dispatch(H, case):
    """No loss sharing: only areas in deficit are curtailed, and in total as little as possible."""
    ends, na, NR, b, J, cap, lim, F, inj, cur = run(H, case, 1, None)
    for a in range(na):
        le(H, "area %d: no negative curtailment" % a, 0, cur[a])
        near(H, "area %d: served injection is demand less curtailment" % a, inj[a], J[a] + cur[a], when=J[a] <= 0)
        le(H, "area %d: curtailment not above its deficit" % a, cur[a], 0 - J[a], when=J[a] <= 0)
        le(H, "area %d: no curtailment in a surplus area" % a, cur[a], 0, when=J[a] >= 0)
        le(H, "area %d: does not give more than its surplus" % a, inj[a], J[a], when=J[a] >= 0)
        le(H, "area %d: surplus area does not import" % a, 0, inj[a], when=J[a] >= 0)
    H.exists_better("total curtailment is the least possible", better(H, ends, na, NR, b, J, cap, lim, H.sum_(cur)))


def sharing(H, case):
    """Loss sharing: any area's load may be curtailed, in total as little as possible."""
    na = case["na"]
    load = [H.const(600 - 50 * a) for a in range(na)]
    ends, na, NR, b, J, cap, lim, F, inj, cur = run(H, case, 0, load)
    for a in range(na):
        le(H, "area %d: no negative curtailment" % a, 0, cur[a])
        le(H, "area %d: curtailment not above its load" % a, cur[a], load[a])
        le(H, "area %d: does not use more than its capacity" % a, inj[a] + load[a] - cur[a], load[a] + J[a])
        le(H, "area %d: generation is not negative" % a, 0, inj[a] + load[a] - cur[a])
    H.exists_better(
        "total curtailment is the least possible", better(H, ends, na, NR, b, J, cap, lim, H.sum_(cur), load=load)
    )


HARNESSES = dict(dispatch=dispatch, sharing=sharing)


def cases(tier):
    t = tier == "thorough"
    two = dict(na=2, sj=[0, 1], j0=[0, 0])
    big = dict(max_paths=6000, time=600, weight=6)
    for NR in (0, 1):
        yield "dispatch", dict(two, ends=[(0, 1)], NR=NR, b=[-10], sc=[0], lim=0), {}
        yield "dispatch", dict(two, ends=[(1, 0)], NR=NR, b=[-10], sc=[0], lim=0), {}
        if NR == 0 or t:
            yield "dispatch", dict(two, ends=[(0, 1)], NR=NR, b=[-10], sc=[], lim=2), dict(big)
            yield "dispatch", dict(two, ends=[(0, 1), (0, 1)], NR=NR, b=[-10, -20], sc=[0, 1], lim=0), dict(big)
        yield "sharing", dict(two, ends=[(0, 1)], NR=NR, b=[-10], sc=[0], lim=0), dict(weight=3)
        if t:
            yield "dispatch", dict(two, ends=[(1, 0)], NR=NR, b=[-10], sc=[], lim=2), dict(big)
            yield "sharing", dict(two, ends=[(0, 1)], NR=NR, b=[-10], sc=[], lim=1), dict(big)
    ring = [(0, 1), (1, 2), (2, 0)]
    pats = [(1, -1, -1), (-1, 1, -1), (1, 1, -1), (-1, -1, 1), (1, -1, 1), (-1, 1, 1)]
    for NR in (0, 1, 2):
        for n, signs in enumerate(pats):
            c3 = dict(na=3, NR=NR, sj=[0, 1, 2], j0=[0] * 3, sc=[], lim=0, signs=signs)
            ch = dict(c3, ends=ring[:2], b=[-10, -20])
            rg = dict(c3, ends=ring, b=[-10, -20, -10])
            if t or n in (NR, (NR + 3) % 6):
                yield "dispatch", ch, dict(weight=3)
            if t or (NR, n) in ((0, 1), (1, 3), (2, 4)):
                yield "dispatch", rg, dict(big)
            if t or (n == 0 and NR == 1) or (n == 2 and NR == 2):
                yield "sharing", ch, dict(weight=4)
            if t and n < 3:
                yield "sharing", rg, dict(big)
        if t:
            for n, j0 in enumerate(([300, -200, -150], [-250, 300, -40], [200, -100, -260])):
                yield "dispatch", dict(na=3, NR=NR, sj=[], j0=j0, sc=[n], lim=0, ends=ring, b=[-10, -20, -10]), dict(big)
                yield "dispatch", dict(na=3, NR=NR, sj=[0], j0=j0, sc=[n], lim=0, ends=ring, b=[-10, -20, -10]), dict(big)
    if t:
        r4 = [(0, 1), (1, 2), (2, 3), (3, 0)]
        for NR in (0, 2):
            for j0 in ([300, -200, -150, 50], [-250, 300, -40, -60]):
                for a in range(4):
                    yield "dispatch", dict(na=4, NR=NR, sj=[a, (a + 1) % 4], j0=j0, sc=[], lim=0, ends=r4, b=[-10, -20, -10, -5]), dict(big)
