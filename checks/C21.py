"""C21 capacity outage table: every reachable outage with its exact probability of being reached or exceeded."""
import itertools

BOUNDS = (
    "1 to 3 units of two or three states added one after the other; arbitrary capacities and deratings (2 units), capacities on and between multiples of 10 MW (3 units); arbitrary state probabilities of at least 1 %; "
    "both versions of the unit addition; units that are practically never at full capacity are left out"
)
OUTSIDE = "the cut-off of states rarer than 1e-9 and the limit of 4950 states"
ALONE = False
ASSUMPTIONS = ["a unit's rounded capacity is not zero", "a derated unit loses no more than its capacity"]


def probs(H, i, three, free=True):
    lo = 0.01
    c = H.div(H.const(1), 100)
    p3 = H.real("out%d" % i, lo, 1) if free else H.div(H.const(7 + 2 * i), 100)
    p2 = (H.real("derated%d" % i, lo, 1) if free else H.div(H.const(11 + 3 * i), 100)) if three else H.const(0) * c
    H.assume(1 - p2 - p3 >= c)
    return 1 - p2 - p3, p2, p3


def compare(H, N, KA, PA, units, title=""):
    """units: (loss when derated, loss when out, p1, p2, p3)"""
    N = H.scalar(N) if not isinstance(N, int) else N
    outcomes = []
    for combo in itertools.product(*[[(0, u[2]), (u[0], u[3]), (u[1], u[4])] for u in units]):
        loss, p = H.const(0), H.const(1)
        for a, b in combo:
            loss, p = loss + a, p * b
        outcomes.append((loss, p))
    n = int(N)
    H.check_eq(title + "first state is no outage", KA[0], 0)
    H.check_eq(title + "some outage or none is certain", PA[0], 1)
    for k in range(n):
        if k:
            H.check(title + "states ascend", KA[k] > KA[k - 1])
        H.check_eq(title + "probability of state %d or a larger outage" % k, PA[k], H.sum_(H.ite(a >= KA[k], p, 0 * p) for a, p in outcomes), tol=1e-9)
        H.check(title + "state %d is a reachable outage" % k, H.any_(KA[k] == a for a, _ in outcomes))
    for a, _ in outcomes:
        H.check(title + "every reachable outage is a state", H.any_(KA[k] == a for k in range(n)))
    H.check_eq(title + "nothing beyond the last state", PA[n], 0)


def adding(H, case):
    """Units added one by one."""
    add = H.fn("data_processing.gsm", case["fn"]) if H.opt("data_processing.gsm", case["fn"]) else None
    if add is None:
        return
    KA, PA = H.zeros(5000, "f"), H.zeros(5000, "f")
    PA[0] = 1
    N, units = 1, []
    for i, three in enumerate(case["units"]):
        KT = H.int("capacity%d" % i, 1, 500)
        KP = H.const(0)
        if three:
            KP = H.int("derating%d" % i, 0, 500)
            H.assume(KP <= KT)
        p = probs(H, i, three, case.get("free", True))
        units.append((KP, KT) + p)
        N = add(N, KT, KP, *p, PA, KA)
    compare(H, N, KA, PA, units)


def table(H, case):
    """The table of a list of units, capacities rounded to 10 MW."""
    f = H.fn("data_processing.pmlolp")
    caps, RD, units = [], [], []
    for i, (cap, part) in enumerate(case["units"]):
        c = H.real("cap%d" % i, cap, cap + 9.99) if case.get("free") else H.const(cap)
        p1, p2, p3 = probs(H, i, part > 0)
        if case.get("never") == i:
            p2, p3 = (H.const(0), H.const(1)) if not part else (p2, 1 - p2)
            p1 = 0
        KT = 10 * H.floor((c + H.div(H.const(11), 2)) / 10)
        KP = 10 * H.floor((KT * H.const(part) / 100 + H.div(H.const(11), 2)) / 10) if part else H.const(0)
        caps.append(c)
        RD.append([p2, p3, H.div(H.const(part), 100)])
        if case.get("never") != i:
            units.append((KP, KT, p1, p2, p3))
    N, KA, PA = f(H.arr(caps, "f"), H.arr(RD, "f"), len(caps))
    compare(H, N, KA, PA, units)


HARNESSES = dict(adding=adding, table=table)


def cases(tier):
    for fn in ("gsm", "_gsm"):
        yield "adding", dict(fn=fn, units=[1]), {}
        yield "adding", dict(fn=fn, units=[1, 0]), {}
        yield "adding", dict(fn=fn, units=[0, 1]), {}
        yield "adding", dict(fn=fn, units=[1, 1]), dict(max_paths=600, time=300)
        yield "adding", dict(fn=fn, units=[0, 0, 0]), dict(max_paths=600, time=300)
        if tier != "quick":
            yield "adding", dict(fn=fn, units=[1, 0, 0]), dict(max_paths=3000, time=800)
    yield "table", dict(free=1, units=[[5, 0], [14.5, 40]]), {}
    yield "table", dict(free=1, units=[[37, 20], [95, 0], [5, 0]]), {}
    yield "table", dict(free=1, units=[[100, 50]]), {}
    yield "table", dict(units=[[14.5, 20], [30, 10]]), {}
    yield "table", dict(free=1, units=[[15, 50], [102, 0]]), {}
    yield "table", dict(units=[[44.5, 50], [100, 0], [23, 90]]), {}
    yield "table", dict(units=[[50, 0], [100, 30], [50, 0]], never=1), {}
    yield "table", dict(units=[[50, 0], [80, 0], [35, 0], [105, 0]]), {}
