"""C05 firm contracts: every contract counts on each of its days, for both its areas, and only there."""
from .inputs import DX, Inputs

BOUNDS = (
    "up to 4 contracts among up to 3 areas and 7 among 5 (several per pair, both directions, overlapping), arbitrary power of either sign, every day of the year; contract days "
    "chosen freely within short windows at the start, the middle and the end of the year; peak days at season changes"
)
OUTSIDE = "more than 60 pairs of areas with contracts (the table's stated capacity)"
ALONE = False
ASSUMPTIONS = ["first day not after last day, both between 1 and 365"]


def make(H, case):
    c = []
    for k, (a, b, x, y) in enumerate(case["contracts"]):
        x = H.pick("beg%d" % k, *x) if isinstance(x, list) else x
        y = H.pick("end%d" % k, *y) if isinstance(y, list) else y
        H.assume(x <= y)
        c.append((a, b, int(x), int(y)))
    n = case["areas"]
    return Inputs(H, areas=["'A%d'" % (j + 1) for j in range(n)], units=[j % n for j in range(2)], lines=[(0, 1 % n)], contracts=c, lfu=0), n


def table(H, I):
    d = dict(zip(DX, H.fn("data_processing.datax")(H.fn("data_processing.pind")(I.cards()))))
    return d, d["JENT"], d["INTCH"]


def transfers(H, case):
    """Scheduled transfers of a day: what the area sends minus what it receives, and nothing appears or vanishes."""
    I, n = make(H, case)
    findtn = H.fn("monte_carlo.findtn")
    d, JENT, INTCH = table(H, I)
    for day in range(365):
        t = findtn(JENT, INTCH, day)
        for i in range(n):
            H.check_eq("area %d: scheduled transfer on day %d" % (i, day), t[i], I.net(day, i))
        H.check_eq("transfers of day %d cancel" % day, H.sum_(t[i] for i in range(n)), 0)


def loads(H, case):
    """The load an area must serve with its contracts, and the plain load again after they are taken out."""
    I, n = make(H, case)
    for x in I.mw:
        H.assume(x != 0)
    add, take = H.opt("data_processing.xporta", case["fn"]), H.fn("data_processing.xports")
    if add is None:
        return H.check("alternative absent", True)
    d, JENT, INTCH = table(H, I)
    ends = sorted({1, 2, 3, 100, 364, 365} | {x for c in I.contracts for x in c[2:]} | {min(c[3] + 1, 365) for c in I.contracts} | {max(c[2] - 1, 1) for c in I.contracts})
    hours = [24 * (x - 1) + h for x in ends for h in (0, 11, 23)]
    plain = [[H.const(1000 + j)] * 8760 for j in range(n)]
    for j in range(n):
        for k, h in enumerate(hours[:3]):
            plain[j][h] = H.real("L%d_%d" % (j, k), 0, 5000)
    A = H.arr(plain, "f")
    before = H.lst(INTCH)
    add(JENT, INTCH, A)
    for h in hours:
        for j in range(n):
            H.check_eq("area %d: load with contracts in hour %d" % (j, h), A[j, h], plain[j][h] + I.net(h // 24, j))
        H.check_eq("the pool's load in hour %d is unchanged" % h, H.sum_(A[j, h] for j in range(n)), H.sum_(plain[j][h] for j in range(n)))
    take(JENT, INTCH, A)
    for h in hours:
        for j in range(n):
            H.check_eq("area %d: plain load again in hour %d" % (j, h), A[j, h], plain[j][h])
    for x, y in zip(H.lst(INTCH), before):
        H.check_eq("contracts are not altered", x, y)


def capacity(H, case):
    """Capacity an area owns at its peak: seasonal ratings of that day, less what it sends, plus what it receives."""
    I, n = make(H, case)
    f = H.opt("data_processing.resca", case["fn"])
    if f is None:
        return H.check("alternative absent", True)
    d, JENT, INTCH = table(H, I)
    half = H.div(H.const(1), 2)
    W = [H.int("W%d" % k, 1, 51) for k in range(3)]
    H.assume(H.and_(W[0] < W[1], W[1] < W[2]))
    peaks = [H.pick("day%d" % j, *case["days"]) for j in range(n)]
    old = [[H.real("s%d_%d" % (j, k), 0, 100) for k in range(6)] for j in range(n + 1)]
    S = H.arr(old, "f")
    own = [[H.real("o%d_%d" % (j, i), 0, 1) for i in range(2)] for j in range(n)]
    R = [[100 * i + 10 * q + 1 for q in range(4)] for i in range(2)]
    f(S, H.arr(peaks, "i"), H.arr([w * 168 + half for w in W], "f"), H.arr(own, "f"), H.arr([[H.const(x) for x in r] for r in R], "f"), JENT, INTCH)
    for j in range(n):
        day = int(peaks[j])
        cap = 0
        for i in range(2):
            r = R[i][0]
            for k in range(3):
                r = H.ite((day + 1) * 24 > W[k] * 168, R[i][k + 1], r)
            cap = cap + own[j][i] * r
        H.check_eq("area %d: capacity at its peak" % j, S[j, 1], old[j][1] + cap - I.net(day, j))
        for k in (0, 2, 3, 4, 5):
            H.check_eq("area %d: other figures are left alone" % j, S[j, k], old[j][k])
    for k in range(6):
        H.check_eq("pool figures are left alone", S[n, k], old[n][k])


HARNESSES = dict(transfers=transfers, loads=loads, capacity=capacity)


def cases(tier):
    t = tier == "thorough"
    sets = [
        dict(areas=2, contracts=[[0, 1, 1, 365]]),
        dict(areas=2, contracts=[[1, 0, [1, 3], [2, 4]]]),
        dict(areas=2, contracts=[[0, 1, 10, 20], [0, 1, [15, 21], 30]]),
        dict(areas=2, contracts=[[0, 1, 10, 20], [1, 0, 5, [10, 12]], [1, 0, 20, 22]]),
        dict(areas=2, contracts=[[0, 1, 10, 20], [0, 1, [5, 8], [14, 16]]]),
        dict(areas=2, contracts=[[1, 0, 10, 20], [1, 0, 12, [13, 14]], [1, 0, 7, 24]]),
        dict(areas=3, contracts=[[2, 0, [363, 365], 365], [0, 1, 5, 365]]),
        dict(areas=3, contracts=[[1, 2, 1, 365], [2, 1, 3, 3], [0, 2, 2, 364], [1, 2, 200, 300]]),
        dict(areas=3, contracts=[]),
        dict(areas=5, contracts=[[4, 0, 3, 7], [1, 3, 5, 9], [3, 1, 1, 4], [2, 4, 6, 6], [0, 4, 2, 8], [4, 0, 20, 22], [3, 2, 7, 7]]),
    ]
    for s in sets:
        yield "transfers", s, dict(weight=3)
        for fn in ("xporta", "_xporta"):
            if not t and fn == "_xporta" and len(s["contracts"]) > 2:
                continue
            short = dict(s, contracts=[[a, b, x, min(y, (x[1] if isinstance(x, list) else x) + 12) if not isinstance(y, list) else y] for a, b, x, y in s["contracts"]]) if not t else s
            yield "loads", dict(short, fn=fn), dict(weight=3)
    for fn in ("resca", "_resca"):
        for s, days in [(sets[0], [90, 92]), (sets[-3], [0, 3]), (sets[6], [362, 364]), (sets[-2], [181, 183]), (sets[-1], [6, 6]), (sets[4], [9, 10])]:
            yield "capacity", dict(s, fn=fn, days=days), dict(weight=3)
