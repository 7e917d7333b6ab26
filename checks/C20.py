"""C20 planned maintenance: a unit is out in exactly the weeks its plan names, and only then."""

BOUNDS = (
    "1 to 4 units in 1 to 3 areas with up to two planned outages each, any start week and length (within short windows chosen to cover the first and last weeks, overlaps and gaps); "
    "the plan made by the real planning step, then applied by the weekly event for all 52 weeks and the extra days of the year"
)
OUTSIDE = "the choice of weeks for units left to automatic planning"
ALONE = False
ASSUMPTIONS = ["the two outages of a unit do not overlap", "each unit is a plant of its own (as the input preparation numbers them)", "an outage has a start week whenever it has a length"]
NAMES = ["%s%03d" % ("ABC"[i % 3], i) for i in range(200)]


def ident(H, case):
    ID = []
    for i, (area, o1, o2) in enumerate(case["units"]):
        row = [i, i, area]
        for k, o in enumerate((o1, o2)):
            s = H.pick("start%d_%d" % (i, k), *o[0]) if isinstance(o[0], list) else o[0]
            d = H.pick("len%d_%d" % (i, k), *o[1]) if isinstance(o[1], list) else o[1]
            row += [int(s) - 1, int(d)]
        if row[3] >= 0 and row[5] >= 0:
            H.assume(row[3] + row[4] <= row[5] or row[5] + row[6] <= row[3])
        ID.append(row + [case["fixed"][i] if "fixed" in case else 1])
    return ID


def plan(H, case):
    """The plan of the year: every unit appears in exactly the weeks of its outages; the weekly event takes exactly those units out."""
    smaint, week, initfl = H.fn("data_processing.smaint"), H.fn("monte_carlo.week"), H.fn("monte_carlo.initfl")
    ID = ident(H, case)
    n, na = len(ID), case["areas"]
    A = H.arr([[H.const(x) for x in r] for r in ID], "i")
    R = [[H.const(case.get("cap", 100 * (i + 1) + 7 * q)) for q in range(4)] for i in range(n)]
    tenth = H.div(H.const(1), 10)
    P = [[1 - 2 * tenth, 1 - tenth] for i in range(n)]
    peak = [H.const(1000 + 10 * j) for j in range(na)]
    W = [[peak[j] * (90 - abs(26 - w)) / 100 if H.symbolic else peak[j] * (90 - abs(26 - w)) / 100.0 for w in range(52)] for j in range(na)]
    full = lambda x: H.arr([H.const(x)] * na, "i")  # noqa: E731
    J, tab = smaint(
        na, A, 6, H.arr(R, "f"), H.arr(P, "f"), H.arr([tenth * 5] * n, "f"), H.arr(peak, "f"), H.arr(W, "f"), case.get("print", 0),
        full(0), full(51), full(30), full(31), NAMES[:n], ["%02d" % i for i in range(n)],
    )  # fmt: skip
    out = [[False] * n for _ in range(52)]
    for i, r in enumerate(ID):
        for k in (3, 5):
            for w in range(max(r[k], 0), min(r[k] + r[k + 1], 52)):
                if r[k] >= 0:
                    out[w][i] = True
    for i, r in enumerate(ID):
        for k, x in enumerate(r):
            H.check_eq("unit %d: plan entry is kept" % i, A[i, k], x)
    # the weekly event: hour 167 of the last year's end, then each week end
    for w in list(range(52)) + [52]:
        MFA, IP, EV = initfl()
        st = H.arr([H.const(0 if (w + i) % 2 else 1) for i in range(n)], "f")
        hour = 8759 if w == 0 else 168 * w - 1
        clock = H.const(8760 * case.get("year", 0) + 168 * w)
        week(clock, H.arr([clock, 1], "f"), MFA, 0, IP, EV, st, hour, J)
        for i in range(n):
            gone = out[w][i] if w < 52 else False
            H.check_eq("unit %d: %s week %d" % (i, "out in" if gone else "available in", w + 1), st[i], 0 if gone else 1)


HARNESSES = dict(plan=plan)


def cases(tier):
    N = [0, 0]
    yield "plan", dict(areas=1, units=[[0, [[1, 2], [1, 3]], N], [0, N, N]]), {}
    yield "plan", dict(areas=1, units=[[0, [[50, 52], [1, 4]], [[18, 20], 2]], [0, [10, 4], [14, 4]]]), {}
    yield "plan", dict(areas=2, units=[[0, [5, [2, 4]], [[6, 9], 3]], [1, [5, 3], N], [1, N, [7, 1]]], year=1), {}
    yield "plan", dict(areas=3, units=[[2, [8, 2], [10, 2]], [0, [8, 2], [30, 5]], [2, [9, 1], N], [1, [51, 2], [1, 1]]]), {}
    yield "plan", dict(areas=1, units=[[0, [[3, 52], [1, 2]], [20, 1]]]), {}
    yield "plan", dict(areas=2, units=[[0, [1, 52], N], [1, [1, 1], [52, 1]]], print=1), {}
    together = [[i % 2, [[20, 22], 1 + i % 3], [40 - i, 2]] for i in range(6)]
    yield "plan", dict(areas=2, units=[[a, o if i in (0, 5) else [21, o[1]], p] for i, (a, o, p) in enumerate(together)], year=3), dict(weight=3)
    many = [[i // 70, [[30, 31], 2] if i in (3, 133) else [29 + i % 3, 2 + i % 2], N] for i in range(134)]
    yield "plan", dict(areas=2, units=many, cap=10), dict(weight=4)
    yield "plan", dict(areas=1, units=[[0, [[4, 6], 3], N], [0, [0, 2], N], [0, N, [[9, 10], 2]]], fixed=[1, 0, 1]), {}
    yield "plan", dict(areas=2, units=[[0, [0, 3], N], [1, [[4, 6], 3], N], [1, [0, 2], [0, 1]], [0, [7, 2], N]], fixed=[0, 1, 0, 1], print=1), {}
