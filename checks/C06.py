"""C06 hourly loads: read in place, scaled to each area's annual peak, peaks of days, weeks and pool."""

BOUNDS = (
    "load file with 1 to 12 areas in any order, 3 arbitrary hourly values per area among constant ones, values also glued to the date field; daily peaks: up to 3 areas, one of 5, "
    "days of 2 to 5 hours with all hours arbitrary, days of 24 hours with 4 arbitrary hours; weekly peaks: all 365 daily peaks arbitrary; forecast factors arbitrary"
)
OUTSIDE = "load files that do not list 8760 values for an area"
ALONE = False
ASSUMPTIONS = ["ties may be resolved to any hour that attains the peak"]


def leei(H, case):
    """Every value of the load file lands on its area and hour, scaled so that the area's largest load is its annual peak."""
    f = H.fn("data_processing.xldnew")
    n, order = case["n"], case["order"]
    spots = case["spots"]
    base = 8
    V = {}
    for j in order:
        for k, h in enumerate(spots):
            V[j, h] = H.int("v%d_%d" % (j, k), 0, 999) if j in case["free"] else H.const(9 + j + k)
    lines = []
    for j in order:
        lines.append("AREA:A%d" % (j + 1))
        for h in range(0, 8760, 12):
            xs = [V[j, x] if x in spots else H.const(base) for x in range(h, h + 12)]
            lines.append("%s%s" % (case.get("prefix", "010180 1 1 "), " ".join(H.text(x) for x in xs)))
    H.put_file("leei", "\n".join(lines) + case.get("end", "\n"))
    P = [H.real("peak%d" % j, 0, 10**4) for j in range(n)]
    out = f("leei", H.arr(P, "f"))
    H.check("one row per area, one column per hour", tuple(out.shape) == (n, 8760))
    for j in range(n):
        if j not in order:
            for h in spots:
                H.check_eq("area %d has no loads" % j, out[j, h], 0)
            continue
        top = H.const(base)
        for h in spots:
            top = H.max(top, V[j, h])
        hs = sorted(set(spots) | {h + d for h in spots for d in (-1, 1) if 0 <= h + d < 8760} | {0, 11, 12, 8759})
        for h in hs:
            v = V[j, h] if h in spots else H.const(base)
            H.check_eq("area %d hour %d" % (j, h), out[j, h] * top, v * P[j])
            H.check_le("area %d: no load exceeds the annual peak" % j, out[j, h], P[j])
        H.check("area %d: the annual peak is attained" % j, H.any_(*[out[j, h] == P[j] for h in hs]))


def days(H, case):
    """Daily peaks, their hours and the day of the annual peak; for each area by itself."""
    f = H.opt("data_processing.dpeak", case["fn"])
    if f is None:
        return H.check("alternative absent", True)
    n, d, w = case["n"], case["days"], case["hours"]
    L = [[H.real("l%d_%d" % (j, h), -50, 5000) if (case.get("free") is None or h in case["free"]) and j in case.get("who", [j]) else H.const((7 * h + j) % 40) for h in range(d * w)] for j in range(n)]
    A = H.arr(L, "f")
    hr, pk, dy = f(A) if w == 24 else f(A, hour_within_day=w)
    for j in range(n):
        for k in range(d):
            day = L[j][k * w : (k + 1) * w]
            top = day[0]
            for x in day[1:]:
                top = H.max(top, x)
            H.check_eq("area %d: peak of day %d" % (j, k), pk[j, k], top)
            H.check("area %d: peak hour of day %d lies in the day" % (j, k), H.and_(hr[j, k] >= k * w, hr[j, k] < (k + 1) * w))
            for h in range(k * w, (k + 1) * w):
                H.check_eq("area %d: load in the peak hour of day %d" % (j, k), L[j][h], top, when=hr[j, k] == h)
        for k in range(d):
            for m in range(d):
                H.check_le("area %d: the peak day has the highest peak" % j, pk[j, m], pk[j, k], when=dy[j] == k)
        H.check("area %d: the peak day is a day" % j, H.and_(dy[j] >= 0, dy[j] < d))
        for h in range(d * w):
            H.check_eq("loads are not altered", A[j, h], L[j][h])


def pool(H, case):
    """The pool's peak hour of each day."""
    f = H.fn("data_processing.plhr")
    n, d = case["n"], case["days"]
    L = [[H.real("l%d_%d" % (j, h), 0, 5000) if h in case["free"] else H.const((5 * h + 3 * j) % 30) for h in range(24 * d)] for j in range(n)]
    hr = f(H.arr(L, "f"))
    H.check("one hour per day", len(hr) == d)
    for k in range(d):
        tot = [H.sum_(L[j][h] for j in range(n)) for h in range(24 * k, 24 * k + 24)]
        H.check("peak hour of day %d lies in the day" % k, H.and_(hr[k] >= 24 * k, hr[k] < 24 * k + 24))
        top = tot[0]
        for x in tot[1:]:
            top = H.max(top, x)
        for h in range(24):
            H.check_eq("pool load in the peak hour of day %d" % k, tot[h], top, when=hr[k] == 24 * k + h)


def weeks(H, case):
    f = H.opt("data_processing.wpeakf", case["fn"])
    if f is None:
        return H.check("alternative absent", True)
    n = case["n"]
    free = case.get("free")
    D = [[H.real("d%d_%d" % (j, k), -50, 5000) if free is None or k in free else H.const((11 * k + j) % 60) for k in range(365)] for j in range(n)]
    W = f(H.arr(D, "f"))
    H.check("52 weeks per area", tuple(W.shape) == (n, 52))
    for j in range(n):
        for w in range(52):
            ds = D[j][7 * w : 7 * w + 7] if w < 51 else D[j][357:]
            H.check("area %d: no day of week %d is higher" % (j, w), H.all_(*[x <= W[j, w] for x in ds]))
            H.check("area %d: a day of week %d attains the peak" % (j, w), H.any_(*[x == W[j, w] for x in ds]))


def levels(H, case):
    """Load of an hour at a forecast level."""
    f = H.fn("monte_carlo.findld")
    n = case["n"]
    h = H.pick("hour", *case["hours"])
    s = H.pick("level", 0, 4)
    L = [[H.real("l%d_%d" % (j, k), 0, 5000) for k in range(6)] for j in range(n)]
    F = [[H.int("f%d_%d" % (j, k), 0, 3) for k in range(5)] for j in range(n)]
    r = f(s, h, H.arr(L, "f"), H.arr(F, "f"))
    for j in range(n):
        H.check_eq("load of area %d" % j, r[j], L[j][int(h)] * F[j][int(s)])


HARNESSES = dict(leei=leei, days=days, pool=pool, weeks=weeks, levels=levels)


def cases(tier):
    t = tier == "thorough"
    yield "leei", dict(n=1, order=[0], free=[0], spots=[0, 13, 8759]), {}
    yield "leei", dict(n=2, order=[1, 0], free=[0, 1], spots=[11, 12, 5000]), dict(weight=5)
    yield "leei", dict(n=3, order=[2, 0], free=[2], spots=[23, 24], prefix="0101801  ", end=""), dict(weight=5)
    yield "leei", dict(n=12, order=[11, 9, 1], free=[11], spots=[3, 8758]), dict(weight=9)
    for fn in ("dpeak", "_dpeak"):
        yield "days", dict(fn=fn, n=1, days=2, hours=5 if t else 4), dict(weight=3)
        yield "days", dict(fn=fn, n=1, days=4, hours=2), dict(weight=3)
        yield "days", dict(fn=fn, n=2, days=2, hours=2), dict(weight=3)
        yield "days", dict(fn=fn, n=1, days=2, hours=24, free=[0, 23, 24, 47] if t or fn == "dpeak" else [0, 24]), {}
        for j in range(1, 5):
            yield "days", dict(fn=fn, n=5, days=3, hours=24, free=[3, 30, 71], who=[j]), {}
    yield "days", dict(fn="dpeak", n=2, days=2, hours=24, free=[0, 23, 24, 47]), {}
    yield "pool", dict(n=1, days=2, free=[0, 5, 23, 24, 47]), {}
    yield "pool", dict(n=3, days=1, free=[0, 7, 23]), {}
    for fn in ("wpeakf", "_wpeakf"):
        yield "weeks", dict(fn=fn, n=1, free=[0, 6, 7, 357, 364]), {}
        yield "weeks", dict(fn=fn, n=2, free=[350, 356, 364] if t or fn == "wpeakf" else [356, 364]), {}
    yield "weeks", dict(fn="wpeakf", n=1, free=None), {}
    for fn in ("wpeakf", "_wpeakf"):
        yield "weeks", dict(fn=fn, n=4, free=[7, 364] if fn == "wpeakf" else [364]), {}
    yield "levels", dict(n=2, hours=[0, 5]), {}
    yield "levels", dict(n=5, hours=[4, 5]), {}
    yield "pool", dict(n=5, days=2, free=[5, 23]), {}
