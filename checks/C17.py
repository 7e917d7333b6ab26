"""C17 years are independent: each starts from zero and the totals are the sums over all years, with the real convergence test."""
from .yearly import BINS, Year

BOUNDS = "two or three years in a row, 1 or 2 areas, one or five forecast levels; losses of each year counted by the real hourly and peak routines or arbitrary counters"
OUTSIDE = "more than three years in a row (each year's step is checked from arbitrary totals in C16)"
ASSUMPTIONS = ["yearly totals that select distribution classes are fixed per case, their split into causes is arbitrary"]


def quiet(H):
    """Final report and snapshots are not under test here."""
    H.load("monte_carlo.year")
    got = []

    def rp(*a, **k):
        got.append(H.bound(o, a, k))
        return 0

    o = H.replace("monte_carlo.report", rp)
    H.replace("monte_carlo.intm", lambda *a, **k: None)
    return got


def years(H, case):
    n, nf, years = case["areas"], case["levels"], case["years"]
    quiet(H)
    norr = 2 if nf == 5 else 0
    Y = Year(H, n, nf, norr, 50, zero=True, KWHERE=2, KVTYPE=2)
    sq, last = 0.0, 0.0
    tot = [H.const(0)]
    for y in range(1, years + 1):
        Y.set(Y.symbolic_counts("y%d" % y, 1000, fixed=case["totals"][y - 1]))
        year_total = Y.total("LOLSHP", norr)
        r = Y.run(CLOCK=8760.0 * y, SSQ=sq, XLAST=last, INTVT=-1)
        sq, last = r["SSQ"], r["XLAST"]
        tot.append(year_total)
        Y.check_reset()
        H.check_eq("watched statistic after %d years" % y, last, H.sum_(tot))
        H.check_eq("its sum of squared years after %d years" % y, sq, H.sum_(t * t for t in tot))
        H.check_eq("no stop before the fifth year", r["RFLAG"], 0)
    Y.check_sums()
    Y.check_squares()
    Y.check_bins()
    for k in ("HLOLE", "DPLOLE", "EUES"):
        for j in range(n):
            H.check_eq("%s of area [%d] counts every year once" % (k, j), H.sum_(Y.get(k, j, c) for c in range(BINS)), years)


def hours(H, case):
    """Losses found in the hours of a year are in that year's totals and in no other's."""
    quiet(H)
    hr, pk = H.fn("monte_carlo.hrstat"), H.fn("monte_carlo.pkstat")
    n, years = 2, case["years"]
    Y = Year(H, n, 1, 0, 10**6, zero=True)
    HN = ("LOLGHA", "LOLGHP", "LOLTHA", "LOLTHP", "MGNGHA", "MGNGHP", "MGNTHA", "MGNTHP")
    PN = ("LOLGPA", "LOLGPP", "LOLTPA", "LOLTPP", "MGNGPA", "MGNGPP", "MGNTPA", "MGNTPP")
    lost, cause = [H.const(0)] * n, {"T": H.const(0), "G": H.const(0)}
    sqs = H.const(0)
    for y in range(1, years + 1):
        energy = H.const(0)
        for h in range(case["hours"]):
            m = [H.int("m%d_%d_%d" % (y, h, j), -100, 100) for j in range(n)]
            H.assume(H.any_(*[x < 0 for x in m]))
            M = H.arr(m, "i")
            hr(0, M, LSFLG=Y.fix["LSFLG"], **{k: Y.A[k] for k in HN})
            pk(0, M, **{k: Y.A[k] for k in PN})
            t = H.sum_(m) >= 0
            need = [H.max(-x, 0) for x in m]
            lost = [a + b for a, b in zip(lost, need)]
            energy = energy + H.sum_(need)
            cause["T"] = cause["T"] + H.ite(t, 1, 0)
            cause["G"] = cause["G"] + H.ite(t, 0, 1)
        sqs = sqs + energy * energy
        Y.cnt = {}
        Y.expect = lambda: None
        Y.run(CLOCK=8760.0 * y, INTVT=-1)
        Y.check_reset()
    for c in "TG":
        for w in "HP":
            H.check_eq("cumulative losses of the pool, %s %s" % (c, w), Y.get("SOL%s%sP" % (c, w), 0), cause[c])
            H.check_eq("weighted losses of the pool, %s %s" % (c, w), Y.get("SWL%s%sP" % (c, w)), cause[c])
    for w in "HP":
        for j in range(n):
            H.check_eq("cumulative energy of area [%d] %s" % (j, w), Y.get("SGNS%sA" % w, j, 0), lost[j])
            H.check_eq("weighted energy of area [%d] %s" % (j, w), Y.get("SWNS%sA" % w, j), lost[j])
        H.check_eq("energy of the pool is that of its areas, %s" % w, Y.get("SGNS%sP" % w, 0), H.sum_(lost))
    H.check_eq("squares of the pool's yearly energy", Y.get("XNEWP", 1), sqs)


HARNESSES = dict(years=years, hours=hours)


def cases(tier):
    for nf in (1, 5):
        for n in (1, 2):
            yield "years", dict(areas=n, levels=nf, years=2 if tier == "quick" else 3, totals=((3, 60), (0, 21), (22, 1))), dict(time=600, weight=n * nf)
    yield "hours", dict(years=2, hours=1), dict(time=700, weight=8)
    if tier != "quick":
        yield "hours", dict(years=2, hours=2), dict(time=2500, weight=9, max_paths=100000)
