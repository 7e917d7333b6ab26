"""C16 yearly results: sums, probability-weighted averages, squares, distributions and the statistic that decides convergence."""
from .yearly import BINS, CUM, WTD, Year

BOUNDS = (
    "1 to 4 areas (thorough 6), one or five forecast levels, arbitrary yearly counts and earlier totals; distribution classes: every count up to 25 in one area at a time, "
    "several class widths; every choice of convergence statistic; arbitrary clock in whole years up to 20"
)
OUTSIDE = "more areas"
ASSUMPTIONS = ["yearly counts are not negative integers, the class width is a positive integer"]


def stub(H, log):
    H.load("monte_carlo.year")

    def cv(*a, **k):
        b = H.bound(o["cvchk"], a, k)
        log["cvchk"] = b
        return log.get("flag", 0), "SSQ!", "XLAST!"

    def im(*a, **k):
        log["intm"] = log.get("intm", 0) + 1
        log["intm_args"] = H.bound(o["intm"], a, k)

    def rp(*a, **k):
        log["report"] = log.get("report", 0) + 1
        log["report_args"] = H.bound(o["report"], a, k)
        return "ITAB!"

    o = {}
    o["cvchk"] = H.replace("monte_carlo.cvchk", cv)
    o["intm"] = H.replace("monte_carlo.intm", im)
    o["report"] = H.replace("monte_carlo.report", rp)
    return o


def sums(H, case):
    n, nf = case["areas"], case["levels"]
    stub(H, {})
    Y = Year(H, n, nf, 2 if nf == 5 else 0, 50)
    Y.set(Y.symbolic_counts("", 1000, fixed=case["totals"]))
    Y.run()
    Y.check_sums()
    Y.check_squares()
    Y.check_bins()
    Y.check_reset()


def bins(H, case):
    """One count at a time over all distribution classes."""
    n, nf, which = case["areas"], case["levels"], case["which"]
    norr = 2 if nf == 5 else 0
    stub(H, {})
    Y = Year(H, n, nf, norr, case["lstep"])
    j = case["area"]
    c = Y.symbolic_counts("", 3, fixed=(2, 0, 1))
    p = {"HLOLE": "LOL%sHA", "DPLOLE": "LOL%sPA", "EUES": "MGN%sHA"}[which]
    hi = 25 * case["lstep"] if which == "EUES" else 25
    t, g = H.int("bin_t", 0, hi), H.int("bin_g", 0, hi)
    H.assume(t + g <= hi)
    c[p % "T"][j][norr], c[p % "G"][j][norr] = t, g
    Y.set(c)
    Y.run()
    Y.check_bins()


def watched(H, case):
    """The convergence test gets the configured statistic, with the time, limits and history."""
    n, nf = 3, case["levels"]
    log = {}
    o = stub(H, log)
    Y = Year(H, n, nf, 2 if nf == 5 else 0, 50)
    Y.set(Y.symbolic_counts("", 100, fixed=(3, 7)))
    kv = dict(KWHERE=H.pick("KWHERE", 1, 2), KVWHEN=H.pick("KVWHEN", 1, 2), KVSTAT=H.pick("KVSTAT", 1, 2), KVTYPE=H.pick("KVTYPE", 1, 2), KVLOC=H.pick("KVLOC", 0, n - 1))
    H.assume(kv["KWHERE"] == 1 or kv["KVLOC"] == 0)
    year = H.pick("year", 1, case["years"])
    CLOCK = float(8760 * year)
    FIN, cv, sq, xl = H.real("FINISH", 0, 10**6), H.real("CVTEST", 0, 1), H.real("SSQ", 0, 100), H.real("XLAST", 0, 100)
    r = Y.run(CLOCK=CLOCK, FINISH=FIN, CVTEST=cv, SSQ=sq, XLAST=xl, INTVT=-1, **kv)
    b = log.get("cvchk")
    H.check("the convergence test runs every year", b is not None)
    if b is None:
        return
    H.check_eq("statistic watched", b["SUM"], Y.converging(**kv))
    for k, v in dict(CLOCK=CLOCK, FINISH=FIN, IYEAR=year, CVTEST=cv, XLAST=xl, SSQ=sq).items():
        H.check_eq("%s handed to the convergence test" % k, b[k], v)
    H.check("history handed back", r["SSQ"] == "SSQ!" and r["XLAST"] == "XLAST!")
    H.check_eq("stop flag handed back", r["RFLAG"], 0)


def ending(H, case):
    """Report when converged or at the end; snapshots at their years; the next year end is scheduled."""
    log = dict(flag=case["flag"])
    o = stub(H, log)
    Y = Year(H, 1, 1, 0, 50)
    Y.set(Y.symbolic_counts("", 100, fixed=(3,)))
    year = H.pick("year", 1, 8)
    FIN, INTVT, INTV = H.pick("years_end", 1, 9) * 8760, H.int("INTVT", 1, 9), H.int("INTV", 1, 9)
    CLOCK = 8760.0 * year
    names = ("NAMA", "SUSTAT", "LSTEP", "NFCST", "INDX", "DPLOLE", "EUES", "HLOLE", "XNEWA", "XNEWP") + tuple(CUM) + tuple(WTD)
    r = Y.run(CLOCK=CLOCK, FINISH=FIN, INTVT=INTVT, INTV=INTV)
    due = bool(case["flag"] or CLOCK >= FIN)
    H.check_eq("final report exactly when stopped or at the end", log.get("report", 0), 1 if due else 0)
    H.check_eq("snapshot at its year and at the end", log.get("intm", 0), H.ite(H.or_(INTVT == year, year * 8760 == FIN), 1, 0))
    H.check_eq("next snapshot one interval later", r["INTVT"], H.ite(INTVT == year, INTVT + INTV, INTVT))
    H.check_eq("stop flag", r["RFLAG"], case["flag"])
    if due and "report_args" in log:
        b = log["report_args"]
        H.check("table number of the report", r["ITAB"] == "ITAB!")
        H.check_eq("years in the report", b["IYEAR"], year)
        for k in names:
            own = Y.A.get(k) if k in Y.A else Y.fix[k]
            if k in Y.A and own.shape == ():
                H.check_eq("report gets %s" % k, b[k], Y.get(k))
            else:
                H.check("report gets %s" % k, b[k] is own)
    else:
        H.check_eq("table number", r["ITAB"], Y.fix["ITAB"])
    H.check_eq("one pending event added", r["NUMINQ"], 1)
    A = H.zeros(2)
    H.fn("monte_carlo.remove")(r["NUMINQ"], A, Y.fix["EVNTS"], r["IPOINT"])
    H.check_eq("next year end one year later", A[0], CLOCK + 8760)
    H.check_eq("next year end is a year event", A[1], 4)


HARNESSES = dict(sums=sums, bins=bins, watched=watched, ending=ending)


def cases(tier):
    for n in (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6):
        for nf in (1, 5) if n < 4 else (1, 4):
            yield "sums", dict(areas=n, levels=nf, totals=(7, 30)), dict(time=900, weight=n * nf)
    for nf in (1, 5):
        for which in ("HLOLE", "DPLOLE", "EUES"):
            for lstep in (50,) if which != "EUES" else (1, 50, 7):
                for area in (0, 1):
                    if tier == "quick" and (nf == 5 and area == 0):
                        continue
                    yield "bins", dict(areas=2, levels=nf, which=which, lstep=lstep, area=area), dict(time=600, weight=2 * nf)
        yield "bins", dict(areas=4, levels=nf, which="EUES" if nf == 1 else "DPLOLE", lstep=50, area=3), dict(time=600, weight=2 * nf)
        yield "watched", dict(levels=nf, years=(2 if nf == 1 else 1) if tier == "quick" else 6), dict(time=600, weight=4 * nf)
    for flag in (0, 1):
        yield "ending", dict(flag=flag), dict(time=600, weight=4)
