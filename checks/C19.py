"""C19 convergence test: stop when the standard error of the yearly mean is small enough, after five years, or at the end."""

BOUNDS = "one call with arbitrary history; four arbitrary years in a row, 7 (thorough 12) equal ones; every choice of the statistic in the yearly routine (C16)"
OUTSIDE = "floating-point cancellation in the variance"
ALONE = False
ASSUMPTIONS = ["the variance of the yearly values is not negative (true of sums and sums of squares in exact arithmetic)"]


def one(H, case):
    f = H.opt("monte_carlo.cvchk", case["fn"])
    if f is None:
        return
    CLOCK, FINISH = H.real("clock", 0, 10**6), H.real("finish", 0, 10**6)
    if case["early"]:
        Y = H.int("IYEAR", 1, 4)
    else:
        Y = H.pick("IYEAR", 5, case["years"])
    S = H.real("SUM", 0, 10**5)
    last = H.real("XLAST", 0, 10**5)
    sq = H.real("SSQ", 0, 10**9)
    cv = H.const(0) if case["default"] else H.real("CVTEST", 0, 1)
    if not case["default"]:
        H.assume(cv > 0)
    H.assume(S >= last)
    new = S - last
    total = sq + new * new
    # sums of squares: SSQ >= SUM^2 / years
    H.assume(total * Y >= S * S)
    if not case["early"]:
        # stay away from an exactly zero variance, where rounding alone decides
        H.assume(total * Y - S * S >= H.const(1) / 16)
    R, Q, X = f(CLOCK, FINISH, Y, cv, S, last, sq)
    H.check_eq("sum of squares of the yearly values", Q, total)
    H.check_eq("last cumulative value", X, S)
    over = CLOCK >= FINISH
    if case["early"]:
        H.check_eq("before five years only the end of the simulation stops it", R, H.ite(over, 1, 0))
        return
    lim = H.const(1) / 40 if H.symbolic else 0.025
    c = lim if case["default"] else cv
    mean = H.div(S, Y)
    var = H.div(H.div(total, Y) - mean * mean, Y)
    conv = H.and_(S > 0, var < (c * mean) * (c * mean))
    # a hair's breadth either way is rounding
    gap = H.const(1) / 1024 if H.symbolic else 0.0009
    clear = H.or_(var >= (c * mean) * (c * mean) + gap, H.or_(var + gap <= (c * mean) * (c * mean), S == 0))
    H.check("stops exactly when converged or at the end", R == H.ite(H.or_(over, conv), 1, 0), when=clear)


def years(H, case):
    """Yearly values handed on as the yearly routine does; equal years converge in the fifth, years without loss never."""
    f = H.opt("monte_carlo.cvchk", case["fn"])
    if f is None:
        return
    S, Q, X = H.const(0), 0, 0
    vals = []
    same = H.int("v", 0, 10**4)
    cv = H.const(1) / 8 if H.symbolic else 0.125
    for y in range(1, case["years"] + 1):
        v = same if case["steady"] else H.int("v%d" % y, 0, 100)
        vals.append(v)
        S = S + v
        R, Q, X = f(y * 8760, 10**9, y, cv, S, X, Q)
        H.check_eq("sum of squares after year %d" % y, Q, y * same * same if case["steady"] else H.sum_(w * w for w in vals))
        H.check_eq("cumulative value after year %d" % y, X, S)
        if y < 5:
            H.check_eq("no stop in year %d" % y, R, 0)
        elif case["steady"]:
            H.check_eq("equal years: stop in year %d unless there was never a loss" % y, R, H.ite(same > 0, 1, 0))


HARNESSES = dict(one=one, years=years)


def cases(tier):
    for fn in ("cvchk", "_cvchk"):
        for default in (False, True):
            yield "one", dict(fn=fn, early=True, default=default), {}
            yield "one", dict(fn=fn, early=False, default=default, years=7 if tier == "quick" else 12), dict(time=600, weight=3)
        yield "years", dict(fn=fn, years=4, steady=False), {}
        yield "years", dict(fn=fn, years=7 if tier == "quick" else 12, steady=True), {}
