"""C04 available capacity and its split by ownership and location."""

BOUNDS = "up to 3 areas x 3 units (thorough 4 x 4) with every location of every unit, 5 areas x 7 units with every location of one; arbitrary real ratings, derates and ownership shares"
OUTSIDE = "more areas or units"
ALONE = False
ASSUMPTIONS = []


def capacity(H, case):
    """Available capacity = drawn fraction x current rating x planned status."""
    n = case["n"]
    gstate = H.fn("monte_carlo.gstate")
    s = [H.int("s%d" % i, 1, 2**31 - 1) for i in range(n)]
    P0 = [H.real("pa%d" % i, 0, 1) for i in range(n)]
    P1 = [H.real("pb%d" % i, 0, 1) for i in range(n)]
    R = [H.real("r%d" % i, 0, 10**4) for i in range(n)]
    D = [H.real("d%d" % i, 0, 1) for i in range(n)]
    M = [H.pick("m%d" % i, 0, 1) for i in range(n)]
    rating, derate, pl = H.arr(R, "f"), H.arr(D, "f"), H.arr(M, "f")
    pct, av = gstate(
        H.arr(s + [H.const(0)], "i4"), H.arr([[a, b, H.const(1)] for a, b in zip(P0, P1)], "f"), rating, derate, pl
    )
    for i in range(n):
        p = H.scalar(pct[i])
        H.check("unit %d fraction is full, derated or zero" % i, H.any_(p == 1, p == D[i], p == 0))
        H.check_eq("unit %d available capacity" % i, H.scalar(av[i]), p * R[i] * M[i])
        H.check_le("unit %d capacity not above its rating" % i, H.scalar(av[i]), R[i])
        H.check_eq("unit %d rating kept" % i, rating[i], R[i])
        H.check_eq("unit %d derate kept" % i, derate[i], D[i])
        H.check_eq("unit %d planned status kept" % i, pl[i], M[i])
        H.observe("av%d" % i, H.scalar(av[i]))


def split(H, case):
    """By owner, by location, and the difference transferred."""
    na, nu = case["na"], case["nu"]
    sumcap = H.fn("monte_carlo.sumcap")
    av = [H.real("av%d" % i, 0, 10**4) for i in range(nu)]
    own = [[H.real("o%d_%d" % (j, i), 0, 1) for i in range(nu)] for j in range(na)]
    if case["full"]:
        for i in range(nu):
            H.assume(H.sum_(own[j][i] for j in range(na)) == 1)
    loc = [H.pick("c%d" % i, 0, na - 1) if nu < 7 or i == 4 else H.const((3 * i + 1) % na) for i in range(nu)]
    A = H.arr([[a] for a in av], "f") if case["col"] else H.arr(av, "f")
    CO = H.arr(own, "f")
    capavl, sysown, syscon, trnsfj = sumcap(A, CO, H.arr(loc, "i"))
    tot = 0
    for j in range(na):
        o = H.sum_(own[j][i] * av[i] for i in range(nu))
        c = H.sum_(av[i] for i in range(nu) if loc[i] == j)
        H.check_eq("area %d owned capacity" % j, sysown[j], o)
        H.check_eq("area %d located capacity" % j, syscon[j], c)
        H.check_eq("area %d transfer owed to owners elsewhere" % j, trnsfj[j], c - o)
        for i in range(nu):
            H.check_eq("share of area %d in unit %d" % (j, i), capavl[j, i], own[j][i] * av[i])
        tot = tot + H.scalar(trnsfj[j])
    if case["full"]:
        H.check_eq("owner transfers cancel over the pool", tot, 0)
        H.check_eq(
            "all capacity is owned and located once", H.sum_(H.scalar(sysown[j]) for j in range(na)),
            H.sum_(H.scalar(syscon[j]) for j in range(na)),
        )  # fmt: skip
    H.observe("own", sysown)
    H.observe("con", syscon)


HARNESSES = dict(capacity=capacity, split=split)


def cases(tier):
    t = tier == "thorough"
    for n in (1, 2) + ((3,) if t else ()):
        yield "capacity", dict(n=n), {}
    for na, nu in [(1, 1), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3)] + ([(4, 3), (3, 4), (4, 4)] if t else []) + [(5, 7)]:
        for full in (0, 1):
            for col in (0, 1):
                yield "split", dict(na=na, nu=nu, full=full, col=col), {}
