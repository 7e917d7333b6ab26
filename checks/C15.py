"""C15 a shortage is counted once, for the areas that have it, under the cause the pool margin tells."""

BOUNDS = "1 to 5 areas (thorough 6), forecast level 0..4, arbitrary integer margins (also fractional ones for one area) and earlier counts"
OUTSIDE = "more areas"
ALONE = False
ASSUMPTIONS = ["at least one area is short (the routines are called only then)"]
H_ = ("LOLGHA", "LOLGHP", "LOLTHA", "LOLTHP", "MGNGHA", "MGNGHP", "MGNTHA", "MGNTHP")
P_ = ("LOLGPA", "LOLGPP", "LOLTPA", "LOLTPP", "MGNGPA", "MGNGPP", "MGNTPA", "MGNTPP")


def attribution(H, case):
    n, hourly = case["areas"], case["hourly"]
    f = H.opt("monte_carlo." + ("hrstat" if hourly else "pkstat"), case["fn"])
    if f is None:
        return
    L = 5
    nst = H.pick("NST", 0, case["levels"] - 1)
    mk = H.real if case["real"] else H.int
    m = [mk("m%d" % j, -1000, 1000) for j in range(n)]
    H.assume(H.any_(*[x < 0 for x in m]))
    M = H.arr(m, "f" if case["real"] else "i")
    names = H_ if hourly else P_
    old, A = {}, {}
    for k in names:
        if k[-1] == "A":
            old[k] = [[H.int("%s_%d_%d" % (k, j, s), 0, 10**6) for s in range(L)] for j in range(n)]
        else:
            old[k] = [H.int("%s_%d" % (k, s), 0, 10**6) for s in range(L)]
        A[k] = H.arr(old[k], "i")
    kw = dict(A, NST=nst, MARGIN=M)
    if hourly:
        fl = [H.int("fl%d" % j, 0, 1000) for j in range(n)]
        kw["LSFLG"] = H.arr(fl, "i")
    f(**kw)
    tot = H.sum_(m)
    by_t = tot >= 0
    need = [H.ite(x < 0, H.trunc(-x), 0) for x in m]
    sfx = "H" if hourly else "P"
    for c, on in (("T", by_t), ("G", H.not_(by_t))):
        cause = {"T": "transmission", "G": "generation"}[c]
        for s in range(L):
            here = s == nst
            one = H.ite(on, 1, 0) if here else 0
            k = "LOL%s%sP" % (c, sfx)
            H.check_eq("pool losses counted under %s, level %d" % (cause, s), A[k][s], old[k][s] + one)
            k = "MGN%s%sP" % (c, sfx)
            H.check_eq("pool energy under %s, level %d" % (cause, s), A[k][s], old[k][s] + (H.ite(on, H.sum_(need), 0) if here else 0))
            for j in range(n):
                k = "LOL%s%sA" % (c, sfx)
                H.check_eq("losses of area %d under %s, level %d" % (j, cause, s), A[k][j, s], old[k][j][s] + (H.ite(H.and_(on, m[j] < 0), 1, 0) if here else 0))
                k = "MGN%s%sA" % (c, sfx)
                H.check_eq("energy of area %d under %s, level %d" % (j, cause, s), A[k][j, s], old[k][j][s] + (H.ite(on, need[j], 0) if here else 0))
    for j in range(n):
        H.check_eq("margin of area %d is not altered" % j, M[j], m[j])
        if hourly:
            H.check_eq("short hours of area %d" % j, kw["LSFLG"][j], fl[j] + H.ite(m[j] < 0, 1, 0))
    H.observe("T", A["MGNT%sA" % sfx])


HARNESSES = dict(attribution=attribution)


def cases(tier):
    for hourly in (True, False):
        for fn in ("hrstat", "_hrstat") if hourly else ("pkstat", "_pkstat"):
            for n in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6):
                yield "attribution", dict(fn=fn, hourly=hourly, areas=n, levels=5 if n < 3 else 2, real=False), dict(time=600, weight=n)
            yield "attribution", dict(fn=fn, hourly=hourly, areas=1, levels=1, real=True), {}
