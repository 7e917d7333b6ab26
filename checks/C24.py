"""C24 snapshot: what a due year end stores comes back from the restart file, complete and unchanged."""
from .C16 import stub
from .yearly import CUM, WTD, Year

BOUNDS = "year ends of 1, 2 or 4 areas, one or five forecast levels, arbitrary accumulated statistics and counts; one or two snapshots in a row, periodic and final; every named value of the snapshot"
OUTSIDE = "resuming a run (the main program has no restart); pool-level weighted totals, which the snapshot does not name; the bytes of the file (modelled: what is pickled is unpickled)"
ASSUMPTIONS = ["the file system keeps what is written"]
NAMES = [k for k in CUM] + [k for k in WTD if k[-1] == "A"] + ["HLOLE", "DPLOLE", "EUES", "XNEWA", "XNEWP", "EVNTS", "LT", "BB", "ZB", "LSFLG"]


def state(H, Y, out, given):
    s = {}
    for k in NAMES:
        s[k] = H.lst(Y.A[k] if k in Y.A else Y.fix[k])
    for k in ("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "ITAB"):
        s[k] = [out[k]]
    s["CLOCK"] = [given["CLOCK"]]
    for k in ("IGSEED", "ILSEED"):
        s[k] = H.lst(given[k])
    return s


def same(H, what, d, s):
    for k, v in s.items():
        H.check("%s holds %s" % (what, k), k in d)
        if k not in d:
            continue
        x = d[k]
        got = H.lst(x) if hasattr(x, "reshape") or isinstance(x, list) else [x]
        H.check("%s: size of %s" % (what, k), len(got) == len(v))
        for a, b in zip(got, v):
            H.check_eq("%s: %s" % (what, k), a, b)


def year_end(H, Y, **over):
    """A year event through the event dispatcher."""
    events = H.fn("monte_carlo.events")
    kw = dict.fromkeys(H.params(events))
    for d in (Y.A, Y.fix, over):
        kw.update({k: v for k, v in d.items() if k in kw})
    kw.update(NUMBER=4, JHOUR=8759)
    r = events(**kw)
    Y.out = dict(zip(("RFLAG", "IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "INTVT", "ITAB"), r))
    return Y.out


def snapshot(H, case):
    """Year ends with the real snapshot, read back by the restart function."""
    n, nf = case["areas"], case["levels"]
    norr = 2 if nf == 5 else 0
    log = {}
    o = stub(H, log)

    ssq, xlast = H.int("ssq", 0, 1000), H.int("xlast", 0, 1000)

    def cv(*a, **k):
        return 0, ssq, xlast

    H.replace("monte_carlo.cvchk", cv)
    H.replace("monte_carlo.intm", o["intm"])
    rstart = H.fn("monte_carlo.rstart")
    last = len(case["years"]) - 1
    Y = Year(H, n, nf, norr, 50)
    Y.fix["LT"] = H.arr([H.int("lt%d" % j, 0, 9) for j in range(n)], "i")
    for k in ("BB", "ZB"):
        Y.fix[k] = H.arr([[H.real("%s%d%d" % (k, i, j), -1, 1) for j in range(n)] for i in range(n)], "f")
    Y.fix["LSFLG"] = H.arr([H.int("ls%d" % j, 0, 1) for j in range(n)], "i")
    seeds = dict(IGSEED=H.arr([H.int("g%d" % i, 0, 2**31 - 1) for i in range(3)], "i"), ILSEED=H.arr([H.int("l%d" % i, 0, 2**31 - 1) for i in range(2)], "i"))
    for i, (year, due) in enumerate(case["years"]):
        Y.set(Y.symbolic_counts("_%d_" % i, 1000, fixed=(7, 12)))
        given = dict(CLOCK=8760.0 * year, **seeds)
        out = year_end(H, Y, CLOCK=given["CLOCK"], FINISH=8760.0 * case["end"], INTVT=case["next"], INTV=case["every"], ITAB=H.const(5), **seeds)
        if due:
            s = state(H, Y, out, given)
            s["ITAB"] = [5]
        H.check("a snapshot is there", due is None or H.call(rstart, "DUMP.pkl")[1] is None)
        if due is not None:
            same(H, "snapshot after year end (%d)" % i, rstart("DUMP.pkl"), s)
        # the run goes on
        for k in ("IPOINT", "MFA", "NUMINQ"):
            Y.fix[k] = out[k]
        case = dict(case, next=int(out["INTVT"]))
        for k in seeds:
            seeds[k][0] = H.const(11 + i)
        Y.fix["LT"][0] = 7
    d = rstart("DUMP.pkl")
    same(H, "snapshot read again later", d, s)
    d["SOLTHA"][0, 0] = -1
    same(H, "snapshot read once more", rstart("DUMP.pkl"), s)


HARNESSES = dict(snapshot=snapshot)


def cases(tier):
    yield "snapshot", dict(areas=1, levels=1, years=[[1, 1]], end=9, next=1, every=5), {}
    yield "snapshot", dict(areas=2, levels=5, years=[[1, 1]], end=1, next=3, every=5), {}
    yield "snapshot", dict(areas=1, levels=5, years=[[2, 1], [3, 0], [4, 1]], end=9, next=2, every=2), {}
    yield "snapshot", dict(areas=4, levels=5, years=[[3, 1]], end=8, next=3, every=2), {}
    yield "snapshot", dict(areas=2, levels=1, years=[[1, 1], [2, 1]], end=2, next=1, every=3), {}
