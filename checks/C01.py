"""C01 event calendar list: chronological order, nothing lost, duplicated or altered."""

BOUNDS = (
    "histories: n initial insertions, then m rounds (take the next event, insert one new event), then all events "
    "taken; event times arbitrary reals in [0, 10^6]; quick n<=4,m<=2 and n=2,m<=4; thorough n<=5,m<=3; "
    "initial calendar: every collection step in 1..24"
)
OUTSIDE = "longer histories; two insertions after one removal (the simulator never does that)"
ALONE = False
ASSUMPTIONS = ["each taken event is followed by at most one insertion before the next one is taken, as the simulator does"]


def history(H, case):
    n, m = case["n"], case["m"]
    filem, remove, initfl = H.fn("monte_carlo.filem"), H.fn("monte_carlo.remove"), H.fn("monte_carlo.initfl")
    MFA, IPOINT, EVNTS = initfl()
    ATRIB = H.zeros(2)
    NUMINQ = 0
    live = {}
    mark = 0

    def insert():
        nonlocal MFA, IPOINT, NUMINQ, mark
        t = H.real("t%d" % mark, 0, 10**6)
        ATRIB[0] = t
        ATRIB[1] = mark + 1
        live[mark + 1] = t
        mark += 1
        NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
        H.check_eq("number of pending events after an insertion", NUMINQ, len(live))

    def take(what):
        nonlocal MFA, IPOINT, NUMINQ
        MFA, NUMINQ, IPOINT = remove(NUMINQ, ATRIB, EVNTS, IPOINT)
        k = int(ATRIB[1])
        if k not in live:
            H.fail("%s returns an event that is not pending (lost or duplicated)" % what)
            return False
        t = live.pop(k)
        H.check_eq("%s: time of the event is the scheduled one" % what, ATRIB[0], t)
        for u in live.values():
            H.check_le("%s: events come out in time order" % what, t, u)
        H.check_eq("%s: number of pending events" % what, NUMINQ, len(live))
        return True

    for _ in range(n):
        insert()
    for _ in range(m):
        if not take("take"):
            return
        insert()
    while live:
        if not take("drain"):
            return
        if live:
            H.check("list pointer valid while events pending", IPOINT >= 0)
    H.check_eq("empty list after all events are taken", IPOINT, -1)
    H.check_eq("no pending events at the end", NUMINQ, 0)


def initial(H, case):
    """The initial calendar holds the four quarters, the year, the first week and the first draw, in order."""
    initfl, remove = H.fn("monte_carlo.initfl"), H.fn("monte_carlo.remove")
    initl = H.opt("monte_carlo.initl", case["which"])
    if initl is None:
        H.check("alternative absent", True)
        return
    filem = H.fn("monte_carlo.filem")
    MFA, IPOINT, EVNTS = initfl()
    J = H.int("JSTEP", 1, 24)
    Q = H.arr([2184.5, 4368.5, 6552.5], "f")
    if case["which"] == "initl":
        ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(J, EVNTS)
    else:
        ATRIB, CLOCK, IPOINT, MFA, NUMINQ = initl(J, EVNTS, IPOINT, MFA, 0, Q)
    H.check_eq("clock starts at zero", CLOCK, 0)
    H.check_eq("seven initial events", NUMINQ, 7)
    want = [(0.5, 3), (2184.5, 3), (4368.5, 3), (6552.5, 3), (8760, 4), (0.5, 2), (J, 1)]
    want = [(H.const(t) if not isinstance(t, int) else t, k) for t, k in want]
    if case["extra"]:
        t = H.real("tx", 0, 20000)
        ATRIB[0], ATRIB[1] = t, 9
        NUMINQ, MFA, IPOINT = filem(MFA, ATRIB, NUMINQ, IPOINT, EVNTS)
        want.append((t, 9))
    last = 0
    left = list(want)
    for i in range(len(want)):
        MFA, NUMINQ, IPOINT = remove(NUMINQ, ATRIB, EVNTS, IPOINT)
        t, k = ATRIB[0], int(ATRIB[1])
        H.check_le("initial events in time order", last, t)
        last = t
        hit = None
        for w in left:
            if w[1] == k and bool(w[0] == t):
                hit = w
                break
        if hit is None:
            H.fail("unexpected initial event of type %d" % k)
            return
        left.remove(hit)
    H.check_eq("calendar exhausted", IPOINT, -1)


HARNESSES = dict(history=history, initial=initial)


def cases(tier):
    nm = [(n, m) for n in (1, 2, 3, 4) for m in (0, 1, 2)] + [(2, 3), (2, 4), (5, 0), (5, 1)]
    if tier == "thorough":
        nm += [(3, 3), (4, 3), (3, 4), (5, 2), (6, 0), (6, 1), (1, 6), (2, 6)]
    for n, m in nm:
        yield "history", dict(n=n, m=m), dict(max_paths=200000, weight=n * 4 + m * 3)
    for which in ("initl", "_initl"):
        for extra in (0, 1):
            yield "initial", dict(which=which, extra=extra), {}
