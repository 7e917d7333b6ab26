"""C02 simulation calendar: who is called when, with what, until when."""

BOUNDS = (
    "main loop: 2 or 3 pending events with arbitrary times, then 2 (thorough 3) rounds in which each handled event may put one back at an "
    "arbitrary later time, arbitrary end of simulation and stop flag; single periodic steps: arbitrary clock; whole year with daily draws: "
    "season ends within two weeks of 13/26/39, arbitrary unit ratings; hand-over of every argument by name"
)
OUTSIDE = "other collection steps than 1 and 24; more pending events than four in the main loop"
ASSUMPTIONS = ["season ends are increasing weeks between 1 and 51", "functions keep their parameter names"]


class Tag:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<%s>" % self.n


def tags(H, f, **over):
    import inspect

    v = {n: Tag(n) for n in inspect.signature(f).parameters}
    for k, x in over.items():
        if k in v:
            v[k] = x
    return v


def passed(H, where, got, given, skip=()):
    """Everything a callee names like one of ours is exactly ours."""
    for n, x in got.items():
        if n in given and n not in skip:
            same(H, "%s gets %s" % (where, n), x, given[n])


def same(H, label, x, y):
    if isinstance(y, Tag) or not hasattr(y, "__mul__"):
        H.check(label, x is y)
    elif isinstance(x, Tag):
        H.fail(label)
    else:
        H.check_eq(label, x, y)


SCALARS = ("IPOINT", "MFA", "NUMINQ", "IQ", "JHOUR", "CLOCK", "INTVT", "ITAB", "RFLAG", "XLAST", "SSQ")


def dispatch(H, case):
    """One event of each kind goes to its own routine, with every argument in its place."""
    events = H.fn("monte_carlo.events")
    NUMBER = H.int("NUMBER", 1, 4)
    old = [H.real("r0", 0, 100), H.real("r1", 0, 100)]
    RATING = H.arr(old, "f")
    new = [H.real("n0", 0, 100), H.real("n1", 0, 100)]
    given = tags(H, events, NUMBER=NUMBER, RATING=RATING, **{n: H.int("old_" + n, 0, 9000) for n in SCALARS})
    log = []

    def stub(name, outs):
        def f(*a, **k):
            log.append(name)
            passed(H, name, H.bound(orig[name], a, k), given, skip=("NUMBER",))
            return tuple(outs)

        return f

    t = {n: H.int("new_" + n, 0, 9000) for n in SCALARS if n != "CLOCK"}
    outs = dict(
        hour=[t["NUMINQ"], t["MFA"], t["IPOINT"], t["JHOUR"]],
        week=[t["IPOINT"], t["MFA"], t["NUMINQ"]],
        quartr=[t["IQ"], t["IPOINT"], t["MFA"], t["NUMINQ"], H.arr(new, "f")],
        year=[t["IPOINT"], t["MFA"], t["NUMINQ"], t["SSQ"], t["XLAST"], t["RFLAG"], t["INTVT"], t["ITAB"]],
    )  # fmt: skip
    orig = {n: H.fn("monte_carlo." + n) for n in outs}
    for n in outs:
        H.replace("monte_carlo." + n, stub(n, outs[n]))
    r = events(**given)
    kind = int(NUMBER)
    name = {1: "hour", 2: "week", 3: "quartr", 4: "year"}[kind]
    H.check("exactly one routine runs", len(log) == 1)
    H.check("event kind %d goes to %s" % (kind, name), log == [name])
    ch = dict(
        hour=("IPOINT", "MFA", "NUMINQ", "JHOUR"), week=("IPOINT", "MFA", "NUMINQ"), quartr=("IPOINT", "MFA", "NUMINQ", "IQ"),
        year=("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"),
    )[name]  # fmt: skip
    for n, x in zip(("RFLAG", "IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "INTVT", "ITAB", "IQ", "JHOUR"), r):
        same(H, "%s event: %s handed back" % (name, n), x, t[n] if n in ch else given[n])
    for i in range(2):
        H.check_eq("ratings in force after the event", RATING[i], new[i] if kind == 3 else old[i])


def loop(H, case):
    """Earliest event first, clock follows, state is carried along, final report when nothing is left before the end."""
    n, rounds = case["n"], case["rounds"]
    contrl, filem, initfl = H.fn("monte_carlo.contrl"), H.fn("monte_carlo.filem"), H.fn("monte_carlo.initfl")
    MFA, IPOINT, EVNTS = initfl()
    ATRIB = H.zeros(2)
    NUM = 0
    live = {}
    FIN = H.real("finish", 0, 10**5)
    stop = case["stop"]

    def add(t, kind):
        nonlocal MFA, IPOINT, NUM
        ATRIB[0], ATRIB[1] = t, kind
        NUM, MFA, IPOINT = filem(MFA, ATRIB, NUM, IPOINT, EVNTS)
        live[kind] = t

    for k in range(n):
        add(H.real("t%d" % k, 0, 10**5), k + 1)
    state = {m: H.int("%s_0" % m, 0, 9000) for m in ("SSQ", "XLAST", "INTVT", "ITAB", "IQ", "JHOUR")}
    given = tags(H, contrl, RFLAG=0, CLOCK=H.const(0), NUMINQ=NUM, IPOINT=IPOINT, EVNTS=EVNTS, ATRIB=ATRIB, FINISH=FIN, **state)
    st = dict(state, RFLAG=0, CLOCK=H.const(0), done=0, reports=0, over=False)
    moving = ("RFLAG", "CLOCK", "NUMINQ", "IPOINT", "MFA", "NUMBER", "IYEAR") + tuple(state)

    def fake_events(*a, **k):
        b = H.bound(real_events, a, k)
        kind = int(b["NUMBER"])
        if st["over"] or kind not in live:
            H.fail("an event is handled that is not pending, or after the simulation was stopped")
            st["over"] = True
            return (1, -1, 0, 0) + tuple(state[m] for m in ("SSQ", "XLAST", "INTVT", "ITAB", "IQ", "JHOUR"))
        t = live.pop(kind)
        H.check_eq("clock is the time of the event", b["CLOCK"], t)
        H.check_eq("the event's time is passed on", b["ATRIB"][0], t)
        H.check_eq("the event's kind is passed on", b["ATRIB"][1], kind)
        for u in live.values():
            H.check_le("earliest event first", t, u)
        H.check_le("no event is handled after the end of the simulation", t, FIN + 1)
        for m in state:
            same(H, "%s of the last event is used by the next" % m, b[m], st[m])
        H.check_eq("number of pending events", b["NUMINQ"], len(live))
        passed(H, "events", b, given, skip=moving)
        st["CLOCK"] = t
        st["done"] += 1
        N, M, P = b["NUMINQ"], b["MFA"], b["IPOINT"]
        rf = 0
        if st["done"] <= rounds:
            d = H.real("d%d" % st["done"], 0, 10**5)
            b["ATRIB"][0] = t + d
            N, M, P = filem(M, b["ATRIB"], N, P, b["EVNTS"])
            live[kind] = t + d
        if st["done"] == stop:
            rf = 1
            st["over"] = True
        for m in state:
            st[m] = H.int("%s_%d" % (m, st["done"]), 0, 9000)
        return (rf, P, M, N) + tuple(st[m] for m in ("SSQ", "XLAST", "INTVT", "ITAB", "IQ", "JHOUR"))

    def fake_report(*a, **k):
        b = H.bound(real_report, a, k)
        st["reports"] += 1
        H.check("no report after the stop flag", not st["over"])
        H.check("something is still pending at the final report", len(live) > 0)
        for u in live.values():
            H.check("the final report comes only when nothing is left to do", u > FIN + 1)
        H.check_eq("years in the final report", b["IYEAR"], H.floor(H.div(st["CLOCK"], 8760)))
        same(H, "table counter of the final report", b["ITAB"], st["ITAB"])
        passed(H, "report", b, given, skip=moving)
        return b["ITAB"]

    real_events, real_report = H.replace("monte_carlo.events", fake_events), H.replace("monte_carlo.report", fake_report)
    contrl(**given)
    H.check("at most one final report", st["reports"] <= 1)
    if st["over"]:
        H.check("no final report by the main loop after the stop flag", st["reports"] == 0)
    elif live:
        H.check("the simulation ends with the final report", st["reports"] == 1)
    H.check("every pending event up to the end was handled", H.all_(*[u > FIN + 1 for u in live.values()]), when=not st["over"])


def step(H, case):
    """Weekly and quarterly events put themselves back one period later; the quarter advances and sets the ratings."""
    initfl, remove = H.fn("monte_carlo.initfl"), H.fn("monte_carlo.remove")
    MFA, IPOINT, EVNTS = initfl()
    CLOCK = H.real("clock", 0, 10**6)
    filem, B = H.fn("monte_carlo.filem"), H.zeros(2)
    n0 = H.pick("pending", 0, 4)
    for k in range(n0):
        B[0], B[1] = CLOCK + 20000 + k, 9
        N0, MFA, IPOINT = filem(MFA, B, k, IPOINT, EVNTS)
    if case["kind"] == 2:
        week = H.fn("monte_carlo.week")
        ATRIB = H.arr([CLOCK, H.const(2)], "f")
        J = H.int("JHOUR", 0, 8759)
        PL = H.arr([H.real("p0", 0, 1)], "f")
        tab = H.arr([[0, 0]] * 52, "i")
        IPOINT, MFA, NUM = week(CLOCK, ATRIB, MFA, n0, IPOINT, EVNTS, PL, J, tab)
        H.check_eq("nothing out: unit available", PL[0], 1)
        period = 168
    else:
        quartr = H.fn("monte_carlo.quartr")
        ATRIB = H.arr([CLOCK, H.const(3)], "f")
        IQ = H.pick("IQ", -1, 3)
        R = [[H.real("r%d_%d" % (i, q), 0, 1000) for q in range(4)] for i in range(2)]
        RATES = H.arr(R, "f")
        NH = H.int("NHRSYR", 1, 9000)
        q, IPOINT, MFA, NUM, RATING = quartr(IQ, RATES, CLOCK, ATRIB, NH, MFA, n0, IPOINT, EVNTS)
        H.check_eq("the quarter advances cyclically", q, (IQ + 1) % 4)
        for i in range(2):
            H.check_eq("rating of the new quarter", RATING[i], R[i][(IQ + 1) % 4])
        RATING[0] = -1
        H.check_eq("the rating table is not altered", RATES[0, (IQ + 1) % 4], R[0][(IQ + 1) % 4])
        period = NH
    H.check_eq("one event is put back", NUM, n0 + 1)
    A = H.zeros(2)
    remove(NUM, A, EVNTS, IPOINT)
    H.check_eq("one period later", A[0], CLOCK + period)
    H.check_eq("same kind of event", A[1], case["kind"])


def start(H, case):
    """The initial calendar: the four season starts, the year end, the first week and the first draw."""
    initfl, remove, initl = H.fn("monte_carlo.initfl"), H.fn("monte_carlo.remove"), H.fn("monte_carlo.initl")
    MFA, IPOINT, EVNTS = initfl()
    J = H.int("JSTEP", 1, 24)
    half = H.const(1) / 2 if H.symbolic else 0.5
    w = [H.int("IW%d" % k, 1, 51) for k in (1, 2, 3)]
    H.assume(H.and_(w[0] < w[1], w[1] < w[2]))
    q = [x * 168 + half for x in w]
    ATRIB, CLOCK, IPOINT, MFA, NUM = initl(J, EVNTS, H.arr(q, "f"))
    H.check_eq("clock starts at zero", CLOCK, 0)
    want = [(half, 3), (half, 2), (J, 1), (q[0], 3), (q[1], 3), (q[2], 3), (8760, 4)]
    H.check_eq("seven initial events", NUM, len(want))
    kinds = []
    for i, (t, k) in enumerate(want):
        A = H.zeros(2)
        MFA, NUM, IPOINT = remove(NUM, A, EVNTS, IPOINT)
        H.check_eq("time of initial event %d" % i, A[0], t)
        kinds.append(A[1])
        if i == 1:
            H.check_eq("first quarter and first week both start at once", kinds[0] + kinds[1], 5)
        elif i > 1:
            H.check_eq("kind of initial event %d" % i, A[1], k)
    H.check_eq("nothing else pending", IPOINT, -1)


def wholeyear(H, case):
    """A whole year of daily draws through the real loop: ratings of the season and planned outages of the week apply to every draw."""
    contrl, initfl, initl = H.fn("monte_carlo.contrl"), H.fn("monte_carlo.initfl"), H.fn("monte_carlo.initl")
    MFA, IPOINT, EVNTS = initfl()
    half = H.const(1) / 2 if H.symbolic else 0.5
    IW = [H.pick("IW%d" % (i + 1), lo, hi) for i, (lo, hi) in enumerate(case["windows"])]
    QTR = [w * 168 + half for w in IW]
    years = case["years"]
    R = [[H.real("r%d_%d" % (i, q), 0, 1000) for q in range(4)] for i in range(2)]
    out = [[], [0], [1], [0, 1], [1], []]
    rows = [out[w % len(out)] for w in range(52)]
    JPL = H.arr([[len(r)] + r + [0] * (2 - len(r)) for r in rows], "i")
    JSTEP = 24
    ATRIB, CLOCK, IPOINT, MFA, NUM = initl(JSTEP, EVNTS, H.arr(QTR, "f"))
    RATING, PLNDST = H.zeros(2), H.zeros(2)
    log = []
    wanted = [24 * (d + 1) for d in range(365 * years)]
    filem = H.fn("monte_carlo.filem")

    def at(clock):
        q = sum(1 for y in range(years + 1) for w in IW if w * 168 + 0.5 + 8760 * y < clock) + sum(1 for y in range(1, years + 1) if 0.5 + 8760 * y < clock)
        m = (clock - 1) // 168
        first = m * 168 % 8760
        return q % 4, (rows[first // 168] if first // 168 <= 51 else [])

    def fake_hour(*a, **k):
        b = H.bound(real_hour, a, k)
        c = int(b["CLOCK"])
        log.append(c)
        q, off = at(c)
        for i in range(2):
            H.check_eq("rating of unit %d at the draw of hour %d" % (i, c), b["RATING"][i], R[i][q])
            H.check_eq("planned status of unit %d at the draw of hour %d" % (i, c), b["PLNDST"][i], 0 if i in off else 1)
        b["ATRIB"][0] = b["CLOCK"] + JSTEP
        N, M, P = filem(b["MFA"], b["ATRIB"], b["NUMINQ"], b["IPOINT"], b["EVNTS"])
        return N, M, P, (c - 1) % 8760

    def fake_year(*a, **k):
        b = H.bound(real_year, a, k)
        ylog.append(b["CLOCK"])
        b["ATRIB"][0] = b["CLOCK"] + 8760
        N, M, P = filem(b["MFA"], b["ATRIB"], b["NUMINQ"], b["IPOINT"], b["EVNTS"])
        return P, M, N, b["SSQ"], b["XLAST"], 1 if len(ylog) == years else 0, b["INTVT"], b["ITAB"]

    ylog = []
    real_hour, real_year = H.replace("monte_carlo.hour", fake_hour), H.replace("monte_carlo.year", fake_year)
    H.replace("monte_carlo.report", lambda *a, **k: 0)
    given = tags(
        H, contrl, RFLAG=0, CLOCK=CLOCK, NUMINQ=NUM, IPOINT=IPOINT, EVNTS=EVNTS, ATRIB=ATRIB, FINISH=H.const(8760 * years), PLNDST=PLNDST,
        JHOUR=0, JPLOUT=JPL, IQ=-1, RATES=H.arr(R, "f"), NHRSYR=8760, JSTEP=JSTEP, RATING=RATING, SSQ=0, XLAST=0, INTVT=1, ITAB=1,
    )  # fmt: skip
    contrl(**given)
    H.check("one draw per day", log == wanted[: len(log)] and len(log) >= len(wanted) - 1)
    H.check("one yearly evaluation per year", len(ylog) == years)
    for y, c in enumerate(ylog):
        H.check_eq("the yearly evaluation is at the end of the year", c, 8760 * (y + 1))


DATA = (
    "QTR NORR NFCST NOAREA PKLOAD FU MINRAN MAXRAN INHBT1 INHBT2 BN SUSTAT FCTERR CAPCON CAPOWN NOGEN PROBG DERATE JENT INTCH INTCHR LP LINENO "
    "PROBL BLPA MXCRIT JCRIT RATES ID HRLOAD MAXHR DYLOAD MAXDAY WPEAK MXPLHR JPLOUT ITAB NLS IOI IOJ KVLOC KVSTAT KVTYPE KVWHEN KWHERE CVTEST "
    "MAXEUE JSTEP JFREQ FINISH INTV INTVT NR NAMA"
).split()


def main(H, case):
    """The main program hands the prepared data to the simulation under the right names and starts from zero."""
    import inspect

    narpMain, contrl, remove = H.fn("monte_carlo.narpMain"), H.fn("monte_carlo.contrl"), H.fn("monte_carlo.remove")
    na, nu, nl = case["na"], case["nu"], case["nl"]
    d = {n: Tag(n) for n in DATA}
    half = H.const(1) / 2 if H.symbolic else 0.5
    w = [H.int("IW%d" % k, 1, 51) for k in (1, 2, 3)]
    H.assume(H.and_(w[0] < w[1], w[1] < w[2]))
    d["QTR"] = H.arr([x * 168 + half for x in w], "f")
    d["PROBG"], d["LP"], d["HRLOAD"] = H.zeros((nu, 2)), H.zeros((nl, 3), "i"), H.zeros((na, 4))
    d["NOAREA"] = na
    M = H.real("MAXEUE", 0, 10**6)
    d["MAXEUE"] = M
    d["JSTEP"] = case["JSTEP"]
    seeds = (Tag("IGSEED"), Tag("ILSEED"))
    log = []

    def fake_data(*a, **k):
        return tuple(d[n] for n in DATA)

    def fake_seeder(*a, **k):
        b = H.bound(real_seeder, a, k)
        v = list(b.values())
        H.check("seeds for every unit and line", v[1] == nu and v[2] == nl)
        return seeds

    def fake_contrl(*a, **k):
        log.append(H.bound(contrl, a, k))

    H.replace("data_processing.dataf1", fake_data)
    real_seeder = H.replace("monte_carlo.seeder", fake_seeder)
    H.replace("monte_carlo.contrl", fake_contrl)
    narpMain("somewhere")
    H.check("the simulation runs once", len(log) == 1)
    b = log[0]
    passed(H, "simulation", b, d, skip=("MAXEUE",))
    H.check("unit seeds", b["IGSEED"] is seeds[0])
    H.check("line seeds", b["ILSEED"] is seeds[1])
    H.check_eq("step of the unserved energy distribution", b["LSTEP"], H.max(1, H.floor(H.div(M, 20))))
    for n, v in dict(RFLAG=0, CLOCK=0, SSQ=0, XLAST=0, NHRSYR=8760, JHOUR=0, INDX=1 if case["JSTEP"] == 24 else 0).items():
        H.check_eq("%s at the start" % n, b[n], v)
    H.check("the first quarterly event leads to the first quarter", (b["IQ"] + 1) % 4 == 0)
    stats = {}
    for n in inspect.signature(contrl).parameters:
        if n in d or n not in b:
            continue
        a = b[n]
        if n[:3] in ("LOL", "MGN", "SOL", "SGN"):
            stats[n] = (a, (na, 5) if n[5] == "A" else (5,))
        elif n[:3] in ("SWL", "SWN"):
            stats[n] = (a, (na,) if n[5] == "A" else None)
        elif n in ("HLOLE", "DPLOLE", "EUES"):
            stats[n] = (a, (na, 22))
        elif n == "XNEWA":
            stats[n] = (a, (na, 3))
        elif n == "XNEWP":
            stats[n] = (a, (3,))
        elif n in ("LSFLG", "LT", "RATING", "PLNDST", "BLP0", "BB", "ZB"):
            stats[n] = (a, dict(LSFLG=(na,), LT=(na,), RATING=(nu,), PLNDST=(nu,), BLP0=(nl,), BB=(na, na), ZB=(na, na))[n])
    seen = {}
    for n, (a, shape) in stats.items():
        H.check("%s has a place of its own" % n, id(a) not in seen and hasattr(a, "shape"))
        seen[id(a)] = n
        if shape is not None:
            H.check("%s has one entry per area and level" % n, tuple(a.shape) == shape)
        for x in H.lst(a):
            H.check_eq("%s starts at zero" % n, x, 0)
    H.check("statistics and work arrays are recognised", len(stats) >= 70)
    # the calendar handed over
    EV, P, N = b["EVNTS"], b["IPOINT"], b["NUMINQ"]
    J = case["JSTEP"]
    times = [half, half, J] + [x * 168 + half for x in w] + [8760]
    H.check_eq("seven initial events", N, 7)
    for i in range(7):
        A = H.zeros(2)
        _, N, P = remove(N, A, EV, P)
        H.check_eq("time of initial event %d" % i, A[0], times[i])


HARNESSES = dict(dispatch=dispatch, loop=loop, step=step, start=start, wholeyear=wholeyear, main=main)


def cases(tier):
    t = tier == "thorough"
    yield "dispatch", {}, {}
    for n, r in [(1, 2), (2, 2), (3, 1)] + ([(3, 2), (2, 3)] if t else []):
        for stop in (0, 1, 2):
            yield "loop", dict(n=n, rounds=r, stop=stop), dict(weight=n * r * 3)
    yield "step", dict(kind=2), {}
    yield "step", dict(kind=3), {}
    yield "start", {}, {}
    yield "wholeyear", dict(windows=[(12, 14), (26, 26), (39, 40)], years=1), dict(weight=30, validate=1)
    yield "wholeyear", dict(windows=[(13, 13), (25, 27), (38, 38)], years=1), dict(weight=30, validate=1)
    yield "wholeyear", dict(windows=[(13, 13), (26, 26), (39, 39)], years=3 if t else 2), dict(weight=30, validate=1)
    if t:
        yield "wholeyear", dict(windows=[(1, 4), (5, 7), (48, 51)], years=1), dict(weight=90, validate=1)
    for J in (1, 24):
        for na, nu, nl in [(1, 2, 1), (3, 2, 4)]:
            yield "main", dict(na=na, nu=nu, nl=nl, JSTEP=J), {}
