"""C23 one simulated hour: states drawn, loads taken, help asked for, shortage recorded, next hour scheduled."""
import inspect

BOUNDS = (
    "1 to 3 areas, 2 or 3 units (one jointly owned), one or two lines, one or five forecast levels; arbitrary ratings, loads and network answers; unit and line "
    "states with arbitrary probabilities; clocks at the ends of days and years; two hours in a row; hourly and daily steps; with the real network evaluation for two areas and one line"
)
OUTSIDE = "critical units for lines (no input fills that table); the network evaluation itself (C12, C13)"
ASSUMPTIONS = ["draws do not equal a probability limit exactly"]
M31 = 2**31
H_ = ("LOLGHA", "LOLGHP", "LOLTHA", "LOLTHP", "MGNGHA", "MGNGHP", "MGNTHA", "MGNTHP")
P_ = ("LOLGPA", "LOLGPP", "LOLTPA", "LOLTPP", "MGNGPA", "MGNGPP", "MGNTPA", "MGNTPP")
TAB = [[1.25, 1.125, 1, 0.875, 0.75], [1.5, 1.25, 1, 0.75, 0.5], [1, 1, 1, 1, 1], [1.125, 1, 1, 1, 0.875], [1, 1.5, 1, 1, 1]]


def nxt(s):
    return s * 65539 % M31


class Setup:
    def __init__(self, H, case):
        self.H, self.case = H, case
        n, nu, nl = self.n, self.nu, self.nl = case["areas"], case["units"], case["lines"]
        self.levels = case["levels"]
        self.JSTEP, self.JFREQ = case["JSTEP"], case.get("JFREQ", 1)
        self.clock = case["clock"]
        self.gs = [123456789 + 1000003 * i for i in range(nu)] + [5]
        self.ls = [987654321 + 2000003 * i for i in range(nl)] + [7]
        q = H.const(1) / 4 if H.symbolic else 0.25
        self.own = [[H.const(0)] * nu for _ in range(n)]
        self.loc = [i % n for i in range(nu)]
        for i in range(nu):
            if i == nu - 1 and n > 1 and not case.get("nojoint"):
                self.own[0][i], self.own[1][i] = q, 1 - q
            else:
                self.own[i % n][i] = H.const(1)
        if case.get("draws"):
            self.P = []
            for i in range(nu):
                a, b = H.real("pg%d_0" % i, 0, 1), H.real("pg%d_1" % i, 0, 1)
                H.assume(a <= b)
                self.P.append([a, b])
            self.Q = []
            for i in range(nl):
                row, last = [], H.const(0)
                for k in range(6):
                    p = H.const(1) if k == 5 else H.real("pl%d_%d" % (i, k), 0, 1)
                    H.assume(last <= p)
                    row.append(p)
                    last = p
                self.Q.append(row)
        else:
            st = case.get("states", [0] * nu)
            tab = {0: (1, 1), 1: (0, 1), 2: (0, 0)}
            self.P = [[H.const(x) for x in tab[s]] for s in st]
            ls = case.get("lstates", [1] * nl)
            self.Q = [[H.const(1 if k + 1 >= s else 0) for k in range(6)] for s in ls]
        self.D = [H.const(1) / (i + 2) if H.symbolic else 1.0 / (i + 2) for i in range(nu)]
        fr = case.get("fixR") or [None] * nu
        self.R = [H.int("R%d" % i, 0, 1000) if x is None else H.const(x) for i, x in enumerate(fr)]
        self.PL = [H.pick("PL%d" % i, 0, 1) if case.get("draws") and i == 1 else H.const(0 if i in case.get("out", ()) else 1) for i in range(nu)]
        self.F = [[H.const(TAB[j][s]) if case["levels"] == 5 else H.const(1) for s in range(5)] for j in range(n)]
        self.day = {}
        # hours that may be looked at
        self.hours = {}
        self.load = [[H.const(-7)] * 8760 for _ in range(n)]
        self.peak = [24 * d + 17 for d in range(365)]
        self.k = case.get("hours", 1)
        self.plan = []
        c = self.clock
        for t in range(self.k):
            h = (c - 1) % 8760
            d = h // 24
            if case.get("peak"):
                self.peak[d] = h
            elif self.JSTEP != 24 and self.peak[d] == h:
                self.peak[d] = 24 * d + 5
            used = self.peak[d] if self.JSTEP == 24 else h
            self.plan.append((c, h, d, used))
            for j in range(n):
                f = case.get("fix", {}).get(str(t))
                self.load[j][used] = H.const(f[j]) if f and f[j] is not None else H.int("L%d_%d" % (t, j), 0, 1000)
            c += self.JSTEP
        self.jent = [[H.const(-1)] * n for _ in range(n)]
        self.tr = [[H.const(9)] * 365]
        if n > 1:
            self.jent[0][1] = H.const(0)
            for d in sorted(set(p[2] for p in self.plan)):
                self.tr[0][d] = H.int("T%d" % d, -200, 200)
        self.old = {}
        self.A = {}
        for k in H_ + P_:
            if k[-1] == "A":
                self.old[k] = [[H.int("%s_%d_%d" % (k, j, s), 0, 999) for s in range(5)] for j in range(n)]
            else:
                self.old[k] = [H.int("%s_%d" % (k, s), 0, 999) for s in range(5)]
            self.A[k] = H.arr(self.old[k], "i")
        self.fl = [H.const(0)] * n
        self.want = {k: [list(r) if isinstance(r, list) else r for r in v] for k, v in self.old.items()}

    def args(self):
        H, n, nl = self.H, self.n, self.nl
        lo, hi = self.case.get("ends") or ([0, 0], [1, 2])
        self.LP = [[i, lo[i % 2] % n, hi[i % 2] % n] for i in range(nl)]
        LINENO = [[-1] * n for _ in range(n)]
        for i, a, b in self.LP:
            if a != b:
                LINENO[a][b] = LINENO[b][a] = i
        self.cap = [H.int("cap%d" % i, 0, 500) for i in range(nl)]
        self.back = [H.int("back%d" % i, 0, 500) for i in range(nl)]
        blpa = [[x for _ in range(6) for x in (H.const(-1), self.cap[i], self.back[i])] for i in range(nl)]
        v = dict(
            JSTEP=self.JSTEP, JFREQ=self.JFREQ, MXPLHR=H.arr(self.peak, "i"), PROBG=H.arr(self.P, "f"), RATING=H.arr(self.R, "f"),
            DERATE=H.arr(self.D, "f"), PLNDST=H.arr(self.PL, "f"), CAPOWN=H.arr(self.own, "f"), CAPCON=H.arr(self.loc, "i"),
            PROBL=H.arr([[self.Q[i][k] for i in range(nl)] for k in range(6)], "f"), JENT=H.arr(self.jent, "i"), INTCH=H.arr(self.tr, "f"),
            MXCRIT=0, JCRIT=H.zeros(4, "i"), NFCST=self.levels, HRLOAD=H.arr(self.load, "f"), FCTERR=H.arr(self.F, "f"), LSFLG=H.arr(self.fl, "i"),
            LINENO=H.arr(LINENO, "i"), LP=H.arr(self.LP, "i"), LT=H.zeros(n, "i"), BB=H.zeros((n, n)), ZB=H.zeros((n, n)), BLP0=H.zeros(nl),
            BLPA=H.arr(blpa, "f"), IOI=0, BN=H.arr([[j, 0, 0, 10**5, 10**5] for j in range(n)], "f"), NR=0, NLS=1,
            IGSEED=H.arr(self.gs, "i4"), ILSEED=H.arr(self.ls, "i4"), **self.A,
        )  # fmt: skip
        self.v = v
        return v

    def draw(self):
        """States of all units and lines after one more draw of each."""
        H = self.H
        pct = []
        for i in range(self.nu):
            self.gs[i] = nxt(self.gs[i])
            u = H.div(H.const(self.gs[i]), M31)
            for p in self.P[i]:
                H.assume(H.not_(p == u))
            pct.append(H.ite(u < self.P[i][0], 1, H.ite(u < self.P[i][1], self.D[i], 0)))
        st = []
        for i in range(self.nl):
            self.ls[i] = nxt(self.ls[i])
            u = H.div(H.const(self.ls[i]), M31)
            s = 6
            for k in (4, 3, 2, 1, 0):
                H.assume(H.not_(self.Q[i][k] == u))
                s = H.ite(u <= self.Q[i][k], k + 1, s)
            st.append(s)
        return pct, st


def count(S, names, s, m):
    H = S.H
    if S.case.get("stub"):
        want = "hrstat" if names is H_ else "pkstat"
        if not S.rec:
            return H.fail("a shortage is not counted")
        name, nst, got = S.rec.pop(0)
        H.check("counted by hour, and by peak in the peak hour", name == want)
        H.check_eq("level of the shortage", nst, s)
        for j, x in enumerate(m):
            H.check_eq("margin of area %d that is counted" % j, got[j], x)
        return
    tot = H.sum_(m)
    c = "T" if bool(tot >= 0) else "G"
    sfx = names[0][4]
    S.want["LOL%s%sP" % (c, sfx)][s] = S.want["LOL%s%sP" % (c, sfx)][s] + 1
    for j, x in enumerate(m):
        if bool(x < 0):
            for k, d in (("LOL%s%sA", 1), ("MGN%s%sA", -x)):
                S.want[k % (c, sfx)][j][s] = S.want[k % (c, sfx)][j][s] + d
            S.want["MGN%s%sP" % (c, sfx)][s] = S.want["MGN%s%sP" % (c, sfx)][s] - x
            if sfx == "H":
                S.fl[j] = S.fl[j] + 1


def run(H, case):
    S = Setup(H, case)
    hour, initfl, remove = H.fn("monte_carlo.hour"), H.fn("monte_carlo.initfl"), H.fn("monte_carlo.remove")
    n = S.n
    v = S.args()
    calls = []

    def fake_transm(*a, **k):
        b = H.bound(real, a, k)
        t = len(calls)
        J = H.pick("J%d" % t, 0, 1) if not case.get("quiet") else 1
        X = [H.const(-50 + j) for j in range(n)] if case.get("quiet") else [H.int("adj%d_%d" % (t, j), -300, 300) if J else H.const(0) for j in range(n)]
        c = {m: list(H.lst(b[m])) for m in ("SYSCON", "CAPREQ", "TRNSFR", "TRNSFJ", "PCTAVL", "PLNDST", "LNSTAT", "STMULT")}
        c.update((m, b[m]) for m in ("CLOCK", "JHOUR", "IFLAG", "JFLAG"))
        c["J"], c["X"] = J, X
        for m in ("BN", "BLPA", "BLP0", "BB", "LT", "ZB", "LP"):
            H.check("network data %s is the simulation's own" % m, b[m] is v[m])
        H.check_eq("reference area", b["NR"], 0)
        H.check_eq("sharing mode", b["NLS"], 1)
        calls.append(c)
        return J, H.zeros(S.nl), H.arr(X, "f")

    real = H.replace("monte_carlo.transm", fake_transm)
    stats = []
    if case.get("stub"):
        for name in ("hrstat", "pkstat"):
            stats.append(recorder(H, S, name))
    MFA, P, EV = initfl()
    for t, (clock, h, d, used) in enumerate(S.plan):
        ATRIB = H.arr([clock, 1], "f")
        first = len(calls)
        kw = dict(v, ATRIB=ATRIB, CLOCK=H.const(clock), MFA=MFA, NUMINQ=0, IPOINT=P, EVNTS=EV)
        r, exc = H.call(hour, **kw)
        if exc is not None:
            return H.fail("hour %s fails with %s" % ("between two draws" if used % S.JFREQ else "with a draw", type(exc).__name__))
        N, MFA, P, J = r
        H.check_eq("the hour is put back once", N, 1)
        A = H.zeros(2)
        MFA, N, P = remove(N, A, EV, P)
        H.check_eq("next step one collection step later", A[0], clock + S.JSTEP)
        H.check_eq("kind of event", A[1], 1)
        H.check_eq("hour of the year handed on", J, h)
        if t == 0 or S.JFREQ == 1 or used % S.JFREQ == 0:
            pct, st = S.draw()
        av = [pct[i] * S.R[i] * S.PL[i] for i in range(S.nu)]
        con = [H.sum_(av[i] for i in range(S.nu) if S.loc[i] == j) for j in range(n)]
        owned = [H.sum_(S.own[j][i] * av[i] for i in range(S.nu)) for j in range(n)]
        tr = [H.const(0)] * n
        if n > 1:
            tr[0], tr[1] = S.tr[0][d], -S.tr[0][d]
        k = first
        for s in range(S.levels):
            L = [S.load[j][used] * S.F[j][s] for j in range(n)]
            m = [H.trunc(con[j] - L[j]) for j in range(n)]
            short = [bool(x < 0) for x in m]
            if not any(short):
                break
            if not all(short):
                if k >= len(calls):
                    return H.fail("help from other areas is not asked for")
                c = calls[k]
                k += 1
                if k == first + 1:
                    H.check("the network is set up afresh in every hour", c["IFLAG"] != 1)
                H.check_eq("contracts are evaluated first", c["JFLAG"], 0)
                H.check_eq("clock of the network evaluation", c["CLOCK"], clock)
                H.check_eq("hour of the network evaluation", c["JHOUR"], used)
                for j in range(n):
                    H.check_eq("capacity in area %d" % j, c["SYSCON"][j], con[j])
                    H.check_eq("load of area %d" % j, c["CAPREQ"][j], L[j])
                    H.check_eq("contracted transfer of area %d" % j, c["TRNSFR"][j], tr[j])
                    H.check_eq("transfer by ownership of area %d" % j, c["TRNSFJ"][j], con[j] - owned[j])
                for i in range(S.nu):
                    H.check_eq("unit availability %d" % i, c["PCTAVL"][i], pct[i])
                    H.check_eq("planned status %d" % i, c["PLNDST"][i], S.PL[i])
                for i in range(S.nl):
                    H.check_eq("line state %d" % i, c["LNSTAT"][i], st[i])
                for x in H.lst(c["STMULT"]):
                    H.check_eq("line capacities are not scaled", x, 1)
                if not c["J"]:
                    break
                m = [H.trunc(-x) for x in c["X"]]
                if not any([bool(x < 0) for x in m]):
                    break
            count(S, H_, s, m)
            if used == S.peak[d]:
                count(S, P_, s, m)
        H.check("help from other areas is asked for only as often as needed", len(calls) == k)
    finish(H, S)


def recorder(H, S, name):
    """The counters themselves are C15's; here only what they are given, applied as C15 says."""
    S.rec = []

    def f(*a, **k):
        b = H.bound(orig, a, k)
        for p, x in b.items():
            if p not in ("NST", "MARGIN"):
                H.check("%s gets %s" % (name, p), x is S.v[p])
        S.rec.append((name, b["NST"], list(H.lst(b["MARGIN"]))))

    orig = H.replace("monte_carlo." + name, f)


def finish(H, S):
    v, n = S.v, S.n
    if S.case.get("stub"):
        H.check("nothing else is counted", not S.rec)
    for k in H_ + P_:
        if k[-1] == "A":
            for j in range(n):
                for s in range(5):
                    H.check_eq("%s of area %d at level %d" % (k, j, s), v[k][j, s], S.want[k][j][s])
        else:
            for s in range(5):
                H.check_eq("%s at level %d" % (k, s), v[k][s], S.want[k][s])
    for j in range(n):
        H.check_eq("hours of shortage of area %d" % j, v["LSFLG"][j], S.fl[j])
    for i, x in enumerate(S.gs):
        H.check_eq("one draw per unit and drawing step, %d" % i, v["IGSEED"][i], x)
    for i, x in enumerate(S.ls):
        H.check_eq("one draw per line and drawing step, %d" % i, v["ILSEED"][i], x)
    for i in range(S.nu):
        H.check_eq("rating %d is left alone" % i, v["RATING"][i], S.R[i])
        H.check_eq("planned status %d is left alone" % i, v["PLNDST"][i], S.PL[i])


def network(H, case):
    """Two areas, one line, the real network evaluation: what the neighbour can spare and the line can carry is delivered."""
    S = Setup(H, case)
    hour, initfl = H.fn("monte_carlo.hour"), H.fn("monte_carlo.initfl")
    v = S.args()
    if not case.get("contract"):
        for _, _, d, _ in S.plan:
            H.assume(S.tr[0][d] == 0)
    MFA, P, EV = initfl()
    for t, (clock, h, d, used) in enumerate(S.plan):
        hour(**dict(v, ATRIB=H.arr([clock, 1], "f"), CLOCK=H.const(clock), MFA=MFA, NUMINQ=0, IPOINT=P, EVNTS=EV))
        MFA, P, EV = initfl()
        pct, st = S.draw()
        av = [pct[i] * S.R[i] * S.PL[i] for i in range(S.nu)]
        con = [H.sum_(av[i] for i in range(S.nu) if S.loc[i] == j) for j in range(2)]
        for s in range(S.levels):
            p = [con[j] - S.load[j][used] * S.F[j][s] for j in range(2)]
            m = [H.trunc(x) for x in p]
            short = [bool(x < 0) for x in m]
            if not any(short):
                break
            if not all(short):
                a = 0 if short[0] else 1
                lim = S.back[0] if a == 0 else S.cap[0]
                got = H.max(0, H.min(H.min(p[1 - a], lim), -p[a]))
                m[a] = H.trunc(p[a] + got)
                m[1 - a] = H.trunc(p[1 - a] - got)
                if not bool(m[a] < 0):
                    break
            count(S, H_, s, m)
            if used == S.peak[d]:
                count(S, P_, s, m)
    finish(H, S)


HARNESSES = dict(run=run, network=network)


def cases(tier):
    t = tier == "thorough"
    base = dict(areas=2, units=3, lines=1, levels=1, JSTEP=1, clock=30)
    big = dict(base, stub=True)
    yield "run", dict(big, draws=True, quiet=True, fix={"0": [5000, 0]}), dict(weight=30, max_paths=5000)
    for c, pk in [(1, False), (24, True), (25, False), (8760, True), (8761, False), (17520, False)]:
        yield "run", dict(base, clock=c, peak=pk), {}
    yield "run", dict(base, JSTEP=24, clock=24), {}
    yield "run", dict(base, JSTEP=24, clock=8760), {}
    two = {"0": [None, 0]}
    yield "run", dict(big, hours=2, clock=8760, states=[0, 1, 0], fix=two), dict(weight=5)
    yield "run", dict(big, hours=2, clock=17, peak=True, out=[1], fix=two), dict(weight=5)
    yield "run", dict(big, hours=2, JSTEP=24, clock=48, fix=two), dict(weight=5)
    yield "run", dict(base, hours=2, clock=24, fix={"0": [5000, 5000], "1": [5000, None]}), dict(weight=5)
    for st in ([0, 1, 2], [1, 1, 1]):
        for ls in (1, 2, 6):
            yield "run", dict(base, states=st, lstates=[ls]), {}
    yield "run", dict(base, areas=1, units=2), {}
    yield "run", dict(base, areas=1, units=2, levels=5, peak=True), dict(weight=5)
    yield "run", dict(big, areas=3, lines=2), dict(weight=10)
    many = dict(big, areas=5, units=6, lines=4, states=[0, 0, 1, 2, 0, 0], lstates=[1, 2, 6, 3], clock=300)
    yield "run", dict(many, fix={"0": [None, 0, 0, 0, None]}), dict(weight=10)
    yield "run", dict(many, levels=5, peak=True, fix={"0": [0, 0, 0, None, 0]}, quiet=True), dict(weight=20)
    yield "run", dict(many, JSTEP=24, clock=8760 - 24, hours=3, fixR=[100, 200, 300, 400, None, 600], fix={str(t): [0, 0, 0, 0, None] for t in range(3)}, quiet=True), dict(weight=20)
    yield "run", dict(big, levels=3, peak=True, fix={"0": [None, 0]}), dict(weight=20)
    yield "run", dict(big, levels=3, fix={"0": [None, 5000]}), dict(weight=20)
    yield "run", dict(big, levels=5, peak=True, quiet=True, fix={"0": [None, 0]}), dict(weight=20)
    yield "run", dict(base, JFREQ=24, clock=1, hours=2, fix={"0": [0, 0], "1": [5000, 5000]}), {}
    yield "run", dict(base, JFREQ=24, clock=1), {}
    yield "run", dict(base, JFREQ=24, clock=24, JSTEP=24), {}
    nb = dict(base, units=2, nojoint=True)
    yield "network", dict(nb, fixR=[700, 800], fix={"0": [None, 300]}), dict(weight=10)
    yield "network", dict(nb, fixR=[300, 800], fix={"0": [600, None]}), dict(weight=10)
    yield "network", dict(nb, fixR=[800, 300], fix={"0": [None, 600]}), dict(weight=10)
    yield "network", dict(nb, hours=2, peak=True, fixR=[700, 800], fix={"0": [900, 0], "1": [None, 500]}), dict(weight=10)
    yield "network", dict(nb, levels=2, fixR=[700, 800], fix={"0": [None, 300]}), dict(weight=20)
    if t:
        yield "run", dict(big, levels=5, peak=True, fix={"0": [None, 0]}), dict(weight=40, max_paths=20000, time=700)
        yield "run", dict(big, levels=5, fix={"0": [None, 5000]}), dict(weight=40, max_paths=20000, time=700)
        yield "network", nb, dict(weight=40, time=700)
        yield "network", dict(nb, levels=5, fix={"0": [None, 300]}), dict(weight=40, time=700)
        yield "run", dict(big, levels=3), dict(weight=60, max_paths=20000, time=700)
        yield "run", dict(big, areas=3, lines=2, levels=2, fix={"0": [None, None, 0]}), dict(weight=60, max_paths=20000, time=700)
        yield "run", dict(big, hours=2), dict(weight=60, max_paths=20000, time=700)
        yield "network", dict(nb, hours=2, fix={"0": [None, 0]}), dict(weight=60, max_paths=20000, time=700)
