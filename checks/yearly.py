"""Inputs and expected sums of the yearly routine."""

CAUSE = {"T": "transmission", "G": "generation", "S": "total"}
ANNUAL = [a + c + w + s for a in ("LOL", "MGN") for c in "TG" for w in "HP" for s in "AP"]
CUM = [a + c + w + s for a in ("SOL", "SGN") for c in "TGS" for w in "HP" for s in "AP"]
WTD = [a + c + w + s for a in ("SWL", "SWN") for c in "TGS" for w in "HP" for s in "AP"]
XP = (".0668", ".2417", ".383", ".2417", ".0668")
BINS = 22


def weights(H, nf):
    from fractions import Fraction

    if nf == 1:
        return [H.const(1)]
    return [H.const(Fraction(x)) if H.symbolic else float(x) for x in XP]


class Year:
    """One simulated pool: annual counters, accumulators and their expected values."""

    def __init__(self, H, n, nf, norr, lstep, zero=False, names=None, **over):
        self.H, self.n, self.nf, self.norr, self.lstep = H, n, nf, norr, lstep
        R = (lambda name, lo, hi: H.const(0)) if zero else H.real
        L = 5
        self.A = {}
        self.want = {}
        for k in ANNUAL:
            self.A[k] = H.zeros((n, L) if k[-1] == "A" else (L,), "i")
        for k in CUM:
            if k[-1] == "A":
                v = [[R("%s_%d_%d" % (k, j, s), 0, 10**6) if s < nf else H.const(0) for s in range(L)] for j in range(n)]
            else:
                v = [R("%s_%d" % (k, s), 0, 10**6) if s < nf else H.const(0) for s in range(L)]
            self.want[k] = v
            self.A[k] = H.arr(v, "f")
        for k in WTD:
            v = [R("%s_%d" % (k, j), 0, 10**6) for j in range(n)] if k[-1] == "A" else R(k, 0, 10**6)
            self.want[k] = v
            if k[-1] == "A":
                self.A[k] = H.arr(v, "f")
            else:
                self.A[k] = H.zeros((), "f")
                self.A[k][()] = v
        for k, cols in (("XNEWA", 3), ("HLOLE", BINS), ("DPLOLE", BINS), ("EUES", BINS)):
            v = [[R("%s_%d_%d" % (k, j, c), 0, 10**6) if c < 3 else H.const(0) for c in range(cols)] for j in range(n)]
            self.want[k] = v
            self.A[k] = H.arr(v, "f")
        v = [R("XNEWP_%d" % c, 0, 10**6) for c in range(3)]
        self.want["XNEWP"] = v
        self.A["XNEWP"] = H.arr(v, "f")
        self.fix = dict(
            ATRIB=H.zeros(2), CLOCK=8760.0, CVTEST=0.025, FINISH=10**8, RFLAG=0, LSFLG=H.zeros(n, "i"), NAMA=["A%d  " % (i + 1) for i in range(n)],
            SSQ=0.0, SUSTAT=H.zeros((n + 1, 6)), XLAST=0.0, BB=H.zeros((n, n)), LT=H.zeros(n, "i"), ZB=H.zeros((n, n)), INTV=5, INTVT=5, IOJ=0,
            KVLOC=0, KVSTAT=1, KVTYPE=1, KVWHEN=1, KWHERE=1, LSTEP=lstep, NFCST=nf, NORR=norr, INDX=0, ITAB=3,
        )  # fmt: skip
        self.fix.update(over)
        MFA, IPOINT, EVNTS = H.fn("monte_carlo.initfl")()
        self.fix.update(MFA=MFA, IPOINT=IPOINT, EVNTS=EVNTS, NUMINQ=0)

    def set(self, counts):
        """counts: name -> nested list of the annual counts of levels < nf."""
        self.cnt = counts
        for k, v in counts.items():
            if k[-1] == "A":
                for j in range(self.n):
                    for s in range(self.nf):
                        self.A[k][j, s] = v[j][s]
            else:
                for s in range(self.nf):
                    self.A[k][s] = v[s]

    def symbolic_counts(self, tag, hi, fixed=True):
        """Annual counts; with fixed, the totals that select histogram bins are the same for every input."""
        H, n, nf = self.H, self.n, self.nf
        out = {}
        for k in ANNUAL:
            nm = k + tag
            if k[-1] == "A":
                out[k] = [[H.int("%s_%d_%d" % (nm, j, s), 0, hi) for s in range(nf)] for j in range(n)]
            else:
                out[k] = [H.int("%s_%d" % (nm, s), 0, hi) for s in range(nf)]
        if fixed:
            for a, w in (("LOL", "H"), ("LOL", "P"), ("MGN", "H")):
                for j in range(n):
                    t = out[a + "T" + w + "A"][j][self.norr]
                    total = fixed[j % len(fixed)]
                    H.assume(t <= total)
                    out[a + "G" + w + "A"][j][self.norr] = total - t
        return out

    def run(self, **over):
        f = self.H.fn("monte_carlo.year")
        kw = dict(self.A)
        kw.update(self.fix)
        kw.update(over)
        r = f(**kw)
        self.out = dict(zip(("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"), r))
        self.expect()
        return self.out

    def get(self, k, *ix):
        a = self.A[k]
        return self.H.scalar(a[ix] if ix else a)

    def total(self, k, *ix):
        """Annual count, total of both causes when the third letter is S."""
        c = self.cnt
        if k[3] == "S":
            return self.total(k[:3] + "T" + k[4:], *ix) + self.total(k[:3] + "G" + k[4:], *ix)
        v = c[k]
        for i in ix:
            v = v[i]
        return v

    def weighted(self, k, *ix):
        return self.H.dot(weights(self.H, self.nf), [self.total(k, *ix, s) for s in range(self.nf)])

    def expect(self):
        H, n, nf = self.H, self.n, self.nf
        w = self.want
        for k in CUM:
            src = {"SOL": "LOL", "SGN": "MGN"}[k[:3]] + k[3:]
            if k[-1] == "A":
                w[k] = [[w[k][j][s] + (self.total(src, j, s) if s < nf else 0) for s in range(5)] for j in range(n)]
            else:
                w[k] = [w[k][s] + (self.total(src, s) if s < nf else 0) for s in range(5)]
        for k in WTD:
            src = {"SWL": "LOL", "SWN": "MGN"}[k[:3]] + k[3:]
            if k[-1] == "A":
                w[k] = [w[k][j] + self.weighted(src, j) for j in range(n)]
            else:
                w[k] = w[k] + self.weighted(src)
        three = ("LOLSH", "MGNSH", "LOLSP")
        sq = lambda x: x * x  # noqa: E731
        w["XNEWA"] = [[w["XNEWA"][j][c] + sq(self.weighted(three[c] + "A", j)) for c in range(3)] for j in range(n)]
        w["XNEWP"] = [w["XNEWP"][c] + sq(self.weighted(three[c] + "P")) for c in range(3)]
        for k, src in (("HLOLE", "LOLSHA"), ("DPLOLE", "LOLSPA"), ("EUES", "MGNSHA")):
            new = []
            for j in range(n):
                t = self.total(src, j, self.norr)
                b = H.floor(H.div(t, self.lstep)) if k == "EUES" else t
                new.append([w[k][j][c] + H.ite(b == c if c < BINS - 1 else b >= c, 1, 0) for c in range(BINS)])
            w[k] = new

    def check_sums(self):
        H, n = self.H, self.n
        what = {"SOL": "losses", "SGN": "energy", "SWL": "weighted losses", "SWN": "weighted energy"}
        where = lambda k: "%s, %s, %s" % (CAUSE[k[3]], {"H": "hourly", "P": "peak"}[k[4]], {"A": "area", "P": "pool"}[k[5]])  # noqa: E731
        for k in CUM:
            for s in range(self.nf):
                for j in range(n) if k[-1] == "A" else (None,):
                    ix = (s,) if j is None else (j, s)
                    want = self.want[k]
                    for i in ix:
                        want = want[i]
                    H.check_eq("cumulative %s (%s) %s" % (what[k[:3]], where(k), list(ix)), self.get(k, *ix), want)
        for k in WTD:
            if k[-1] == "A":
                for j in range(n):
                    H.check_eq("cumulative %s (%s) [%d]" % (what[k[:3]], where(k), j), self.get(k, j), self.want[k][j])
            else:
                H.check_eq("cumulative %s (%s)" % (what[k[:3]], where(k)), self.get(k), self.want[k])

    def check_squares(self):
        H = self.H
        for c, nm in enumerate(("hourly losses", "energy", "peak losses")):
            for j in range(self.n):
                H.check_eq("sum of squares of yearly %s, area [%d]" % (nm, j), self.get("XNEWA", j, c), self.want["XNEWA"][j][c])
            H.check_eq("sum of squares of yearly %s, pool" % nm, self.get("XNEWP", c), self.want["XNEWP"][c])

    def check_bins(self):
        H = self.H
        for k, nm in (("HLOLE", "hourly losses"), ("DPLOLE", "peak losses"), ("EUES", "energy")):
            for j in range(self.n):
                for c in range(BINS):
                    H.check_eq("distribution of yearly %s [area %d, class %d]" % (nm, j, c), self.get(k, j, c), self.want[k][j][c])

    def check_reset(self):
        H = self.H
        for k in ANNUAL:
            for s in range(self.nf):
                for j in range(self.n) if k[-1] == "A" else (None,):
                    ix = (s,) if j is None else (j, s)
                    H.check_eq("annual counter %s starts the next year at zero %s" % (k, list(ix)), self.get(k, *ix), 0)

    def converging(self, KWHERE, KVWHEN, KVSTAT, KVTYPE, KVLOC):
        """The statistic the convergence test has to watch (cumulative)."""
        k = {1: "SW", 2: "S"}[KVTYPE] + {1: {1: "LS", 2: "OLS"}, 2: {1: "NS", 2: "GNS"}}[KVSTAT][KVTYPE] + {1: "H", 2: "P"}[KVWHEN] + {1: "A", 2: "P"}[KWHERE]
        v = self.want[k]
        if KWHERE == 1:
            v = v[KVLOC]
        return v[self.norr] if KVTYPE == 2 else v
