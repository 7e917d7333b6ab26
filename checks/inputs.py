"""A small input data set with arbitrary numbers, in the form the card reader delivers."""
import numpy as np

MC = "IW1 IW2 IW3 NLS KWHERE KVWHEN KVSTAT KVTYPE KVLOC CVTEST FINISH JSTEP JFREQ MAXEUE IOI IOJ IREM INTV IREPD IREPM JSEED".split()
DX = (
    "QTR NORR NFCST NOAREA PKLOAD FU MINRAN MAXRAN INHBT1 INHBT2 BN SUSTAT FCTERR CAPCON CAPOWN NOGEN PROBG DERATE JENT INTCH INTCHR LP LINENO "
    "PROBL BLPA MXCRIT JCRIT ID NLS IOI IOJ KVLOC KVSTAT KVTYPE KVWHEN KWHERE CVTEST MAXEUE JSTEP JFREQ FINISH INTV INTVT"
).split()


def names(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


class Inputs:
    """areas: names; units: area index of each; lines: area pairs; contracts: (from, to, first day, last day); owned: unit indices."""

    def __init__(self, H, areas=("'A1'", "'A2'"), units=(0, 1), lines=((0, 1),), contracts=(), owned=(), lfu="free", lines_free=(), mc=(), zeros=()):
        self.H = H
        na, nu, nl = len(areas), len(units), len(lines)
        self.areas, self.units, self.lines, self.contracts, self.owned = areas, units, lines, contracts, owned
        mc = dict(mc)
        self.mc = {}
        lims = dict(JSTEP=(1, 24), JFREQ=(1, 24), KVLOC=(1, na), FINISH=(1, 9999), INTV=(1, 50), IW1=(1, 50), IW2=(1, 51), IW3=(1, 51))
        for n in MC:
            if n in mc:
                self.mc[n] = mc[n]
            elif n in ("CVTEST", "MAXEUE"):
                self.mc[n] = H.real(n, 0, 10**5)
            else:
                self.mc[n] = H.int(n, *lims.get(n, (0, 9)))
        self.peak = [H.real("peak%d" % j, 1, 10**4) for j in range(na)]
        self.lfu = [H.real("lfu%d" % j, 0, 40) if lfu == "free" else H.const(lfu) for j in range(na)]
        self.sof = [H.real("sof%d" % j, 0, 10**5) for j in range(na)]
        self.weeks = [[H.int("wk%d_%d" % (j, k), 1, 52) for k in range(4)] for j in range(na)]
        self.hr = [[H.real("u%d_%d" % (k, i), 0, 500 if k < 4 else 1 if k < 6 else 100) for i in range(nu)] for k in range(7)]
        self.uid = [[H.int("id%d_%d" % (i, k), 0, 1 if k == 0 else 52) for k in range(5)] for i in range(nu)]
        free = set(lines_free)

        def line(kind, i, k, lo, hi, dflt):
            if (kind, i, k) in zeros:
                return H.const(0)
            if not lines_free or (i, k) in free:
                return H.real("%s%d_%d" % (kind, i, k), lo, hi)
            return H.const(dflt + 10 * i + k)

        self.adm = [[line("adm", i, k, -500, -1, -100) for k in range(6)] for i in range(nl)]
        self.cap = [[line("cap", i, k, 2, 1000, 200) for k in range(6)] for i in range(nl)]
        self.capr = [[line("capr", i, k, 2, 1000, 300) for k in range(6)] for i in range(nl)]
        self.prob = [[H.real("pr%d_%d" % (i, k), 0, 1) for k in range(6)] for i in range(nl)]
        self.mw = [H.real("mw%d" % k, -300, 300) for k in range(len(contracts))]
        self.pct = [[H.real("pct%d_%d" % (k, j), 0, 100) for j in range(na)] for k in range(len(owned))]

    def cards(self):
        H, nu = self.H, len(self.units)
        un = ["'PL%d%s%d'" % (self.units[i] + 1, "AX"[i % 2], i + 1 if i % 3 else 1000 + i) for i in range(nu)]
        self.unit_names = un
        an = self.areas
        c = self.contracts
        return dict(
            ZZTC="title",
            ZZMC=dict(self.mc),
            ZZLD=dict(
                SNRI=np.arange(1, len(an) + 1), NAR=names(an), RATES=H.arr([list(r) for r in zip(self.peak, self.lfu, self.sof)], "f"), ID=H.arr(self.weeks, "i"),
            ),
            ZZUD=dict(SNRI=np.arange(1, nu + 1), NAT=names(un), NAR=names([an[j] for j in self.units]), HRLOAD=H.arr(self.hr, "f"), ID=H.arr(self.uid, "i")),
            ZZTD=dict(
                SNRI=np.arange(1, len(self.lines) + 1), LineID=np.arange(1, len(self.lines) + 1), NAR=names([an[a] for a, b in self.lines]),
                NAE=names([an[b] for a, b in self.lines]), ADM=H.arr(self.adm, "f"), CAP=H.arr(self.cap, "f"), CAPR=H.arr(self.capr, "f"), PROBT=H.arr(self.prob, "f"),
            ),
            ZZFC={
                "SNRI": np.arange(1, len(c) + 1), "NAR": names([an[x[0]] for x in c]), "NAE": names([an[x[1]] for x in c]),
                "BEG DAY": np.array([x[2] for x in c], dtype=int), "END DAY": np.array([x[3] for x in c], dtype=int), "MW": H.arr(self.mw, "f") if c else np.array([]),
            },
            ZZOD=dict(SNRI=np.arange(1, len(self.owned) + 1), NAT=names([un[i] for i in self.owned]), PERCENT=H.arr(self.pct, "f") if self.owned else np.array([])),
            ZZDD=dict(SNRI=np.array([]), LineID=np.array([])),
        )  # fmt: skip

    def active(self, day, i, j):
        """Power contracted from area i to area j on a day (0 to 364)."""
        return self.H.sum_(self.mw[k] for k, (a, b, x, y) in enumerate(self.contracts) if (a, b) == (i, j) and x - 1 <= day <= y - 1)

    def net(self, day, i):
        n = len(self.areas)
        return self.H.sum_(self.active(day, i, j) for j in range(n)) - self.H.sum_(self.active(day, j, i) for j in range(n))

    def share(self, j, i):
        if i in self.owned:
            return self.H.div(self.pct[self.owned.index(i)][j], 100)
        return self.H.const(1 if self.units[i] == j else 0)
