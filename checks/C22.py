"""C22 input preparation: every figure of the input data reaches the simulation arrays where its meaning puts it."""
from .inputs import DX, Inputs

BOUNDS = (
    "1 to 3 areas, 1 to 4 units, 1 to 3 lines, and 5 areas, 7 units, 5 lines, all figures arbitrary; areas and units in any listing order; jointly owned units; up to two line figures left at zero; "
    "the whole preparation also as one run on a load file of two or more load levels"
)
OUTSIDE = "the conversion of the text files (C25); automatic maintenance planning"
ASSUMPTIONS = ["line numbers are 1, 2, ... in listing order", "names are unique", "seasonal weeks are integers"]


def expect(H, I, d):
    na, nu, nl = len(I.areas), len(I.units), len(I.lines)
    half = H.const(1) / 2 if H.symbolic else 0.5
    eq = H.check_eq
    for k in range(3):
        eq("end of season %d" % k, d["QTR"][k], I.mc["IW%d" % (k + 1)] * 168 + half)
    unc = H.any_(*[x != 0 for x in I.lfu])
    eq("forecast levels", d["NFCST"], H.ite(unc, 5, 1))
    eq("level without error", d["NORR"], H.ite(unc, 2, 0))
    eq("areas", d["NOAREA"], na)
    for j in range(na):
        a = "area %d: " % j
        eq(a + "annual peak", d["PKLOAD"][j], I.peak[j])
        eq(a + "uncertainty", d["FU"][j], I.lfu[j])
        for n, k in (("MINRAN", 0), ("MAXRAN", 1), ("INHBT1", 2), ("INHBT2", 3)):
            eq(a + "week limit %s" % n, d[n][j], I.weeks[j][k] - 1)
        eq(a + "number", d["BN"][j, 0], j)
        eq(a + "no load yet", d["BN"][j, 1], 0)
        eq(a + "no injection yet", d["BN"][j, 2], 0)
        eq(a + "sum of flows limit out", d["BN"][j, 3], I.sof[j])
        eq(a + "sum of flows limit in", d["BN"][j, 4], I.sof[j])
        eq(a + "peak in the summary", d["SUSTAT"][j, 0], I.peak[j])
        for s, m in enumerate((2.5, 1, 0, -1, -2.5)):
            f = 1 + I.lfu[j] * (H.div(H.const(int(2 * m)), 200))
            eq(a + "load factor of level %d" % s, d["FCTERR"][j, s], f)
        eq(a + "units located here", d["NOGEN"][j], sum(1 for u in I.units if u == j))
    for i in range(nu):
        u = "unit %d: " % i
        eq(u + "location", d["CAPCON"][i], I.units[i])
        for j in range(na):
            eq(u + "share of area %d" % j, d["CAPOWN"][j, i], I.share(j, i))
        eq(u + "probability of full capacity", d["PROBG"][i, 0], 1 - I.hr[4][i] - I.hr[5][i])
        eq(u + "probability of some capacity", d["PROBG"][i, 1], 1 - I.hr[5][i])
        eq(u + "remaining share when derated", d["DERATE"][i], 1 - H.div(I.hr[6][i], 100))
        ids = [i, i, I.units[i], I.uid[i][1] - 1, I.uid[i][2], I.uid[i][3] - 1, I.uid[i][4], I.uid[i][0]]
        for k, x in enumerate(ids):
            eq(u + "maintenance entry %s" % "number,plant,area,start1,length1,start2,length2,fixed".split(",")[k], d["ID"][i, k], x)
    for i, (a, b) in enumerate(I.lines):
        l = "line %d: " % i
        eq(l + "number", d["LP"][i, 0], i)
        eq(l + "from", d["LP"][i, 1], a)
        eq(l + "to", d["LP"][i, 2], b)
        t = 0
        for k in range(6):
            t = t + I.prob[i][k]
            eq(l + "cumulative probability of state %d" % k, d["PROBL"][k, i], t)
            for c, (x, z) in enumerate(((I.adm, H.div(H.const(-1), 2)), (I.cap, 1), (I.capr, 1))):
                eq(l + "%s in state %d" % (("admittance", "forward capacity", "backward capacity")[c], k), d["BLPA"][i, 3 * k + c], H.ite(x[i][k] == 0, z, x[i][k]))
    for a in range(na):
        for b in range(na):
            ls = [i for i, p in enumerate(I.lines) if p == (a, b)]
            if len(ls) < 2:
                eq("line between areas %d and %d" % (a, b), d["LINENO"][a, b], ls[0] if ls else -1)
    eq("no critical units", d["MXCRIT"], 0)
    for n in "NLS IOI IOJ KVSTAT KVTYPE KVWHEN KWHERE CVTEST MAXEUE JSTEP JFREQ INTV".split():
        eq("option %s" % n, d[n], I.mc[n])
    eq("area of the convergence test", d["KVLOC"], I.mc["KVLOC"] - 1)
    eq("end of the simulation in hours", d["FINISH"], I.mc["FINISH"] * 8760)
    eq("first intermediate record", d["INTVT"], I.mc["INTV"])


def build(H, case):
    kw = {k: [tuple(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v for k, v in case.items() if k in ("areas", "units", "lines", "contracts", "owned", "lfu", "zeros", "mc")}
    return Inputs(H, **kw)


def arrays(H, case):
    """Names to numbers and numbers to arrays; the input itself is not altered, so a second preparation gives the same."""
    I = build(H, case)
    pind, datax = H.fn("data_processing.pind"), H.fn("data_processing.datax")
    cards = I.cards()
    for again in (False, True):
        d = dict(zip(DX, datax(pind(cards))))
        H.check("every array is delivered", len(d) == len(DX))
        expect(H, I, d)
    num = pind(cards)
    d1 = dict(zip(DX, datax(num)))
    # what the simulation does to its arrays leaves the cards alone
    for n in ("PKLOAD", "FU", "MINRAN", "BN", "SUSTAT", "CAPOWN", "BLPA", "ID"):
        x = d1[n]
        if len(x.shape) == 1:
            x[0] = -3
        else:
            x[0, 0] = -3
            x[0, x.shape[1] - 1] = -3
    expect(H, I, dict(zip(DX, datax(num))))


def profile(na):
    """Concrete load shapes in percent of the annual peak: flat with a few different hours, one day shared by two areas."""
    base = [40, 60, 50, 45]
    spots = [{100: 100, 5000: 90, 8759: 80, 5011: 90}, {110: 90, 200: 100, 8736: 100}, {0: 70, 8735: 100}, {8: 100, 4900: 85, 7190: 95}]
    return [[spots[j].get(h, base[j]) for h in range(8760)] for j in range(na)]


def wiring(H, case):
    """The whole preparation: each step gets and returns the right arrays."""
    I = build(H, case)
    for k, x in enumerate(I.mw):
        H.assume(x > 0 if k % 2 == 0 else x < 0)
    f = H.fn("data_processing.dataf1")
    cards = I.cards()
    na, nu = len(I.areas), len(I.units)
    shape = profile(na)
    lines = []
    for j in range(na):
        lines.append("AREA:A%d" % (j + 1))
        for h in range(0, 8760, 12):
            lines.append("010101%d %s" % (1 + h % 24 // 12, " ".join(str(x) for x in shape[j][h : h + 12])))
    H.put_file("leei", "\n".join(lines) + "\n")
    H.load("data_processing.dataf1")
    H.replace("data_processing.readInputB", lambda *a, **k: cards)
    seen = []

    def fake_smaint(*a, **k):
        seen.append(H.bound(real, a, k))
        return "plan", 7

    real = H.replace("data_processing.smaint", fake_smaint)
    out = f(["cards", "leei"])
    from .C02 import DATA

    H.check("everything is delivered", len(out) == len(DATA))
    d = dict(zip(DATA, out))
    expect(H, I, d)
    H.check("planned outages and table number come from the maintenance step", d["JPLOUT"] == "plan" and d["ITAB"] == 7)
    H.check("reference area is the first", d["NR"] == 0)
    H.check("printed area names", [str(x).strip() for x in d["NAMA"]] == [x.strip("'") for x in I.areas])
    for i in range(nu):
        for q in range(4):
            H.check_eq("rating of unit %d in season %d" % (i, q), d["RATES"][i, q], I.hr[q][i])
    H.check("maintenance is planned once", len(seen) == 1)
    b = seen[0]
    for n, x in b.items():
        if n in d and n != "ITAB":
            H.check("maintenance step gets %s" % n, x is d[n])
    H.check("maintenance step: unit names", [str(x) for x in b["NAMU"]] == [x[1:5] for x in I.unit_names])
    H.check("maintenance step: unit numbers", [str(x) for x in b["NUMP"]] == [x[5:-1] for x in I.unit_names])
    H.check_eq("maintenance step: printing option", b["IREPM"], I.mc["IREPM"])
    days = sorted({0, 1, 3, 4, 5, 8, 33, 34, 35, 208, 363, 364} | {x - 1 for c in I.contracts for x in c[2:]} | {min(x, 364) for c in I.contracts for x in c[2:]} | {max(x - 2, 0) for c in I.contracts for x in c[2:]})
    hundred = H.const(100)
    for j in range(na):
        a = "area %d: " % j
        for day in days:
            for h in (24 * day, 24 * day + 4, 24 * day + 8, 24 * day + 14, 24 * day + 23):
                H.check_eq(a + "hourly load without contracts, hour %d" % h, d["HRLOAD"][j, h], H.div(I.peak[j] * shape[j][h], hundred))
        tops = [max(shape[j][24 * k : 24 * k + 24]) for k in range(365)]
        load = {k: H.div(I.peak[j] * tops[k], hundred) + I.net(k, j) for k in range(365)}
        for k in days:
            H.check_eq(a + "peak of day %d with contracts" % k, d["DYLOAD"][j, k], load[k])
            H.check_eq(a + "peak hour of day %d" % k, d["MAXHR"][j, k], 24 * k + shape[j][24 * k : 24 * k + 24].index(tops[k]))
        best, cls = 0, {}
        for k in range(365):
            key = (tops[k], tuple(x for x, c in enumerate(I.contracts) if c[2] - 1 <= k <= c[3] - 1))
            if key not in cls:
                cls[key] = k
        top = load[0]
        for k in sorted(cls.values()):
            best, top = H.ite(load[k] > top, k, best), H.ite(load[k] > top, load[k], top)
        H.check_eq(a + "peak day", d["MAXDAY"][j], best)
        for w in (0, 1, 4, 5, 29, 50, 51):
            ds = range(7 * w, 7 * w + 7 if w < 51 else 365)
            m = load[7 * w]
            for k in ds:
                m = H.max(m, load[k])
            H.check_eq(a + "peak of week %d" % w, d["WPEAK"][j, w], m)
        cap = 0
        for i in range(nu):
            r = I.hr[0][i]
            for s in range(3):
                r = H.ite((best + 1) * 24 > I.mc["IW%d" % (s + 1)] * 168, I.hr[s + 1][i], r)
            cap = cap + I.share(j, i) * r
        net = I.net(0, j)
        for k in sorted(cls.values()):
            net = H.ite(best == k, I.net(k, j), net)
        H.check_eq(a + "capacity at its peak", d["SUSTAT"][j, 1], cap - net)
    for k in days:
        tot = [H.sum_(I.peak[j] * shape[j][h] for j in range(na)) for h in range(24 * k, 24 * k + 24)]
        best, top = 0, tot[0]
        for h in range(1, 24):
            best, top = H.ite(tot[h] > top, h, best), H.ite(tot[h] > top, tot[h], top)
        H.check_eq("pool peak hour of day %d" % k, d["MXPLHR"][k], 24 * k + best)


HARNESSES = dict(arrays=arrays, wiring=wiring)


def cases(tier):
    t = tier == "thorough"
    A = ["'A1'", "'A2'", "'A3'"]
    yield "arrays", dict(areas=A[:1], units=[0], lines=[[0, 0]], lfu=0), {}
    yield "arrays", dict(areas=A[:2], units=[0, 1], lines=[[0, 1]]), {}
    yield "arrays", dict(areas=A[:2], units=[1, 0, 1], lines=[[1, 0], [0, 1]], lfu=0, owned=[1]), {}
    yield "arrays", dict(areas=["'B2'", "'A1'", "'C3'"], units=[2, 0, 0, 1], lines=[[0, 1], [1, 2], [2, 0]], owned=[3, 0]), dict(weight=4)
    yield "arrays", dict(areas=A, units=[2, 2], lines=[[2, 1], [0, 2]], lfu=0, zeros=[["adm", 0, 0], ["cap", 1, 5]]), {}
    yield "arrays", dict(areas=A, units=[1, 1], lines=[[2, 1], [0, 2]], lfu=3, zeros=[["capr", 0, 1], ["cap", 0, 1]]), {}
    yield "arrays", dict(areas=A, units=[1, 1], lines=[[2, 1], [0, 2]], lfu=3, zeros=[["capr", 0, 2], ["capr", 1, 5], ["cap", 1, 0]]), {}
    yield "arrays", dict(areas=A[:2], units=[0, 1], lines=[[0, 1]], contracts=[[0, 1, 3, 9], [1, 0, 200, 365]]), {}
    yield "arrays", dict(areas=["'B2'", "'A1'", "'E5'", "'C3'", "'D4'"], units=[4, 2, 0, 3, 1, 4, 0], lines=[[4, 1], [1, 2], [3, 0], [2, 4], [0, 1]], owned=[5, 1], contracts=[[4, 0, 9, 11], [3, 1, 360, 365]]), dict(weight=6)
    yield "arrays", dict(areas=A, units=[1, 1, 0, 2, 2, 0], lines=[[2, 1], [0, 2]], owned=[4, 0, 3, 1, 2], contracts=[[2, 0, 1, 3], [1, 0, 40, 41], [0, 2, 50, 364], [2, 1, 2, 2]]), dict(weight=6)
    wk = [["IW1", 13], ["IW2", 26], ["IW3", 39]]
    yield "wiring", dict(areas=A[:2], units=[0, 1], lines=[[0, 1]], lfu=0, mc=wk), dict(weight=20)
    yield "wiring", dict(areas=A[:2], units=[1, 0], lines=[[0, 1]], lfu=0, owned=[0], contracts=[[0, 1, 5, 35], [1, 0, 35, 36]], mc=wk), dict(weight=20)
    yield "wiring", dict(areas=A, units=[1, 0, 2], lines=[[0, 1], [1, 2]], owned=[2], lfu=0, contracts=[[2, 1, 1, 9], [1, 0, 209, 209]], mc=wk), dict(weight=40)
    if t:
        B = ["'B2'", "'A1'", "'E5'", "'C3'"]
        yield "wiring", dict(areas=B, units=[1, 0, 2, 3], lines=[[0, 1], [1, 2], [3, 0]], owned=[3, 0, 1], lfu=0, contracts=[[2, 3, 1, 9], [3, 0, 209, 300]], mc=wk), dict(weight=60)
