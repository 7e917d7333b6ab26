"""C18 final report: every printed figure is the mean, ratio, deviation or frequency its heading promises."""
from .yearly import BINS, CUM, WTD

BOUNDS = (
    "1 to 3 areas, one or five forecast levels, hourly or peak-only layout, 1 to 12 years, arbitrary accumulated statistics; each group of statistics also "
    "with no loss at all; distributions with arbitrary counts in every class"
)
OUTSIDE = "more areas; the layout of the text beyond order and meaning of its figures"
ASSUMPTIONS = ["each distribution counts the same number of years", "energy is zero where there is no loss", "sums of squares are at least the squared sums over the years"]
NAMES = ["NORTH ", "SOUTH ", "WEST "]


def final(H, case):
    n, nf, indx, zero = case["areas"], case["levels"], case["indx"], case["zero"]
    report = H.fn("monte_carlo.report")
    Y = case["years"]
    L = 5
    pos = lambda nm: _pos(H, nm)  # noqa: E731
    v, A = {}, {}

    def level(k, s):
        # one group of statistics without any loss, the others with
        return k in zero

    for k in CUM:
        loss = k.replace("SGN", "SOL")
        z = loss in zero
        if k[-1] == "A":
            v[k] = [[H.const(0) if z or s >= nf else pos("%s_%d_%d" % (k, j, s)) for s in range(L)] for j in range(n)]
        else:
            v[k] = [H.const(0) if z or s >= nf else pos("%s_%d" % (k, s)) for s in range(L)]
        A[k] = H.arr(v[k], "f")
    for k in WTD:
        loss = k.replace("SWN", "SWL")
        z = loss in zero
        if k[-1] == "A":
            v[k] = [H.const(0) if z else pos("%s_%d" % (k, j)) for j in range(n)]
            A[k] = H.arr(v[k], "f")
        else:
            v[k] = H.const(0) if z else pos(k)
            A[k] = H.zeros((), "f")
            A[k][()] = v[k]
    three = ("SWLSH", "SWNSH", "SWLSP")
    xa = [[H.real("xa_%d_%d" % (j, c), 0, 10**9) for c in range(3)] for j in range(n)]
    xp = [H.real("xp_%d" % c, 0, 10**9) for c in range(3)]
    for c in range(3):
        for x, m in [(xa[j][c], v[three[c] + "A"][j]) for j in range(n)] + [(xp[c], v[three[c] + "P"])]:
            H.assume(x * Y >= m * m + H.const(1))
    su = [[H.real("peak%d" % j, 1, 10**5), H.real("inst%d" % j, 0, 10**5), H.const(0), H.const(0), H.const(0), H.const(0)] for j in range(n)]
    SUSTAT = H.arr(su + [[H.const(0)] * 6], "f")
    hist = {}
    live = case["bins"]
    for k in ("HLOLE", "DPLOLE", "EUES"):
        hist[k] = []
        for j in range(n):
            row = [H.int("%s_%d_%d" % (k, j, c), 0, 10**4) if c in live else H.const(0) for c in range(BINS)]
            if k == "HLOLE":
                H.assume(H.sum_(row) > 0)
            else:
                total = H.sum_(hist["HLOLE"][j])
                last = live[-1]
                row[last] = total - H.sum_(row[c] for c in range(BINS) if c != last)
                H.assume(row[last] >= 0)
            hist[k].append(row)
        A[k] = H.arr(hist[k], "f")
    ITAB, LSTEP = H.int("ITAB", 0, 500), H.int("LSTEP", 1, 1000)
    out = report(IYEAR=Y, ITAB=ITAB, INDX=indx, SUSTAT=SUSTAT, LSTEP=LSTEP, NAMA=NAMES[:n], NFCST=nf, XNEWA=H.arr(xa, "f"), XNEWP=H.arr(xp, "f"), **A)
    H.check_eq("tables counted", out, ITAB + 2 + n)
    text = H.file("output.txt")
    H.check("the report is appended to the output file", text is not None)
    if text is None:
        return
    rows, areas, tables, dist, years = [], [], [], [], []
    for line in text.splitlines():
        s = line.strip()
        if "TABLE" in s:
            tables += H.values(s.replace("TABLE", " "))
        elif "REPLICATIONS" in s:
            years += H.values(s)
        elif s[-2:] in ("GC", "TC", "GT"):
            rows.append((s[-2:], " AV " in " " + s, H.values(s[:-2].replace("AV", " "))))
        elif any(s.startswith(x.strip()) for x in NAMES[:n]) or s.startswith("ERCOT"):
            areas.append((s.split()[0], H.values(s.split(None, 1)[1])))
        elif "DISTRIBUTIONS FOR AREA" in s:
            dist.append((H.values(s), []))
        elif dist and s and "NUMBER" not in s and "PROB" not in s and "LOLES" not in s:
            dist[-1][1].append(H.values(s))
    H.check_eq("number of years in the heading", years[0] if years else -1, Y)
    for i, t in enumerate(tables):
        H.check_eq("number of table %d" % i, t, ITAB + 1 + i)
    H.check_eq("tables printed", len(tables), 2 + n)
    # expected rows, in order
    want = []
    q = lambda a, b, z: H.const(0) if z else H.div(a, b)  # noqa: E731

    def row(tag, av, head, g, keyL, keyN, ix):
        def val(k):
            x = v[k]
            for i in ix:
                x = x[i]
            return x

        h, p = "%s%sH%s" % (keyL, g, tag), "%s%sP%s" % (keyL, g, tag)
        hn, pn = "%s%sH%s" % (keyN, g, tag), "%s%sP%s" % (keyN, g, tag)
        hz, pz = h in zero, p in zero
        lole, xlol, eue = H.div(val(h), Y), q(val(hn), val(h), hz), H.div(val(hn), Y)
        lolp, xlolp = H.div(val(p), Y), q(val(pn), val(p), pz)
        name = {"G": "GC", "T": "TC", "S": "GT"}[g]
        two = 0.0006 if (av and tag == "P") else 0.006
        if indx != 1:
            cells = [("hourly losses per year", lole, two), ("MW per lost hour", xlol, 0.006), ("energy per year", eue, 0.51), ("days with loss per year", lolp, two), ("MW per lost day", xlolp, 0.006)]
        else:
            cells = [("days with loss per year", lolp, 0.006), ("MW per lost day", xlolp, 0.006)]
        want.append((name, av, head, cells))

    for j in range(n):
        if nf != 1:
            for s in range(nf):
                for g in "GTS":
                    row("A", False, [j + 1, s + 1], g, "SOL", "SGN", (j, s))
        for g in "GTS":
            row("A", True, [j + 1], g, "SWL", "SWN", (j,))
    if nf != 1:
        for s in range(nf):
            for g in "GTS":
                row("P", False, [s + 1], g, "SOL", "SGN", (s,))
    for g in "GTS":
        row("P", True, [], g, "SWL", "SWN", ())
    H.check_eq("lines of statistics", len(rows), len(want))
    for i, ((nm, av, got), (wn, wav, head, cells)) in enumerate(zip(rows, want)):
        where = "line (%d) %s %s" % (i, wn, "average" if wav else "level")
        H.check("%s: cause and kind" % where, nm == wn and av == wav)
        H.check("%s: figures" % where, len(got) == len(head) + len(cells))
        if len(got) != len(head) + len(cells):
            continue
        for a, b in zip(got, head):
            H.check_eq("%s: area or level" % where, a, b)
        for a, (lab, b, tol) in zip(got[len(head) :], cells):
            H.check_eq("%s: %s" % (where, lab), a, b, tol=tol + 1e-6 * 10**6 if False else tol)
    # summary
    H.check_eq("lines of the summary", len(areas), n + 1)
    for i, (nm, got) in enumerate(areas):
        pool = i == n
        H.check("summary line %d is for its area" % i, nm == ("ERCOT" if pool else NAMES[i].strip()))
        tag, ix = ("P", ()) if pool else ("A", (i,))
        peak = H.sum_(r[0] for r in su) if pool else su[i][0]
        inst = H.sum_(r[1] for r in su) if pool else su[i][1]
        who = "pool" if pool else "area [%d]" % i

        def mean(k):
            x = v[k + tag]
            return H.div(x if pool else x[i], Y)

        means = [mean(k) for k in three]
        sq = xp if pool else xa[i]
        res = H.div((inst - peak) * 100, peak)
        H.check_eq("%s: hourly losses kept with the area" % who, SUSTAT[i, 3], means[0])
        H.check_eq("%s: peak losses kept with the area" % who, SUSTAT[i, 4], means[2])
        H.check_eq("%s: energy kept with the area" % who, SUSTAT[i, 5], means[1])
        H.check_eq("%s: reserve kept with the area" % who, SUSTAT[i, 2], res)
        cells = [("peak", peak, 0.51), ("installed capacity", inst, 0.51), ("reserve", res, 0.06)]
        if indx != 1:
            order = ((0, "hourly losses", 0.0006, 0.0006), (1, "energy", 0.51, 0.51), (2, "peak losses", 0.0006, 0.0006))
        else:
            order = ((2, "peak losses", 0.0006, 0.0006),)
        H.check("%s: figures of the summary" % who, len(got) == 3 + 2 * len(order))
        if len(got) != 3 + 2 * len(order):
            continue
        for a, (lab, b, tol) in zip(got, cells):
            H.check_eq("%s: %s" % (who, lab), a, b, tol=tol)
        for z, (c, lab, t1, t2) in enumerate(order):
            m, sd = got[3 + 2 * z], got[4 + 2 * z]
            H.check_eq("%s: mean of %s" % (who, lab), m, means[c], tol=t1)
            var = H.div(H.div(sq[c], Y) - means[c] * means[c], Y)
            if three[c] + tag in zero or three[c].replace("SWN", "SWL") + tag in zero:
                H.check_eq("%s: no deviation without loss of %s" % (who, lab), sd, 0)
            elif H.symbolic:
                p = sd * means[c]
                H.check("%s: standard error of %s in percent" % (who, lab), H.and_(sd >= 0, p * p == var * 10000))
            else:
                H.check_eq("%s: standard error of %s in percent" % (who, lab), sd, 100 * max(var, 0) ** 0.5 / means[c], tol=t2 + 1e-3 * abs(sd))
    # distributions
    H.check_eq("distribution tables", len(dist), n)
    for j, (head, lines) in enumerate(dist):
        H.check_eq("distribution table (%d) names its area" % j, head[0], j + 1)
        H.check_eq("classes in distribution table (%d)" % j, len(lines), BINS)
        if len(lines) != BINS:
            continue
        total = H.sum_(hist["HLOLE"][j])
        for c, got in enumerate(lines):
            H.check("figures in class (%d)" % c, len(got) == 8)
            if len(got) != 8:
                continue
            dp, hl, eu = hist["DPLOLE"][j][c], hist["HLOLE"][j][c], hist["EUES"][j][c]
            for lab, a, b, tol in (
                ("class number", got[0], c, 0.1), ("years by peak losses", got[1], dp, 0.51), ("frequency of peak losses", got[2], H.div(dp, total), 0.0006),
                ("years by hourly losses", got[3], hl, 0.51), ("frequency of hourly losses", got[4], H.div(hl, total), 0.0006),
                ("lower limit of energy class", got[5], LSTEP * c, 0.51), ("years by energy", got[6], eu, 0.51), ("frequency of energy", got[7], H.div(eu, total), 0.00006),
            ):  # fmt: skip
                H.check_eq("%s, area [%d] class (%d)" % (lab, j, c), a, b, tol=tol)


def _pos(H, nm):
    x = H.real(nm, 0, 1000)
    H.assume(x > 0)
    return x


HARNESSES = dict(final=final)
GROUPS = [
    [],
    [a + c + w + s for a in ("SOL", "SWL") for c in "TGS" for w in "HP" for s in "AP"],
    [a + "T" + w + s for a in ("SOL", "SWL") for w in "HP" for s in "AP"],
    [a + c + "PA" for a in ("SOL", "SWL") for c in "TGS"],
]


def cases(tier):
    for indx in (0, 1):
        for nf in (1, 5):
            for n in (1, 2, 3) if nf == 1 else (1, 2):
                for gi, zero in enumerate(GROUPS):
                    if tier == "quick" and (nf == 5 and n == 2 and gi > 1):
                        continue
                    yield "final", dict(areas=n, levels=nf, indx=indx, zero=zero, years=(3, 1, 8, 12)[gi], bins=[0, 1, 5, 21] if nf == 5 or gi else list(range(BINS))), dict(time=600, weight=n * nf)
