"""C14 optional printing: results do not depend on it, and what it shows are the results."""
from . import C13, C20
from .C07 import lp
from .C16 import stub
from .yearly import ANNUAL, CUM, WTD, Year, weights

BOUNDS = (
    "hourly transmission evaluation of 2 and 3 areas with arbitrary margins, both loss sharing modes, 0 to 3 units out or derated; "
    "yearly routine of 1 or 2 areas, one or five forecast levels with arbitrary counts, both layouts; maintenance planning as in C20"
)
OUTSIDE = "the wording and column layout of the printed text; area and level numbers in the yearly table"
ASSUMPTIONS = ["C13 and C20 where the results themselves are concerned"]


PLACE = {"number": 0, "start": 1, "end": 2, "admittance": 3, "forward limit": 4, "backward limit": 5}


def network(H, case):
    """One transmission evaluation without and with debug output."""
    ends, na, NR, st, T = case["ends"], case["na"], case["NR"], case["st"], case["T"]
    nl = len(ends)
    LP = lp(H, ends)
    BLPA = H.arr([[H.const(v) for s in range(6) for v in C13.STATES[min(s, 2)]] for _ in range(nl)], "f")
    S = [H.real("s%d" % a, -400, 400) for a in range(na)]
    for a in range(na):
        H.assume(S[a] > 0 if case["signs"][a] > 0 else S[a] <= 0)
    load = [500 + 10 * a for a in range(na)]
    plnd, pct = [], []
    listed = []
    for i, u in enumerate(case["unit"]):
        plnd.append(H.const(0 if u == "planned" else 1))
        pct.append(H.real("part%d" % i, 0.125, 0.875) if u == "derated" else H.const(0 if u == "out" else 1))
        if u != "ok":
            listed.append(i)
    res = []
    for ioi in (0, 1):
        BN = H.arr([[H.const(a), H.const(0), H.const(0), H.const(30000), H.const(30000)] for a in range(na)], "f")
        bl0, BB, LT, ZB = H.zeros(nl), H.zeros((na, na)), H.zeros(na, "i"), H.zeros((na, na))
        P, Q = H.arr(plnd, "f"), H.arr(pct, "f")
        jf, F, adj = H.fn("monte_carlo.transm")(
            0, 0, 100, 99, ioi, BN, BLPA, bl0, BB, LT, ZB, LP, NR, H.arr([[1, 1]] * nl, "f"), H.arr([s + 1 for s in st], "i"), case["NLS"],
            H.arr(T, "f"), H.zeros(na), H.arr([load[a] + S[a] for a in range(na)], "f"), H.arr([H.const(x) for x in load], "f"), P, Q,
        )  # fmt: skip
        res.append([jf] + H.lst(F)[:nl] + H.lst(adj)[:na] + H.lst(BN) + H.lst(BB) + H.lst(ZB) + H.lst(LT) + H.lst(bl0) + H.lst(P) + H.lst(Q))
        if not ioi:
            H.check("no debug output unless asked for", H.file("traout.txt ") is None and H.file("traout.txt") is None)
    for x, y in zip(*res):
        H.check_eq("the evaluation is the same with debug output", y, x)
    H.check_eq("as many results with debug output", len(res[1]), len(res[0]))
    text = H.file("traout.txt ") or H.file("traout.txt")
    # written when some limit is exceeded and the dispatch has to be optimised
    if text is not None:
        v = H.values(text)
        H.check_eq("debug output: time", v[0], 100)
        H.check_eq("debug output: number of units out or derated", v[3], len(listed))
        for i, u in zip(listed, v[4 : 4 + len(listed)]):
            H.check_eq("debug output: units out or derated", H.abs(u), i)
        F, end = res[1][1 : 1 + nl], v[-7 * nl :]
        H.check_eq("debug output: whether generation is short", v[2], jf)
        H.check_eq("debug output: hour", v[1], 99)
        if jf == 1 and not any(T):
            rows = v[-7 * nl - 6 * na : -7 * nl]
            adj = res[1][1 + nl : 1 + nl + na]
            for a in range(na):
                want = (a, adj[a] + S[a], H.max(adj[a], 0), S[a], load[a], 30000)
                for c, x, y in zip(("number", "exchange", "unserved load", "margin", "load", "limit"), rows[6 * a :], want):
                    H.check_eq("debug output: %s of area [%d]" % (c, a), x, y, tol=0.51)
        for i in range(nl):
            state = C13.STATES[min(st[i], 2)]
            for c, x in zip(("number", "start", "end"), H.lst(LP)[3 * i : 3 * i + 3]):
                H.check_eq("debug output: %s of line [%d]" % (c, i), end[7 * i + PLACE[c]], x)
            for c, x in zip(("admittance", "forward limit", "backward limit"), state):
                if c != "admittance" and any(T):
                    continue  # shown net of the contracted transfers
                H.check_eq("debug output: %s of line [%d]" % (c, i), H.abs(end[7 * i + PLACE[c]]), H.abs(H.const(x)), tol=0.51)
            H.check_eq("debug output: flow of line [%d]" % i, end[7 * i + 6], F[i], tol=0.51)


def table(H, case):
    """One year end without and with the yearly table."""
    n, nf, indx = case["areas"], case["levels"], case["indx"]
    norr = 2 if nf == 5 else 0
    stub(H, {})
    Y = Year(H, n, nf, norr, 50, INDX=indx)
    cnt = Y.symbolic_counts("", 1000, fixed=(7, 12, 350) if case["none"] != "TG" else None)
    for k in cnt:  # no energy without a loss, some loss everywhere but in the groups named
        if k[:3] == "LOL":
            for a, m in zip(_flat(cnt[k]), _flat(cnt["MGN" + k[3:]])):
                H.assume(a >= 1 if k[3] not in case["none"] else a <= 0)
    Y.set(cnt)
    first = {k: a.copy() if hasattr(a, "copy") else a for k, a in Y.A.items()}
    fix = dict(Y.fix)
    kw = dict(first)
    kw.update(fix)
    for k in ("ATRIB", "EVNTS", "LSFLG", "SUSTAT", "BB", "LT", "ZB"):
        kw[k] = fix[k].copy()
    f = H.fn("monte_carlo.year")
    quiet = f(**kw)
    before = H.file("output.txt") or ""
    H.check("no yearly table unless asked for", "REPLICATIONS" not in before)
    Y.run(IOJ=1)
    out = dict(zip(("IPOINT", "MFA", "NUMINQ", "SSQ", "XLAST", "RFLAG", "INTVT", "ITAB"), quiet))
    for k in out:
        if k == "ITAB":
            H.check_eq("one table more is counted", Y.out[k], out[k] + 1)
        elif k in ("SSQ", "XLAST"):
            H.check("outcome %s is the same with the yearly table" % k, Y.out[k] == out[k])
        else:
            H.check_eq("outcome %s is the same with the yearly table" % k, Y.out[k], out[k])
    for k in first:
        for x, y in zip(H.lst(first[k]), H.lst(Y.A[k])):
            H.check_eq("%s is the same with the yearly table" % k, y, x)
    for k in ("ATRIB", "EVNTS", "LSFLG", "SUSTAT", "BB", "LT", "ZB"):
        for x, y in zip(H.lst(kw[k]), H.lst(Y.fix[k])):
            H.check_eq("%s is the same with the yearly table" % k, y, x)
    text = (H.file("output.txt") or "")[len(before) :]
    H.check("the yearly table is written when asked for", "REPLICATIONS" in text)
    if "REPLICATIONS" not in text:
        return
    head, body = text.split("REMARKS", 1)
    H.check_eq("yearly table: year in the heading", H.values(head)[0], 1)
    rows, cur = [], ""
    for w in body.replace("POOL STATISTICS", " ").split():
        if w in ("GC", "TC", "GT"):
            rows.append((w, "AV" in cur.split(), H.values(cur.replace("AV", " "))))
            cur = ""
        else:
            cur += " " + w
    want = []
    w5 = weights(H, nf)

    def line(tag, g, av, ix):
        tot = lambda k: H.dot(w5, [Y.total(k, *ix, s) for s in range(nf)]) if av else Y.total(k, *ix)  # noqa: E731
        h, p, hn, pn = (tot(a + g + b + tag) for a, b in (("LOL", "H"), ("LOL", "P"), ("MGN", "H"), ("MGN", "P")))
        none = g in case["none"] or (g == "S" and "T" in case["none"] and "G" in case["none"])
        q = lambda a, b: H.const(0) if none else H.div(a, b)  # noqa: E731
        t = 0.006
        c = [("hours", h, t), ("MW per lost hour", q(hn, h), t), ("energy", hn, 0.51), ("days", p, t), ("MW per lost day", q(pn, p), t)]
        want.append(({"G": "GC", "T": "TC", "S": "GT"}[g], av, c if indx != 1 else c[3:]))

    for j in range(n):
        for s in range(nf):
            for g in "GTS":
                line("A", g, False, (j, s))
        for g in "GTS":
            line("A", g, True, (j,))
    for s in range(nf):
        for g in "GTS":
            line("P", g, False, (s,))
    for g in "GTS":
        line("P", g, True, ())
    H.check_eq("yearly table: lines", len(rows), len(want))
    for i, ((c, av, got), (wc, wav, cells)) in enumerate(zip(rows, want)):
        where = "yearly table, line (%d) %s %s" % (i, wc, "average" if wav else "level")
        H.check(where + ": cause and kind", c == wc and av == wav)
        H.check(where + ": figures", len(got) >= len(cells))
        if len(got) >= len(cells):
            for a, (lab, b, tol) in zip(got[len(got) - len(cells) :], cells):
                H.check_eq("%s: %s" % (where, lab), a, b, tol=tol)


def _flat(x):
    return [z for y in x for z in (_flat(y) if isinstance(y, list) else [y])]


def planning(H, case):
    """The maintenance plan without and with its printout."""
    smaint = H.fn("data_processing.smaint")
    ID = C20.ident(H, case)
    n, na = len(ID), case["areas"]
    tenth = H.div(H.const(1), 10)
    full = lambda x: H.arr([H.const(x)] * na, "i")  # noqa: E731
    res = []
    for pr in (0, 1):
        A = H.arr([[H.const(x) for x in r] for r in ID], "i")
        R = H.arr([[H.const(100 * (i + 1) + 7 * q) for q in range(4)] for i in range(n)], "f")
        P = H.arr([[1 - 2 * tenth, 1 - tenth] for i in range(n)], "f")
        D = H.arr([tenth * 5] * n, "f")
        peak = H.arr([H.const(1000 + 10 * j) for j in range(na)], "f")
        W = H.arr([[H.const((1000 + 10 * j) * (90 - abs(26 - w))) / 100 for w in range(52)] for j in range(na)], "f")
        J, tab = smaint(
            na, A, 6, R, P, D, peak, W, pr, full(0), full(51), full(30), full(31), C20.NAMES[:n], ["%02d" % i for i in range(n)],
        )  # fmt: skip
        res.append([H.lst(x) for x in (J, A, R, P, D, peak, W)])
    for nm, x, y in zip(("plan", "outages", "ratings", "state probabilities", "deratings", "peaks", "weekly peaks"), *res):
        for u, v in zip(x, y):
            H.check_eq("%s: the same with the printout" % nm, v, u)


HARNESSES = dict(network=network, table=table, planning=planning)


def cases(tier):
    t = tier == "thorough"
    two, ring = [(0, 1), (1, 0)], [(0, 1), (1, 2), (2, 0)]
    for NLS in (1, 0):
        for k, unit in enumerate((["ok", "ok"], ["out", "ok", "derated"], ["planned", "derated", "out"])):
            signs = ([1, -1], [1, 1], [-1, -1])[k] if NLS else ([1, -1], [-1, 1], [-1, -1])[k]
            yield "network", dict(ends=two, na=2, NR=k % 2, NLS=NLS, st=[(k + 1) % 2, 0], T=[[30, -30], [0, 0], [0, 0]][k], signs=signs, unit=unit), dict(max_paths=600)
    yield "network", dict(ends=ring, na=3, NR=0, NLS=1, st=[1, 0, 2], T=[0, 0, 0], signs=[1, 1, -1], unit=["out"]), dict(max_paths=2000, time=300)
    for indx in (0, 1):
        for none in ("", "T", "G", "TG"):
            yield "table", dict(areas=1, levels=1, indx=indx, none=none), {}
        yield "table", dict(areas=2, levels=1, indx=indx, none=""), {}
        yield "table", dict(areas=1, levels=5, indx=indx, none="T" if indx else ""), {}
        if t:
            yield "table", dict(areas=2, levels=5, indx=indx, none=""), dict(time=600)
    N = [0, 0]
    yield "planning", dict(areas=1, units=[[0, [[1, 3], [1, 3]], N], [0, N, N]]), {}
    yield "planning", dict(areas=2, units=[[0, [5, 2], [[6, 9], 3]], [1, [51, 2], N], [1, N, [7, 1]]]), {}
