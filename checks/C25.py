"""C25 input files: every figure of every table is delivered under its own name, in its own row."""
from .inputs import Inputs, names

BOUNDS = (
    "all eight tables; 1 to 4 areas, 1 to 4 units, 1 to 3 lines with six states, up to 3 contracts, jointly owned units and line deratings; "
    "every figure arbitrary, names and layouts of the figures in a line's state list varied; empty optional tables"
)
OUTSIDE = "pandas' own parsing of the text (modelled as: one number or name per cell; the real pandas is used when a counterexample is replayed)"
ASSUMPTIONS = ["well-formed tables with the documented columns", "rows listed in the order of their serial numbers"]

COL = dict(
    JSEED="SEED", NLS="LS", IW1="END WK1", IW2="END WK2", IW3="END WK3", KWHERE="WHERE", KVWHEN="WHEN", KVSTAT="KVS", KVTYPE="KVT", KVLOC="KVL", CVTEST="CVT",
    FINISH="FIN", JSTEP="STEP", JFREQ="FREQ", MAXEUE="MAXE", IOI="II", IOJ="IJ", IREM="IR", INTV="IN", IREPD="D", IREPM="M",
)  # fmt: skip
ZZMC = "SEED,LS,END WK1,END WK2,END WK3,WHERE,WHEN,KVS,KVT,KVL,CVT,FIN,STEP,FREQ,MAXE,II,IJ,IR,IN,D,M"


def tables(H, I, case):
    t = lambda x: H.text(x).strip()  # noqa: E731
    c = I.cards()
    back = {v: k for k, v in COL.items()}
    out = {"ZZTC": "\n".join(case["title"])}
    out["ZZMC"] = "%s\n%s" % (ZZMC, ",".join(t(I.mc[back[x]]) for x in ZZMC.split(",")))
    L = ["SN,AREA NAME,PEAK (MW),LFU,OUTAGE BEG WK,OUTAGE END WK,FORBIDDEN BEG WK,FORBIDDEN END WK,SUM OF FLOWS CONSTRAINT"]
    for j, a in enumerate(I.areas):
        L.append(",".join([str(j + 1), a, t(I.peak[j]), t(I.lfu[j])] + [t(x) for x in I.weeks[j]] + [t(I.sof[j])]))
    out["ZZLD"] = "\n".join(L)
    L = ["SN,NAME,LOC,CAP1,CAP2,CAP3,CAP4,DFOR,FOR,DER,P/A,B1,D1,B2,D2"]
    for i, j in enumerate(I.units):
        L.append(",".join([str(i + 1), I.unit_names[i], I.areas[j]] + [t(I.hr[k][i]) for k in range(7)] + [t(x) for x in I.uid[i]]))
    out["ZZUD"] = "\n".join(L)
    L = ["SN,LINE NUMBER,FROM AREA,TO AREA,META DATA"]
    sep = case.get("sep", ",")
    for i, (a, b) in enumerate(I.lines):
        st = sep.join(sep.join(t(x[i][k]) for x in (I.adm, I.cap, I.capr, I.prob)) for k in range(6))
        L.append('%d,%d,%s,%s,"%s"' % (i + 1, i + 1, I.areas[a], I.areas[b], st))
    out["ZZTD"] = "\n".join(L)
    L = ["SN,FROM AREA,TO AREA,BEG DAY,END DAY,MW"]
    for k, (a, b, x, y) in enumerate(I.contracts):
        L.append(",".join([str(k + 1), I.areas[a], I.areas[b], str(x), str(y), t(I.mw[k])]))
    out["ZZFC"] = "\n".join(L)
    L = ["SN,UNIT NAME,PERCENT OWNED BY AREA"]
    for k, u in enumerate(I.owned):
        L.append('%d,%s,"%s"' % (k + 1, I.unit_names[u], ",".join(t(x) for x in I.pct[k])))
    out["ZZOD"] = "\n".join(L)
    L = ["SN,LINE NUMBER,UNIT1,UNIT2,UNIT3,UNIT4,FORWARD,BACKWARD"]
    for k, (ln, us) in enumerate(case.get("derate", [])):
        L.append(",".join([str(k + 1), str(ln)] + us + [t(x) for x in I.dr[k]]))
    out["ZZDD"] = "\n".join(L)
    return c, out


def same(H, label, got, want):
    if isinstance(want, list):
        want = names(want)
    shape = tuple(getattr(want, "shape", ())) if not isinstance(want, (int, float)) else ()
    if not shape or isinstance(want, str):
        return H.check_eq(label, got, want)
    if shape[0] == 0:
        return H.check(label + ": empty", len(got) == 0)
    H.check(label + ": number of rows", tuple(got.shape) == shape)
    idx = H.np.ndindex(*shape)
    for i in idx:
        x, y = got[i], want[i]
        if isinstance(y, str):
            H.check(label, str(x) == y)
        else:
            H.check_eq(label, x, y)


def read(H, case):
    f = H.fn("data_processing.readInputB")
    I = Inputs(H, **case["inputs"])
    I.dr = [[H.real("dr%d_%d" % (k, s), 0, 1) for s in range(2)] for k in range(len(case.get("derate", [])))]
    c, txt = tables(H, I, case)
    d = case.get("dir", ".")
    for k, v in txt.items():
        H.put_file(d + "/" + k + ".csv", v + case.get("end", ""))
    r = f(d)
    H.check("all tables are delivered", sorted(r) == sorted(txt))
    H.check("title", r["ZZTC"] == ". ".join(case["title"]))
    for k in COL:
        H.check_eq("control figure %s" % k, r["ZZMC"][k], I.mc[k])
    for tab in ("ZZLD", "ZZUD", "ZZTD", "ZZFC", "ZZOD"):
        for k, w in c[tab].items():
            same(H, "%s %s" % (tab, k), r[tab][k], w)
    dd = case.get("derate", [])
    D = r["ZZDD"]
    for k, (ln, us) in enumerate(dd):
        H.check_eq("derating: line", D["LineID"][k], ln)
        for q in range(4):
            H.check("derating: unit %d" % (q + 1), str(D["unit%d_name" % (q + 1)][k]) == us[q])
        H.check_eq("derating: forward factor", D["forward_derate"][k], I.dr[k][0])
        H.check_eq("derating: backward factor", D["backward_derate"][k], I.dr[k][1])
    for k, x in D.items():
        H.check("derating %s: number of rows" % k, len(x) == len(dd))


HARNESSES = dict(read=read)


def cases(tier):
    A = ["'A1'", "'A2'", "'B3'", "'Z4'"]
    one = ["ONE LINE"]
    for n in (1, 2, 3, 4) if tier == "thorough" else (1, 2, 4):
        yield "read", dict(title=one, inputs=dict(areas=A[:n], units=[n - 1] * n, lines=[[0, n - 1]] * min(n, 3))), {}
    yield "read", dict(title=["A", "B. C"], sep=" ,", inputs=dict(areas=A[:3], units=[2, 0, 1], lines=[[1, 0], [2, 1]], contracts=[[0, 1, 1, 365], [2, 0, 5, 5]], owned=[1])), {}
    yield "read", dict(title=["A", "B", "C"], sep=", ", end="\n", dir="in", inputs=dict(areas=A[1:3], units=[0], lines=[[1, 0]], contracts=[[1, 0, 9, 30]], owned=[0]), derate=[[1, ["'P101'", "'P102'", "'P103'", "'P104'"]]]), {}
    yield "read", dict(title=one, end="\n", inputs=dict(areas=A[::-1], units=[3, 3, 0, 1], lines=[[3, 0]], contracts=[[0, 1, 1, 2], [1, 0, 3, 4], [0, 1, 5, 6]], owned=[2, 0]), derate=[[2, list("abcd")], [1, list("dcba")]]), {}
