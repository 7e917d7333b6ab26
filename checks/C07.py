"""C07 admittance matrix: construction, removal of the reference area, inverse, single-branch updates."""
import itertools

BOUNDS = (
    "up to 6 areas and 7 lines, parallel and reversed lines included, every reference area; "
    "arbitrary real admittances for construction, reduction and updates; positive admittances on connected networks for "
    "the inverse (up to 4 areas with all admittances symbolic)"
)
OUTSIDE = "larger networks; inverse of a disconnected network"
ALONE = False
ASSUMPTIONS = ["every area has at least one line; the inverse is claimed for connected networks only"]


def build(H, ends, b):
    na = 1 + max(max(e) for e in ends)
    B = [[0] * na for _ in range(na)]
    for (j, k), x in zip(ends, b):
        B[j][k] = B[j][k] - x
        B[k][j] = B[k][j] - x
        B[j][j] = B[j][j] + x
        B[k][k] = B[k][k] + x
    return B


def lp(H, ends):
    return H.arr([[i, j, k] for i, (j, k) in enumerate(ends)], "i")


def blp(H, b):
    return H.arr([[x, H.real("fw%d" % i, 0, 1000), H.real("bw%d" % i, 0, 1000)] for i, x in enumerate(b)], "f")


def bn(H, na, order=None):
    return H.arr([[H.const(order[i] if order else i)] + [H.real("bn%d_%d" % (i, k), -1000, 1000) for k in range(1, 5)] for i in range(na)], "f")


def matrix(H, case):
    ends = case["ends"]
    admitb = H.fn("monte_carlo.admitb")
    b = [H.real("b%d" % i, -100, 100) for i in range(len(ends))]
    LP, BLP = lp(H, ends), blp(H, b)
    BB = admitb(LP, BLP)
    want = build(H, ends, b)
    na = len(want)
    for i in range(na):
        for j in range(na):
            H.check_eq("entry [%d,%d] of the admittance matrix" % (i, j), BB[i, j], want[i][j])
        H.check_eq("line data kept", BLP[i, 0] if i < len(b) else 0, b[i] if i < len(b) else 0)
    H.observe("BB", BB)


def reduce(H, case):
    na, NR, which = case["na"], case["NR"], case["which"]
    f = H.opt("monte_carlo.admitr", which)
    if f is None:
        return H.check("alternative absent", True)
    M = [[H.real("m%d_%d" % (i, j), -100, 100) for j in range(na)] for i in range(na)]
    BN = bn(H, na)
    BB, LT = f(H.arr(M, "f"), BN, NR)
    rest = [i for i in range(na) if i != NR]
    for i in range(na):
        H.check_eq("area at position %d after moving the reference last" % i, LT[i], (rest + [NR])[i])
        for j in range(na):
            w = M[rest[i]][rest[j]] if i < na - 1 and j < na - 1 else 0
            H.check_eq("reduced matrix entry [%d,%d]" % (i, j), BB[i, j], w)


def inverse(H, case):
    ends, NR, sy = case["ends"], case["NR"], case["sym"]
    tm1 = H.fn("monte_carlo.tm1")
    b = [H.real("b%d" % i, H.const(1) / 16 if H.symbolic else 1 / 16, 64) if i in sy else H.const(2 + i) for i in range(len(ends))]
    want = build(H, ends, b)
    na = len(want)
    LP, BLP, BN = lp(H, ends), blp(H, b), bn(H, na)
    bl0, BB, LT, ZB = tm1(BN, LP, BLP, NR)
    rest = [i for i in range(na) if i != NR]
    n = na - 1
    for i, x in enumerate(b):
        H.check_eq("original admittance of line %d" % i, bl0[i], x)
    for i in range(na):
        H.check_eq("area at position %d" % i, LT[i], (rest + [NR])[i])
        for j in range(na):
            w = want[rest[i]][rest[j]] if i < n and j < n else 0
            H.check_eq("reduced matrix entry [%d,%d]" % (i, j), BB[i, j], w)
            if i < n and j < n:
                s = H.sum_(want[rest[i]][rest[k]] * ZB[k, j] for k in range(n))
                H.check_eq("reduced matrix times its inverse [%d,%d]" % (i, j), s, 1 if i == j else 0)
            else:
                H.check_eq("reference row and column of the inverse are empty", ZB[i, j], 0)


def update(H, case):
    n, i, j = case["n"], case["i"], case["j"]
    M = [[H.real("m%d_%d" % (p, q), -100, 100) for q in range(n)] for p in range(n)]
    x = H.real("x", -100, 100)
    W = [list(r) for r in M]
    BB = H.arr(M, "f")
    if j is None:
        f = H.opt("monte_carlo.admref", "admref")
        if f is None:
            return H.check("alternative absent", True)
        f(BB, i, x)
        W[i][i] = W[i][i] + x
    else:
        f = H.opt("monte_carlo.admitm", "admitm")
        if f is None:
            return H.check("alternative absent", True)
        f(BB, i, j, x)
        W[i][i] = W[i][i] + x
        W[j][j] = W[j][j] + x
        W[i][j] = W[i][j] - x
        W[j][i] = W[j][i] - x
    for p in range(n):
        for q in range(n):
            H.check_eq("entry [%d,%d] after the branch change" % (p, q), BB[p, q], W[p][q])


HARNESSES = dict(matrix=matrix, reduce=reduce, inverse=inverse, update=update)


def covers(ends, na):
    return {x for e in ends for x in e} == set(range(na))


def connected(ends, na):
    s = {0}
    for _ in range(na):
        for a, b in ends:
            if a in s or b in s:
                s |= {a, b}
    return len(s) == na


def topologies(na, nl):
    """All line lists up to the order of lines, both directions."""
    arcs = [(a, b) for a in range(na) for b in range(na) if a != b]
    return [list(c) for c in itertools.combinations_with_replacement(arcs, nl) if covers(c, na)]


def cases(tier):
    t = tier == "thorough"
    for na, nl in [(2, 1), (2, 2), (3, 2), (3, 3)]:
        for e in topologies(na, nl):
            yield "matrix", dict(ends=e), {}
    big = [[(0, 1), (1, 2), (2, 3), (3, 0)], [(3, 1), (1, 0), (2, 1), (1, 2)], [(2, 3), (3, 2), (0, 1), (0, 3)]]
    for e in big + [[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)], [(4, 0), (4, 1), (4, 2), (4, 3), (1, 0)], [(5, 0), (0, 5), (5, 3), (2, 4), (1, 4), (3, 2), (0, 5)]]:
        yield "matrix", dict(ends=e), {}
    for na in (2, 3, 4, 5, 6):
        for NR in range(na):
            for w in ("admitr", "_admitr"):
                yield "reduce", dict(na=na, NR=NR, which=w), {}
    for na, nl in [(2, 1), (2, 2), (3, 2), (3, 3)]:
        for e in topologies(na, nl):
            if connected(e, na):
                for NR in range(na):
                    yield "inverse", dict(ends=e, NR=NR, sym=list(range(nl))), dict(weight=nl)
    for e in big[:2]:
        for NR in range(4):
            yield "inverse", dict(ends=e, NR=NR, sym=[0, 1, 2, 3]), dict(weight=4)
    for n in (2, 3, 4, 5, 6):
        for i in range(n):
            for j in [None] + [k for k in range(n) if k != i]:
                yield "update", dict(n=n, i=i, j=j), {}
