"""C11 dense linear algebra used by the linear program: factorisation, inverse, products."""

BOUNDS = (
    "inverse of every nonsingular 1x1 and 2x2 matrix, 3x3 with 3 symbolic entries (thorough: 5 patterns of symbolic "
    "entries, 4x4 with 2 symbolic entries), 4x4 to 6x6 with 1 symbolic entry; products up to 5x4 and 4x5 with symbolic entries"
)
OUTSIDE = "larger matrices; conditioning in floating point"
ALONE = False
ASSUMPTIONS = ["the matrix is nonsingular (determinant at least 1/100 in magnitude)"]


def det(M):
    if len(M) == 1:
        return M[0][0]
    t = 0
    for j in range(len(M)):
        m = [r[:j] + r[j + 1 :] for r in M[1:]]
        t = t + (M[0][j] * det(m) if j % 2 == 0 else 0 - M[0][j] * det(m))
    return t


def inverse(H, case):
    n, base, sy = case["n"], case["base"], [tuple(x) for x in case["sym"]]
    M = [[H.real("a%d_%d" % (i, j), -10, 10) if (i, j) in sy else H.const(base[i][j]) for j in range(n)] for i in range(n)]
    d = det(M)
    H.assume(H.abs(d) >= (H.const(1) / 100 if H.symbolic else 0.01))
    A = H.arr(M, "f")
    if case["via"] in ("dgefa", "_dgedi"):
        _, ip = H.fn("monte_carlo.dgefa")(A, n)
    elif case["via"] == "_dgefa":
        f = H.opt("monte_carlo.dgefa", "_dgefa")
        if f is None:
            return H.check("alternative absent", True)
        _, ip = f(A, n)
    else:
        ip = H.fn("monte_carlo.dgeco")(A, n)
    if case["via"] == "_dgedi":
        g = H.opt("monte_carlo.dgedi", "_dgedi")
        if g is None:
            return H.check("alternative absent", True)
        g(A, n, ip, 2)
    else:
        H.fn("monte_carlo.dgedi")(A, n, ip)
    for i in range(n):
        for j in range(n):
            H.check_eq("matrix times inverse [%d,%d]" % (i, j), H.sum_(M[i][k] * A[k, j] for k in range(n)), 1 if i == j else 0, tol=1e-3)
    H.observe("inv", A)


def products(H, case):
    m, n = case["m"], case["n"]
    T = [[H.real("t%d_%d" % (i, j), -10, 10) for j in range(m + 1)] for i in range(m + 1)]
    A = [[H.real("a%d_%d" % (i, j), -10, 10) for j in range(n)] for i in range(m + 1)]
    c = [H.real("c%d" % i, -10, 10) for i in range(m + 1)]
    TT, AA, CC = H.arr(T, "f"), H.arr(A, "f"), H.arr(c, "f")
    r = H.fn("monte_carlo.rm")(m, CC, TT)
    for j in range(m):
        H.check_eq("price vector entry %d" % j, r[j], H.sum_(c[i] * T[i][j] for i in range(m)))
    for k in range(n):
        H.check_eq("column %d price" % k, H.fn("monte_carlo.rc")(m, CC, AA, k), H.sum_(c[i] * A[i][k] for i in range(m)))
        v = H.fn("monte_carlo.mc")(m, k, TT, AA)
        for i in range(m):
            H.check_eq("direction entry %d of column %d" % (i, k), v[i], H.sum_(T[i][q] * A[q][k] for q in range(m)))


HARNESSES = dict(inverse=inverse, products=products)


def cases(tier):
    t = tier == "thorough"
    vias = ("dgeco", "dgefa", "_dgefa", "_dgedi")
    for via in vias:
        yield "inverse", dict(n=1, base=[[0]], sym=[(0, 0)], via=via), {}
        yield "inverse", dict(n=2, base=[[0, 0]] * 2, sym=[(i, j) for i in range(2) for j in range(2)], via=via), dict(weight=3)
    B3 = [[2, -1, 3], [0, 4, -2], [1, 5, 0]]
    pats = [[(0, 0), (1, 0), (2, 0)], [(0, 0), (1, 1), (2, 2)], [(0, 1), (1, 1), (2, 1)]]
    if t:
        pats += [[(2, 0), (2, 1), (2, 2)], [(0, 2), (1, 2), (2, 2)], [(1, 0), (2, 0), (1, 1)]]
    for p in pats:
        yield "inverse", dict(n=3, base=B3, sym=p, via="dgeco"), dict(weight=5)
    for via in vias[2:]:
        yield "inverse", dict(n=3, base=B3, sym=pats[1], via=via), dict(weight=5)
    B4 = [[2, -1, 3, 1], [0, 4, -2, 0], [1, 5, 0, -3], [0, 0, 1, 2]]
    B5 = [[0, -1, 3, 1, 2], [1, 4, -2, 0, 0], [1, 5, 0, -3, 1], [0, 0, 1, 2, -4], [3, 1, 0, -1, 2]]
    B6 = [[0, 0, 0, 0, 0, 2], [1, 0, 0, 3, 0, 0], [0, 2, 0, 0, 1, 0], [0, 0, -1, 2, 0, 5], [4, 0, 0, 0, 3, -1], [0, 1, 2, 0, 0, 0]]
    for n, B in ((4, B4), (5, B5), (6, B6)):
        for k, p in enumerate(((n - 1, n - 1), (n - 2, n - 1), (0, n - 1), (0, 0), (1, 0), (n - 1, 1))):
            if n == 5 and k > 2 or n == 4 and k in (3, 4) and not t:
                continue  # rational functions of high degree
            yield "inverse", dict(n=n, base=B, sym=[p], via=vias[k % 4]), dict(weight=6)
    if t:
        for p in ([(0, 0), (1, 0)], [(1, 1), (2, 1)], [(3, 3), (2, 2)]):
            yield "inverse", dict(n=4, base=B4, sym=p, via="dgeco"), dict(weight=6)
    for m, n in [(1, 1), (2, 2), (2, 3), (3, 3), (4, 5), (5, 4)]:
        yield "products", dict(m=m, n=n), {}
