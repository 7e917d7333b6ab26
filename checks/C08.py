"""C08 updating the network's impedance matrix for one added or removed branch."""
from fractions import Fraction

BOUNDS = (
    "1 to 5 non-reference areas: arbitrary symmetric impedance matrix with symbolic entries and arbitrary "
    "branch impedance (update formula); inverse statement with symbolic 1- and 2-area networks and a 3-area "
    "network with symbolic branch admittance (all ties symbolic up to 2 areas)"
)
OUTSIDE = "updates that disconnect the network (the pivot is zero there)"
ALONE = False
ASSUMPTIONS = ["the impedance matrix is symmetric and the updated network is not singular"]


def inv(B):
    n = len(B)
    A = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(B)]
    for c in range(n):
        p = next(r for r in range(c, n) if A[r][c] != 0)
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c:
                A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def formula(H, case):
    n, i, j = case["n"], case["i"], case["j"]
    S = {}
    for p in range(n):
        for q in range(p, n):
            S[p, q] = S[q, p] = H.real("z%d_%d" % (p, q), -10, 10)
    Z = [[S[p, q] for q in range(n)] for p in range(n)]
    zij = H.real("zij", -10, 10)
    if j is None:
        f = H.fn("monte_carlo.ximpar")
        col = [Z[p][i] for p in range(n)]
        den = Z[i][i] - zij
    else:
        f = H.fn("monte_carlo.ximpa")
        col = [Z[p][i] - Z[p][j] for p in range(n)]
        den = Z[i][i] + Z[j][j] - 2 * Z[i][j] - zij
    H.assume(H.abs(den) >= H.const(1) / 100 if H.symbolic else abs(den) >= 0.01)
    ZB = H.arr(Z, "f")
    R = f(ZB, zij, i) if j is None else f(ZB, zij, i, j)
    for p in range(n):
        for q in range(n):
            H.check_eq("update of entry [%d,%d]" % (p, q), (Z[p][q] - H.scalar(R[p, q])) * den, col[p] * col[q], tol=1e-4)
            H.check_eq("the input matrix is kept", ZB[p, q], Z[p][q])


def inverse(H, case):
    """The result is the inverse of the admittance matrix with the branch added."""
    n, i, j = case["n"], case["i"], case["j"]
    y = H.real("y", -20, 20)
    H.assume(H.abs(y) >= 1)
    if n == 1:
        a = H.real("a", 1, 20)
        B = [[a]]
        Z = [[H.div(1, a)]]
    elif n == 2:
        g = [H.real("g%d" % k, 1, 20) for k in range(3)]
        B = [[g[0] + g[2], 0 - g[2]], [0 - g[2], g[1] + g[2]]]
        det = B[0][0] * B[1][1] - B[0][1] * B[1][0]
        Z = [[H.div(B[1][1], det), H.div(g[2], det)], [H.div(g[2], det), H.div(B[0][0], det)]]
    else:
        Bn = [[7, -3, -2], [-3, 5, -1], [-2, -1, 6]] if n == 3 else [r[:n] for r in BIG[:n]]
        B = [[H.const(x) for x in r] for r in Bn]
        Z = [[(H.const(x) if H.symbolic else float(x)) for x in r] for r in inv(Bn)]
    W = [list(r) for r in B]
    W[i][i] = W[i][i] + y
    if j is not None:
        W[j][j] = W[j][j] + y
        W[i][j] = W[i][j] - y
        W[j][i] = W[j][i] - y
        e2 = Z[i][i] + Z[j][j] - Z[i][j] - Z[j][i]
    else:
        e2 = Z[i][i]
    H.assume(H.abs(1 + y * e2) >= (H.const(1) / 50 if H.symbolic else 0.02))
    ZB = H.arr(Z, "f")
    zij = H.div(-1, y)
    R = H.fn("monte_carlo.ximpar")(ZB, zij, i) if j is None else H.fn("monte_carlo.ximpa")(ZB, zij, i, j)
    for p in range(n):
        for q in range(n):
            s = H.sum_(W[p][k] * H.scalar(R[k, q]) for k in range(n))
            H.check_eq("updated admittance times updated impedance [%d,%d]" % (p, q), s, 1 if p == q else 0, tol=1e-4)


BIG = [[9, -3, -2, -1, 0], [-3, 8, -1, -2, -1], [-2, -1, 6, 0, -2], [-1, -2, 0, 7, -1], [0, -1, -2, -1, 5]]
HARNESSES = dict(formula=formula, inverse=inverse)


def cases(tier):
    t = tier == "thorough"
    for n in (1, 2, 3, 4, 5):
        for i in range(n):
            for j in [None] + [k for k in range(n) if k != i]:
                yield "formula", dict(n=n, i=i, j=j), dict(weight=n)
                if n == 5 and not t and (i + (j or 0)) % 2:
                    continue
                yield "inverse", dict(n=n, i=i, j=j), dict(weight=n)
