"""Pieces shared by several checks."""


class Rng:
    """Stands for numpy's Generator: hands out the given draws."""

    def __init__(self, H, draws):
        self.H, self.draws, self.k = H, list(draws), 0

    def random(self, size=None, *a, **k):
        if size is None:
            v = self.draws[self.k]
            self.k += 1
            return v
        n = int(size[0] if isinstance(size, (tuple, list)) else size)
        v = self.draws[self.k : self.k + n]
        self.k += n
        return self.H.arr(v, "f")

    def choice(self, a, size=None, replace=True, p=None, **k):
        a = list(range(int(a))) if isinstance(a, int) else list(self.H.lst(a))
        q = [self.H.div(1, len(a))] * len(a) if p is None else list(self.H.lst(p))
        out = []
        for _ in range(1 if size is None else int(size)):
            u, t, v = self.draws[self.k], 0, a[-1]
            self.k += 1
            for x, w in zip(a, q):
                t = t + w
                if u < t:
                    v = x
                    break
            out.append(v)
        return out[0] if size is None else self.H.arr(out, "i")


class NpProxy:
    """numpy with random.default_rng replaced."""

    def __init__(self, base, rng):
        class R:
            @staticmethod
            def default_rng(*a, **k):
                return rng

        self._b = base
        self.random = R

    def __getattr__(self, n):
        return getattr(self._b, n)


def fake_rng(H, mod, draws):
    rng = Rng(H, draws)
    H.patch(mod, np=NpProxy(H.np, rng))
    return rng


def cumulative(H, name, n, strict_end=True):
    """n symbolic probabilities as a cumulative row ending in 1."""
    row, t = [], 0
    for k in range(n - 1):
        p = H.real("%s%d" % (name, k), 0, 1)
        t = t + p
        row.append(t)
    H.assume(t <= 1)
    return row + [H.const(1) if strict_end else t]
