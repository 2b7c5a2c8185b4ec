"""Independent numerical oracles (nothing here calls FIAT numerics)."""
import itertools
import math
from fractions import Fraction

import numpy as np
from numpy.polynomial import legendre as L


def rng(*key):
    from vlib import env
    import zlib
    return np.random.RandomState((zlib.crc32(repr(key).encode()) + 7919 * env.seed()) % (2 ** 31 - 1))


def simplex_points(verts, n, r, shrink=0.98):
    """n random points strictly inside conv(verts)."""
    v = np.array(verts, dtype=float)
    w = r.dirichlet(np.ones(len(v)), size=n)
    c = np.ones(len(v)) / len(v)
    w = shrink * w + (1 - shrink) * c
    return w.dot(v)


def alphas(d, n):
    """All multi-indices of length d and sum n, by brute force."""
    if d == 0:
        return [()] if n == 0 else []
    return [a for a in itertools.product(range(n + 1), repeat=d) if sum(a) == n]


class PolyFit(object):
    """Least-squares polynomial fit in a product Legendre basis over the
    bounding box of the sample points; exact derivatives of the fit."""

    def __init__(self, pts, d, N, tensor=False, box=None):
        self.d, self.N = d, N
        pts = np.asarray(pts, dtype=float).reshape(-1, d)
        if box is None:
            lo, hi = pts.min(0), pts.max(0)
        else:
            lo, hi = np.asarray(box[0], float), np.asarray(box[1], float)
        self.mid, self.h = (lo + hi) / 2, np.where(hi > lo, (hi - lo) / 2, 1.0)
        if tensor:
            self.idx = list(itertools.product(range(N + 1), repeat=d))
        else:
            self.idx = [a for n in range(N + 1) for a in alphas(d, n)]
        self.M = self._matrix(pts, (0,) * d)
        self.pinv = np.linalg.pinv(self.M)
        self.cond = np.linalg.cond(self.M)

    def _matrix(self, pts, der):
        pts = np.asarray(pts, dtype=float).reshape(-1, self.d)
        x = (pts - self.mid) / self.h
        cols1 = []
        for i in range(self.d):
            V = []
            for k in range(self.N + 1):
                c = np.zeros(k + 1)
                c[k] = 1
                if der[i]:
                    c = L.legder(c, der[i])
                V.append(L.legval(x[:, i], c) / self.h[i] ** der[i])
            cols1.append(V)
        out = np.ones((len(x), len(self.idx)))
        for j, a in enumerate(self.idx):
            for i in range(self.d):
                out[:, j] *= cols1[i][a[i]]
        return out

    def fit(self, vals):
        """vals: (..., npts) -> coefficients (..., nidx) and max residual."""
        vals = np.asarray(vals, dtype=float)
        c = vals.dot(self.pinv.T)
        res = np.abs(c.dot(self.M.T) - vals).max() if vals.size else 0.0
        return c, res

    def eval(self, c, pts, der=None):
        return c.dot(self._matrix(pts, der or (0,) * self.d).T)


def lattice(verts, n):
    """All lattice points i/n of a simplex (brute force)."""
    v = np.array(verts, dtype=float)
    m = len(v)
    out = []
    for a in itertools.product(range(n + 1), repeat=m):
        if sum(a) == n:
            out.append(sum(a[i] * v[i] for i in range(m)) / n if n else v.mean(0))
    return np.array(out)


def gauss01(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def quad_simplex(verts, deg):
    """Quadrature exact for degree deg on conv(verts) by Duffy + Gauss
    (independent of FIAT)."""
    v = np.array(verts, dtype=float)
    d = len(v) - 1
    if d == 0:
        return v.reshape(1, -1), np.array([1.0])
    n = (deg + d) // 2 + 1
    x, w = gauss01(n)
    if d == 1:
        bar = np.stack([1 - x, x], 1)
        ww = w
    elif d == 2:
        a, b = np.meshgrid(x, x, indexing="ij")
        wa, wb = np.meshgrid(w, w, indexing="ij")
        l1, l2 = a.ravel(), ((1 - a) * b).ravel()
        ww = (wa * wb * (1 - a)).ravel()
        bar = np.stack([1 - l1 - l2, l1, l2], 1)
    else:
        a, b, c = np.meshgrid(x, x, x, indexing="ij")
        wa, wb, wc = np.meshgrid(w, w, w, indexing="ij")
        l1 = a.ravel()
        l2 = ((1 - a) * b).ravel()
        l3 = ((1 - a) * (1 - b) * c).ravel()
        ww = (wa * wb * wc * (1 - a) ** 2 * (1 - b)).ravel()
        bar = np.stack([1 - l1 - l2 - l3, l1, l2, l3], 1)
    return bar.dot(v), ww * simplex_measure(v) * math.factorial(d)


def simplex_measure(verts):
    v = np.array(verts, dtype=float)
    d = len(v) - 1
    if d == 0:
        return 1.0
    J = v[1:] - v[0]
    return math.sqrt(max(np.linalg.det(J.dot(J.T)), 0.0)) / math.factorial(d)


def rank(a, tol=1e-9):
    a = np.asarray(a, float)
    if a.size == 0:
        return 0
    s = np.linalg.svd(a, compute_uv=False)
    return int((s > tol * max(1.0, s[0])).sum())


def jacobi_coeffs(a, b, n):
    """Exact coefficients (Fractions) of P_n^{(a,b)} in powers of x."""
    a, b = Fraction(a), Fraction(b)
    # sum_s C(n+a, n-s) C(n+b, s) ((x-1)/2)^s ((x+1)/2)^(n-s)

    def binom(z, k):
        r = Fraction(1)
        for i in range(k):
            r = r * (z - i) / (i + 1)
        return r

    def mul(p, q):
        r = [Fraction(0)] * (len(p) + len(q) - 1)
        for i, x in enumerate(p):
            for j, y in enumerate(q):
                r[i + j] += x * y
        return r
    tot = [Fraction(0)] * (n + 1)
    for s in range(n + 1):
        c = binom(n + a, n - s) * binom(n + b, s)
        p = [Fraction(1)]
        for _ in range(s):
            p = mul(p, [Fraction(-1, 2), Fraction(1, 2)])
        for _ in range(n - s):
            p = mul(p, [Fraction(1, 2), Fraction(1, 2)])
        for i, x in enumerate(p):
            tot[i] += c * x
    return tot


def horner(c, x):
    r = 0
    for k in reversed(c):
        r = r * x + k
    return r
