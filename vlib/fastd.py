"""Modular use of the contract of the expansion sets' differentiation helper.

The helper that turns an expansion-set tabulator into a table of values and
first derivatives is checked against its contract ("derivatives of the
tabulated functions") by C03/C04.  Checks of *callers* replace it by another
implementation of the same contract (forward-mode differentiation of the real
tabulator, memoised), which is several hundred times faster than the symbolic
one and lets the callers be checked at higher degree."""
import numpy as np


class Dual(object):
    __slots__ = ("v", "g")
    __array_priority__ = 1000

    def __init__(self, v, g):
        self.v, self.g = v, g

    def _c(self, o):
        return o if isinstance(o, Dual) else None

    def __add__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v + o.v, self.g + o.g)
        return Dual(self.v + o, self.g)
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, -self.g)

    def __sub__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v - o.v, self.g - o.g)
        return Dual(self.v - o, self.g)

    def __rsub__(self, o):
        return Dual(o - self.v, -self.g)

    def __mul__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v * o.v, self.g * o.v + o.g * self.v)
        return Dual(self.v * o, self.g * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Dual):
            return Dual(self.v / o.v, (self.g * o.v - o.g * self.v) / o.v ** 2)
        return Dual(self.v / o, self.g / o)

    def __pow__(self, n):
        if n == 0:
            return Dual(self.v ** 0, self.g * 0)
        return Dual(self.v ** n, n * self.v ** (n - 1) * self.g)


_memo = {}
MINDEG = 0


def install(mindeg=0):
    """Patch FIAT.expansions in this process; real code is kept below mindeg."""
    from FIAT import expansions
    real = getattr(expansions, "_tabulate_dpts", None)
    if real is None or getattr(real, "_fast", False):
        return False

    def fast(tabulator, D, n, order, pts):
        if order > 1 or n < mindeg:
            return real(tabulator, D, n, order, pts)
        pts = np.asarray(pts, dtype=float)
        owner = getattr(tabulator, "__self__", None)
        key = None
        if owner is not None:
            key = (type(owner).__name__, tuple(map(tuple, owner.ref_el.get_vertices())), D, n, order, pts.tobytes())
            if key in _memo:
                return [a.copy() for a in _memo[key]]
        X = []
        for j in range(D):
            g = np.zeros((D, len(pts)))
            g[j] = 1.0
            X.append(Dual(pts[:, j].copy(), g))
        tab = tabulator(n, X)
        d0 = np.empty((len(tab), len(pts)))
        d1 = np.zeros((len(tab), len(pts), D))
        for i, t in enumerate(tab):
            if isinstance(t, Dual):
                d0[i] = t.v
                d1[i] = t.g.T
            else:
                d0[i] = t
        data = [d0, d1][:order + 1]
        if key is not None and len(_memo) < 64:
            _memo[key] = [a.copy() for a in data]
        return data
    fast._fast = True
    expansions._tabulate_dpts = fast
    return True
