"""Contracts of FIAT.jacobi and the classical facts about Jacobi polynomials
they rest on.

J(a, b, n, x) is the logical function of the contracts, defined by J_0 = 1,
J_1 = (a - b + (a + b + 2) x) / 2 and the classical three-term recurrence."""
from fractions import Fraction

from vlib.pyvc import sym
from vlib.pyvc.sym import Rat, SymBool, Unsupported, ATOMS, app, band

H = Fraction(1, 2)


def coeffs(a, b, n):
    """P_n = (A + B x) P_{n-1} - C P_{n-2}, n >= 2 (Szego 4.5.1)."""
    s = 2 * n + a + b
    d = 2 * n * (n + a + b) * (s - 2)
    return (s - 1) * (a * a - b * b) / d, (s - 1) * s * (s - 2) / d, 2 * (n + a - 1) * (n + b - 1) * s / d


def quiet(f):
    """Evaluate a specification term without emitting division obligations."""
    def g(*x):
        h = sym.HOOKS.pop("nonzero", None)
        try:
            return f(*x)
        finally:
            if h is not None:
                sym.HOOKS["nonzero"] = h
    return g


coeffs = quiet(coeffs)


def first(a, b, x):
    return H * (a - b + (a + b + 2) * x)


def _rw(a, b, n, x):
    c = n.concrete()
    if c is None or c < 0:
        return None
    if c == 0:
        return Rat.of(1)
    if c == 1:
        return first(a, b, x)
    p2, p1 = Rat.of(1), first(a, b, x)
    for k in range(2, int(c) + 1):
        A, B, C = coeffs(a, b, Rat.of(k))
        p2, p1 = p1, (A + B * x) * p1 - C * p2
    return p1


sym.REWRITE["J"] = _rw


def J(a, b, n, x):
    return app("J", Rat.of(a), Rat.of(b), Rat.of(n), Rat.of(x))


def linear_parts(n):
    c = n.num.t.get((), Fraction(0))
    return n - c, c


def normalize(r, eng):
    """Rewrite every J with the recurrence to two consecutive base indices."""
    for _ in range(12):
        groups = {}
        for i in r.num.atoms() | {x for f, e in r.den for x in f.atoms()}:
            at = ATOMS[i]
            if at.kind == "app" and at.name == "J":
                a, b, n, x = at.args
                lin, c = linear_parts(n)
                groups.setdefault((a.key(), b.key(), lin.key(), x.key()), []).append((c, i, at))
        sub = {}
        for g in groups.values():
            lo = min(c for c, i, at in g)
            hi = max(g, key=lambda t: t[0])
            if hi[0] - lo >= 2 and (hi[0] - lo).denominator == 1:
                c, i, at = hi
                a, b, n, x = at.args
                if not eng.entails(n >= 2):
                    continue
                A, B, C = coeffs(a, b, n)
                sub[i] = (A + B * x) * J(a, b, n - 1, x) - C * J(a, b, n - 2, x)
        if not sub:
            return r
        r = quiet(r.subs)(sub)
    return r


def numeric_J(a, b, n, x):
    p2, p1 = 1, H * (a - b + (a + b + 2) * x)
    if n == 0:
        return p2
    for k in range(2, int(n) + 1):
        s = 2 * k + a + b
        d = Fraction(2 * k) * (k + a + b) * (s - 2) if not isinstance(a, float) else 2 * k * (k + a + b) * (s - 2)
        p2, p1 = p1, ((s - 1) * (a * a - b * b) / d + (s - 1) * s * (s - 2) / d * x) * p1 - 2 * (k + a - 1) * (k + b - 1) * s / d * p2
    return p1
