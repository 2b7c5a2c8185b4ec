"""C06: quadrature rules."""
import itertools
import math

import numpy as np

from vlib import families as F, contracts as C, num


def mono_int(cell, alphas):
    """Exact monomial integrals by an independent high-order rule."""
    V = C.cell_vertices(cell)
    d = C.sdim(cell)
    cells = getattr(cell, "cells", None) or getattr(getattr(cell, "product", None), "cells", None)
    if cells:
        parts, off = [], 0
        out = np.ones(len(alphas))
        for c in cells:
            n = C.sdim(c)
            out *= mono_int(c, [tuple(a[off:off + n]) for a in alphas])
            off += n
        return out
    if d == 0:
        return np.ones(len(alphas))
    deg = max(sum(a) for a in alphas)
    x, w = num.quad_simplex(V, deg)
    return np.array([float(np.dot(w, np.prod(x ** np.array(a), axis=1))) for a in alphas])


def volume(cell):
    return mono_int(cell, [(0,) * C.sdim(cell)])[0]


def exact_alphas(cell, deg):
    cells = getattr(cell, "cells", None) or getattr(getattr(cell, "product", None), "cells", None)
    if cells:
        if not isinstance(deg, tuple):
            deg = (deg,) * len(cells)
        parts = [exact_alphas(c, m) for c, m in zip(cells, deg)]
        return [tuple(x for p in t for x in p) for t in itertools.product(*parts)]
    return [a for n in range(deg + 1) for a in num.alphas(C.sdim(cell), n)] if C.sdim(cell) else [()]


def inside(cell, pts, tol=1e-12):
    V = np.array(C.cell_vertices(cell), float)
    d = C.sdim(cell)
    cells = getattr(cell, "cells", None) or getattr(getattr(cell, "product", None), "cells", None)
    if d == 0:
        return True
    pts = np.asarray(pts, float).reshape(-1, d)
    if cells:
        off, ok = 0, True
        for c in cells:
            n = C.sdim(c)
            ok = ok and inside(c, pts[:, off:off + n], tol)
            off += n
        return ok
    A = np.vstack([V.T, np.ones(len(V))])
    lam = np.linalg.solve(A, np.vstack([pts.T, np.ones(len(pts))]))
    return bool((lam > -tol).all())


def rule(ctx, case, q, cell, deg, check_inside=True):
    d = C.sdim(cell)
    pts, wts = np.asarray(q.get_points(), float), np.asarray(q.get_weights(), float)
    if not ctx.ok(len(pts) == len(wts) == len(q.pts), case, "%d points, %d weights" % (len(pts), len(wts))):
        return
    if d and not ctx.ok(pts.shape == (len(wts), d), case, "points have shape %s" % (pts.shape,)):
        return
    if check_inside:
        ctx.ok(inside(cell, pts), case, "points outside the cell")
    vol = volume(cell)
    ctx.ok(abs(wts.sum() - vol) <= 1e-11 * max(1, vol), case, lambda: "weights sum to %r, the cell's volume is %r" % (wts.sum(), vol))
    al = exact_alphas(cell, deg)
    if len(al) > 4000:
        r = num.rng("c06", case)
        al = [al[i] for i in r.permutation(len(al))[:4000]]
    want = mono_int(cell, al)
    if d:
        got = np.array([float(np.dot(wts, np.prod(pts ** np.array(a), axis=1))) for a in al])
    else:
        got = np.array([wts.sum()])
    bad = np.abs(got - want) > 2e-12 * np.maximum(1, np.abs(want).max()) + 1e-9 * np.abs(want)
    ctx.ok(not bad.any(), case, lambda: "monomial x^%s integrates to %.16g instead of %.16g" % (
        al[int(np.abs(got - want).argmax())], got[int(np.abs(got - want).argmax())], want[int(np.abs(got - want).argmax())]))
    f = lambda x: 1.0 + (x[0] if d else 0.0)
    ctx.ok(abs(q.integrate(f) - sum(w * f(p) for w, p in zip(wts, pts))) < 1e-10 * max(1, vol), case, "integrate()")


def create(ctx, items):
    import FIAT
    from FIAT.quadrature_schemes import create_quadrature
    for cn, deg, scheme in items:
        cell = F.cell(cn)
        case = "create_quadrature(%s, %s, %r)" % (cn, deg, scheme)
        q = ctx.noraise(lambda: create_quadrature(cell, deg, scheme) if scheme else create_quadrature(cell, deg), case)
        if q is not None:
            rule(ctx, case, q, cell, deg)


def make(ctx, items):
    from FIAT.quadrature import make_quadrature
    for cn, m in items:
        cell = F.cell(cn)
        case = "make_quadrature(%s, %s)" % (cn, m)
        q = ctx.noraise(lambda: make_quadrature(cell, m), case)
        if q is None:
            continue
        d = C.sdim(cell)
        rule(ctx, case, q, cell, 2 * m - 1)
        ctx.ok(len(q.get_weights()) == m ** d, case, "%d points, expected %d per direction" % (len(q.get_weights()), m))
        ctx.ok(bool((np.asarray(q.get_weights()) > 0).all()), case, "non-positive weights")


def lines(ctx):
    from FIAT import quadrature as Q
    for cn in ("I", "DI", "AI", "RI"):
        cell = F.cell(cn)
        v = [p[0] for p in cell.get_vertices()]
        for m in range(1, 21):
            for name, cls, lo, deg, args in (("GaussLegendre", Q.GaussLegendreQuadratureLineRule, 1, 2 * m - 1, ()),
                                             ("GaussJacobi", Q.GaussJacobiQuadratureLineRule, 1, 2 * m - 1, ()),
                                             ("GaussLobattoLegendre", Q.GaussLobattoLegendreQuadratureLineRule, 2, 2 * m - 3, ()),
                                             ("Radau", Q.RadauQuadratureLineRule, 1, 2 * m - 2, ()),
                                             ("RadauLeft", Q.RadauQuadratureLineRule, 1, 2 * m - 2, (False,))):
                if m < lo:
                    continue
                case = "%s line rule on %s, m=%d" % (name, cn, m)
                q = ctx.noraise(lambda: cls(cell, m, *args), case)
                if q is None:
                    continue
                x = np.asarray(q.get_points(), float)[:, 0]
                ctx.ok(len(x) == m, case, "%d points" % len(x))
                ctx.ok(bool((np.diff(x) * (v[1] - v[0]) > 0).all()), case, "points not in order along the cell")
                if name == "GaussLobattoLegendre":
                    ctx.ok(abs(x[0] - v[0]) < 1e-14 and abs(x[-1] - v[1]) < 1e-14, case, "end points missing")
                if name == "Radau":
                    ctx.ok(abs(x[-1] - v[1]) < 1e-14, case, "right end point missing")
                if name == "RadauLeft":
                    ctx.ok(abs(x[0] - v[0]) < 1e-14, case, "left end point missing")
                rule(ctx, case, q, cell, deg)
    ctx.raises(lambda: Q.GaussLobattoLegendreQuadratureLineRule(F.cell("I"), 1), "GLL with one point")
    ctx.raises(lambda: Q.GaussLegendreQuadratureLineRule(F.cell("I"), 0), "GL with no point")
    ctx.raises(lambda: Q.QuadratureRule(F.cell("I"), [(0.5,)], [0.5, 0.5]), "points/weights mismatch")


def jacobi_rule(ctx):
    """Gauss-Jacobi points and weights for every pair of weights used."""
    from FIAT import quadrature as Q
    f = getattr(Q, "compute_gauss_jacobi_rule", None)
    if f is None:
        return
    from math import factorial
    for a in (0., 1., 2., 3.):
        for b in (0., 1.):
            for m in range(1, 13):
                x, w = map(np.array, f(a, b, m))
                ctx.ok(len(x) == m and bool((np.diff(x) > 0).all()) and abs(x).max() < 1, "gauss-jacobi points a=%s b=%s m=%d" % (a, b, m), "points")
                # moments against (1-x)^a (1+x)^(b+i): the Beta integral
                for i in range(2 * m):
                    p, q = int(a), int(b) + i
                    want = 2.0 ** (p + q + 1) * factorial(p) * factorial(q) / factorial(p + q + 1)
                    got = float(np.dot(w, (1 + x) ** i))
                    ctx.ok(abs(got - want) < 1e-11 * max(1, want), "gauss-jacobi rule a=%s b=%s m=%d moment %d" % (a, b, m, i),
                           lambda: "%r instead of %r" % (got, want))


def faces(ctx):
    from FIAT.quadrature import UFCTetrahedronFaceQuadratureRule as U
    tet = F.cell("S")
    V = np.array(tet.get_vertices(), float)
    for f in range(4):
        for m in range(1, 6):
            case = "UFCTetrahedronFaceQuadratureRule(%d, %d)" % (f, m)
            q = ctx.noraise(lambda: U(f, m), case)
            if q is None:
                continue
            fv = V[list(tet.get_topology()[2][f])]
            x, w = num.quad_simplex(fv, 2 * m - 1)
            pts, wts = np.asarray(q.get_points()), np.asarray(q.get_weights())
            for n in range(2 * m):
                for a in num.alphas(3, n):
                    want = np.dot(w, np.prod(x ** np.array(a), 1))
                    got = np.dot(wts, np.prod(pts ** np.array(a), 1))
                    ctx.ok(abs(got - want) < 1e-12, case, lambda: "x^%s: %r instead of %r" % (a, got, want))
            J = np.asarray(q.jacobian())
            ctx.close(J, np.array([fv[1] - fv[0], fv[2] - fv[0]]).T, case, 1e-13, "jacobian")
            ref = q.reference_rule()
            ctx.close(pts, np.asarray(ref.get_points()).dot(J.T) + fv[0], case, 1e-13, "points")


def tensor(ctx):
    from FIAT.quadrature import make_quadrature, make_tensor_product_quadrature as tp
    import FIAT
    for ca, cb in (("I", "I"), ("T", "I"), ("I", "T"), ("S", "I"), ("T", "T")):
        for ma, mb in ((1, 2), (3, 1), (2, 4)):
            qa, qb = make_quadrature(F.cell(ca), ma), make_quadrature(F.cell(cb), mb)
            q = tp(qa, qb)
            case = "tensor product rule %s x %s, m=(%d, %d)" % (ca, cb, ma, mb)
            rule(ctx, case, q, q.ref_el, (2 * ma - 1, 2 * mb - 1))
            n = len(qb.pts)
            ctx.close(np.asarray(q.get_weights()), np.outer(qa.get_weights(), qb.get_weights()).ravel(), case, 1e-14, "weights")
            ctx.close(np.asarray(q.get_points()), [tuple(a) + tuple(b) for a in qa.pts for b in qb.pts], case, 1e-14, "points")
    q = tp(*[make_quadrature(F.cell("I"), m) for m in (1, 2, 3)])
    rule(ctx, "triple tensor product", q, q.ref_el, (1, 3, 5))


def rejects(ctx):
    from FIAT.quadrature_schemes import create_quadrature
    from FIAT.quadrature import make_quadrature
    for cn in ("I", "T", "S", "Q", "H", "IxI"):
        c = F.cell(cn)
        deg = -1 if cn != "IxI" else (-1, 1)
        ctx.raises(lambda: create_quadrature(c, deg), "create_quadrature(%s, %s)" % (cn, deg))
        if cn in "ITS":
            ctx.raises(lambda: create_quadrature(c, 2, "nonsense"), "create_quadrature(%s, 2, 'nonsense')" % cn)
            ctx.raises(lambda: make_quadrature(c, 0), "make_quadrature(%s, 0)" % cn)
    ctx.raises(lambda: create_quadrature(F.cell("T"), -3, "canonical"), "canonical, negative degree")
    ctx.raises(lambda: create_quadrature(F.cell("S"), 1, "KMV") if False else create_quadrature(F.cell("S"), 7, "KMV"), "KMV(S, 7)")
    ctx.raises(lambda: create_quadrature(F.cell("T"), 9, "KMV"), "KMV(T, 9)")


def kmv(ctx):
    """Mass-lumping rules: exact to k + k' - 2 (k' = degree of the enriched space)."""
    from FIAT.quadrature_schemes import create_quadrature
    from FIAT import reference_element as R
    need = {("T", 1): 1, ("T", 2): 3, ("T", 3): 5, ("T", 4): 7, ("T", 5): 9, ("S", 1): 1, ("S", 2): 3, ("S", 3): 5}
    npts = {("T", 1): 3, ("T", 2): 7, ("T", 3): 12, ("T", 4): 18, ("T", 5): 30, ("S", 1): 4, ("S", 2): 15, ("S", 3): 32}
    for (cn, k), deg in need.items():
        case = "create_quadrature(%s, %d, 'KMV')" % (cn, k)
        q = ctx.noraise(lambda: create_quadrature(F.cell(cn), k, "KMV"), case)
        if q is None:
            continue
        rule_loose(ctx, case, q, F.cell(cn), deg)
        ctx.ok(bool((np.asarray(q.get_weights()) > 0).all()), case, "non-positive lumping weights")
        ctx.ok(len(q.get_weights()) == npts[cn, k], case, "%d points instead of %d" % (len(q.get_weights()), npts[cn, k]))
        for other in ("DT", "KT", "AT", "RT") if cn == "T" else ("DS", "KS", "AS", "RS"):
            case = "create_quadrature(%s, %d, 'KMV')" % (other, k)
            try:
                p = create_quadrature(F.cell(other), k, "KMV")
            except ValueError:
                continue
            rule_loose(ctx, case, p, F.cell(other), deg, 1e-11)


def rule_loose(ctx, case, q, cell, deg, tol=1e-12):
    pts, wts = np.asarray(q.get_points(), float), np.asarray(q.get_weights(), float)
    ctx.ok(len(pts) == len(wts), case, "points/weights")
    ctx.ok(inside(cell, pts, 1e-9), case, "points outside the cell")
    al = exact_alphas(cell, deg)
    want = mono_int(cell, al)
    got = np.array([float(np.dot(wts, np.prod(pts ** np.array(a), axis=1))) for a in al])
    ctx.ok(np.abs(got - want).max() < tol, case, lambda: "monomial x^%s off by %.2g" % (al[int(np.abs(got - want).argmax())], np.abs(got - want).max()))


def check(tier):
    deep = tier == "thorough"
    its = []
    hi = {"P": 0, "I": 30, "T": 20, "S": 12, "Q": 9, "H": 5} if not deep else {"P": 0, "I": 40, "T": 30, "S": 18, "Q": 14, "H": 8}
    for cn in "PITSQH":
        for m in range(0, hi[cn] + 1):
            its += [(cn, m, s) for s in ((None, "default", "canonical") if cn not in "QH" else (None, "default"))]
    for cn in ("DI", "AI", "RI", "DT", "KT", "AT", "RT", "DS", "KS", "AS", "RS"):
        for m in range(0, 9 if cn[-1] != "S" else 8):
            its += [(cn, m, s) for s in ("default", "canonical")]
    for m in itertools.product(range(5), range(5)):
        its += [("IxI", m, None), ("TxI", m, "default")]
    its += [("IxIxI", m, None) for m in ((1, 2, 3), (4, 0, 1))] + [("QxI", (2, 3), None)]
    mk = [(cn, m) for cn, k in (("I", 20), ("DI", 20), ("AI", 8), ("RI", 8), ("RT", 6), ("RS", 5), ("T", 12), ("DT", 6), ("KT", 5), ("AT", 6), ("S", 8), ("DS", 5), ("KS", 4), ("AS", 5), ("Q", 5), ("H", 3)) for m in range(1, k)]
    T = [("create-%d" % i, "props.c06", "create", (its[i::12],)) for i in range(12)]
    T += [("make-%d" % i, "props.c06", "make", (mk[i::6],)) for i in range(6)]
    T += [(n, "props.c06", n, ()) for n in ("lines", "jacobi_rule", "faces", "tensor", "rejects", "kmv")]
    return dict(bounded=T, bound="degrees <= %s" % hi, obligations=[])
