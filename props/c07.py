"""C07: functionals act as defined; Riesz rows are their actions."""
import itertools

import numpy as np

from vlib import families as F, contracts as C, num


class Field(object):
    """Random polynomial field of a value shape with exact derivatives."""

    def __init__(self, d, shp, deg, r):
        self.d, self.shp = d, shp
        self.idx = [a for n in range(deg + 1) for a in num.alphas(d, n)]
        self.c = r.randn(*(tuple(shp) + (len(self.idx),)))

    def __call__(self, x, alpha=None):
        alpha = alpha or (0,) * self.d
        m = []
        for a in self.idx:
            t = 1.0
            for i in range(self.d):
                for j in range(alpha[i]):
                    t *= (a[i] - j)
                if a[i] >= alpha[i]:
                    t *= float(x[i]) ** (a[i] - alpha[i])
                else:
                    t = 0.0
            m.append(t)
        return self.c.dot(np.array(m))


def unit(d, i):
    return tuple(1 if j == i else 0 for j in range(d))


def act(ell, f):
    """Action of the stored data on a field."""
    s = 0.0
    for p, wcs in ell.pt_dict.items():
        v = f(p)
        for w, c in wcs:
            s += w * v[tuple(c)]
    for p, wacs in ell.deriv_dict.items():
        for w, a, c in wacs:
            s += w * f(p, tuple(a))[tuple(c)]
    return s


def facet_map(cell, e):
    """Affine map of the facet's reference cell (vertices to vertices in order)."""
    d = C.sdim(cell)
    vs = cell.get_topology()[d - 1][e]
    V = np.array([cell.get_vertices()[v] for v in vs], float)
    if d == 1:
        return (lambda p: V[0]), V
    sub = np.array(cell.construct_subelement(d - 1).get_vertices(), float)
    A = np.vstack([sub.T, np.ones(d)])

    def m(p):
        lam = np.linalg.solve(A, np.append(np.asarray(p, float), 1.0))
        return lam.dot(V)

    def bary(lam):
        return np.asarray(lam).dot(V)
    m.bary = bary
    return m, V


def gen(cn):
    """(name, functional, definition as a function of a field, shape)"""
    from FIAT import functional as Fn
    from FIAT.quadrature_schemes import create_quadrature
    cell = F.cell(cn)
    d = C.sdim(cell)
    r = num.rng("c07", cn)
    top = cell.get_topology()
    V = np.array(C.cell_vertices(cell), float)
    pts = [tuple(p) for p in C.interior_points(cell, 3, r)] + [tuple(V[0])]
    out = []

    def add(name, fn, spec, shp):
        out.append((name, fn, spec, shp))
    for x in pts:
        add("PointEvaluation", lambda x=x: Fn.PointEvaluation(cell, x), lambda f, x=x: f(x), ())
        for m in (d, 2, 3):
            for c in range(m):
                add("ComponentPointEvaluation", lambda x=x, c=c, m=m: Fn.ComponentPointEvaluation(cell, c, (m,), x), lambda f, x=x, c=c: f(x)[c], (m,))
        for n in range(4):
            for a in num.alphas(d, n):
                for ty in (tuple, list):
                    add("PointDerivative %s" % (a,), lambda x=x, a=a, ty=ty: Fn.PointDerivative(cell, x, ty(a)), lambda f, x=x, a=a: f(x, a), ())
        v, w = r.randn(d), r.randn(d)
        add("PointwiseInnerProductEvaluation", lambda x=x, v=v, w=w: Fn.PointwiseInnerProductEvaluation(cell, v, w, x),
            lambda f, x=x, v=v, w=w: v.dot(sym(f(x))).dot(w), (d, d))
    for deg in (0, 2, 4):
        Q = create_quadrature(cell, deg)
        qp, qw = np.array(Q.get_points(), float), np.array(Q.get_weights(), float)
        g = r.randn(len(qw))
        add("IntegralMoment", lambda Q=Q, g=g: Fn.IntegralMoment(cell, Q, g), lambda f, qp=qp, qw=qw, g=g: sum(w * y * f(p) for w, y, p in zip(qw, g, qp)), ())
        for c in range(d):
            add("IntegralMoment component", lambda Q=Q, g=g, c=c: Fn.IntegralMoment(cell, Q, g, (c,), (d,)),
                lambda f, qp=qp, qw=qw, g=g, c=c: sum(w * y * f(p)[c] for w, y, p in zip(qw, g, qp)), (d,))
            for c2 in range(d):
                add("IntegralMoment tensor component", lambda Q=Q, g=g, c=c, c2=c2: Fn.IntegralMoment(cell, Q, g, (c, c2), (d, d)),
                    lambda f, qp=qp, qw=qw, g=g, c=c, c2=c2: sum(w * y * f(p)[c, c2] for w, y, p in zip(qw, g, qp)), (d, d))
        for shp in ((d,), (d, d), (2, 3)):
            G = r.randn(*(shp + (len(qw),)))
            add("FrobeniusIntegralMoment %s" % (shp,), lambda Q=Q, G=G: Fn.FrobeniusIntegralMoment(cell, Q, G),
                lambda f, qp=qp, qw=qw, G=G: sum(w * (G[..., i] * f(p)).sum() for i, (w, p) in enumerate(zip(qw, qp))), shp)
        add("IntegralMomentOfDivergence", lambda Q=Q, g=g: Fn.IntegralMomentOfDivergence(cell, Q, g),
            lambda f, qp=qp, qw=qw, g=g: sum(w * y * sum(f(p, unit(d, i))[i] for i in range(d)) for w, y, p in zip(qw, g, qp)), (d,))
        if d == 2:
            G = r.randn(2, len(qw))
            add("IntegralMomentOfTensorDivergence", lambda Q=Q, G=G: Fn.IntegralMomentOfTensorDivergence(cell, Q, G),
                lambda f, qp=qp, qw=qw, G=G: sum(w * G[i, q] * sum(f(p, unit(2, j))[i, j] for j in range(2)) for q, (w, p) in enumerate(zip(qw, qp)) for i in range(2)), (2, 2))
        v, w_ = r.randn(d), r.randn(d)
        add("TensorBidirectionalMomentInnerProductEvaluation", lambda Q=Q, g=g, v=v, w_=w_: Fn.TensorBidirectionalMomentInnerProductEvaluation(cell, v, w_, Q, g, deg),
            lambda f, qp=qp, qw=qw, g=g, v=v, w_=w_: sum(w * y * v.dot(sym(f(p))).dot(w_) for w, y, p in zip(qw, g, qp)), (d, d))
    for e in top[d - 1]:
        fm, FV = facet_map(cell, e)
        n = np.asarray(cell.compute_normal(e), float)
        sn = np.asarray(cell.compute_scaled_normal(e), float)
        x = tuple(r.dirichlet(np.ones(d)).dot(FV))
        add("PointNormalDerivative", lambda e=e, x=x: Fn.PointNormalDerivative(cell, e, x), lambda f, x=x, n=n: sum(n[i] * f(x, unit(d, i)) for i in range(d)), ())
        add("PointNormalSecondDerivative", lambda e=e, x=x: Fn.PointNormalSecondDerivative(cell, e, x),
            lambda f, x=x, n=n: sum(n[i] * n[j] * f(x, tuple(np.add(unit(d, i), unit(d, j)))) for i in range(d) for j in range(d)), ())
        add("PointNormalEvaluation", lambda e=e, x=x: Fn.PointNormalEvaluation(cell, e, x), lambda f, x=x, n=n: n.dot(f(x)), (d,))
        add("PointScaledNormalEvaluation", lambda e=e, x=x: Fn.PointScaledNormalEvaluation(cell, e, x), lambda f, x=x, sn=sn: sn.dot(f(x)), (d,))
        if d < 2:
            continue
        for deg in (0, 3):
            Q = create_quadrature(cell.construct_subelement(d - 1), deg)
            qp, qw = np.array(Q.get_points(), float), np.array(Q.get_weights(), float)
            X = [fm(p) for p in qp]
            g = r.randn(len(qw))
            add("IntegralMomentOfNormalDerivative", lambda e=e, Q=Q, g=g: Fn.IntegralMomentOfNormalDerivative(cell, e, Q, g),
                lambda f, X=X, qw=qw, g=g, n=n: sum(w * y * n[i] * f(p, unit(d, i)) for w, y, p in zip(qw, g, X) for i in range(d)), ())
            for nm in ("IntegralMomentOfScaledNormalEvaluation", "IntegralMomentOfNormalEvaluation"):
                add(nm, lambda e=e, Q=Q, g=g, nm=nm: getattr(Fn, nm)(cell, Q, g, e),
                    lambda f, X=X, qw=qw, g=g, sn=sn: sum(w * y * sn.dot(f(p)) for w, y, p in zip(qw, g, X)), (d,))
            add("IntegralMomentOfNormalNormalEvaluation", lambda e=e, Q=Q, g=g: Fn.IntegralMomentOfNormalNormalEvaluation(cell, Q, g, e),
                lambda f, X=X, qw=qw, g=g, sn=sn, n=n: sum(w * y * n.dot(f(p)).dot(sn) for w, y, p in zip(qw, g, X)), (d, d))
            G = r.randn(len(qw), d)
            add("MonkIntegralMoment", lambda e=e, Q=Q, G=G: Fn.MonkIntegralMoment(cell, Q, G, e),
                lambda f, X=X, qw=qw, G=G: sum(w * y.dot(f(p)) for w, y, p in zip(qw, G, X)), (d,))
            if d == 3:
                add("IntegralMomentOfFaceTangentEvaluation", lambda e=e, Q=Q, G=G: Fn.IntegralMomentOfFaceTangentEvaluation(cell, Q, G.T.copy(), e),
                    lambda f, X=X, qw=qw, G=G, sn=sn: sum(w * np.cross(f(p), sn).dot(np.cross(y, sn)) for w, y, p in zip(qw, G, X)), (3,))
        if d == 3:
            t = [FV[1] - FV[0], FV[2] - FV[0]]
            for k in range(2):
                add("PointFaceTangentEvaluation", lambda e=e, x=x, k=k: Fn.PointFaceTangentEvaluation(cell, e, k, x), lambda f, x=x, k=k, t=t: t[k].dot(f(x)), (3,))
    if d >= 2:
        for e, vs in top[1].items():
            t = V[vs[1]] - V[vs[0]]
            x = tuple(V[vs[0]] + 0.3 * t)
            add("PointEdgeTangentEvaluation", lambda e=e, x=x: Fn.PointEdgeTangentEvaluation(cell, e, x), lambda f, x=x, t=t: t.dot(f(x)), (d,))
            for deg in (0, 3):
                edge = cell.construct_subelement(1)
                (a0,), (a1,) = edge.get_vertices()
                Q = create_quadrature(edge, deg)
                qp, qw = np.array(Q.get_points(), float), np.array(Q.get_weights(), float)
                X = [V[vs[0]] + (p[0] - a0) / (a1 - a0) * t for p in qp]
                g = r.randn(len(qw))
                add("IntegralMomentOfEdgeTangentEvaluation", lambda e=e, Q=Q, g=g: Fn.IntegralMomentOfEdgeTangentEvaluation(cell, Q, g, e),
                    lambda f, X=X, qw=qw, g=g, t=t: sum(w * y * t.dot(f(p)) for w, y, p in zip(qw, g, X)), (d,))
                if d == 2:
                    add("IntegralMomentOfTangentialEvaluation", lambda e=e, Q=Q, g=g: Fn.IntegralMomentOfTangentialEvaluation(cell, Q, g, e),
                        lambda f, X=X, qw=qw, g=g, t=t: sum(w * y * t.dot(f(p)) for w, y, p in zip(qw, g, X)), (d,))
            if d == 2 and cn != "DT":     # these moments presuppose UFC edges
                n, sn = np.asarray(cell.compute_normal(e), float), np.asarray(cell.compute_scaled_normal(e), float)
                L = np.linalg.norm(t)
                tn = t / L
                for k in range(4):
                    for cd in (4, 5):
                        def moment(f, g, k=k, V0=V[vs[0]], t=t):
                            x, w = num.gauss01(12)
                            Pk = num.jacobi_coeffs(0, 0, k)
                            return sum(wi * float(num.horner([float(c) for c in Pk], 2 * xi - 1)) * g(f(V0 + xi * t)) for xi, wi in zip(x, w))
                        deg = 2 * cd + 1 - k     # field degree for which the stored rule is exact
                        add("IntegralLegendreNormalMoment", lambda e=e, k=k, cd=cd: Fn.IntegralLegendreNormalMoment(cell, e, k, cd), lambda f, m=moment, sn=sn: m(f, lambda v: sn.dot(v)), (2,))
                        add("IntegralLegendreTangentialMoment", lambda e=e, k=k, cd=cd: Fn.IntegralLegendreTangentialMoment(cell, e, k, cd), lambda f, m=moment, t=t: m(f, lambda v: t.dot(v)), (2,))
                        add("IntegralLegendreNormalNormalMoment", lambda e=e, k=k, cd=cd: Fn.IntegralLegendreNormalNormalMoment(cell, e, k, cd), lambda f, m=moment, n=n, L=L: L * L * m(f, lambda v: n.dot(v).dot(n)), (2, 2))
                        add("IntegralLegendreNormalTangentialMoment", lambda e=e, k=k, cd=cd: Fn.IntegralLegendreNormalTangentialMoment(cell, e, k, cd), lambda f, m=moment, n=n, tn=tn, L=L: L * L * m(f, lambda v: n.dot(v).dot(tn)), (2, 2))
    return out


def sym(a):
    return a


def actions(ctx, cn):
    cell = F.cell(cn)
    d = C.sdim(cell)
    r = num.rng("c07f", cn)
    for name, fn, spec, shp in gen(cn):
        case = "%s %s" % (cn, name)
        ell = ctx.noraise(fn, case)
        if ell is None:
            continue
        for _ in range(2):
            f = Field(d, shp, 4, r)
            if "InnerProduct" in name:       # documented for symmetric tensor fields
                f.c = (f.c + f.c.transpose(1, 0, 2)) / 2
            try:
                got = act(ell, f)
            except Exception as e:
                ctx.ok(False, case, "stored data not applicable to a field of shape %s: %s" % (shp, e))
                break
            want = float(spec(f))
            ctx.close(got, want, case, 1e-10, "action")
        ctx.ok(ell.get_reference_element() is cell and ell.get_point_dict() is ell.pt_dict, case, "accessors")
        ctx.ok(ell.max_deriv_order == max([sum(a) for l in ell.deriv_dict.values() for _, a, _ in l] or [0]), case, "max_deriv_order")
        if "Divergence" not in name:
            ctx.ok(tuple(ell.target_shape) == tuple(shp), case, "target shape %s instead of %s" % (ell.target_shape, shp))
    # call interface
    from FIAT import functional as Fn
    from FIAT.quadrature_schemes import create_quadrature
    x = tuple(C.interior_points(cell, 1, r)[0])
    f = Field(d, (), 3, r)
    ctx.close(Fn.PointEvaluation(cell, x)(f), f(x), "PointEvaluation call " + cn)
    Q = create_quadrature(cell, 3)
    g = r.randn(len(Q.get_weights()))
    ctx.close(Fn.IntegralMoment(cell, Q, g)(f), sum(w * y * f(p) for w, y, p in zip(Q.get_weights(), g, Q.get_points())), "IntegralMoment call " + cn)
    import sympy
    if d > 1:
        def fn(X):
            return X[0] ** 3 * X[1] ** 2 + sympy.sin(X[0])
        import math
        a = (1, 1) + (0,) * (d - 2)
        ctx.close(float(Fn.PointDerivative(cell, x, a)(fn)), 6 * x[0] ** 2 * x[1], "PointDerivative call " + cn)
        a = (2, 0) + (0,) * (d - 2)
        ctx.close(float(Fn.PointDerivative(cell, x, a)(fn)), 6 * x[0] * x[1] ** 2 - math.sin(x[0]), "PointDerivative call " + cn)


def riesz(ctx, cn, shp, sel):
    """Riesz rows of single functionals and of lists = actions on the expansion functions."""
    from FIAT import polynomial_set as PS
    from FIAT.dual_set import DualSet
    cell = F.cell(cn)
    d = C.sdim(cell)
    r = num.rng("c07r", cn, shp)
    items = [(n, fn()) for n, fn, spec, s in gen(cn) if s == shp and "Divergence" not in n]
    r.shuffle(items)
    deg = 3
    ps = PS.ONSymTensorPolynomialSet(cell, deg, d) if len(shp) == 2 and sel == "sym" else PS.ONPolynomialSet(cell, deg, shp)
    es = ps.get_expansion_set()
    N = es.get_num_members(deg)

    # action on expansion function j in component c, by exact polynomial fit of the real expansion values
    pts = C.fit_points(cell, deg, r)
    V = np.array(C.cell_vertices(cell), float)
    fit = num.PolyFit(pts, d, deg, box=(V.min(0), V.max(0)))
    vals = np.asarray(es.tabulate(deg, [tuple(p) for p in pts]), float)
    co, _ = fit.fit(vals)

    def row(ell):
        R = np.zeros(tuple(shp) + (N,))
        for p, wcs in ell.pt_dict.items():
            v = fit.eval(co, [p])[:, 0]
            for w, c in wcs:
                R[tuple(c)] += w * v
        for p, wacs in ell.deriv_dict.items():
            for w, a, c in wacs:
                R[tuple(c)] += w * fit.eval(co, [p], tuple(a))[:, 0]
        return R
    # functionals given by their data, with entries repeated at a point
    from FIAT import functional as Fn
    idx = list(np.ndindex(*shp))
    xs = [tuple(p) for p in C.interior_points(cell, 3, r)]
    for q in range(4):
        ent = lambda: [(2.0, idx[0]), (2.0, idx[0])] + [(float(r.randn()), idx[r.randint(len(idx))]) for _ in range(2)] + [(2.0, idx[0])] * (q % 2)   # noqa: E731
        dent = lambda: [(w, unit(d, r.randint(d)), c) for w, c in ent()] * (1 + q % 2)   # noqa: E731
        pd = {x: ent() for x in xs[:1 + q % 3]}
        dd = {x: dent() for x in xs[q % 2:2]} if q else {}
        if sel != "sym":
            items.append(("repeated entries", Fn.Functional(cell, shp, pd, dd, "user")))
    # the empty-index shape of tensor sets must match
    rows = [row(e) for _, e in items]
    for (nm, e), R in zip(items[:40] + items[-4:], rows[:40] + rows[-4:]):
        ctx.close(e.to_riesz(ps), R, "%s %s Functional.to_riesz" % (cn, nm), 1e-8, "row")
    for lo, hi in ((0, len(items)), (0, 5), (3, 4), (5, 12), (len(items) - 4, len(items))):
        sub = items[lo:hi]
        if not sub:
            continue
        n = len(sub)
        top = cell.get_topology()
        ids = {dim: {e: [] for e in top[dim]} for dim in top}
        ids[d][0] = list(range(n))
        M = ctx.noraise(lambda: DualSet([e for _, e in sub], cell, ids).to_riesz(ps), "%s DualSet.to_riesz" % cn)
        if M is None:
            continue
        ctx.ok(M.shape == (n,) + tuple(shp) + (N,), "%s DualSet.to_riesz" % cn, "shape %s" % (M.shape,))
        for i in range(n):
            ctx.close(M[i], rows[lo + i], "%s DualSet.to_riesz row of %s in a list of %d" % (cn, sub[i][0], n), 1e-8, "row")


def high(ctx, cn, deg):
    """Riesz rows at a high degree."""
    from FIAT import polynomial_set as PS, functional as Fn
    from FIAT.dual_set import DualSet
    cell = F.cell(cn)
    d = C.sdim(cell)
    r = num.rng("c07h", cn)
    ps = PS.ONPolynomialSet(cell, deg)
    es = ps.get_expansion_set()
    pts = [tuple(p) for p in C.interior_points(cell, 4, r)]
    V = np.asarray(es.tabulate(deg, pts), float)
    w = r.randn(3)
    fs = [Fn.PointEvaluation(cell, p) for p in pts] + [Fn.Functional(cell, (), {p: [(float(x), ())] for p, x in zip(pts, w)}, {}, "user")]
    want = [V[:, i] for i in range(4)] + [V[:, :3].dot(w)]
    top = cell.get_topology()
    ids = {dim: {e: [] for e in top[dim]} for dim in top}
    ids[d][0] = list(range(5))
    M = ctx.noraise(lambda: DualSet(fs, cell, ids).to_riesz(ps), "%s degree %d DualSet.to_riesz" % (cn, deg))
    for i in range(5):
        if M is not None:
            ctx.close(M[i], want[i], "%s degree %d DualSet.to_riesz row %d" % (cn, deg, i), 1e-9, "row")
        ctx.close(fs[i].to_riesz(ps), want[i], "%s degree %d Functional.to_riesz row %d" % (cn, deg, i), 1e-9, "row")


def check(tier):
    T = []
    cells = ["I", "T", "S", "DI", "DT", "DS", "KT", "KS", "AI", "AT", "AS"]
    for cn, deg in (("I", 14), ("I", 23), ("T", 8), ("S", 5)):
        T.append(("riesz-high-%s-%d" % (cn, deg), "props.c07", "high", (cn, deg)))
    for cn in cells:
        T.append(("actions-" + cn, "props.c07", "actions", (cn,)))
        d = F.CELL_DIM[cn]
        if tier == "thorough" or cn in ("I", "T", "S", "AT", "DS"):
            for shp in ((), (d,)) + (((d, d),) if d > 1 else ()):
                T.append(("riesz-%s-%s" % (cn, shp), "props.c07", "riesz", (cn, shp, "")))
                if len(shp) == 2:
                    T.append(("riesz-sym-%s-%s" % (cn, shp), "props.c07", "riesz", (cn, shp, "sym")))
    return dict(bounded=T, bound="every functional class on 11 simplices, random fields of degree 4; Riesz rows at degree 3", obligations=[])
