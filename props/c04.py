"""C04: expansion sets: orthonormal, spanning, hierarchical, affine images, derivatives."""
import numpy as np

from vlib import families as F, contracts as C, num


def canonical(d):
    from FIAT import reference_element as R
    return {1: R.DefaultLine, 2: R.DefaultTriangle, 3: R.DefaultTetrahedron}[d]()


def P(n, d):
    return int(np.prod([n + i for i in range(1, d + 1)]) // [1, 1, 2, 6][d]) if n >= 0 else 0


CELLS = {1: ["I", "DI", "AI", "RI"], 2: ["T", "DT", "KT", "AT", "RT_"], 3: ["S", "DS", "KS", "AS", "RS"]}


def getcell(name):
    from FIAT import reference_element as R
    if name in ("RI", "RT_", "RS"):      # reversed orientation
        base = {"RI": R.UFCInterval, "RT_": R.UFCTriangle, "RS": R.UFCTetrahedron}[name]()
        v = list(base.get_vertices())
        v[0], v[1] = v[1], v[0]
        return F.moved(base, tuple(v))
    return F.cell(name)


def one(ctx, cn, n, d, derivs):
    from FIAT import expansions
    cell = getcell(cn)
    es = expansions.get_expansion_set(cell)
    N = P(n, d)
    case = "expansion set on %s, degree %d" % (cn, n)
    ctx.ok(es.get_num_members(n) == N, case, "get_num_members gives %s, dim P_n is %d" % (es.get_num_members(n), N))
    ctx.ok(expansions.polynomial_dimension(cell, n) == N, case, "polynomial_dimension")
    V = C.cell_vertices(cell)
    # orthonormality on the canonical cell, orthogonality everywhere
    x, w = num.quad_simplex(V, 2 * n + 1)
    tab = np.asarray(es.tabulate(n, [tuple(p) for p in x]), float)
    if not ctx.ok(tab.shape == (N, len(x)), case, "tabulate returns shape %s" % (tab.shape,)):
        return
    G = (tab * w).dot(tab.T)
    ratio = num.simplex_measure(V) / num.simplex_measure(C.cell_vertices(canonical(d)))
    if n == 0 and d > 1:
        ctx.close(tab, np.ones_like(tab), case, 1e-12, "degree-zero set is the constant one")
        return
    ctx.close(G / ratio, np.eye(N), case, 1e-9, "Gram matrix on the cell (scaled to the canonical cell)")
    # span and hierarchy: the first dim P_k members lie in P_k (and, being independent, span it)
    r = num.rng("c04", cn, n)
    pts = C.fit_points(cell, n + 1, r)
    t = np.asarray(es.tabulate(n, pts), float)
    for k in range(n + 1):
        fit = num.PolyFit(pts, d, k)
        c, res = fit.fit(t[:P(k, d)])
        ctx.ok(res < 1e-8 * max(1.0, np.abs(t).max()), case, lambda: "the first dim P_%d members are not in P_%d (residual %.2g)" % (k, k, res))
    # composition with the affine map to the canonical cell
    can = canonical(d)
    Vc = np.array(C.cell_vertices(can), float)
    Vv = np.array(V, float)
    lam = r.dirichlet(np.ones(d + 1), size=5)
    a = np.asarray(es.tabulate(n, [tuple(p) for p in lam.dot(Vv)]), float)
    b = np.asarray(expansions.get_expansion_set(can).tabulate(n, [tuple(p) for p in lam.dot(Vc)]), float)
    ctx.close(a, b, case, 1e-10, "not the canonical functions composed with the affine map")
    # vertices are regular points
    tv = np.asarray(es.tabulate(n, V), float)
    fit = num.PolyFit(pts, d, n)
    c, res = fit.fit(t)
    ctx.close(tv, fit.eval(c, V), case, 1e-7, "values at the vertices")
    if not derivs:
        return
    q = [tuple(p) for p in num.simplex_points(V, 3, r)] + [V[-1]]
    dv = es.tabulate_derivatives(n, q)
    for i in range(N):
        for j in range(len(q)):
            ctx.ok(abs(dv[i][j][0] - np.asarray(es.tabulate(n, q), float)[i, j]) < 1e-9 * max(1, abs(dv[i][j][0])), case, "value part of tabulate_derivatives") if j == 0 else None
    for ax in range(d):
        alpha = tuple(1 if m == ax else 0 for m in range(d))
        want = fit.eval(c, q, alpha)
        got = np.array([[np.asarray(dv[i][j][1], float).reshape(-1)[ax] for j in range(len(q))] for i in range(N)])
        ctx.close(got, want, case, 1e-7, "derivative in direction %d" % ax)
    if d > 1:
        for order in (1, 2):
            jet = es.tabulate_jet(n, q, order)
            ctx.ok(len(jet) == order + 1, case, "tabulate_jet length")
            ctx.close(np.asarray(jet[0], float), np.asarray(es.tabulate(n, q), float), case, 1e-9, "jet order 0")
            for ax in range(d):
                alpha = tuple(1 if m == ax else 0 for m in range(d))
                ctx.close(np.asarray(jet[1], float)[..., ax], fit.eval(c, q, alpha), case, 1e-7, "jet order 1")
                if order == 2:
                    for bx in range(d):
                        al = tuple((m == ax) + (m == bx) for m in range(d))
                        ctx.close(np.asarray(jet[2], float)[..., ax, bx], fit.eval(c, q, al), case, 1e-6, "jet order 2")


def batch(ctx, items):
    for it in items:
        one(ctx, *it)


def point(ctx):
    from FIAT import expansions
    es = expansions.get_expansion_set(F.cell("P"))
    ctx.ok(es.get_num_members(0) == 1, "point")
    ctx.close(es.tabulate(0, [(), ()]), [[1.0, 1.0]], "point", 0)
    ctx.raises(lambda: expansions.get_expansion_set(F.cell("Q")), "quadrilateral has no expansion set")
    ctx.raises(lambda: expansions.polynomial_dimension(F.cell("Q"), 1), "quadrilateral has no polynomial dimension")
    for cls, bad in ((expansions.LineExpansionSet, "T"), (expansions.TriangleExpansionSet, "S"), (expansions.TetrahedronExpansionSet, "T"), (expansions.PointExpansionSet, "I")):
        ctx.raises(lambda: cls(F.cell(bad)), "%s on cell %s" % (cls.__name__, bad))


def check(tier):
    deep = tier == "thorough"
    items = []
    lim = {1: (24, 10), 2: (12, 3), 3: (8, 2)} if not deep else {1: (40, 16), 2: (18, 5), 3: (11, 3)}
    for d in (1, 2, 3):
        for n in range(lim[d][0] + 1):
            for cn in CELLS[d]:
                if cn not in ("I", "T", "S", "DI", "DT", "DS") and n > lim[d][0] // 2:
                    continue
                items.append((cn, n, d, n <= lim[d][1] and (n < lim[d][1] or cn in ("I", "T", "S"))))
    T = [("expansion-%d" % i, "props.c04", "batch", (items[i::24],)) for i in range(24)]
    T.append(("point", "props.c04", "point", ()))
    return dict(bounded=T, bound="degrees <= %s, derivatives <= %s" % tuple(zip(*lim.values())), obligations=[])
