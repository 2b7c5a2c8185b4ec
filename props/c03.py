"""C03: tabulated derivatives are the true derivatives of the tabulated values;
tabulating on a sub-entity equals tabulating at the mapped points."""
import itertools
import numpy as np

from vlib import families as F, fastd, contracts as C, num


def degree_of(el, cell):
    """(degree, tensor?) of a polynomial space containing the basis."""
    if hasattr(el, "elements") and not hasattr(el, "degree"):
        d = max(e.degree() if hasattr(e, "degree") else degree_of(e, cell)[0] for e in el.elements())
    else:
        d = el.degree()
    if C.is_simplex(cell):
        return d, False
    if isinstance(d, tuple):
        d = max(d)
    return d, True


def degree_bound(ex, el):
    cell = el.get_reference_element()
    try:
        N, tensor = degree_of(el, cell)
    except NotImplementedError:
        return None, None
    if tensor and not ex.startswith(("DPC", "Serendipity")):
        N = N + 0
    return N, tensor


def check_derivs(ctx, el, ex, orders, seed=0, tol=2e-7):
    cell = el.get_reference_element()
    d = C.sdim(cell)
    N, tensor = degree_bound(ex, el)
    if d == 0 or N is None:
        return
    r = num.rng("c03", ex, seed)
    fp = C.fit_points(cell, N, r)
    fit = num.PolyFit(fp, d, N, tensor)
    base = el.tabulate(0, fp)
    c, res = fit.fit(np.asarray(base[(0,) * d], float))
    sc = max(1.0, float(np.abs(np.asarray(base[(0,) * d], float)).max()))
    if not ctx.ok(res <= 1e-8 * sc, ex, lambda: "values are not polynomials of the reported degree %s (residual %.2g)" % (N, res)):
        return
    pts = C.interior_points(cell, 4, r) + C.cell_vertices(cell)[:2]
    for m in orders:
        tab = el.tabulate(m, pts)
        keys = set(a for n in range(m + 1) for a in num.alphas(d, n))
        if not ctx.ok(set(map(tuple, tab.keys())) == keys, "%s, order %d" % (ex, m),
                      lambda: "derivative multi-indices %s instead of %s" % (sorted(tab), sorted(keys))):
            continue
        for a in keys:
            want = fit.eval(c, pts, a)
            scale = max(1.0, float(np.abs(want).max()))
            got = np.asarray(tab[a], float)
            if not ctx.ok(got.shape == want.shape, "%s, order %d, derivative %s" % (ex, m, a),
                          lambda: "array has shape %s instead of %s" % (got.shape, want.shape)):
                continue
            err = float(np.abs(got - want).max())
            ctx.ok(err <= tol * scale * (10 ** sum(a)), "%s, order %d, derivative %s" % (ex, m, a),
                   lambda: "differs from the derivative of the values by %.3g (scale %.3g)" % (err, scale))


def check_points(ctx, el, ex, order=1):
    """A point's column does not depend on its companions, their order,
    multiplicity or container type."""
    cell = el.get_reference_element()
    d = C.sdim(cell)
    if d == 0:
        return
    r = num.rng("c03p", ex)
    pts = C.interior_points(cell, 5, r)
    tab = el.tabulate(order, pts)
    for sel in ([2], [4, 0, 2], [1, 3, 2], [4, 1, 3], [1, 1, 3, 1], [0, 2, 3, 1], list(range(5))[::-1]):
        t2 = el.tabulate(order, [pts[i] for i in sel])
        for a in tab:
            ctx.close(np.asarray(t2[a], float), np.asarray(tab[a], float)[..., sel], "%s, points %s, derivative %s" % (ex, sel, a),
                      1e-9, "value depends on the other points")


def check_entity(ctx, el, ex, order=1):
    cell = el.get_reference_element()
    d = C.sdim(cell)
    if d == 0:
        return
    top = cell.get_topology()
    r = num.rng("c03e", ex)
    for dim in top:
        sub = cell.construct_subelement(dim)
        sd = sub.get_spatial_dimension()
        pts = C.interior_points(sub, 3, r) if sd else [()]
        for e in top[dim]:
            case = "%s, entity (%s, %s)" % (ex, dim, e)
            X = [C_map(cell, dim, e, p) for p in pts]
            got = ctx.noraise(lambda: el.tabulate(order, pts, (dim, e)), case)
            if got is None:
                continue
            want = el.tabulate(order, X)
            ctx.ok(set(got) == set(want), case, "derivative keys differ")
            for a in want:
                if a in got:
                    ctx.close(np.asarray(got[a], float), np.asarray(want[a], float), case + ", derivative %s" % (a,), 1e-8,
                              "tabulation on the entity differs from tabulation at the mapped points")


def C_map(cell, dim, e, p):
    """Entity map from the definition: barycentric with the entity's vertices
    (independent of the cell's own transforms) for simplices; product rule for
    product cells."""
    V = C.cell_vertices(cell)
    cells = getattr(cell, "cells", None)
    if cells is None and hasattr(cell, "product"):
        dm, en = cell.unflattening_map[(dim, e)]
        return C_map(cell.product, dm, en, p)
    if cells is None:
        vs = [np.array(V[i], float) for i in cell.get_topology()[dim][e]]
        sub = cell.construct_subelement(dim)
        if dim == 0:
            return tuple(vs[0])
        sv = np.array(sub.get_vertices(), float)
        A = np.vstack([sv.T, np.ones(len(sv))])
        lam = np.linalg.solve(A, np.append(np.array(p, float), 1.0))
        return tuple(sum(l * v for l, v in zip(lam, vs)))
    shape = [len(c.get_topology()[dd]) for c, dd in zip(cells, dim)]
    ids = np.unravel_index(e, shape)
    out, off = (), 0
    for c, dd, i in zip(cells, dim, ids):
        n = c.construct_subelement(dd).get_spatial_dimension()
        out += tuple(C_map(c, dd, int(i), p[off:off + n]))
        off += n
    return out


def inst(ctx, exprs, mindeg, orders, what):
    fastd.install(mindeg)
    for ex in exprs:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        if "d" in what:
            check_derivs(ctx, el, ex, orders)
        if "p" in what:
            check_points(ctx, el, ex)
        if "e" in what:
            check_entity(ctx, el, ex)


def chunks(l, n):
    return [l[i::n] for i in range(min(n, len(l)))]


QUIET = ("KongMulderVeldhuizen",)


def check(tier):
    deep = tier == "thorough"
    lo = [ex for f, k, d, cn, v, ex in F.instances({0: 0, 1: 3, 2: 2, 3: 1}, variants=False)]
    hi = [ex for f, k, d, cn, v, ex in F.instances({0: 0, 1: 9, 2: 5, 3: 3} if not deep else {0: 0, 1: 14, 2: 7, 3: 5})
          if not (d == 3 and v == "integral" and k >= 3)]
    ent = [ex for f, k, d, cn, v, ex in F.instances({0: 0, 1: 4, 2: 3, 3: 2}, variants=False)]
    alt = [ex for cs in ({2: "DT", 3: "DS", 1: "DI"}, {2: "KT", 3: "KS"}, {1: "AI", 2: "AT", 3: "AS"})
           for f, k, d, cn, v, ex in F.instances({1: 3, 2: 3, 3: 2}, ["Lagrange", "DiscontinuousLagrange", "Regge", "RaviartThomas", "Nedelec"], cs, variants=False)]
    comp = [e for e in C.COMPOSITES if not e.startswith("Mixed") or True]
    cube = [e for e in C.CUBE]
    tens = C.TENSOR + C.HDIVCURL
    T = []
    T += [("real-%d" % i, "props.c03", "inst", (c, 99, (0, 1, 2), "dp")) for i, c in enumerate(chunks(lo, 8))]
    T += [("family-%d" % i, "props.c03", "inst", (c, 3, (1, 2), "d")) for i, c in enumerate(chunks(hi, 24))]
    T += [("order3-%d" % i, "props.c03", "inst", (c, 2, (3, 4), "d")) for i, c in enumerate(chunks(ent, 8))]
    T += [("entity-%d" % i, "props.c03", "inst", (c, 2, (1,), "ep")) for i, c in enumerate(chunks(ent, 8))]
    T += [("cells-%d" % i, "props.c03", "inst", (c, 2, (1, 2), "de")) for i, c in enumerate(chunks([e for e in alt if "(A" not in e], 6))]
    T += [("moved-%d" % i, "props.c03", "inst", (c, 2, (1, 2), "dpe")) for i, c in enumerate(chunks([e for e in alt if "(A" in e], 4))]
    T += [("composite-%d" % i, "props.c03", "inst", (c, 2, (1, 2), "dpe")) for i, c in enumerate(chunks(comp, 8))]
    o3 = [e for e in comp if "S, 5" not in e] + tens + [e for e in cube if "H" not in e and ", 6" not in e]
    T += [("composite-order3-%d" % i, "props.c03", "inst", (c, 2, (3,), "d")) for i, c in enumerate(chunks(o3, 8))]
    T += [("cube-%d" % i, "props.c03", "inst", (c, 2, (1, 2), "dpe")) for i, c in enumerate(chunks(cube, 8))]
    T += [("tensor-%d" % i, "props.c03", "inst", (c, 2, (1, 2), "dpe")) for i, c in enumerate(chunks(tens, 8))]
    return dict(bounded=T, bound="families of vlib/families.py, cells of vlib/families.py, derivative order <= 4", obligations=[])
