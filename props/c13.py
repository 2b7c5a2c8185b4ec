"""C13: traces depend on the closure's dofs only, and are the same function on
every facet; support sets."""
import itertools

import numpy as np

from vlib import families as F, contracts as C, num, fastd

KINDS = {
    "Lagrange": "value", "Bernstein": "value", "GaussLobattoLegendre": "value", "KongMulderVeldhuizen": "value", "CubicHermite": "value", "Serendipity": "value",
    "RaviartThomas": "normal", "BrezziDouglasMarini": "normal", "BrezziDouglasFortinMarini": "normal", "MardalTaiWinther": "normal",
    "Nedelec": "tangent", "NedelecSecondKind": "tangent",
    "Regge": "tt", "HellanHerrmannJohnson": "nn", "ArnoldWinther": "nfull", "ArnoldWintherNC": None,
    "Argyris": "C1", "QuinticArgyris": "C1", "Bell": "C1",
}
# trace independent of the cell's position given the facet (dofs defined by facet data only)
GLUE = {"Lagrange", "Bernstein", "GaussLobattoLegendre", "KongMulderVeldhuizen", "RaviartThomas", "BrezziDouglasMarini",
        "Nedelec", "NedelecSecondKind", "Regge", "HellanHerrmannJohnson", "BrezziDouglasFortinMarini"}


def facet_frame(cell, e):
    d = C.sdim(cell)
    top = cell.get_topology()
    fd = d - 1
    vs = top[fd][e]
    V = np.array([C.cell_vertices(cell)[v] for v in vs], float)
    if d == 1:
        return vs, V, np.zeros((0, 1)), np.array([1.0])
    t = V[1:] - V[0]
    n = np.array([t[0][1], -t[0][0]]) if d == 2 else np.cross(t[0], t[1])
    return vs, V, t, n


def trace(kind, vals, t, n):
    """vals: (nb, ..., npts) -> (nb, ncomp, npts)"""
    v = np.asarray(vals, float)
    if kind == "value":
        return v.reshape(v.shape[0], 1, -1)
    if kind == "normal":
        return np.einsum("icp,c->ip", v, n)[:, None]
    if kind == "tangent":
        return np.einsum("icp,tc->itp", v, t)
    if kind == "tt":
        m = len(t)
        return np.einsum("iabp,sa,tb->istp", v, t, t).reshape(v.shape[0], m * m, -1)
    if kind == "nn":
        return np.einsum("iabp,a,b->ip", v, n, n)[:, None]
    if kind == "nfull":
        return np.einsum("iabp,b->iap", v, n)


def sub_entities_local(cell, e):
    """entities in the closure of facet e, with their local vertex positions."""
    d = C.sdim(cell)
    top = cell.get_topology()
    vs = list(top[d - 1][e])
    out = []
    for dim in sorted(top):
        if dim > d - 1:
            continue
        for ee in sorted(top[dim]):
            w = top[dim][ee]
            if set(w) <= set(vs):
                out.append((dim, ee, tuple(sorted(vs.index(x) for x in w))))
    return out


def simplex_traces(ctx, name, ex, cn):
    fastd.install(3)
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    cell = el.get_reference_element()
    d = C.sdim(cell)
    top = cell.get_topology()
    clo = el.entity_closure_dofs()
    kind = KINDS[name]
    n = el.space_dimension()
    r = num.rng("c13", name)
    lams = r.dirichlet(np.ones(d), size=6) if d > 1 else np.ones((1, 1))
    ref = None
    for e in sorted(top[d - 1]):
        vs, V, t, nn = facet_frame(cell, e)
        X = [tuple(x) for x in lams.dot(V)]
        case = "%s facet %d" % (ex, e)
        tab = el.tabulate(1 if kind == "C1" else 0, X)
        z = (0,) * d
        on = set(clo[d - 1][e])
        sc = max(1.0, np.abs(np.asarray(tab[z], float)).max())
        if kind == "C1":
            # value and gradient vanish off the closure
            for a, v in tab.items():
                v = np.asarray(v, float)
                for i in range(n):
                    if i not in on:
                        ctx.ok(np.abs(v[i]).max() < 1e-6 * max(1.0, np.abs(v).max()), "%s function %d" % (case, i), "value or gradient %s does not vanish (%.2g)" % (a, np.abs(v[i]).max()))
            continue
        tr = trace(kind, tab[z], t, nn)
        for i in range(n):
            if i not in on:
                ctx.ok(np.abs(tr[i]).max() < 1e-7 * sc, "%s function %d" % (case, i), "%s trace does not vanish: %.3g" % (kind, np.abs(tr[i]).max()))
        on_tr = tr[sorted(on)]
        # the closure's dofs determine a full-rank set of traces (nothing is lost)
        if name not in GLUE:
            continue
        # facet-local numbering: entities in the order of their local vertex positions
        order = []
        loc = sorted(sub_entities_local(cell, e), key=lambda s: (s[0], s[2]))
        ids = el.entity_dofs()
        for dim, ee, lv in loc:
            order += list(ids[dim][ee])
        T = tr[order]
        ctx.ok(num.rank(T.reshape(len(order), -1), 1e-7) == min(len(order), num.rank(T.reshape(len(order), -1), 1e-11)), case, "rank", nontrivial=False)
        if ref is None:
            ref = (T, [(dim, lv, len(ids[dim][ee])) for dim, ee, lv in loc])
        else:
            ctx.ok(ref[1] == [(dim, lv, len(ids[dim][ee])) for dim, ee, lv in loc], case, "facet layout differs from facet 0")
            if ref[0].shape == T.shape:
                if kind == "normal" and cn not in ("T", "S") and np.abs(T + ref[0]).max() < np.abs(T - ref[0]).max():
                    T = -T      # other cells use outward normals, so facets agree up to orientation
                ctx.close(T, ref[0], case, 1e-7, "trace differs from the one on facet 0 for the same facet dofs")
            else:
                ctx.ok(False, case, "different number of facet dofs")


def vertex_derivs(ctx, ex):
    """Hermite/Argyris/Bell: value and derivatives at a vertex are the dofs there."""
    el = F.build(ex)
    cell = el.get_reference_element()
    d = C.sdim(cell)
    V = C.cell_vertices(cell)
    ids = el.entity_dofs()
    m = 1 if "Hermite" in ex else 2
    tab = el.tabulate(m, V)
    for v in range(len(V)):
        own = set(ids[0][v])
        for a, t in tab.items():
            for i in range(el.space_dimension()):
                if i not in own:
                    ctx.ok(abs(t[i][v]) < 1e-6 * max(1, np.abs(t).max()), "%s function %d derivative %s at vertex %d" % (ex, i, a, v), "does not vanish")


def mean_traces(ctx, ex, moment):
    """Crouzeix-Raviart, Morley, MTW, AW(nc): the moments their weak continuity requires."""
    el = F.build(ex)
    cell = el.get_reference_element()
    d = C.sdim(cell)
    top = cell.get_topology()
    clo = el.entity_closure_dofs()
    for e in top[d - 1]:
        vs, V, t, nn = facet_frame(cell, e)
        if d == 1:
            X, w = V, np.ones(1)
        else:
            X, w = num.quad_simplex(V, 10)
        X = [tuple(x) for x in X]
        on = set(clo[d - 1][e])
        z = (0,) * d
        if moment == "value":
            tr = np.asarray(el.tabulate(0, X)[z]).dot(w)[:, None]
        elif moment == "dn":
            tb = el.tabulate(1, X)
            tr = sum(nn[i] * np.asarray(tb[tuple(1 if j == i else 0 for j in range(d))]).dot(w) for i in range(d))[:, None]
        elif moment == "tangent":
            tr = np.einsum("icp,c,p->i", np.asarray(el.tabulate(0, X)[z]), t[0], w)[:, None]
        elif moment == "nfull1":      # moments of tau n against P1 on the edge
            s = np.array([np.dot(np.array(x) - V[0], t[0]) / t[0].dot(t[0]) for x in X])
            v = np.einsum("iabp,b->iap", np.asarray(el.tabulate(0, X)[z]), nn)
            tr = np.concatenate([v.dot(w), v.dot(w * s)], 1)
        for i in range(el.space_dimension()):
            if i not in on:
                ctx.ok(np.abs(tr[i]).max() < 1e-8, "%s facet %d function %d" % (ex, e, i), "%s moment does not vanish: %.3g" % (moment, np.abs(tr[i]).max()))


def support(ctx, ex):
    """entity_support_dofs lists exactly the functions not vanishing on the entity."""
    from FIAT.finite_element import entity_support_dofs
    el = F.build(ex)
    cell = el.get_reference_element()
    top = cell.get_topology()
    r = num.rng("c13s", ex)
    for dim in top:
        S = ctx.noraise(lambda: entity_support_dofs(el, dim), "%s support dim %s" % (ex, dim))
        if S is None:
            continue
        ctx.ok(set(S) == set(top[dim]), "%s support dim %s" % (ex, dim), "entities %s" % sorted(S))
        sub = cell.construct_subelement(dim)
        for e in top[dim]:
            pts = C.interior_points(sub, 8, r)
            try:
                v = C.flatvals(el, pts, 0, (dim, e))
            except Exception:
                continue
            want = [i for i in range(len(v)) if np.abs(v[i]).max() > 1e-9]
            doubtful = [i for i in range(len(v)) if 1e-9 < np.abs(v[i]).max() < 3e-3]
            got = [int(x) for x in S[e]]
            ctx.ok(set(got) ^ set(want) <= set(doubtful) and got == sorted(set(got)), "%s support of (%s, %s)" % (ex, dim, e), lambda: "%s instead of %s" % (got, want))
        S2 = entity_support_dofs(el, dim)
        ctx.ok(S2 == S, ex, "second query differs")
    fresh = F.build(ex)
    d0 = sorted(top)[0]
    for dim in sorted(top)[::-1]:
        ctx.ok(entity_support_dofs(fresh, dim) == entity_support_dofs(el, dim), ex, "depends on the order of the queries")


SUPPORT = ["Lagrange(I, 3)", "Lagrange(T, 3)", "Lagrange(S, 2)", "DiscontinuousLagrange(T, 2)", "DiscontinuousLagrange(S, 1)", "RaviartThomas(T, 2, variant='point')", "Nedelec(T, 2, variant='point')",
           "Nedelec(S, 1, variant='point')", "BrezziDouglasMarini(T, 1, variant='point')", "CrouzeixRaviart(T, 1)", "Bubble(T, 3)", "GaussLobattoLegendre(I, 4)", "GaussLegendre(I, 2)",
           "Argyris(T, 5)", "CubicHermite(T)", "EnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "DiscontinuousElement(Lagrange(T, 2))", "TP(Lagrange(I, 2), Lagrange(I, 1))",
           "TP(Lagrange(T, 1), DiscontinuousLagrange(I, 1))", "TP(Lagrange(T, 2), Lagrange(I, 2))", "Flat(TP(Lagrange(I, 2), Lagrange(I, 2)))", "Flat(TP(DiscontinuousLagrange(I, 1), Lagrange(I, 2)))",
           "Hdiv(TP(RaviartThomas(T, 1, variant='point'), DiscontinuousLagrange(I, 0)))", "Hcurl(TP(Lagrange(T, 1), DiscontinuousLagrange(I, 0)))", "RestrictedElement(Lagrange(T, 3), restriction_domain='facet')"]


def serendipity(ctx, cn, k):
    ex = "Serendipity(%s, %d)" % (cn, k)
    el = F.build(ex)
    cell = el.get_reference_element()
    d = C.sdim(cell)
    top = cell.get_topology()
    clo = el.entity_closure_dofs()
    V = np.array(C.cell_vertices(cell), float)
    r = num.rng("c13q")
    ref = None
    for dim in range(1, d):
        for e in sorted(top[dim]):
            P = V[[int(v) for v in top[dim][e]]]
            lo, hi = P.min(0), P.max(0)
            X = [tuple(lo + (hi - lo) * x) for x in r.rand(5, d)]
            v = np.asarray(el.tabulate(0, X)[(0,) * d], float)
            on = set(clo[dim][e])
            for i in range(el.space_dimension()):
                if i not in on:
                    ctx.ok(np.abs(v[i]).max() < 1e-9, "%s entity (%d, %d) function %d" % (ex, dim, e, i), "does not vanish")


CUBES = [("Serendipity(Q, %d)" % k, "value") for k in range(1, 7)] + [("Serendipity(H, %d)" % k, "value") for k in range(1, 7)] + [
    ("Flat(TP(Lagrange(I, 3), Lagrange(I, 3)))", "value"),
    ("Flat(TP(TP(Lagrange(I, 3), Lagrange(I, 3)), Lagrange(I, 3)))", "value"),
    ("Flat(EnrichedElement(Hdiv(TP(Lagrange(I, 2), DiscontinuousLagrange(I, 1))), Hdiv(TP(DiscontinuousLagrange(I, 1), Lagrange(I, 2)))))", "normal"),
    ("Flat(EnrichedElement(Hcurl(TP(Lagrange(I, 2), DiscontinuousLagrange(I, 1))), Hcurl(TP(DiscontinuousLagrange(I, 1), Lagrange(I, 2)))))", "tangent")]


def cube_traces(ctx, ex, kind):
    """On quadrilaterals and hexahedra: the trace on a facet vanishes off its
    closure, and is the same function of the facet's own coordinates and dofs."""
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    cell = el.get_reference_element()
    d = C.sdim(cell)
    top, ids, clo = cell.get_topology(), el.entity_dofs(), el.entity_closure_dofs()
    s = num.rng("c13cube").rand(7, d - 1)
    ref = None
    for e in sorted(top[d - 1]):
        vs = list(top[d - 1][e])
        V = np.array([C.cell_vertices(cell)[v] for v in vs], float)
        # the facet's own coordinates: its first vertex is the origin, the last one varies first
        t = np.array([V[1] - V[0]]) if d == 2 else np.array([V[2] - V[0], V[1] - V[0]])
        n = np.array([t[0][1], -t[0][0]]) if d == 2 else np.cross(t[0], t[1])
        case = "%s facet %d" % (ex, e)
        v = np.asarray(el.tabulate(0, [tuple(V[0] + x.dot(t)) for x in s])[(0,) * d], float)
        w = np.asarray(el.tabulate(0, [tuple(x) for x in s], (d - 1, e))[(0,) * d], float)
        ctx.close(w, v, case, 1e-9, "tabulation on the facet")
        tr = trace(kind, v, t, n)
        on = set(clo[d - 1][e])
        for i in range(el.space_dimension()):
            if i not in on:
                ctx.ok(np.abs(tr[i]).max() < 1e-8, "%s function %d" % (case, i), "%s trace does not vanish" % kind)
        loc = sorted(sub_entities_local(cell, e), key=lambda q: (q[0], q[2]))
        T = tr[[i for dim, ee, _ in loc for i in ids[dim][ee]]]
        if ref is None:
            ref = T
        elif ctx.ok(ref.shape == T.shape, case, "different number of facet dofs") is not False and ref.shape == T.shape:
            ctx.close(T, ref, case, 1e-8, "trace differs from the one on facet 0 for the same facet dofs")


def check(tier):
    T = []
    km = {0: 0, 1: 6, 2: 4, 3: 3} if tier == "quick" else {0: 0, 1: 9, 2: 6, 3: 4}
    for f, k, d, cn, v, ex in F.instances(km):
        if f.name in KINDS and KINDS[f.name] and not (f.name == "RaviartThomas" and d == 1):
            T.append(("traces %s" % ex, "props.c13", "simplex_traces", (f.name, ex, cn)))
    T += [("traces moved Lagrange(AT, 3)", "props.c13", "simplex_traces", ("Lagrange", "Lagrange(AT, 3)", "AT"))]
    for n, e in (("Lagrange", "Lagrange(%s, 3)"), ("RaviartThomas", "RaviartThomas(%s, 2, variant='point')"), ("Nedelec", "Nedelec(%s, 2, variant='point')"),
                 ("RaviartThomas", "RaviartThomas(%s, 2, variant='integral')"), ("Nedelec", "Nedelec(%s, 2, variant='integral')"), ("Regge", "Regge(%s, 1)"),
                 ("BrezziDouglasMarini", "BrezziDouglasMarini(%s, 1, variant='point')"), ("NedelecSecondKind", "NedelecSecondKind(%s, 1, variant='point')")):
        for c in ("AT", "AS", "KT") + (("DT", "DS", "KS") if "integral" not in e or n == "Nedelec" else ()):
            if c in ("KT", "KS", "DT", "DS"):
                continue
            T.append(("traces " + e % c, "props.c13", "simplex_traces", (n, e % c, c)))
    T += [("vertex-derivatives %s" % e, "props.c13", "vertex_derivs", (e,)) for e in ("CubicHermite(I)", "CubicHermite(T)", "CubicHermite(S)", "Argyris(T, 5)", "Argyris(T, 6)", "QuinticArgyris(T)", "Bell(T)")]
    T += [("mean %s %s" % (e, m), "props.c13", "mean_traces", (e, m)) for e, m in (
        ("CrouzeixRaviart(T, 1)", "value"), ("CrouzeixRaviart(S, 1)", "value"), ("Morley(T)", "dn"), ("MardalTaiWinther(T, 3)", "tangent"), ("ArnoldWintherNC(T, 2)", "nfull1"))]
    T += [("support %s" % e, "props.c13", "support", (e,)) for e in SUPPORT]
    T += [("serendipity %s %d" % (c, k), "props.c13", "serendipity", (c, k)) for c, ks in (("Q", range(1, 7)), ("H", range(1, 5))) for k in ks]
    T += [("cube traces %s" % e[:60], "props.c13", "cube_traces", (e, m)) for e, m in CUBES]
    return dict(bounded=T, bound="conforming families at degrees <= %s" % (km,), obligations=[])
