"""C12: enriched, nodal enriched, mixed, restricted, broken and bubble elements."""
import itertools

import numpy as np

from vlib import families as F, contracts as C, num

RT1, RT2i = "RaviartThomas(T, 1, variant='point')", "RestrictedElement(RaviartThomas(T, 2, variant='point'), restriction_domain='interior')"
ENR = [
    ["Lagrange(T, 1)", "Bubble(T, 3)"], ["Bubble(T, 3)", "Lagrange(T, 1)"], ["Lagrange(I, 2)", "Bubble(I, 3)"], ["Lagrange(S, 1)", "Bubble(S, 4)", "FacetBubble(S, 3)"],
    ["Lagrange(T, 2)", "DiscontinuousLagrange(T, 0)"], [RT1, RT2i], ["Lagrange(T, 1)"], ["Nedelec(S, 1, variant='point')", "RestrictedElement(Nedelec(S, 2, variant='point'), restriction_domain='face')"],
    ["TP(Lagrange(I, 1), DiscontinuousLagrange(I, 0))", "TP(DiscontinuousLagrange(I, 0), Lagrange(I, 1))"],
    ["Hdiv(TP(Lagrange(I, 1), DiscontinuousLagrange(I, 0)))", "Hdiv(TP(DiscontinuousLagrange(I, 0), Lagrange(I, 1)))"],
    ["Hcurl(TP(Lagrange(I, 1), DiscontinuousLagrange(I, 0)))", "Hcurl(TP(DiscontinuousLagrange(I, 0), Lagrange(I, 1)))"],
    ["Flat(Hdiv(TP(Lagrange(I, 2), DiscontinuousLagrange(I, 1))))", "Flat(Hdiv(TP(DiscontinuousLagrange(I, 1), Lagrange(I, 2))))"],
    ["Hdiv(TP(%s, DiscontinuousLagrange(I, 0)))" % RT1, "Hdiv(TP(DiscontinuousLagrange(T, 0), Lagrange(I, 1)))"],
    ["Serendipity(Q, 2)", "DPC(Q, 0)"],
    ["RaviartThomas(I, 1)", "RestrictedElement(RaviartThomas(I, 2), restriction_domain='interior')"],
    ["RestrictedElement(Regge(T, 1), restriction_domain='facet')", "RestrictedElement(Regge(T, 1), restriction_domain='interior')"],
    ["EnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "DiscontinuousLagrange(T, 0)"],
    ["Lagrange(S, 1)", "Bubble(S, 4)", "FacetBubble(S, 3)", "DiscontinuousLagrange(S, 0)", "Lagrange(S, 2)"], ["Lagrange(I, 4)", "Bubble(I, 3)", "Lagrange(I, 1)", "Bubble(I, 5)"],
    ["Lagrange(T, 1)", "CubicHermite(T)"], ["CubicHermite(T)", "Lagrange(T, 2)", "DiscontinuousLagrange(T, 1)"], ["CubicHermite(I)", "CubicHermite(I)"],
    ["Flat(TP(TP(Lagrange(I, 1), Lagrange(I, 2)), Lagrange(I, 1)))", "DPC(H, 1)"],
]
NOD = [
    ["Lagrange(T, 1)", "Bubble(T, 3)"], ["Bubble(T, 3)", "Lagrange(T, 1)"], ["Lagrange(I, 1)", "Bubble(I, 3)"], ["Lagrange(S, 2)", "FacetBubble(S, 3)", "Bubble(S, 4)"],
    ["Lagrange(T, 2)", "Bubble(T, 3)"], ["Lagrange(S, 1)", "Bubble(S, 4)"], ["Lagrange(T, 1)", "Bubble(T, 4)"], [RT1, RT2i],
    ["RestrictedElement(Lagrange(T, 3), restriction_domain='vertex')", "RestrictedElement(Lagrange(T, 3), restriction_domain='interior')"],
    ["Lagrange(I, 1)", "Bubble(I, 4)"], ["Lagrange(T, 2)"],
    ["RestrictedElement(Lagrange(T, 3), indices=%s)" % x for x in ("[9]", "[3, 4]", "[0, 1, 2]", "[5, 6, 7, 8]")],
    ["RestrictedElement(Lagrange(I, 6), indices=%s)" % x for x in ("[2, 3]", "[6]", "[0]", "[1, 4]", "[5]")],
]
MIX = [
    ["Lagrange(T, 2)", "Lagrange(T, 1)"], ["RaviartThomas(T, 2, variant='point')", "DiscontinuousLagrange(T, 1)"], ["Lagrange(T, 1)", "Regge(T, 1)", RT1],
    ["Lagrange(S, 1)", "Nedelec(S, 1, variant='point')", "DiscontinuousLagrange(S, 0)"], ["MixedElement([Lagrange(I, 1), Lagrange(I, 2)])", "DiscontinuousLagrange(I, 1)"],
    ["Lagrange(T, 1)"], ["EnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "Lagrange(T, 1)"],
    ["TP(Lagrange(I, 1), Lagrange(I, 2))", "Hdiv(TP(Lagrange(I, 1), DiscontinuousLagrange(I, 0)))"], ["Serendipity(Q, 2)", "DPC(Q, 1)"], ["Lagrange(T, 1)", "Lagrange(T, 1)", "Lagrange(T, 1)"],
    ["HellanHerrmannJohnson(T, 1)", "Lagrange(T, 2)"], ["Bernstein(T, 2)", "DiscontinuousTaylor(T, 1)"],
    ["Lagrange(T, 1)", RT1, "DiscontinuousLagrange(T, 0)", "Regge(T, 0)", "Lagrange(T, 2)"], [RT1] * 4,
]
RES = [("Lagrange(I, 3)", None), ("Lagrange(T, 3)", None), ("Lagrange(S, 4)", None), ("RaviartThomas(T, 2, variant='point')", None), ("RaviartThomas(T, 3, variant='integral')", None),
       ("Nedelec(S, 3, variant='point')", None), ("HellanHerrmannJohnson(T, 1)", None), ("Regge(S, 2)", None), ("Argyris(T, 5)", None), ("CubicHermite(T)", None),
       ("GaussLobattoLegendre(I, 4)", None), ("BrezziDouglasMarini(T, 2, variant='point')", None), ("NodalEnrichedElement(Lagrange(T, 2), Bubble(T, 3))", None)]
BROKEN = ["Lagrange(T, 2)", "Lagrange(S, 1)", "RaviartThomas(T, 2, variant='point')", "Nedelec(S, 2, variant='point')", "Regge(T, 1)", "Bubble(T, 3)", "CrouzeixRaviart(S, 1)",
          "NodalEnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "EnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "TP(Lagrange(I, 2), Lagrange(I, 1))", "GaussLobattoLegendre(I, 3)",
          "Bernstein(T, 2)", "Serendipity(Q, 2)", "TP(Lagrange(T, 2), Lagrange(I, 2))", "Flat(TP(TP(Lagrange(I, 2), Lagrange(I, 1)), Lagrange(I, 2)))", "Serendipity(H, 3)",
          "Nedelec(S, 1, variant='integral')", "CubicHermite(S)"]


def offset_ids(ctx, el, parts, ex):
    ids = el.entity_dofs()
    top = el.get_reference_element().get_topology()
    want = {dim: {e: [] for e in top[dim]} for dim in top}
    off = 0
    for p in parts:
        for dim, ents in p.entity_dofs().items():
            for e, dofs in ents.items():
                want[dim][e] += [off + x for x in dofs]
        off += p.space_dimension()
    got = {dim: {e: [int(x) for x in l] for e, l in ents.items()} for dim, ents in ids.items()}
    ctx.ok(got == want, ex, "numbering %s instead of %s" % (got, want))
    ctx.ok(el.space_dimension() == off and len(el.dual_basis()) == off, ex, "dimension")
    ctx.ok(C.same_nodes(el.dual_basis(), [n for p in parts for n in p.dual_basis()]), ex, "dual basis order")
    C.check_numbering(ctx, el, ex)


def some_entities(cell, r):
    top = cell.get_topology()
    out = [(None, C.interior_points(cell, 3, r))]
    for dim in top:
        sub = cell.construct_subelement(dim)
        es = sorted(top[dim])
        for e in {es[0], es[-1]}:
            out.append(((dim, e), C.interior_points(sub, 2, r)))
    return out


def tab(el, order, pts, ent):
    return el.tabulate(order, pts) if ent is None else el.tabulate(order, pts, ent)


def enriched(ctx, parts):
    ex = "EnrichedElement(%s)" % ", ".join(parts)
    P = [F.build(p) for p in parts]
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    offset_ids(ctx, el, P, ex)
    ctx.ok(tuple(el.value_shape()) == tuple(P[0].value_shape()), ex, "value shape")
    ctx.ok(el.mapping() == [m for p in P for m in p.mapping()], ex, "mapping")
    ctx.ok(el.degree() == max(p.degree() for p in P), ex, "degree")
    f = [p.get_formdegree() for p in P]
    ctx.ok(el.get_formdegree() == (None if None in f else max(f)), ex, "form degree")
    r = num.rng("c12", ex)
    cell = P[0].get_reference_element()
    ents = [(None, C.interior_points(cell, 3, r))] if ex.count("Serendipity") else some_entities(cell, r)
    for ent, pts in ents:
        for order in (0, 1, 2) if ent is not None else (0, 1, 2, 3):
            T = ctx.noraise(lambda: tab(el, order, pts, ent), "%s tabulate entity %s" % (ex, ent))
            if T is None:
                return
            ts = [tab(p, order, pts, ent) for p in P]
            ctx.ok(set(T) == set(ts[0]), ex, "keys")
            for a in T:
                ctx.close(T[a], np.concatenate([np.asarray(t[a], float) for t in ts]), "%s entity %s derivative %s" % (ex, ent, a), 1e-13, "concatenation")


def nodal(ctx, parts):
    ex = "NodalEnrichedElement(%s)" % ", ".join(parts)
    P = [F.build(p) for p in parts]
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    offset_ids(ctx, el, P, ex)
    ctx.ok(el.is_nodal(), ex, "is_nodal")
    C.check_duality(ctx, el, ex, 1e-8)
    ctx.ok(tuple(el.value_shape()) == tuple(P[0].value_shape()) and el.mapping() == [m for p in P for m in p.mapping()], ex, "metadata")
    ctx.ok(el.degree() == max(p.degree() for p in P), ex, "degree")
    r = num.rng("c12n", ex)
    cell = P[0].get_reference_element()
    pts = C.interior_points(cell, 80, r)
    d = C.sdim(cell)
    for order in (0, 1):
        a = C.flatvals(el, pts)
        b = np.concatenate([C.flatvals(p, pts) for p in P])
        n = num.rank(b)
        ctx.ok(n == len(a) and num.rank(a) == n and num.rank(np.vstack([a, b]) / np.abs(b).max()) == n, ex, "span")
    T = el.tabulate(2, pts[:4])
    # derivatives are those of the combination of the parts
    vals = [p.tabulate(2, pts) for p in P]
    M = np.linalg.lstsq(b.T, a.T, rcond=None)[0].T
    T = el.tabulate(2, pts)
    for al in T:
        B = np.concatenate([np.asarray(v[al], float).reshape(p.space_dimension(), -1) for v, p in zip(vals, P)])
        ctx.close(np.asarray(T[al], float).reshape(len(a), -1), M.dot(B), "%s derivative %s" % (ex, al), 1e-7, "derivatives")


def mixed(ctx, parts):
    ex = "MixedElement([%s])" % ", ".join(parts)
    P = [F.build(p) for p in parts]
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    offset_ids(ctx, el, P, ex)
    vs = [int(np.prod(p.value_shape(), dtype=int)) for p in P]
    ctx.ok(tuple(el.value_shape()) == (sum(vs),), ex, "value shape %s" % (el.value_shape(),))
    ctx.ok(el.mapping() == [m for p in P for m in p.mapping()], ex, "mapping")
    ctx.ok(el.num_sub_elements() == len(P) and list(map(type, el.elements())) == list(map(type, P)), ex, "sub-elements")
    r = num.rng("c12m", ex)
    cell = P[0].get_reference_element()
    ents = [(None, C.interior_points(cell, 3, r))] if ex.count("Serendipity") or ex.count("Bernstein") else some_entities(cell, r)
    for ent, pts in ents:
        for order in (0, 1, 2) if ent is not None else (0, 1, 2, 3):
            T = ctx.noraise(lambda: tab(el, order, pts, ent), "%s tabulate entity %s" % (ex, ent))
            if T is None:
                return
            ts = [tab(p, order, pts, ent) for p in P]
            ctx.ok(set(T) == set(ts[0]), ex, "keys")
            for a in T:
                W = np.zeros((el.space_dimension(), sum(vs), len(pts)))
                i = c = 0
                for p, t, v in zip(P, ts, vs):
                    n = p.space_dimension()
                    W[i:i + n, c:c + v] = np.asarray(t[a], float).reshape(n, v, -1)
                    i, c = i + n, c + v
                ctx.close(T[a], W, "%s entity %s derivative %s" % (ex, ent, a), 1e-13, "blocks")


def restricted(ctx, base):
    el = F.build(base)
    cell = el.get_reference_element()
    top = cell.get_topology()
    d = C.sdim(cell)
    ids = el.entity_dofs()
    names = {"vertex": 0, "edge": 1, "face": 2, "facet": d - 1, "interior": None}
    for dom, dim in names.items():
        if dim is not None and dim > d:
            continue
        sel = list(ids[d][0]) if dim is None else [x for dd in sorted(top) if dd <= dim for e in sorted(top[dd]) for x in ids[dd][e]]
        ex = "RestrictedElement(%s, restriction_domain=%r)" % (base, dom)
        if not sel:
            ctx.raises(lambda: F.build(ex), ex, "empty restriction accepted")
            continue
        check_res(ctx, el, ex, sel)
    r = num.rng("c12r", base)
    n = el.space_dimension()
    for t in range(3):
        sel = sorted(r.choice(n, size=max(1, n // (t + 1) - 1), replace=False).tolist())
        check_res(ctx, el, "RestrictedElement(%s, indices=%r)" % (base, sel), sel)


def check_res(ctx, el, ex, sel):
    re = ctx.noraise(lambda: F.build(ex), ex)
    if re is None:
        return
    ids, rid = el.entity_dofs(), re.entity_dofs()
    ctx.ok(re.space_dimension() == len(sel), ex, "dimension %d instead of %d" % (re.space_dimension(), len(sel)))
    C.check_numbering(ctx, re, ex)
    # which original dof each kept dof is: by entity, in order
    pos = {}
    for dim in ids:
        for e in ids[dim]:
            keep = [x for x in ids[dim][e] if x in set(sel)]
            new = list(rid[dim][e])
            if not ctx.ok(len(new) == len(keep), "%s entity (%s, %s)" % (ex, dim, e), "%d dofs kept instead of %d" % (len(new), len(keep))):
                return
            for x, y in zip(keep, new):
                pos[y] = x
    old, new = el.dual_basis(), re.dual_basis()
    ctx.ok(C.same_nodes([new[y] for y in pos], [old[pos[y]] for y in pos]), ex, "kept functionals")
    r = num.rng("c12r2", ex)
    for ent, pts in [(None, C.interior_points(el.get_reference_element(), 4, r))]:
        t0, t1 = el.tabulate(3, pts), re.tabulate(3, pts)
        for a in t0:
            ctx.close(t1[a], np.asarray(t0[a], float)[[pos[y] for y in range(len(sel))]], "%s derivative %s" % (ex, a), 1e-7, "basis functions of the kept dofs")
    ctx.ok(tuple(re.value_shape()) == tuple(el.value_shape()) and re.mapping() == [el.mapping()[0]] * len(sel) and re.get_formdegree() == el.get_formdegree()
           and re.degree() == el.degree(), ex, "metadata")
    C.check_duality(ctx, re, ex, 1e-6)


def broken(ctx, base):
    ex = "DiscontinuousElement(%s)" % base
    el = F.build(base)
    b = ctx.noraise(lambda: F.build(ex), ex)
    if b is None:
        return
    cell = el.get_reference_element()
    top = cell.get_topology()
    n = el.space_dimension()
    cd = cell.get_dimension()
    ctx.ok(b.space_dimension() == n and b.get_reference_element() == cell and tuple(b.value_shape()) == tuple(el.value_shape()) and b.mapping() == el.mapping()
           and b.degree() == el.degree() and b.num_sub_elements() == el.num_sub_elements() and b.get_order() == el.get_order(), ex, "metadata")
    ctx.ok(b.get_formdegree() == C.sdim(cell), ex, "form degree")
    ids = b.entity_dofs()
    ctx.ok({k: {e: list(v) for e, v in x.items()} for k, x in ids.items()} == {dim: {e: (list(range(n)) if dim == cd else []) for e in top[dim]} for dim in top}, ex, "numbering")
    C.check_numbering(ctx, b, ex)
    ctx.ok(C.same_nodes(b.dual_basis(), el.dual_basis()), ex, "dual basis")
    r = num.rng("c12b", ex)
    ents = [(None, C.interior_points(cell, 3, r))] if ex.count("Bernstein") or ex.count("Seren") else some_entities(cell, r)
    for ent, pts in ents:
        o = 2 if ent is not None else 3
        t0, t1 = tab(el, o, pts, ent), tab(b, o, pts, ent)
        ctx.ok(set(t0) == set(t1), ex, "keys")
        for a in t0:
            ctx.close(t1[a], t0[a], "%s entity %s derivative %s" % (ex, ent, a), 1e-14, "values")


def bubbles(ctx, cn, k):
    cell = F.cell(cn)
    d = C.sdim(cell)
    top = cell.get_topology()
    from math import comb
    r = num.rng("c12u", cn, k)
    for nm, cod in (("Bubble", 0), ("FacetBubble", 1)):
        ex = "%s(%s, %d)" % (nm, cn, k)
        dim = d - cod
        per = comb(k - 1, dim) if dim else 1
        if per == 0:
            ctx.raises(lambda: F.build(ex), ex, "bubble element without functions accepted")
            continue
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        n = per * len(top[dim])
        ctx.ok(el.space_dimension() == n, ex, "dimension %d instead of %d" % (el.space_dimension(), n))
        C.check_numbering(ctx, el, ex, lambda dd: per if dd == dim else 0)
        C.check_duality(ctx, el, ex, 1e-6)
        ids = el.entity_dofs()
        # a dof's function vanishes on every entity (of the same or lower dimension) that does not contain its entity
        for dd in top:
            if dd > dim or dd >= d:
                continue
            sub = cell.construct_subelement(dd)
            for e in top[dd]:
                v = np.asarray(el.tabulate(0, C.interior_points(sub, 3, r), (dd, e))[(0,) * d], float)
                own = set(ids[dd][e]) if dd == dim else set()
                for i in range(n):
                    if i not in own:
                        ctx.ok(np.abs(v[i]).max() < 1e-8, "%s function %d on (%d, %d)" % (ex, i, dd, e), "does not vanish")
        base = F.build("Lagrange(%s, %d)" % (cn, k))
        pts = C.interior_points(cell, 5, r)
        lag = np.asarray(base.tabulate(0, pts)[(0,) * d], float)
        sel = sorted(x for e in top[dim] for x in base.entity_dofs()[dim][e])
        ctx.close(el.tabulate(0, pts)[(0,) * d], lag[sel], ex, 1e-7, "Lagrange functions of the kept nodes")


def rejects(ctx):
    bad = ["EnrichedElement(Lagrange(T, 1), Lagrange(S, 1))", "EnrichedElement(Lagrange(T, 1), RaviartThomas(T, 1, variant='point'))", "EnrichedElement(Nedelec(T, 1, variant='point'), RaviartThomas(T, 1, variant='point'))",
           "EnrichedElement(Lagrange(T, 1), Lagrange(DT, 1))", "EnrichedElement(Regge(T, 1), HellanHerrmannJohnson(T, 1))",
           "NodalEnrichedElement(Lagrange(T, 1), Lagrange(S, 1))", "NodalEnrichedElement(Lagrange(T, 1), RaviartThomas(T, 1, variant='point'))",
           "NodalEnrichedElement(Nedelec(T, 1, variant='point'), RaviartThomas(T, 1, variant='point'))", "NodalEnrichedElement(Lagrange(T, 1), EnrichedElement(Lagrange(T, 1), Bubble(T, 3)))",
           "NodalEnrichedElement(Lagrange(T, 1), Lagrange(DT, 1))", "NodalEnrichedElement(Lagrange(T, 1), Lagrange(T, 1))", "NodalEnrichedElement(Lagrange(T, 3), Bubble(T, 3))",
           "MixedElement([Lagrange(T, 1), Lagrange(S, 1)])", "MixedElement([Lagrange(T, 1), Lagrange(T, 1)], ref_el=S)", "MixedElement([Lagrange(T, 1), Lagrange(DT, 1)])",
           "RestrictedElement(Lagrange(T, 1), restriction_domain='interior')", "RestrictedElement(DiscontinuousLagrange(T, 1), restriction_domain='vertex')",
           "RestrictedElement(RaviartThomas(T, 1, variant='point'), restriction_domain='vertex')", "RestrictedElement(Lagrange(T, 2), restriction_domain='cell')",
           "RestrictedElement(Lagrange(T, 2))", "RestrictedElement(Lagrange(T, 2), indices='facet')", "RestrictedElement(Lagrange(T, 2), indices=[])",
           "Bubble(T, 2)", "Bubble(S, 3)", "FacetBubble(S, 2)", "Bubble(I, 1)", "FacetBubble(T, 1)"]
    for ex in bad:
        ctx.raises(lambda: F.build(ex), ex, "accepted")


def check(tier):
    T = [("enriched %s" % p, "props.c12", "enriched", (p,)) for p in ENR]
    T += [("nodal %s" % p, "props.c12", "nodal", (p,)) for p in NOD]
    T += [("mixed %s" % p, "props.c12", "mixed", (p,)) for p in MIX]
    T += [("restricted %s" % p, "props.c12", "restricted", (p,)) for p, _ in RES]
    T += [("broken %s" % p, "props.c12", "broken", (p,)) for p in BROKEN]
    T += [("bubbles %s %d" % (c, k), "props.c12", "bubbles", (c, k)) for c, km in (("I", 7), ("T", 6), ("S", 5), ("DT", 4), ("AT", 4)) for k in range(1, km + 1)]
    T += [("rejections", "props.c12", "rejects", ())]
    return dict(bounded=T, bound="composition tables (%d elements), degrees <= 7/6/5" % len(T), obligations=[])
