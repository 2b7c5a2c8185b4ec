"""Executable element-level contracts used by the bounded stand-ins."""
import numpy as np

from vlib import families as F, num


def sdim(cell):
    return cell.get_spatial_dimension()


def cell_vertices(cell):
    return [tuple(v) for v in cell.get_vertices()]


def interior_points(cell, n, r):
    """Random points strictly inside a cell (simplex or product cell)."""
    v = np.array(cell_vertices(cell), dtype=float)
    d = sdim(cell)
    if d == 0:
        return [()] * 1
    if len(v) == d + 1:
        return [tuple(p) for p in num.simplex_points(v, n, r)]
    cells = getattr(cell, "cells", None) or getattr(getattr(cell, "product", None), "cells", None)
    if cells:
        cols = [interior_points(c, n, r) for c in cells]
        return [tuple(x for c in row for x in c) for row in zip(*cols)]
    raise ValueError


def fit_points(cell, N, r):
    """Enough well-spread points to fit degree-N polynomials."""
    v = np.array(cell_vertices(cell), dtype=float)
    d = sdim(cell)
    if len(v) == d + 1:
        pts = num.lattice(v, N + 2) if N <= 6 or d < 3 else num.lattice(v, N + 1)
        c = v.mean(0)
        return [tuple(p) for p in (0.995 * pts + 0.005 * c)]
    cells = getattr(cell, "cells", None) or getattr(getattr(cell, "product", None), "cells", None)
    cols = [fit_points(c, N, r) for c in cells]
    import itertools
    return [tuple(x for c in row for x in c) for row in itertools.product(*cols)]


def is_simplex(cell):
    return len(cell_vertices(cell)) == sdim(cell) + 1


def dual_matrix(el, nodes=None):
    """M[i, j] = (i-th functional)(j-th basis function), computed from the
    functional's stored data and the element's tabulated values only."""
    nodes = el.dual_basis() if nodes is None else nodes
    d = sdim(el.get_reference_element())
    pts = []
    maxd = 0
    for ell in nodes:
        for p in ell.pt_dict:
            pts.append(p)
        for p, wac in ell.deriv_dict.items():
            pts.append(p)
            for (w, a, c) in wac:
                maxd = max(maxd, sum(a))
    upts = sorted(set(tuple(map(float, p)) for p in pts))
    pos = {p: i for i, p in enumerate(upts)}
    tab = el.tabulate(maxd, upts)
    n = el.space_dimension()
    M = np.zeros((len(nodes), n))
    zero = (0,) * d
    for i, ell in enumerate(nodes):
        for p, wcs in ell.pt_dict.items():
            j = pos[tuple(map(float, p))]
            for (w, c) in wcs:
                M[i] += w * np.asarray(tab[zero])[(slice(None),) + tuple(c) + (j,)]
        for p, wacs in ell.deriv_dict.items():
            j = pos[tuple(map(float, p))]
            for (w, a, c) in wacs:
                M[i] += w * np.asarray(tab[tuple(a)])[(slice(None),) + tuple(c) + (j,)]
    return M


def flatvals(el, pts, order=0, entity=None):
    """Basis values as an array (nbasis, ncomp*npts)."""
    d = sdim(el.get_reference_element())
    t = el.tabulate(order, pts) if entity is None else el.tabulate(order, pts, entity)
    a = np.asarray(t[(0,) * d if not isinstance(el.get_reference_element().get_dimension(), tuple)
                    else (0,) * d], dtype=float)
    return a.reshape(a.shape[0], -1)


def check_duality(ctx, el, case, tol=1e-7):
    nodes = el.dual_basis()
    n = el.space_dimension()
    if not ctx.ok(len(nodes) == n, case, "len(dual_basis)=%s, space_dimension=%s" % (len(nodes), n)):
        return
    if any(nd is None for nd in nodes):
        ctx.ok(False, case, "dual basis contains None")
        return
    M = dual_matrix(el)
    ctx.close(M, np.eye(n), case, tol, "dof_i(phi_j)")


def check_numbering(ctx, el, case, counts=None):
    """Every dof on exactly one entity; closures are unions over sub-entities."""
    cell = el.get_reference_element()
    top = cell.get_topology()
    ids = el.entity_dofs()
    ok = ctx.ok(set(ids) == set(top), case, "entity dimensions %s, cell has %s" % (sorted(ids), sorted(top)))
    if not ok:
        return
    alld = []
    for dim in top:
        if not ctx.ok(set(ids[dim]) == set(top[dim]), case, "entities of dimension %s: %s" % (dim, sorted(ids[dim]))):
            return
        for e in top[dim]:
            alld += list(ids[dim][e])
    n = el.space_dimension()
    ctx.ok(sorted(alld) == list(range(n)), case,
           lambda: "entity dofs are %s, not a partition of range(%d)" % (sorted(alld)[:40], n))
    if counts is not None:
        for dim in top:
            for e in top[dim]:
                ctx.ok(len(ids[dim][e]) == counts(dim), case,
                       "entity (%s, %s) has %d dofs, family prescribes %s" % (dim, e, len(ids[dim][e]), counts(dim)))
    clo = el.entity_closure_dofs()
    ctx.ok(set(clo) == set(top), case, "closure dims")
    for dim in top:
        for e in top[dim]:
            vs = set(top[dim][e])
            want = []
            for dd in top:
                for ee in top[dd]:
                    if set(top[dd][ee]) <= vs:
                        want += list(ids[dd][ee])
            got = clo.get(dim, {}).get(e)
            ctx.ok(got == sorted(want), case, lambda: "closure of (%s, %s) is %s instead of %s" % (dim, e, got, sorted(want)))


COMPOSITES = [
    "EnrichedElement(Lagrange(T, 1), Bubble(T, 3))",
    "EnrichedElement(Lagrange(I, 2), Bubble(I, 3))",
    "EnrichedElement(Lagrange(S, 2), FacetBubble(S, 3))",
    "EnrichedElement(Lagrange(S, 1), Bubble(S, 4), FacetBubble(S, 3))",
    "EnrichedElement(RaviartThomas(T, 1, variant='point'), RestrictedElement(RaviartThomas(T, 2, variant='point'), restriction_domain='interior'))",
    "NodalEnrichedElement(Lagrange(I, 1), Bubble(I, 2))",
    "NodalEnrichedElement(Lagrange(T, 1), Bubble(T, 3))",
    "NodalEnrichedElement(Lagrange(T, 2), Bubble(T, 3))",
    "NodalEnrichedElement(Lagrange(S, 1), Bubble(S, 4))",
    "NodalEnrichedElement(Lagrange(S, 2), FacetBubble(S, 3), Bubble(S, 4))",
    "NodalEnrichedElement(RaviartThomas(T, 1, variant='point'), RestrictedElement(RaviartThomas(T, 2, variant='point'), restriction_domain='interior'))",
    "MixedElement([Lagrange(T, 2), Lagrange(T, 1)])",
    "MixedElement([RaviartThomas(T, 2, variant='point'), DiscontinuousLagrange(T, 1)])",
    "MixedElement([Lagrange(S, 1), Nedelec(S, 1, variant='point'), DiscontinuousLagrange(S, 0)])",
    "MixedElement([MixedElement([Lagrange(I, 1), Lagrange(I, 2)]), DiscontinuousLagrange(I, 1)])",
    "RestrictedElement(Lagrange(I, 2), restriction_domain='facet')",
    "RestrictedElement(Lagrange(T, 2), restriction_domain='vertex')",
    "RestrictedElement(Lagrange(T, 3), restriction_domain='facet')",
    "RestrictedElement(Lagrange(T, 4), restriction_domain='edge')",
    "RestrictedElement(Lagrange(S, 4), restriction_domain='face')",
    "RestrictedElement(Lagrange(S, 4), restriction_domain='interior')",
    "RestrictedElement(Lagrange(T, 3), indices=[0, 2, 3, 9])",
    "RestrictedElement(Lagrange(T, 3), indices=[9, 0, 5])",
    "RestrictedElement(Nedelec(S, 2, variant='point'), restriction_domain='edge')",
    "RestrictedElement(RaviartThomas(T, 3, variant='integral'), restriction_domain='interior')",
    "RestrictedElement(HellanHerrmannJohnson(T, 2), restriction_domain='interior')",
    "Bubble(I, 2)", "Bubble(I, 5)", "Bubble(T, 3)", "Bubble(T, 5)", "Bubble(S, 4)", "Bubble(S, 5)",
    "FacetBubble(I, 2)", "FacetBubble(T, 2)", "FacetBubble(T, 4)", "FacetBubble(S, 3)", "FacetBubble(S, 5)",
    "DiscontinuousElement(Lagrange(T, 2))",
    "DiscontinuousElement(RaviartThomas(S, 2, variant='point'))",
    "DiscontinuousElement(Bubble(T, 3))",
    "DiscontinuousElement(NodalEnrichedElement(Lagrange(T, 1), Bubble(T, 3)))",
]

TENSOR = [
    "TP(Lagrange(I, 1), Lagrange(I, 1))",
    "TP(Lagrange(I, 3), DiscontinuousLagrange(I, 2))",
    "TP(DiscontinuousLagrange(I, 0), Lagrange(I, 2))",
    "TP(GaussLobattoLegendre(I, 3), GaussLegendre(I, 2))",
    "TP(Lagrange(T, 2), Lagrange(I, 1))",
    "TP(Lagrange(I, 1), Lagrange(T, 2))",
    "TP(DiscontinuousLagrange(T, 1), DiscontinuousLagrange(I, 1))",
    "TP(TP(Lagrange(I, 1), Lagrange(I, 2)), Lagrange(I, 1))",
    "TP(Flat(TP(Lagrange(I, 1), Lagrange(I, 2))), DiscontinuousLagrange(I, 1))",
    "TP(RaviartThomas(T, 1, variant='point'), DiscontinuousLagrange(I, 1))",
    "TP(Nedelec(T, 2, variant='point'), Lagrange(I, 1))",
    "TP(RaviartThomas(T, 2, variant='integral'), DiscontinuousLagrange(I, 1))" if False else "TP(BrezziDouglasMarini(T, 2, variant='point'), DiscontinuousLagrange(I, 1))",
    "Flat(TP(Lagrange(I, 1), Lagrange(I, 1)))",
    "Flat(TP(Lagrange(I, 2), Lagrange(I, 3)))",
    "Flat(TP(DiscontinuousLagrange(I, 1), Lagrange(I, 2)))",
    "Flat(TP(TP(Lagrange(I, 1), Lagrange(I, 2)), DiscontinuousLagrange(I, 1)))",
    "Flat(TP(Flat(TP(Lagrange(I, 2), Lagrange(I, 2))), Lagrange(I, 1)))",
    "Flat(TP(GaussLobattoLegendre(I, 2), GaussLobattoLegendre(I, 4)))",
]

HDIVCURL = [
    "Hdiv(TP(DiscontinuousLagrange(I, 1), Lagrange(I, 2)))",
    "Hdiv(TP(Lagrange(I, 2), DiscontinuousLagrange(I, 1)))",
    "Hcurl(TP(DiscontinuousLagrange(I, 1), Lagrange(I, 2)))",
    "Hcurl(TP(Lagrange(I, 2), DiscontinuousLagrange(I, 1)))",
    "Hdiv(TP(DiscontinuousLagrange(T, 1), Lagrange(I, 1)))",
    "Hdiv(TP(RaviartThomas(T, 1, variant='point'), DiscontinuousLagrange(I, 0)))",
    "Hcurl(TP(Lagrange(T, 2), DiscontinuousLagrange(I, 1)))",
    "Hcurl(TP(Nedelec(T, 1, variant='point'), Lagrange(I, 1)))",
]

CUBE = (["Serendipity(%s, %d)" % (c, k) for c, ks in (("Q", range(1, 7)), ("H", range(1, 6)), ("I", range(1, 5))) for k in ks] +
        ["DPC(%s, %d)" % (c, k) for c, ks in (("Q", range(0, 5)), ("H", range(0, 4)), ("I", range(0, 4))) for k in ks])
TRACES = ["HDivTrace(%s, %d)" % (c, k) for c, ks in (("T", range(0, 5)), ("S", range(0, 4)), ("Q", (0, 1, 2)), ("TxI", (0, 1)), ("IxI", (0, 1, 2))) for k in ks]


def same_nodes(xs, ys):
    """Two lists of functionals with the same data."""
    xs, ys = list(xs), list(ys)

    def k(n):
        if not hasattr(n, "pt_dict"):
            return repr(n)
        f = lambda t: None if t is None else [(tuple(map(float, p)), [tuple(map(lambda z: tuple(int(q) for q in z) if isinstance(z, (tuple, list)) else float(z), w)) for w in l]) for p, l in t.items()]  # noqa: E731
        return (f(n.pt_dict), f(n.deriv_dict), n.get_type_tag())
    return len(xs) == len(ys) and all(k(x) == k(y) for x, y in zip(xs, ys))
