"""C01: basis functions are dual to the degrees of freedom."""
import numpy as np

from vlib import families as F, fastd, contracts as C, num

NONNODAL = ("Bernstein",)      # no dual basis by design
ALT = {1: ("DI", "AI"), 2: ("DT", "KT", "AT"), 3: ("DS", "KS", "AS")}
ALTFAM = ["Lagrange", "DiscontinuousLagrange", "CrouzeixRaviart", "RaviartThomas", "BrezziDouglasMarini", "Nedelec",
          "Regge", "HellanHerrmannJohnson", "Argyris", "QuinticArgyris", "Bell", "CubicHermite", "Morley",
          "DiscontinuousTaylor", "DiscontinuousRaviartThomas", "P0", "BrezziDouglasFortinMarini"]


def inst(ctx, exprs, mindeg):
    fastd.install(mindeg)
    for ex in exprs:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        C.check_duality(ctx, el, ex, 3e-7)


def span(ctx, cells, seed):
    """User-supplied polynomial spaces and dual sets."""
    fastd.install(3)
    from FIAT import polynomial_set, functional, dual_set, finite_element
    for cn in cells:
        cell = F.cell(cn)
        d = C.sdim(cell)
        for shape in ((), (2,), (3,)) + (((d, d),) if d > 1 else ()):
            for deg in (0, 1, 2, 3) if d < 3 else (0, 1, 2):
                r = num.rng("c01span", cn, shape, deg, seed)
                on = polynomial_set.ONPolynomialSet(cell, deg, shape)
                N = on.get_num_members()
                for m in sorted({1, max(1, N // 3), N}):
                    items = sorted(r.permutation(N)[:m].tolist())
                    ps = on.take(items)
                    mixm = r.randn(m, m) + 2 * np.eye(m)
                    ps.coeffs = np.tensordot(mixm, ps.coeffs, 1)
                    coeffs0 = ps.coeffs.copy()
                    case = "user space on %s, shape %s, degree %d, %d members" % (cn, shape, deg, m)
                    top = cell.get_topology()

                    def dual(mk):
                        ids = {dd: {e: [] for e in top[dd]} for dd in top}
                        ids[d][0] = list(range(m))
                        return dual_set.DualSet(mk, cell, ids)
                    pts = [tuple(p) for p in num.simplex_points(cell.get_vertices(), m, r)]
                    nodes = []
                    sel = greedy(ps, cell, shape, m, r)
                    if sel is None:
                        continue
                    for (p, c) in sel:
                        nodes.append(functional.PointEvaluation(cell, p) if shape == () else
                                     functional.ComponentPointEvaluation(cell, c[0], shape, p) if len(shape) == 1 else
                                     functional.Functional(cell, shape, {p: [(1.0, c)]}, {}, "user"))
                    el = ctx.noraise(lambda: finite_element.CiarletElement(ps, dual(nodes), deg), case)
                    if el is None:
                        continue
                    C.check_duality(ctx, el, case, 1e-6)
                    a, b = coeffs0.reshape(m, -1), np.asarray(el.get_coeffs()).reshape(m, -1)
                    ctx.ok(num.rank(np.vstack([a, b])) == m and num.rank(b) == m, case, "nodal basis does not span the given space")
                    if m > 1:
                        ctx.raises(lambda: finite_element.CiarletElement(ps, dual(nodes[:-1]), deg), case + " with a missing dof",
                                   "a dual set of the wrong size must be rejected")
                        ctx.raises(lambda: finite_element.CiarletElement(ps, dual(nodes + [nodes[0]]), deg), case + " with an extra dof",
                                   "a dual set of the wrong size must be rejected")


def greedy(ps, cell, shape, m, r):
    """Choose m well-conditioned point/component evaluations for the space."""
    pts = [tuple(p) for p in num.simplex_points(cell.get_vertices(), 6 * m + 6, r)]
    d = C.sdim(cell)
    vals = np.asarray(ps.tabulate(pts)[(0,) * d], float)      # (m, *shape, npts)
    comps = list(np.ndindex(*shape)) if shape else [()]
    cand = [(j, c) for j in range(len(pts)) for c in comps]
    A = np.array([vals[(slice(None),) + c + (j,)] for j, c in cand])
    sel = []
    R = A.copy()
    for _ in range(m):
        nrm = (R ** 2).sum(1)
        i = int(nrm.argmax())
        if nrm[i] < 1e-10:
            return None
        sel.append(cand[i])
        q = R[i] / np.sqrt(nrm[i])
        R = R - np.outer(R.dot(q), q)
    return [(pts[j], c) for j, c in sel]


def pointwise(ctx, exprs):
    """The pointwise dual of an element: point evaluations dual to its basis."""
    fastd.install(3)
    from FIAT.pointwise_dual import compute_pointwise_dual
    for ex in exprs:
        el = F.build(ex)
        cell = el.get_reference_element()
        d, n = C.sdim(cell), el.space_dimension()
        vs = tuple(el.value_shape())
        r = num.rng("c01pd", ex)
        for t in range(2):
            best = None
            for _ in range(20):
                pts = [tuple(p) for p in C.interior_points(cell, n // int(np.prod(vs, dtype=int)), r)]
                k = np.linalg.cond(np.asarray(el.tabulate(0, pts)[(0,) * d], float).reshape(n, -1))
                if best is None or k < best[0]:
                    best = (k, pts)
            dual = ctx.noraise(lambda: compute_pointwise_dual(el, best[1]), ex + " pointwise dual")
            if dual is None:
                continue
            M = np.zeros((n, n))
            for i, f in enumerate(dual.get_nodes()):
                for p, wcs in f.pt_dict.items():
                    v = np.asarray(el.tabulate(0, [p])[(0,) * d], float)[..., 0]
                    for w, c in wcs:
                        M[i] += w * v[(slice(None),) + tuple(c)]
            ctx.close(M, np.eye(n), ex + " pointwise dual", 1e-14 * best[0] + 1e-11, "functionals applied to the basis")
            ctx.ok(dual.get_entity_ids() == el.entity_dofs(), ex + " pointwise dual", "numbering")


POINTWISE = ["Argyris(T, 5)", "CubicHermite(T)", "Bell(T)", "Morley(T)", "Lagrange(T, 6)", "Lagrange(T, 4)", "Lagrange(I, 9)", "CubicHermite(S)", "Lagrange(S, 4)", "Bernstein(T, 3)",
             "BrezziDouglasMarini(T, 1, variant='point')", "BrezziDouglasMarini(T, 2, variant='point')", "NedelecSecondKind(S, 1, variant='point')", "TP(Lagrange(I, 3), Lagrange(I, 4))",
             "EnrichedElement(Lagrange(T, 2), Bubble(T, 3))", "DPC(Q, 4)"]


def chunks(l, n):
    return [l[i::n] for i in range(min(n, len(l)))]


def check(tier):
    deep = tier == "thorough"
    T = []
    lo = [ex for f, k, d, cn, v, ex in F.instances({0: 0, 1: 3, 2: 2, 3: 1}) if f.name not in NONNODAL]
    hi = {0: 0, 1: 12, 2: 6, 3: 4} if not deep else {0: 0, 1: 20, 2: 9, 3: 5}
    big = []
    for f, k, d, cn, v, ex in F.instances(hi):
        if f.name in NONNODAL:
            continue
        if d == 3 and v == "integral" and k >= (4 if not deep else 5):
            ex = f.expr(cn, k, "integral(%d)" % (2 * k))
        big.append(ex)
    for f, k, d, cn, v, ex in F.instances({1: 4, 2: 4, 3: 2}, ["RaviartThomas", "BrezziDouglasMarini", "Nedelec", "NedelecSecondKind"]):
        if v == "integral" and d > 1:
            for q in (k + 1, k + 2, 2 * k + 1):
                big.append(f.expr(cn, k, "integral(%d)" % q))
    alt = []
    for d, cs in ALT.items():
        for cn in cs:
            for f, k, dd, c, v, ex in F.instances({1: 5, 2: 4 if not deep else 6, 3: 2 if not deep else 3}, ALTFAM, {d: cn}):
                if v == "integral" and (cn in ("DS", "KS") and f.name != "RaviartThomas" or f.name == "Nedelec" and cn in ("DT", "KT")):
                    continue
                if f.name in ("Nedelec",) and cn in ("DS", "KS") and v == "integral":
                    continue
                alt.append(ex)
    T += [("family-real-%d" % i, "props.c01", "inst", (c, 99)) for i, c in enumerate(chunks(lo, 6))]
    T += [("family-%d" % i, "props.c01", "inst", (c, 3)) for i, c in enumerate(chunks(big, 24))]
    T += [("cells-%d" % i, "props.c01", "inst", (c, 2)) for i, c in enumerate(chunks(alt, 12))]
    T += [("user-space-%s" % cn, "props.c01", "span", ((cn,), 0)) for cn in ("I", "T", "S", "AT", "AS", "DI")]
    comp = [e for e in C.COMPOSITES if "NodalEnriched" in e or "Restricted" in e or "Bubble" in e or "Discontinuous" in e]
    comp = [e for e in comp if not e.startswith(("Enriched", "Mixed"))]
    cube = C.CUBE
    T += [("composite-%d" % i, "props.c01", "inst", (c, 3)) for i, c in enumerate(chunks(comp + cube, 4))]
    T += [("pointwise-%d" % i, "props.c01", "pointwise", (c,)) for i, c in enumerate(chunks(POINTWISE, 4))]
    return dict(bounded=T, bound="families of vlib/families.py at degree <= %s" % hi,
                obligations=[])
