"""C10: tensor-product and flattened elements."""
import itertools

import numpy as np

from vlib import families as F, contracts as C, num

SCALARS = ["Lagrange(I, 1)", "Lagrange(I, 3)", "DiscontinuousLagrange(I, 0)", "DiscontinuousLagrange(I, 2)", "GaussLobattoLegendre(I, 2)", "GaussLegendre(I, 1)",
           "GaussRadau(I, 1)", "Bubble(I, 2)", "DiscontinuousTaylor(I, 2)", "CubicHermite(I)", "EnrichedElement(Lagrange(I, 1), Bubble(I, 2))"]
FACT2 = ["Lagrange(T, 1)", "Lagrange(T, 2)", "DiscontinuousLagrange(T, 1)", "CrouzeixRaviart(T, 1)"]
VEC = ["RaviartThomas(T, 1, variant='point')", "RaviartThomas(T, 2, variant='point')", "BrezziDouglasMarini(T, 1, variant='point')", "Nedelec(T, 1, variant='point')",
       "Nedelec(T, 2, variant='point')", "NedelecSecondKind(T, 1, variant='point')", "RaviartThomas(S, 1, variant='point')", "Nedelec(S, 1, variant='point')"]


def pairs(tier):
    P = []
    for a in SCALARS:
        for b in SCALARS:
            if "Taylor" in a and ("Taylor" in b or "Hermite" in b):
                continue      # unsupported functional combination (documented rejection)
            P.append((a, b))
    for a in FACT2:
        for b in SCALARS[:4]:
            P += [(a, b), (b, a)]
        P.append((a, "Lagrange(T, 1)"))
        P.append((a, "DiscontinuousLagrange(S, 1)"))
    for v in VEC:
        for b in ("Lagrange(I, 1)", "DiscontinuousLagrange(I, 1)", "DiscontinuousLagrange(I, 0)", "Lagrange(I, 2)"):
            P.append((v, b))
    for t in ("TP(Lagrange(I, 1), Lagrange(I, 2))", "Flat(TP(Lagrange(I, 1), Lagrange(I, 2)))", "Flat(TP(Lagrange(I, 2), DiscontinuousLagrange(I, 1)))"):
        for b in ("Lagrange(I, 1)", "DiscontinuousLagrange(I, 1)"):
            P += [(t, b), (b, t)]
    return P


def flat(d):
    return tuple(x for y in d for x in flat(y)) if isinstance(d, tuple) else (d,)


def product(ctx, a, b):
    A, B = F.build(a), F.build(b)
    ex = "TP(%s, %s)" % (a, b)
    if a == b:        # one element twice
        from FIAT.tensor_product import TensorProductElement
        B = A
        el = ctx.noraise(lambda: TensorProductElement(A, A), ex)
    else:
        el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    ca, cb = A.get_reference_element(), B.get_reference_element()
    da, db = C.sdim(ca), C.sdim(cb)
    cell = el.get_reference_element()
    na, nb = A.space_dimension(), B.space_dimension()
    ctx.ok(el.space_dimension() == na * nb, ex, "space dimension %d" % el.space_dimension())
    ctx.ok(cell.cells == (ca, cb) and C.sdim(cell) == da + db, ex, "reference cell")
    # numbering
    ids = el.entity_dofs()
    ia, ib = A.entity_dofs(), B.entity_dofs()
    ta, tb = ca.get_topology(), cb.get_topology()
    ctx.ok(set(ids) == {(x, y) for x in ia for y in ib}, ex, "entity dimensions")
    for x in ia:
        for y in ib:
            want = {}
            for i, (ea, eb) in enumerate(itertools.product(sorted(ta[x]), sorted(tb[y]))):
                want[i] = [p * nb + q for p in ia[x][ea] for q in ib[y][eb]]
            ctx.ok({k: list(v) for k, v in ids[(x, y)].items()} == want, "%s entities of dimension %s" % (ex, (x, y)), lambda: "%s instead of %s" % (ids[(x, y)], want))
    va, vb = tuple(A.value_shape()), tuple(B.value_shape())
    ctx.ok(tuple(el.value_shape()) == (va or vb), ex, "value shape %s" % (el.value_shape(),))
    ma = {m for m in A.mapping() + B.mapping() if m != "affine"} or {"affine"}
    ctx.ok(set(el.mapping()) == ma, ex, "mapping %s" % set(el.mapping()))
    fa, fb = A.get_formdegree(), B.get_formdegree()
    ctx.ok(el.get_formdegree() == (None if fa is None or fb is None else fa + fb), ex, "form degree")
    ctx.ok(el.degree() == max(A.degree(), B.degree()), ex, "degree")
    # values
    r = num.rng("c10", ex)
    order = 2 if max(na, nb) < 10 else 1

    def check_at(pts, entity, case):
        pa, pb = [p[:sa] for p in pts], [p[sa:] for p in pts]
        T = ctx.noraise(lambda: el.tabulate(order, pts) if entity is None else el.tabulate(order, pts, entity), case)
        if T is None:
            return
        Ta, Tb = A.tabulate(order, pa, *ea_), B.tabulate(order, pb, *eb_)
        keys = {al for n in range(order + 1) for al in num.alphas(da + db, n)}
        ctx.ok(set(T) == keys, case, "derivative keys")
        for al in keys & set(T):
            X, Y = np.asarray(Ta[al[:da]], float), np.asarray(Tb[al[da:]], float)
            # X: (na, va..., p), Y: (nb, vb..., p)
            if vb:
                W = np.einsum("ip,jcp->ijcp", X, Y)
            elif va:
                W = np.einsum("icp,jp->ijcp", X, Y)
            else:
                W = np.einsum("ip,jp->ijp", X, Y)
            W = W.reshape((na * nb,) + W.shape[2:])
            ctx.close(T[al], W, "%s derivative %s" % (case, al), 1e-12, "product of the factors")
    sa, ea_, eb_ = da, (), ()
    pts = C.interior_points(cell, 3, r)
    check_at(pts, None, ex)
    check_at(pts[:1], None, ex + " single point")
    for x in ta:
        for y in tb:
            subs = (ca.construct_subelement(x), cb.construct_subelement(y))
            sa = C.sdim(subs[0])
            for i, (i1, i2) in enumerate(itertools.product(sorted(ta[x]), sorted(tb[y]))):
                P1, P2 = C.interior_points(subs[0], 2, r), C.interior_points(subs[1], 2, r)
                if C.sdim(subs[0]) == C.sdim(subs[1]) and i % 2:
                    P2 = P1       # equal coordinates on either factor
                n = max(len(P1), len(P2))
                pp = [tuple(P1[k % len(P1)]) + tuple(P2[k % len(P2)]) for k in range(n)]
                ea_, eb_ = ((x, i1),), ((y, i2),)
                check_at(pp, ((x, y), i), "%s entity (%s, %d)" % (ex, (x, y), i))
    # dual basis of point evaluations
    from FIAT import functional as Fn
    An, Bn, En = A.dual_basis(), B.dual_basis(), el.dual_basis()
    ctx.ok(len(En) == na * nb, ex, "dual basis length")
    if all(type(n) is Fn.PointEvaluation for n in An + Bn):
        for i, j in itertools.product(range(na), range(nb)):
            p = tuple(An[i].pt_dict)[0] + tuple(Bn[j].pt_dict)[0]
            e = En[i * nb + j]
            ctx.ok(e.pt_dict == {p: [(1.0, ())]} and not e.deriv_dict, "%s node (%d, %d)" % (ex, i, j), "functional %s" % (e.pt_dict,))
    elif va and all(type(n) is Fn.PointEvaluation for n in Bn) and all(n.get_type_tag() != "Undefined" for n in En):
        for i, j in itertools.product(range(na), range(nb)):
            q = tuple(Bn[j].pt_dict)[0]
            e = En[i * nb + j]
            got = {p: {c: sum(w for w, c2 in l if tuple(c2) == c) for c in {tuple(c) for w, c in l if w}} for p, l in e.pt_dict.items()}
            want = {p + q: {c: sum(w for w, c2 in l if tuple(c2) == c) for c in {tuple(c) for w, c in l if w}} for p, l in An[i].pt_dict.items()}
            ctx.ok(got == want, "%s node (%d, %d)" % (ex, i, j), "functional %s instead of %s" % (got, want))
    C.check_numbering(ctx, el, ex)


FLAT = [("Lagrange(I, 1)", "Lagrange(I, 2)"), ("DiscontinuousLagrange(I, 1)", "Lagrange(I, 3)"), ("GaussLobattoLegendre(I, 3)", "GaussLegendre(I, 1)"),
        ("Lagrange(I, 2)", "Lagrange(I, 2)"), ("CubicHermite(I)", "Lagrange(I, 1)"),
        ("TP(Lagrange(I, 1), Lagrange(I, 2))", "Lagrange(I, 3)"), ("Lagrange(I, 2)", "TP(Lagrange(I, 1), DiscontinuousLagrange(I, 2))"),
        ("Flat(TP(Lagrange(I, 2), Lagrange(I, 1)))", "Lagrange(I, 2)"), ("Lagrange(I, 2)", "Flat(TP(Lagrange(I, 2), Lagrange(I, 1)))")]


def flattened(ctx, a, b, wrap):
    tex = wrap % ("TP(%s, %s)" % (a, b))
    ex = "Flat(%s)" % tex
    el, fl = F.build(tex), ctx.noraise(lambda: F.build(ex), ex)
    if fl is None:
        return
    pc, fc = el.get_reference_element(), fl.get_reference_element()
    d = C.sdim(pc)
    ctx.ok(fc == F.cell({2: "Q", 3: "H"}[d]), ex, "cell")
    n = el.space_dimension()
    ctx.ok(fl.space_dimension() == n and tuple(fl.value_shape()) == tuple(el.value_shape()) and fl.degree() == el.degree() and
           fl.mapping() == el.mapping() and fl.get_formdegree() == el.get_formdegree(), ex, "metadata")
    ctx.ok(C.same_nodes(fl.dual_basis(), el.dual_basis()), ex, "dual basis")
    # entity correspondence by vertex sets: the flattened cell's vertices are the product cell's
    pt, ft = pc.get_topology(), fc.get_topology()
    V1, V2 = [tuple(map(float, v)) for v in pc.get_vertices()], [tuple(map(float, v)) for v in fc.get_vertices()]
    ctx.ok(V1 == V2, ex, "vertices of the flattened cell")
    byset = {(frozenset(int(x) for x in vs)): (dim, e) for dim in pt for e, vs in pt[dim].items()}
    r = num.rng("c10f", ex)
    for fd in ft:
        for e, vs in ft[fd].items():
            key = frozenset(int(x) for x in vs)
            if not ctx.ok(key in byset, ex, "entity (%s, %s)" % (fd, e)):
                continue
            dim, i = byset[key]
            ctx.ok(list(fl.entity_dofs()[fd][e]) == list(el.entity_dofs()[dim][i]), "%s entity (%s, %s)" % (ex, fd, e), "dofs %s instead of %s" % (fl.entity_dofs()[fd][e], el.entity_dofs()[dim][i]))
            sub = pc.construct_subelement(dim)
            pp = C.interior_points(sub, 2, r)
            t1, t2 = el.tabulate(1, pp, (dim, i)), fl.tabulate(1, pp, (fd, e))
            ctx.ok(set(t1) == set(t2), ex, "keys")
            for al in t1:
                ctx.close(t2[al], t1[al], "%s entity (%s, %s) derivative %s" % (ex, fd, e, al), 1e-13, "values")
    pts = C.interior_points(fc, 3, r)
    t1, t2 = el.tabulate(2, pts), fl.tabulate(2, pts)
    for al in t1:
        ctx.close(t2[al], t1[al], "%s derivative %s" % (ex, al), 1e-13, "values")
    C.check_numbering(ctx, fl, ex)


def rejects(ctx):
    ts = F.build
    for a, b in (("RaviartThomas(T, 1, variant='point')", "RaviartThomas(T, 1, variant='point')"), ("Nedelec(T, 1, variant='point')", "RaviartThomas(T, 1, variant='point')"),
                 ("RaviartThomas(T, 1, variant='point')", "Nedelec(S, 1, variant='point')")):
        def go():
            el = ts("TP(%s, %s)" % (a, b))
            el.tabulate(0, [tuple([0.2] * C.sdim(el.get_reference_element()))])
        ctx.raises(go, "tabulating the product of %s and %s" % (a, b))
    ctx.raises(lambda: ts("Flat(TP(Lagrange(S, 1), Lagrange(I, 1)))"), "flattening a 4-dimensional product")
    ctx.raises(lambda: ts("Flat(TP(Lagrange(T, 1), Lagrange(I, 1)))"), "flattening a prism")


def check(tier):
    T = []
    P = pairs(tier)
    for a, b in P:
        T.append(("product %s x %s" % (a, b), "props.c10", "product", (a, b)))
    for a, b in FLAT:
        T.append(("flat %s x %s" % (a, b), "props.c10", "flattened", (a, b, "%s")))
    for w, a, b in (("Hdiv(%s)", "DiscontinuousLagrange(I, 1)", "Lagrange(I, 2)"), ("Hcurl(%s)", "DiscontinuousLagrange(I, 1)", "Lagrange(I, 2)")):
        T.append(("flat %s" % (w % (a + "," + b)), "props.c10", "flattened", (a, b, w)))
    T.append(("rejections", "props.c10", "rejects", ()))
    return dict(bounded=T, bound="%d factor pairs, orders <= 2" % len(P), obligations=[])
