"""C16: spectral, mass-lumped and quadrature elements."""
import numpy as np

from vlib import families as F, contracts as C, num

L = np.polynomial.legendre


def _leg(n, x, der=0):
    c = np.zeros(n + 1)
    c[n] = 1
    return L.legval(x, L.legder(c, der) if der else c)


def nodes_of(el):
    out = []
    for n in el.dual_basis():
        (p, wcs), = n.pt_dict.items()
        (w, c), = wcs
        out.append((float(p[0]) if len(p) == 1 else tuple(map(float, p)), float(w), tuple(c)))
    return out


def rule_for(kind, cell, k):
    from FIAT import quadrature as q
    if kind == "GaussLegendre":
        return q.GaussLegendreQuadratureLineRule(cell, k + 1)
    if kind == "GaussLobattoLegendre":
        return q.GaussLobattoLegendreQuadratureLineRule(cell, k + 1)
    return q.RadauQuadratureLineRule(cell, k + 1)


def lagrange_jet(x, i, t):
    """Value and first two derivatives of the i-th Lagrange polynomial of the
    nodes x at t, as the jet of the product of its linear factors."""
    f = [np.ones(len(t)), np.zeros(len(t)), np.zeros(len(t))]
    for j in range(len(x)):
        if j != i:
            g, h = (t - x[j]) / (x[i] - x[j]), 1.0 / (x[i] - x[j])
            f = [f[0] * g, f[1] * g + f[0] * h, f[2] * g + 2 * f[1] * h]
    return f


def line(ctx, kind, cn, ks):
    for k in ks:
        ex = "%s(%s, %d)" % (kind, cn, k)
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        cell = el.get_reference_element()
        (a,), (b,) = C.cell_vertices(cell)
        nd = nodes_of(el)
        x = np.array([p for p, w, c in nd])
        ctx.ok(all(w == 1.0 and c == () for p, w, c in nd) and len(x) == k + 1, ex, "nodes are not point values")
        xr = 2 * (x - a) / (b - a) - 1          # on (-1, 1)
        ctx.ok(np.all(np.diff(xr) > 0), ex, "nodes are not in increasing order: %s" % (x,))
        # the defining equations of the points, independent of FIAT
        m = k + 1
        if kind == "GaussLegendre":
            want = L.leggauss(m)[0]
        elif kind == "GaussLobattoLegendre":
            c = np.zeros(m)
            c[-1] = 1
            want = np.concatenate([[-1.0], np.sort(L.legroots(L.legder(c)).real) if m > 2 else [], [1.0]])
        else:
            c = np.zeros(m + 1)
            c[m], c[m - 1] = 1, -1
            want = np.sort(L.legroots(c).real)
        ctx.close(xr, want, ex, 1e-9 if m < 30 else 1e-7, "nodes are not the Gauss points")
        r = ctx.noraise(lambda: rule_for(kind, cell, k), ex)
        ctx.close(np.array(r.get_points(), float).ravel(), x, ex, 0 if False else 1e-15, "nodes differ from the quadrature rule's points")
        ids = el.entity_dofs()
        if kind == "GaussLobattoLegendre":
            ctx.ok({d: {e: list(map(int, l)) for e, l in en.items()} for d, en in ids.items()} == {0: {0: [0], 1: [k]}, 1: {0: list(range(1, k))}}, ex, "entity dofs %s" % (ids,))
            ctx.close([x[0], x[-1]], [a, b], ex, 1e-14, "endpoint nodes")
        else:
            ctx.ok({d: {e: list(map(int, l)) for e, l in en.items()} for d, en in ids.items()} == {0: {0: [], 1: []}, 1: {0: list(range(k + 1))}}, ex, "entity dofs %s" % (ids,))
        if k > 30:
            continue
        # Lagrange basis of these points: values and derivatives
        t = np.concatenate([a + (b - a) * np.linspace(0.03, 0.96, 7), x[:2], x[-1:]])
        T = el.tabulate(2, [(q,) for q in t])
        ctx.ok(set(T) == {(0,), (1,), (2,)}, ex, "keys")
        tr = 2 * (t - a) / (b - a) - 1
        for i in range(k + 1):
            for o, w in enumerate(lagrange_jet(xr, i, tr)):
                ctx.close(np.asarray(T[(o,)], float)[i], w * (2 / (b - a)) ** o, "%s basis function %d derivative %d" % (ex, i, o), 1e-8 * (1 if k < 25 else 1e3), "Lagrange basis")
        ctx.close(np.asarray(el.tabulate(0, [(q,) for q in x])[(0,)], float), np.eye(k + 1), ex, 1e-12, "identity at the nodes")
        one = np.asarray(el.tabulate(1, [(q,) for q in t])[(0,)], float).sum(0)
        ctx.close(one, np.ones(len(t)), ex, 1e-9, "partition of unity")
        for v in (0, 1):
            z = np.asarray(el.tabulate(0, [()], (0, v))[(0,)], float)
            ctx.close(z, np.asarray(el.tabulate(0, [((a, b)[v],)])[(0,)], float), "%s at vertex %d" % (ex, v), 1e-10, "tabulation on a vertex")


def bary(ctx, seed):
    """Any distinct nodes and any points, including coincidences."""
    from FIAT.barycentric_interpolation import barycentric_interpolation as bi
    for n in range(1, 9):
        r = num.rng("bary", n, seed)
        x = np.sort(r.rand(n)) + np.arange(n) * 0.3
        x = x[r.permutation(n)]
        y = np.concatenate([r.rand(4) * 3, x[: max(1, n // 2)], x[:1], x[:1]])
        T = bi(x, y, 3)
        for i in range(n):
            p = np.poly1d([1.0])
            for j in range(n):
                if j != i:
                    p = p * np.poly1d([1.0, -x[j]]) / (x[i] - x[j])
            for o in range(4):
                pd = np.polyder(p, o) if o else p
                ctx.close(T[(o,)][i], pd(y), "%d nodes, function %d, derivative %d" % (n, i, o), 1e-6, "barycentric interpolation")
        ctx.close(bi(x, x, 0)[(0,)], np.eye(n), "%d nodes at themselves" % n, 1e-12, "identity")


def kmv(ctx, cn, k):
    from FIAT.quadrature_schemes import create_quadrature
    ex = "KongMulderVeldhuizen(%s, %d)" % (cn, k)
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    cell = el.get_reference_element()
    d = C.sdim(cell)
    r = create_quadrature(cell, k, "KMV")
    pts, w = np.array(r.get_points(), float), np.array(r.get_weights(), float)
    ctx.ok(np.all(w > 0), ex, "lumped weights are positive")
    nd = nodes_of(el)
    ctx.close(np.array([p for p, _, _ in nd]), pts, ex, 1e-15, "nodes are not the points of the lumping rule")
    ctx.ok(all(wt == 1.0 and c == () for _, wt, c in nd), ex, "nodes are not point values")
    v = np.asarray(el.tabulate(0, [tuple(p) for p in pts])[(0,) * d], float)
    ctx.close(v, np.eye(len(pts)), ex, 1e-8, "lumped mass matrix is not diagonal: basis is not nodal at the rule's points")
    # exactness the lumping theory asks for: total degree 2k-1, and the
    # element's own space times polynomials of degree k-2
    deg = 2 * k - 1
    X, W = num.quad_simplex(C.cell_vertices(cell), deg + 1)
    for a in [a for n in range(deg + 1) for a in num.alphas(d, n)]:
        m = lambda p: np.prod([p[:, i] ** a[i] for i in range(d)], axis=0)   # noqa: E731
        ctx.close((w * m(pts)).sum(), (W * m(X)).sum(), "%s monomial %s" % (ex, a), 1e-12, "rule is not exact")
    if k > 1:
        X, W = num.quad_simplex(C.cell_vertices(cell), k - 2 + el.degree())
        u = np.asarray(el.tabulate(0, [tuple(p) for p in X])[(0,) * d], float)
        for a in [a for n in range(k - 1) for a in num.alphas(d, n)]:
            m = lambda p: np.prod([p[:, i] ** a[i] for i in range(d)], axis=0)   # noqa: E731
            ctx.close(v.dot(w * m(pts)), u.dot(W * m(X)), "%s times monomial %s" % (ex, a), 1e-10, "rule is not exact on the element's space")
    # the points of each entity lie in its interior
    ids, top, V = el.entity_dofs(), cell.get_topology(), np.array(C.cell_vertices(cell), float)
    A = np.linalg.inv(np.vstack([V.T, np.ones(len(V))]))
    for dim in top:
        for e in top[dim]:
            for i in ids[dim][e]:
                lam = A.dot(np.append(pts[i], 1.0))
                ctx.ok({j for j in range(d + 1) if lam[j] > 1e-10} == set(top[dim][e]) and lam.min() > -1e-12, "%s dof %d on entity (%s, %s)" % (ex, i, dim, e), "its point is not in the entity's interior")
    C.check_numbering(ctx, el, ex)


def quadel(ctx):
    from FIAT.quadrature_schemes import create_quadrature
    from FIAT.quadrature_element import QuadratureElement
    for cn in ("P", "I", "T", "S", "Q", "H", "TxI", "IxI", "DT", "AT", "KS"):
        cell = F.cell(cn)
        d = C.sdim(cell)
        for deg in (0, 1, 2, 3, 5):
            r = create_quadrature(cell, deg)
            ex = "QuadratureElement(%s, degree %d)" % (cn, deg)
            pts = r.get_points()
            el = ctx.noraise(lambda: QuadratureElement(cell, pts, r.get_weights()), ex)
            if el is None:
                continue
            n = len(pts)
            whole = cell.get_dimension()
            for arg in ((pts,), (np.array(pts) + 1e-14,), ([tuple(p) for p in pts],)):
                for ent in (None, (whole, 0)):
                    T = ctx.noraise(lambda: el.tabulate(0, arg[0], ent), ex)
                    ctx.ok(T is not None and list(T) == [(0,) * d], ex, "keys")
                    ctx.close(T[(0,) * d], np.eye(n), ex, 0, "identity")
            ctx.ok(el.space_dimension() == n and tuple(el.value_shape()) == () and len(el.dual_basis()) == n, ex, "metadata")
            ctx.ok(el.entity_dofs()[whole] == {0: list(range(n))}, ex, "entity dofs")
            C.check_numbering(ctx, el, ex)
            for i, nd in enumerate(el.dual_basis()):
                (p, wcs), = nd.pt_dict.items()
                ctx.close(p, pts[i], ex, 0, "nodes")
                ctx.ok([(float(a), tuple(b)) for a, b in wcs] == [(1.0, ())], ex, "node weights")
            for o in (1, 2):
                ctx.raises(lambda: el.tabulate(o, pts), "%s order %d" % (ex, o), "derivatives must be refused")
            q = np.array(pts, float)
            bads = [q[:-1], np.vstack([q, q[:1]])] + ([q + 1e-3] if d else [])
            if n > 1 and d:
                bads.append(q[::-1])
                z = q.copy()
                z[-1, -1] += 1e-6
                bads.append(z)
                z = q.copy()
                z[0, 0] -= 1e-6
                bads.append(z)
            for b in bads:
                ctx.raises(lambda: el.tabulate(0, b), "%s other points" % ex, "points that are not its own must be refused")
            top = cell.get_topology()
            for dim in top:
                for e in top[dim]:
                    if (dim, e) != (whole, 0):
                        ctx.raises(lambda: el.tabulate(0, pts, (dim, e)), "%s on entity (%s, %s)" % (ex, dim, e), "tabulation on a sub-entity must be refused")


def check(tier):
    deep = tier == "thorough"
    T = [("quadrature-element", "props.c16", "quadel", ())]
    hi = 60 if deep else 24
    for kind, lo in (("GaussLegendre", 0), ("GaussLobattoLegendre", 1), ("GaussRadau", 0)):
        for i in range(4):
            T.append(("%s-I-%d" % (kind, i), "props.c16", "line", (kind, "I", list(range(lo, hi))[i::4])))
        T.append(("%s-DI" % kind, "props.c16", "line", (kind, "DI", range(lo, 10))))
        T.append(("%s-AI" % kind, "props.c16", "line", (kind, "AI", range(lo, 10))))
        T.append(("%s-RI" % kind, "props.c16", "line", (kind, "RI", range(lo, 7))))
    T += [("barycentric-%d" % s, "props.c16", "bary", (s,)) for s in range(3)]
    T += [("kmv-%s-%d" % (c, k), "props.c16", "kmv", (c, k)) for c, n in (("T", 5), ("S", 3)) for k in range(1, n + 1)]
    return dict(bounded=T, bound="line elements up to degree %d, every mass-lumped element" % hi, obligations=[])
