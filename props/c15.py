"""C15: polynomial sets."""
import itertools

import numpy as np

from vlib import families as F, fastd, contracts as C, num

CELLS = ["I", "T", "S", "DT", "DS", "AI", "AT", "AS"]


def _ps():
    from FIAT import polynomial_set
    return polynomial_set


def _vals(P, pts):
    return np.asarray(P.tabulate(pts)[(0,) * P.get_reference_element().get_spatial_dimension()], float)


def orthoset(ctx, cn, k, shape):
    fastd.install(2)
    ps = _ps()
    cell = F.cell(cn)
    d = C.sdim(cell)
    case = "ONPolynomialSet(%s, %d, %s)" % (cn, k, shape)
    P = ctx.noraise(lambda: ps.ONPolynomialSet(cell, k, shape), case)
    if P is None:
        return
    nb = F.P(k, d)
    nc = int(np.prod(shape, dtype=int))
    ctx.ok(P.get_num_members() == nb * nc and P.get_degree() == k and P.get_embedded_degree() == k and tuple(P.get_shape()) == tuple(shape), case, "metadata")
    S = ps.ONPolynomialSet(cell, k)
    pts = [tuple(p) for p in C.fit_points(cell, max(k, 1), None)]
    v, s = _vals(P, pts), _vals(S, pts)
    base = np.asarray(P.get_expansion_set().tabulate(k, pts), float)
    ctx.close(s, base, case, 1e-9, "scalar set is the expansion set")
    idx = list(itertools.product(*[range(n) for n in shape]))
    want = np.zeros((nb * nc,) + tuple(shape) + (len(pts),))
    m = 0
    for i in idx:
        for j in range(nb):
            want[(m,) + i] = base[j]
            m += 1
    # every (component, function) pair exactly once, in any order
    A, B = v.reshape(len(v), -1), want.reshape(len(want), -1)
    ok = A.shape == B.shape and all((np.abs(B - a).max(1) < 1e-8).sum() == 1 for a in A) and all((np.abs(A - b).max(1) < 1e-8).sum() == 1 for b in B)
    ctx.ok(ok, case, "members are not the (component, expansion function) pairs, once each")
    derivs(ctx, P, case, k)


def derivs(ctx, P, case, k, orders=(1, 2, 3)):
    cell = P.get_reference_element()
    d = C.sdim(cell)
    x = np.array(C.fit_points(cell, max(k, 1), None), float).reshape(-1, d)
    fit = num.PolyFit(x, d, max(k, 1))
    v = _vals(P, [tuple(p) for p in x])
    c, res = fit.fit(v)
    ctx.ok(res < 1e-8 * max(1, np.abs(v).max()), case, "degree")
    pts = C.interior_points(cell, 4, num.rng(case))
    for o in orders:
        T = P.tabulate(pts, o)
        ctx.ok(set(T) == {a for n in range(o + 1) for a in num.alphas(d, n)}, case, "keys for order %d" % o)
        for a in T:
            w = fit.eval(c, pts, a)
            ctx.close(T[a], w, "%s derivative %s" % (case, a), 2e-7 * 10 ** sum(a), "tabulated derivative")


def coefficients(ctx, cn, k, shape):
    """Arbitrary coefficient arrays; take; union; project."""
    fastd.install(2)
    ps = _ps()
    cell = F.cell(cn)
    d = C.sdim(cell)
    r = num.rng("c15", cn, k, shape)
    B = ps.ONPolynomialSet(cell, k)
    nb = F.P(k, d)
    co = r.randn(6, *(tuple(shape) + (nb,)))
    mk = lambda c: ps.PolynomialSet(cell, k, k, B.get_expansion_set(), c, B.get_dmats())   # noqa: E731
    P = mk(co)
    case = "PolynomialSet(%s, %d, shape %s)" % (cn, k, shape)
    pts = C.interior_points(cell, 7, r)
    bt = B.tabulate(pts, 2)
    T = P.tabulate(pts, 2)
    for a in T:
        ctx.close(T[a], co.dot(np.asarray(bt[a], float)), "%s %s" % (case, a), 1e-9, "coefficients applied to the expansion functions' derivatives")
    derivs(ctx, P, case, k, (1, 2))
    for items in ([0], [5, 1, 1], [3, 2, 0], list(range(6)), range(1, 5), np.array([4, 2])):
        t = P.take(items)
        ctx.close(_vals(t, pts), _vals(P, pts)[list(items)], "%s take %s" % (case, list(items)), 1e-12, "take")
        ctx.ok(t.get_num_members() == len(list(items)) and t.get_degree() == k and t.get_embedded_degree() == k and tuple(t.get_shape()) == tuple(shape), case, "metadata of take")
        ctx.close(P.get_coeffs(), co, case, 0, "take modified the set")
        t1, p1 = t.tabulate(pts, 1), P.tabulate(pts, 1)
        for a in t1:
            ctx.close(t1[a], np.asarray(p1[a])[list(items)], "%s take %s %s" % (case, list(items), a), 1e-10, "derivatives of the subset")
    big = mk(r.randn(30, *(tuple(shape) + (nb,))))
    for n in (9, 17, 30):
        items = r.permutation(30)[:n]
        ctx.close(big.take(list(items)).get_coeffs(), big.get_coeffs()[items], "%s take %d of 30" % (case, n), 0, "members")
        items = np.sort(items)
        ctx.close(big.take(items).get_coeffs(), big.get_coeffs()[items], "%s take %d of 30, ascending" % (case, n), 0, "members")
    # unions: independent, overlapping, contained, with duplicates
    c2 = r.randn(3, *(tuple(shape) + (nb,)))
    total = int(np.prod(shape, dtype=int)) * nb
    for name, A, Bc in (("independent", co[:3], c2), ("contained", co[:4], co[1:3]), ("overlap", co[:3], np.concatenate([co[2:3] * 2 - co[0:1], c2[:1]])),
                        ("duplicates", np.concatenate([co[:2], co[:2]]), co[1:2]), ("zero", co[:2], 0 * co[:1]), ("one each", co[:1], c2[:1])):
        U = ctx.noraise(lambda: ps.polynomial_set_union_normalized(mk(A), mk(Bc)), "%s union %s" % (case, name))
        if U is None:
            continue
        S = np.concatenate([A, Bc]).reshape(len(A) + len(Bc), -1)
        W = np.asarray(U.get_coeffs(), float)
        cs = "%s union %s" % (case, name)
        ctx.ok(W.shape[1:] == tuple(shape) + (nb,), cs, "shape %s" % (W.shape,))
        W = W.reshape(len(W), -1)
        rk = num.rank(S)
        ctx.ok(len(W) == rk and num.rank(W) == rk and num.rank(np.vstack([S, W])) == rk, cs, "has %d members of rank %d, the sum has dimension %d" % (len(W), num.rank(W), rk))
        ctx.ok(U.get_num_members() == len(W), cs, "num members")
        ctx.close(_vals(U, pts).reshape(len(W), -1), np.asarray(U.get_coeffs()).dot(np.asarray(bt[(0,) * d], float)).reshape(len(W), -1), cs, 1e-9, "values")
    del total
    # projection onto an orthonormal set
    from FIAT.quadrature_schemes import create_quadrature
    from FIAT import quadrature
    if not shape:
        Q = quadrature.make_quadrature(cell, k + 3)
        fr = r.randn(F.P(min(k + 2, 4), d))

        def f(x):
            return sum(c * np.prod([x[i] ** a[i] for i in range(d)]) for c, a in zip(fr, [a for n in range(min(k + 2, 4) + 1) for a in num.alphas(d, n)]))
        got = ctx.noraise(lambda: ps.project(f, B, Q), case + " project")
        if got is None:
            return
        X, W = num.quad_simplex(C.cell_vertices(cell), 2 * k + 6)
        fx = np.array([f(x) for x in X])
        want = np.array([(W * fx * phi).sum() for phi in _vals(B, [tuple(p) for p in X])])
        ctx.close(got, want, case + " project", 1e-8, "coefficients of the orthogonal projection")
    # nothing is changed by querying
    ctx.close(P.get_coeffs(), co, case, 0, "coefficients changed")
    del create_quadrature


def symtensor(ctx, cn, k):
    fastd.install(2)
    ps = _ps()
    cell = F.cell(cn)
    d = C.sdim(cell)
    for size in (None, 2, 3):
        case = "ONSymTensorPolynomialSet(%s, %d, %s)" % (cn, k, size)
        P = ctx.noraise(lambda: ps.ONSymTensorPolynomialSet(cell, k) if size is None else ps.ONSymTensorPolynomialSet(cell, k, size), case)
        if P is None:
            continue
        n = size or d
        nb = F.P(k, d)
        ctx.ok(P.get_num_members() == nb * n * (n + 1) // 2 and tuple(P.get_shape()) == (n, n), case, "metadata")
        pts = [tuple(p) for p in C.fit_points(cell, max(k, 1), None)]
        v = _vals(P, pts)
        ctx.close(v, v.swapaxes(1, 2), case, 1e-12, "symmetric members")
        base = np.asarray(P.get_expansion_set().tabulate(k, pts), float)
        want = []
        for i in range(n):
            for j in range(i, n):
                for b in base:
                    w = np.zeros((n, n, len(pts)))
                    w[i, j] = w[j, i] = b
                    want.append(w)
        A, B = v.reshape(len(v), -1), np.array(want).reshape(len(want), -1)
        ok = A.shape == B.shape and all((np.abs(B - a).max(1) < 1e-8).sum() == 1 for a in A) and all((np.abs(A - b).max(1) < 1e-8).sum() == 1 for b in B)
        ctx.ok(ok, case, "members are not the symmetric (component pair, expansion function) combinations, once each")
        derivs(ctx, P, case, k, (1, 2))


def helpers(ctx):
    ps = _ps()
    for m in range(1, 5):
        for n in range(0, 6):
            got = [tuple(a) for a in ps.mis(m, n)]
            ctx.ok(len(got) == len(set(got)) and set(got) == set(num.alphas(m, n)), "mis(%d, %d)" % (m, n), "multi-indices %s" % (got,))
    from FIAT.functional import index_iterator
    for sh in ((2,), (3, 2), (2, 2, 2), (1,), (3,)):
        got = [tuple(i) for i in index_iterator(sh)]
        ctx.ok(got == list(itertools.product(*map(range, sh))), "index_iterator(%s)" % (sh,), "%s" % got)
    from FIAT.expansions import polynomial_dimension
    for cn, d in (("I", 1), ("T", 2), ("S", 3)):
        for k in range(0, 9):
            ctx.ok(polynomial_dimension(F.cell(cn), k) == F.P(k, d), "polynomial_dimension(%s, %d)" % (cn, k), "dimension")


def check(tier):
    deep = tier == "thorough"
    T = [("helpers", "props.c15", "helpers", ())]
    for cn in CELLS:
        d = F.CELL_DIM[cn]
        top = {1: 6, 2: 4, 3: 3}[d] + (2 if deep else 0)
        if cn not in "ITS":
            top = 2
        for k in range(0, top + 1):
            for sh in ((), (d,), (2, 3), (d, d)) if cn in "ITS" else ((), (d,)):
                T.append(("on-%s-%d-%s" % (cn, k, sh), "props.c15", "orthoset", (cn, k, sh)))
            if k:
                for sh in ((), (d,), (2, 2)):
                    T.append(("coeffs-%s-%d-%s" % (cn, k, sh), "props.c15", "coefficients", (cn, k, sh)))
            if d > 1:
                T.append(("sym-%s-%d" % (cn, k), "props.c15", "symtensor", (cn, k)))
    return dict(bounded=T, bound="cells of vlib/families.py, degrees up to 6/4/3 on interval/triangle/tetrahedron", obligations=[])
