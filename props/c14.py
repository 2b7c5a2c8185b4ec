"""C14: elements span the spaces their families prescribe; reported degree,
interpolation, Bernstein polynomials."""
import itertools
from math import comb, factorial

import numpy as np

from vlib import families as F, fastd, contracts as C, num


def mono(x, a):
    r = np.ones(len(x))
    for i, e in enumerate(a):
        r = r * x[:, i] ** e
    return r


def scal(x, ks):
    d = x.shape[1]
    return [mono(x, a) for n in ks for a in num.alphas(d, n)]


def vecs(x, ks):
    d = x.shape[1]
    out = []
    for f in scal(x, ks):
        for i in range(d):
            v = np.zeros((d, len(x)))
            v[i] = f
            out.append(v)
    return out


def syms(x, ks):
    d = x.shape[1]
    out = []
    for f in scal(x, ks):
        for i in range(d):
            for j in range(i, d):
                v = np.zeros((d, d, len(x)))
                v[i, j] = v[j, i] = f
                out.append(v)
    return out


def bary(cell, x):
    V = np.array(C.cell_vertices(cell), float)
    A = np.vstack([V.T, np.ones(len(V))])
    return np.linalg.solve(A, np.vstack([x.T, np.ones(len(x))]))


def superlinear(d, r):
    for a in itertools.product(range(r + 1), repeat=d):
        if sum(e for e in a if e > 1) <= r:
            yield a


def space(name, k, d, cell, x):
    """Generators of the prescribed space evaluated at x (npts, d)."""
    if d == 0:
        return [np.ones(1)]
    full = range(k + 1)
    if name in ("Lagrange", "DiscontinuousLagrange", "DiscontinuousTaylor", "P0", "CrouzeixRaviart", "Bernstein", "CubicHermite", "Argyris",
                "QuinticArgyris", "Bell", "Morley", "GaussLegendre", "GaussLobattoLegendre", "GaussRadau", "DPC"):
        return scal(x, full)
    if name in ("BrezziDouglasMarini", "NedelecSecondKind", "MardalTaiWinther"):
        return vecs(x, full)
    if name in ("RaviartThomas", "DiscontinuousRaviartThomas"):
        return vecs(x, range(k)) + [x.T * q for q in scal(x, [k - 1])]
    if name == "Nedelec":
        if d == 2:
            rot = np.array([x[:, 1], -x[:, 0]])
            return vecs(x, range(k)) + [rot * q for q in scal(x, [k - 1])]
        return vecs(x, range(k)) + [np.cross(x, v.T).T for v in vecs(x, [k - 1])]
    if name in ("Regge", "HellanHerrmannJohnson", "ArnoldWinther", "ArnoldWintherNC"):
        return syms(x, full)
    if name == "KongMulderVeldhuizen":
        L = bary(cell, x)
        g = scal(x, full)
        if d == 2 and k > 1:
            b = L[0] * L[1] * L[2]
            g += [b * q for q in scal(x, range({2: 0, 3: 1, 4: 2, 5: 4}[k] + 1))]
        if d == 3 and k > 1:
            b = L[0] * L[1] * L[2] * L[3]
            g += [b * q for q in scal(x, range(k - 1))]
            for i in range(4):
                f = np.prod(np.delete(L, i, 0), axis=0)
                g += [f * q for q in scal(x, range(k - 1))]
        return g
    if name == "Serendipity":
        return [mono(x, a) for a in superlinear(d, k)]
    return None


def compare(ctx, vals, gens, case, tol=1e-8):
    A = np.array([np.asarray(v, float).ravel() for v in vals])
    B = np.array([np.asarray(g, float).ravel() for g in gens])
    A = A / np.maximum(np.abs(A).max(1, keepdims=True), 1e-300)
    B = B / np.maximum(np.abs(B).max(1, keepdims=True), 1e-300)
    rb = num.rank(B, 1e-10)
    ctx.ok(len(A) == rb, case, "%d basis functions, the family's space has dimension %d" % (len(A), rb))
    q, s, vt = np.linalg.svd(B.T, full_matrices=False)
    Q = q[:, :rb]
    res = A.T - Q.dot(Q.T.dot(A.T))
    ctx.ok(np.abs(res).max() <= tol, case, lambda: "basis function %d is not in the family's space (residual %.2g)" % (np.abs(res).max(0).argmax(), np.abs(res).max()))
    ctx.ok(num.rank(A, 1e-11) == len(A), case, lambda: "basis functions are linearly dependent (rank %d of %d)" % (num.rank(A, 1e-11), len(A)))


def sub_pts(cell, N):
    return np.array(C.fit_points(cell, N, None), float).reshape(-1, C.sdim(cell))


def span(ctx, items):
    fastd.install(3)
    for name, k, d, ex in items:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        cell = el.get_reference_element()
        if d == 0:
            x = np.zeros((1, 0))
            v = el.tabulate(0, [()])[()]
            ctx.ok(np.asarray(v).shape == (1, 1) and abs(np.asarray(v)[0, 0] - 1) < 1e-13, ex, "point element is not the constant one")
            continue
        N = el.degree()
        ctx.ok(isinstance(N, (int, np.integer)) and N >= k, ex, "reported degree %s" % (N,))
        x = sub_pts(cell, N + 1 if d < 3 or N < 5 else N)
        if name in ("Serendipity", "DPC"):
            x = np.array(C.interior_points(cell, 3 * el.space_dimension() + 20, num.rng("c14", ex)), float)
        vals = np.asarray(el.tabulate(0, [tuple(p) for p in x])[(0,) * d], float)
        c = x.mean(0)
        sc = np.abs(x - c).max()
        compare(ctx, vals, space(name, k, d, cell, x if name in ("Serendipity", "KongMulderVeldhuizen") else (x - c) / sc), ex)
        if name in ("Serendipity", "DPC"):
            continue
        fit = num.PolyFit(x, d, N)
        co, res = fit.fit(vals)
        ctx.ok(res <= 1e-8 * max(1, np.abs(vals).max()), ex, "a basis function has degree above the reported %s" % N)
        interpolation(ctx, el, ex, fit, space(name, k, d, cell, (x - c) / sc) if name not in ("KongMulderVeldhuizen",) else space(name, k, d, cell, x), x)


def interpolation(ctx, el, ex, fit, gens, x):
    d = x.shape[1]
    r = num.rng("c14i", ex)
    g = np.array(gens)
    f = np.tensordot(r.randn(len(g)), g, 1)          # (shape, npts)
    cf, _ = fit.fit(f)
    vals = np.asarray(el.tabulate(0, [tuple(p) for p in x])[(0,) * d], float)
    try:
        nodes = el.dual_basis()
    except Exception:
        return
    if any(not hasattr(n, "pt_dict") for n in nodes):
        return
    co = []
    for n in nodes:
        s = 0.0
        for p, wcs in n.pt_dict.items():
            for w, c in wcs:
                s += float(np.squeeze(w)) * fit.eval(cf, np.array([p], float))[tuple(c) + (0,)]
        for p, wacs in n.deriv_dict.items():
            for w, a, c in wacs:
                s += float(np.squeeze(w)) * fit.eval(cf, np.array([p], float), tuple(a))[tuple(c) + (0,)]
        co.append(s)
    ctx.close(np.tensordot(np.array(co), vals, 1), f, ex, 1e-6, "interpolation of a member of the space")


def bernstein(ctx, items):
    for ex in items:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        cell = el.get_reference_element()
        d, n = C.sdim(cell), el.degree()
        x = np.array(C.interior_points(cell, 12, num.rng("bern", ex)), float)
        L = bary(cell, x)
        vals = np.asarray(el.tabulate(0, [tuple(p) for p in x])[(0,) * d], float)
        pol = {a: factorial(n) / np.prod([factorial(e) for e in a]) * np.prod([L[i] ** e for i, e in enumerate(a)], axis=0) for a in num.alphas(d + 1, n)}
        top, ids = cell.get_topology(), el.entity_dofs()
        for dim in top:
            for e in top[dim]:
                mine = {a: p for a, p in pol.items() if {i for i, q in enumerate(a) if q} == set(top[dim][e])}
                hit = []
                for i in ids[dim][e]:
                    m = [a for a, p in mine.items() if np.abs(p - vals[i]).max() < 1e-11]
                    hit += m
                    ctx.ok(len(m) == 1, "%s, function %d of entity (%s, %s)" % (ex, i, dim, e), "is not a Bernstein polynomial of that entity")
                ctx.ok(sorted(hit) == sorted(mine), "%s, entity (%s, %s)" % (ex, dim, e), "Bernstein polynomials of the entity are not listed once each")


def sub_spaces(ctx, which):
    """Spaces singled out by constraint degrees of freedom."""
    from vlib.families import build
    if which == "Bell":
        el = build("Bell(T)")
        cell = el.get_reference_element()
        deg, n0 = 5, 18
        for k, e in _edges(cell):
            X, t, nrm, s = e
            T = el.tabulate(1, X)
            dn = sum(nrm[i] * np.asarray(T[tuple(int(j == i) for j in range(2))], float) for i in range(2))[:n0]
            _lowdeg(ctx, dn, s, 3, "Bell(T) edge %d normal derivative" % k)
    elif which == "BDFM":
        el = build("BrezziDouglasFortinMarini(T, 2)")
        for k, e in _edges(el.get_reference_element()):
            X, t, nrm, s = e
            v = np.asarray(el.tabulate(0, X)[(0, 0)], float)
            _lowdeg(ctx, np.einsum("icp,c->ip", v, nrm), s, 1, "BDFM(T, 2) edge %d normal component" % k)
        ctx.ok(el.space_dimension() == 9, "BDFM", "dimension")
        _inspan(ctx, el, "BrezziDouglasFortinMarini(T, 2)", lambda x: vecs(x, range(2)), lambda x: vecs(x, range(3)))
    elif which == "MTW":
        el = build("MardalTaiWinther(T, 3)")
        for k, e in _edges(el.get_reference_element()):
            X, t, nrm, s = e
            v = np.asarray(el.tabulate(0, X)[(0, 0)], float)[:9]
            _lowdeg(ctx, np.einsum("icp,c->ip", v, nrm), s, 1, "MTW edge %d normal component" % k)
        x = C.interior_points(el.get_reference_element(), 20, num.rng("mtw"))
        T = el.tabulate(1, x)
        div = (np.asarray(T[(1, 0)], float)[:, 0] + np.asarray(T[(0, 1)], float)[:, 1])[:9]
        ctx.close(div, np.repeat(div[:, :1], len(x), 1), "MTW divergence", 1e-8, "divergence is constant")
    elif which == "AW":
        el = build("ArnoldWinther(T, 3)")
        x = C.interior_points(el.get_reference_element(), 30, num.rng("aw"))
        T = el.tabulate(1, x)
        for i in range(2):
            div = (np.asarray(T[(1, 0)], float)[:24, i, 0] + np.asarray(T[(0, 1)], float)[:24, i, 1])
            fit = num.PolyFit(np.array(x), 2, 1)
            ctx.ok(fit.fit(div)[1] < 1e-7 * max(1, np.abs(div).max()), "ArnoldWinther(T, 3) divergence component %d" % i, "is not linear")
    elif which == "AWNC":
        el = build("ArnoldWintherNC(T, 2)")
        for k, e in _edges(el.get_reference_element()):
            X, t, nrm, s = e
            v = np.asarray(el.tabulate(0, X)[(0, 0)], float)[:15]
            _lowdeg(ctx, np.einsum("icdp,c,d->ip", v, nrm, nrm), s, 1, "ArnoldWintherNC edge %d normal-normal component" % k)


def _edges(cell):
    V = np.array(C.cell_vertices(cell), float)
    for k, vs in cell.get_topology()[1].items():
        a, b = V[list(vs)]
        s = np.linspace(0, 1, 12)
        yield k, ([tuple(a + q * (b - a)) for q in s], b - a, np.array([(b - a)[1], -(b - a)[0]]), s)


def _lowdeg(ctx, vals, s, n, case):
    fit = num.PolyFit(s.reshape(-1, 1), 1, n)
    r = fit.fit(vals)[1]
    ctx.ok(r <= 1e-7 * max(1.0, np.abs(vals).max()), case, "is not of degree %d (residual %.2g)" % (n, r))


def _inspan(ctx, el, ex, lower, upper):
    cell = el.get_reference_element()
    x = np.array(C.interior_points(cell, 40, num.rng(ex)))
    v = np.asarray(el.tabulate(0, [tuple(p) for p in x])[(0,) * C.sdim(cell)], float)
    A = v.reshape(len(v), -1)
    lo = np.array([g.ravel() for g in lower(x)])
    up = np.array([g.ravel() for g in upper(x)])
    ctx.ok(num.rank(np.vstack([A, lo])) == num.rank(A) == len(A), ex, "does not contain the complete polynomials one degree lower")
    ctx.ok(num.rank(np.vstack([up, A])) == num.rank(up), ex, "is not contained in the polynomials of its degree")


def check(tier):
    deep = tier == "thorough"
    km = {0: 0, 1: 8, 2: 6, 3: 4} if not deep else {0: 0, 1: 12, 2: 8, 3: 6}
    it = [(f.name, k, d, ex) for f, k, d, cn, v, ex in F.instances(km)
          if f.name not in ("BrezziDouglasFortinMarini",) and not (d == 3 and v == "integral" and k >= 3)]
    for cs in ({1: "DI", 2: "DT", 3: "DS"}, {2: "KT", 3: "KS"}, {1: "AI", 2: "AT", 3: "AS"}):
        it += [(f.name, k, d, ex) for f, k, d, cn, v, ex in F.instances(
            {1: 3, 2: 3, 3: 2}, ["Lagrange", "DiscontinuousLagrange", "RaviartThomas", "Nedelec", "Regge", "Bernstein", "CrouzeixRaviart"], cs, variants=False)]
    for ex in C.CUBE:
        name, cn, k = ex.split("(")[0], ex.split("(")[1].split(",")[0], int(ex.split(",")[1][:-1])
        it.append((name, k, {"Q": 2, "H": 3, "I": 1}[cn], ex))
    it.sort(key=lambda t: -(t[1] + 2 * t[2]))
    ch = [it[i::24] for i in range(24)]
    T = [("span-%d" % i, "props.c14", "span", (c,)) for i, c in enumerate(ch)]
    be = ["Bernstein(%s, %d)" % (c, k) for c, n in (("I", 8), ("T", 6), ("S", 5), ("AT", 3), ("AS", 3), ("DT", 4), ("AI", 4)) for k in range(1, n + 1)]
    T += [("bernstein-%d" % i, "props.c14", "bernstein", (be[i::4],)) for i in range(4)]
    T += [("subspace-%s" % w, "props.c14", "sub_spaces", (w,)) for w in ("Bell", "BDFM", "MTW", "AW", "AWNC")]
    return dict(bounded=T, bound="element instances listed in the tasks (degree <= %s)" % km, obligations=[])
