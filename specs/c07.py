"""C07 obligations: every functional, for symbolic points, directions,
weights, function values and numbers of quadrature points."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq, SymArr, Opaque, SDict
from specs.util import finish
import numpy

ASSUME = ["machine arithmetic is treated as real arithmetic",
          "the points of a quadrature rule are pairwise distinct and entity maps are injective (points index the stored data)",
          "cell geometry (normals, tangents, entity maps, volumes) by contract: decided under C08"]


def vec(name, sd, *args):
    o = numpy.empty((sd,), dtype=object)
    for i in range(sd):
        o[i] = sym.app(name, *(args + (i,)))
    return o


def geometry(sd):
    """A cell of dimension sd under contract: geometry is opaque."""
    T = lambda dim, e: (lambda p: tuple(sym.app("T%d" % dim, e, *[Rat.of(x) for x in list(p)] + [c]) for c in range(sd)))     # noqa: E731

    def transform(dim, e):
        f = T(int(Rat.of(dim).concrete()), Rat.of(e))

        def g(p):
            return f(p)
        return g
    return Opaque("cell", (), dict(
        get_spatial_dimension=lambda: sd, get_dimension=lambda: sd,
        compute_normal=lambda e: vec("n", sd, Rat.of(e)),
        compute_scaled_normal=lambda e: vec("sn", sd, Rat.of(e)),
        compute_edge_tangent=lambda e: vec("t", sd, Rat.of(e)),
        compute_normalized_edge_tangent=lambda e: vec("nt", sd, Rat.of(e)),
        compute_face_tangents=lambda e: [vec("ft0", sd, Rat.of(e)), vec("ft1", sd, Rat.of(e))],
        volume_of_subcomplex=lambda dim, e: sym.app("vol%d" % int(Rat.of(dim).concrete()), Rat.of(e)),
        get_entity_transform=transform)), T


def rule(dim, N, tag="q"):
    """A quadrature rule with N points in dimension dim."""
    from FIAT.quadrature import QuadratureRule
    q = object.__new__(QuadratureRule)
    q.__dict__.update(ref_el=None,
                      pts=Seq.from_segs([SymIter(N, lambda k: tuple(sym.app(tag, k, c) for c in range(dim)))]),
                      wts=Seq.from_segs([SymIter(N, lambda k: sym.app(tag + "w", k))]))
    return q, (lambda k: tuple(sym.app(tag, k, c) for c in range(dim))), (lambda k: sym.app(tag + "w", k))


def arr(name, shape):
    return SymArr(shape, lambda idx: sym.app(name, *idx))


def entries(d):
    """pt_dict -> (n or None, k, point, list)"""
    out = []
    if isinstance(d, SDict) and d.gens:
        for k, v in dict.items(d):
            out.append((None, None, k, v))
        for g in d.gens:
            if g.flat:
                raise Unsupported("nested point data")
            k = sym.fresh("k")
            p, l = g.fn(k)
            out.append((g.n, k, p, l))
        return out
    return [(None, None, k, v) for k, v in d.items()]


def collect(l, deriv, symmetric):
    out = {}
    for x in l:
        if deriv:
            w, a, c = x
            key = (tuple(int(Rat.of(y).concrete()) if Rat.of(y).concrete() is not None else y for y in a), tuple(int(Rat.of(y).concrete()) for y in c))
        else:
            w, c = x
            key = ((), tuple(int(Rat.of(y).concrete()) if Rat.of(y).concrete() is not None else y for y in c))
        if symmetric and len(key[1]) == 2:
            key = (key[0], tuple(sorted(key[1])))
        out[key] = out.get(key, Rat.of(0)) + Rat.of(w)
    return out


def expect(eng, nm, ell, cell, shp, values, derivs, symmetric=False):
    """values/derivs: None or (N or None, point(k), form(k)) with form a dict
    (alpha, component) -> weight."""
    eng.prove(nm + ": belongs to the given cell", ell.ref_el is cell)
    if shp is not None:
        ts = ell.target_shape
        eng.prove(nm + ": target shape", band(len(ts) == len(shp), *[Rat.of(a) == b for a, b in zip(ts, shp)]))
    for what, got, want in (("values", ell.pt_dict, values), ("derivatives", ell.deriv_dict, derivs)):
        es = entries(got)
        if want is None:
            eng.prove(nm + ": no data on %s" % what, not es)
            continue
        N, pt, form = want
        if len(es) != 1 or (es[0][0] is None) != (N is None):
            eng.prove(nm + ": data of %s at the points of the rule" % what, False, "entries %r" % (es,))
            continue
        n, k, p, l = es[0]
        base = list(eng.pc)
        if N is not None:
            eng.prove(nm + ": one entry per point", n == N)
            eng.assume(k >= 0)
            eng.assume(k < N)
        wp = pt(k)
        eng.prove(nm + ": points", band(len(p) == len(wp), *[Rat.of(a) == b for a, b in zip(p, wp)]))
        a, b = collect(l, what == "derivatives", symmetric), {}
        for (al, c), w in form(k).items():
            c = tuple(sorted(c)) if symmetric and len(c) == 2 else c
            b[(al, c)] = b.get((al, c), Rat.of(0)) + w
        for key in sorted(set(a) | set(b), key=repr):
            eng.prove(nm + ": weights of %s are those of the definition" % what, a.get(key, Rat.of(0)) == b.get(key, Rat.of(0)), "component %r: %s, expected %s" % (key, a.get(key, 0), b.get(key, 0)))
        eng.pc = base
    if derivs is not None:
        order = max([sum(al) for (al, c) in derivs[2](sym.fresh("k"))] or [0]) if not callable(getattr(derivs, "order", None)) else 0
        eng.prove(nm + ": recorded derivative order", Rat.of(ell.max_deriv_order) == order)
    else:
        eng.prove(nm + ": recorded derivative order", Rat.of(ell.max_deriv_order) == 0)


def unit(sd, i):
    return tuple(1 if j == i else 0 for j in range(sd))


def prepare(name):
    eng = Engine(name)
    eng.lenient_division = True
    ip = Interp(eng)
    from FIAT import quadrature

    def gl(ip, args, kw):
        m = Rat.of(args[1])
        return rule(1, m, "gl")[0]
    ip.contracts[quadrature.GaussLegendreQuadratureLineRule] = gl
    return eng, ip


def pointwise(sd):
    from FIAT import functional as Fn
    eng, ip = prepare("pointwise functionals")
    cell, T = geometry(sd)
    x = tuple(sym.sym("x%d" % i) for i in range(sd))
    e = isym("e")
    n, sn, t = vec("n", sd, e), vec("sn", sd, e), vec("t", sd, e)
    one = Rat.of(1)

    def go(cls, args, shp, values, derivs, symmetric=False, what=""):
        nm = "functional.%s" % cls.__name__
        for pc, kind, v in eng.explore(lambda: ip.construct(cls, [cell] + list(args), {})):
            finish(eng, pc, kind, v, "constructs", None, nm)
            if kind == "raise":
                continue
            base = list(eng.pc)
            eng.pc = base + list(pc)
            eng.where = nm
            expect(eng, nm + what, v, cell, shp, values, derivs, symmetric)
            eng.pc = base
    P = lambda k: x      # noqa: E731
    go(Fn.PointEvaluation, [x], (), (None, P, lambda k: {((), ()): one}), None)
    for m in (1, 2, 3, 4):
        for c in range(m):
            go(Fn.ComponentPointEvaluation, [c, (m,), x], (m,), (None, P, lambda k: {((), (c,)): one}), None)
        for c in (-1, m):
            outs = eng.explore(lambda: ip.construct(Fn.ComponentPointEvaluation, [cell, c, (m,), x], {}))
            eng.prove("functional.ComponentPointEvaluation: components outside the shape are rejected", all(o[1] == "raise" for o in outs))
    from vlib import num
    for deg in range(4):
        for a in num.alphas(sd, deg):
            for ty in (tuple, list):
                go(Fn.PointDerivative, [x, ty(a)], (), None, (None, P, lambda k: {(tuple(a), ()): one}))
    go(Fn.PointNormalDerivative, [e, x], (), None, (None, P, lambda k: {(unit(sd, i), ()): n[i] for i in range(sd)}))

    def second(k):
        out = {}
        for i in range(sd):
            for j in range(sd):
                al = tuple(numpy.add(unit(sd, i), unit(sd, j)).tolist())
                out[(al, ())] = out.get((al, ()), Rat.of(0)) + n[i] * n[j]
        return out
    go(Fn.PointNormalSecondDerivative, [e, x], (), None, (None, P, second))
    go(Fn.PointNormalEvaluation, [e, x], (sd,), (None, P, lambda k: {((), (i,)): n[i] for i in range(sd)}), None)
    go(Fn.PointScaledNormalEvaluation, [e, x], (sd,), (None, P, lambda k: {((), (i,)): sn[i] for i in range(sd)}), None)
    go(Fn.PointEdgeTangentEvaluation, [e, x], (sd,), (None, P, lambda k: {((), (i,)): t[i] for i in range(sd)}), None)
    for tno in (0, 1):
        ft = vec("ft%d" % tno, sd, e)
        go(Fn.PointFaceTangentEvaluation, [e, tno, x], (sd,), (None, P, lambda k: {((), (i,)): ft[i] for i in range(sd)}), None)
    v = numpy.array([sym.sym("v%d" % i) for i in range(sd)], dtype=object)
    w = numpy.array([sym.sym("w%d" % i) for i in range(sd)], dtype=object)
    go(Fn.PointwiseInnerProductEvaluation, [v, w, x], (sd, sd), (None, P, lambda k: frob(v, w, sd)), None, True)
    # evaluation of a function
    f = lambda p: sym.app("f", *list(p))      # noqa: E731

    def run():
        ell = ip.construct(Fn.PointEvaluation, [cell, x], {})
        return ip.call(ell.__call__, [f], {})
    for pc, kind, v in eng.explore(run):
        finish(eng, pc, kind, v, "calling it gives the value of the function", lambda: f(x), "functional.PointEvaluation.__call__")
    eng.assumptions += ASSUME
    return eng.result()


def frob(v, w, sd):
    """v^T u w as a form on symmetric tensors"""
    out = {}
    for i in range(sd):
        for j in range(sd):
            k = ((), tuple(sorted((i, j))))
            out[k] = out.get(k, Rat.of(0)) + v[i] * w[j]
    return out


def moments(sd):
    from FIAT import functional as Fn
    eng, ip = prepare("integral moments")
    cell, T = geometry(sd)
    e, N, m, cd = isym("e"), isym("N"), isym("m"), isym("cd")
    for b in (N >= 1, m >= 0, cd >= 0):
        eng.assume(b)
    n, sn, t, nt = [vec(c, sd, e) for c in ("n", "sn", "t", "nt")]
    Q, q, w = rule(sd, N)
    # the facet of an interval is a point, with a one-point rule
    FN = N if sd > 1 else None
    F, fq, fw = rule(sd - 1, FN if sd > 1 else Rat.of(1), "fq")
    if sd == 1:
        fq, fw = (lambda k: ()), (lambda k: sym.app("fqw", 0))
    L, lq, lw = rule(1, cd + 1, "gl")
    g = arr("g", (N,))
    G = lambda k: sym.app("g", 0 if k is None else k)      # noqa: E731
    fg = g if sd > 1 else arr("g", (1,))

    def go(cls, args, shp, values, derivs, symmetric=False):
        nm = "functional.%s" % cls.__name__
        for pc, kind, v in eng.explore(lambda: ip.construct(cls, [cell] + list(args), {})):
            finish(eng, pc, kind, v, "constructs", None, nm)
            if kind == "raise":
                continue
            base = list(eng.pc)
            eng.pc = base + list(pc)
            eng.where = nm
            expect(eng, nm, v, cell, shp, values, derivs, symmetric)
            eng.pc = base

    def on(dim, pts):
        f = T(dim, e)
        return lambda k: f(pts(k))
    go(Fn.IntegralMoment, [Q, g], (), (N, q, lambda k: {((), ()): w(k) * G(k)}), None)
    for shp in ((sd,), (sd, sd), (3,)):
        for c in numpy.ndindex(*shp):
            go(Fn.IntegralMoment, [Q, g, c, shp], shp, (N, q, lambda k: {((), c): w(k) * G(k)}), None)
    for shp in ((sd,), (sd, sd), (2, 3)):
        A = arr("A", shp + (N,))
        go(Fn.FrobeniusIntegralMoment, [Q, A], shp, (N, q, lambda k: {((), c): w(k) * sym.app("A", *(c + (k,))) for c in numpy.ndindex(*shp)}), None)
    bad = arr("A", (sd, N + 1))
    outs = eng.explore(lambda: ip.construct(Fn.FrobeniusIntegralMoment, [cell, Q, bad], {}))
    eng.prove("functional.FrobeniusIntegralMoment: a wrong number of values is rejected", all(o[1] == "raise" for o in outs))
    go(Fn.IntegralMomentOfDivergence, [Q, g], None, None, (N, q, lambda k: {(unit(sd, i), (i,)): w(k) * G(k) for i in range(sd)}))
    if sd == 2:
        A = arr("A", (2, N))
        go(Fn.IntegralMomentOfTensorDivergence, [Q, A], None, None,
           (N, q, lambda k: {(unit(2, j), (i, j)): w(k) * sym.app("A", i, k) for i in range(2) for j in range(2)}))
    v = numpy.array([sym.sym("v%d" % i) for i in range(sd)], dtype=object)
    u = numpy.array([sym.sym("u%d" % i) for i in range(sd)], dtype=object)
    go(Fn.TensorBidirectionalMomentInnerProductEvaluation, [v, u, Q, g, cd], (sd, sd),
       (N, q, lambda k: {c: x * w(k) * G(k) for c, x in frob(v, u, sd).items()}), None, True)
    # facets
    go(Fn.IntegralMomentOfNormalDerivative, [e, F, fg], (), None, (FN, on(sd - 1, fq), lambda k: {(unit(sd, i), ()): fw(k) * G(k) * n[i] for i in range(sd)}))
    for cls in (Fn.IntegralMomentOfScaledNormalEvaluation, Fn.IntegralMomentOfNormalEvaluation):
        go(cls, [F, fg, e], (sd,), (FN, on(sd - 1, fq), lambda k: {((), (i,)): fw(k) * G(k) * sn[i] for i in range(sd)}), None)
    go(Fn.IntegralMomentOfNormalNormalEvaluation, [F, fg, e], (sd, sd),
       (FN, on(sd - 1, fq), lambda k: {((), (i, j)): fw(k) * G(k) * n[i] * sn[j] for i in range(sd) for j in range(sd)}), None, True)
    A = arr("A", (N if sd > 1 else 1, sd))
    go(Fn.MonkIntegralMoment, [F, A, e], (sd,), (FN, on(sd - 1, fq), lambda k: {((), (i,)): fw(k) * sym.app("A", 0 if k is None else k, i) for i in range(sd)}), None)
    if sd == 3:
        A = arr("A", (3, N))

        def tangential(k):
            # (v x n) . (p x n) = v . (n x (p x n))
            p = [sym.app("A", i, k) for i in range(3)]
            pn = cross(p, sn)
            d = cross(sn, pn)
            return {((), (i,)): fw(k) * d[i] for i in range(3)}
        go(Fn.IntegralMomentOfFaceTangentEvaluation, [F, A, e], (3,), (N, on(2, fq), tangential), None)
    E, eq, ew = rule(1, N, "eq")
    go(Fn.IntegralMomentOfEdgeTangentEvaluation, [E, g, e], (sd,), (N, on(1, eq), lambda k: {((), (i,)): ew(k) * G(k) * t[i] for i in range(sd)}), None)
    if sd == 2:
        go(Fn.IntegralMomentOfTangentialEvaluation, [F, fg, e], (sd,), (N, on(1, fq), lambda k: {((), (i,)): fw(k) * G(k) * t[i] for i in range(sd)}), None)
        P = lambda k: sym.app("Legendre", m, 2 * lq(k)[0] - 1)      # noqa: E731
        go(Fn.IntegralLegendreNormalMoment, [e, m, cd], (2,), (cd + 1, on(1, lq), lambda k: {((), (i,)): lw(k) * P(k) * sn[i] for i in range(2)}), None)
        go(Fn.IntegralLegendreTangentialMoment, [e, m, cd], (2,), (cd + 1, on(1, lq), lambda k: {((), (i,)): lw(k) * P(k) * t[i] for i in range(2)}), None)
        V = sym.app("vol1", e)
        go(Fn.IntegralLegendreNormalNormalMoment, [e, m, cd], (2, 2),
           (cd + 1, on(1, lq), lambda k: {c: x * lw(k) * P(k) * V * V for c, x in frob(n, n, 2).items()}), None, True)
        go(Fn.IntegralLegendreNormalTangentialMoment, [e, m, cd], (2, 2),
           (cd + 1, on(1, lq), lambda k: {c: x * lw(k) * P(k) * V * V for c, x in frob(n, nt, 2).items()}), None, True)
    # evaluation of a function
    f = lambda p: sym.app("f", *list(p))      # noqa: E731

    def run():
        ell = ip.construct(Fn.IntegralMoment, [cell, Q, g], {})
        return ip.call(ell.__call__, [f], {})
    from vlib.pyvc.values import total
    for pc, kind, v in eng.explore(run):
        finish(eng, pc, kind, v, "calling it integrates the function", lambda: total(N, lambda k: w(k) * G(k) * f(q(k))), "functional.IntegralMoment.__call__")
    eng.assumptions += ASSUME + ["numpy.polynomial.legendre.legval evaluates the Legendre series"]
    return eng.result()


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


OBLIGATIONS = [("pointwise-%d" % d, "specs.c07", "pointwise", (d,)) for d in (1, 2, 3)] + [
    ("moments-%d" % d, "specs.c07", "moments", (d,)) for d in (1, 2, 3)]


def phi(i, x):
    return sym.app("phi", i, *[Rat.of(c) for c in x])


def dphi(alpha, i, x):
    return sym.app("dphi" + "".join(map(str, alpha)), i, *[Rat.of(c) for c in x])


def tabulation(eng, ip, pts, order, f):
    """contract of tabulate: derivatives up to the order, at the given points"""
    from vlib.pyvc.values import as_symarr
    pa = as_symarr(pts)
    n = pa.shape[0]
    point = lambda j: [pa.at((j, c)) for c in range(int(pa.shape[1]))]      # noqa: E731
    return n, point


def polyset(eng, ip, ed, nexp, cshape):
    """A polynomial set under contract."""
    from FIAT import polynomial_set as P
    order_given = []

    def tab(d, pts):
        eng.prove("to_riesz: the expansion functions are tabulated at the embedded degree", Rat.of(d) == ed)
        n, point = tabulation(eng, ip, pts, 0, phi)
        return SymArr((nexp, n), lambda idx: phi(idx[0], point(idx[1])))
    es = Opaque("expansion", (), dict(get_num_members=lambda d: nexp, tabulate=tab))
    coeffs = Opaque("coeffs", (), dict(shape=(isym("members"),) + cshape + (nexp,)))
    ps = Opaque("polyset", (), dict(get_expansion_set=lambda: es, get_embedded_degree=lambda: ed, coeffs=coeffs))

    def dtab(pts, order=0):
        n, point = tabulation(eng, ip, pts, order, dphi)

        def get(alpha):
            al = tuple(int(Rat.of(a).concrete()) for a in alpha)
            eng.prove("to_riesz: derivatives are tabulated to a sufficient order", Rat.of(order) >= sum(al))
            return SymArr((nexp, n), lambda idx: dphi(al, idx[0], point(idx[1])))
        return Opaque("tabulation", (), dict(__getitem__=get))

    def onp(ip, args, kw):
        eng.prove("to_riesz: derivatives are those of the expansion functions of the embedded degree", Rat.of(args[1]) == ed)
        return Opaque("polyset", (), dict(tabulate=dtab))
    ip.contracts[P.ONPolynomialSet] = onp
    return ps


def riesz(shape, sd):
    """Functional.to_riesz for any number of points."""
    from FIAT import functional as Fn
    from vlib.pyvc.values import total
    eng, ip = prepare("to_riesz")
    N, D, nexp, ed = isym("N"), isym("D"), isym("nexp"), isym("ed")
    for b in (N >= 1, D >= 1, nexp >= 1, ed >= 0):
        eng.assume(b)
    ps = polyset(eng, ip, ed, nexp, shape)
    comps = list(numpy.ndindex(*shape))
    x = lambda k: tuple(sym.app("x", k, c) for c in range(sd))      # noqa: E731
    y = lambda k: tuple(sym.app("y", k, c) for c in range(sd))      # noqa: E731
    # two entries on the first component, one on each other
    vals = lambda k: Seq([(sym.app("w", k, j), c) for j, c in enumerate([comps[0]] + comps)])      # noqa: E731
    al = [unit(sd, i) for i in range(sd)] + [tuple(2 * a for a in unit(sd, 0))]
    ders = lambda k: Seq([(sym.app("v", k, j), al[j % len(al)], c) for j, c in enumerate([comps[-1]] + comps + [comps[0]])])      # noqa: E731
    nm = "functional.Functional.to_riesz"
    cell, T = geometry(sd)
    for hasd in (False, True):
        for hasv in (False, True):
            if not (hasd or hasv):
                continue
            pd, dd = SDict(), SDict()
            if hasv:
                pd.gens.append(SymIter(N, lambda k: (x(k), vals(k))))
            if hasd:
                dd.gens.append(SymIter(D, lambda k: (y(k), ders(k))))

            def run():
                ell = ip.construct(Fn.Functional, [cell, shape, pd, dd, "x"], {})
                return ip.call(ell.to_riesz, [ps], {})
            if not hasv:
                # tabulate is then called with no points
                continue
            for pc, kind, r in eng.explore(run):
                finish(eng, pc, kind, r, "returns", None, nm)
                if kind == "raise":
                    continue
                base = list(eng.pc)
                eng.pc = base + list(pc)
                eng.where = nm
                want_shape = shape + (nexp,)
                eng.prove(nm + ": shape", band(len(r.shape) == len(want_shape), *[Rat.of(a) == b for a, b in zip(r.shape, want_shape)]))
                i = sym.fresh("i")
                eng.assume(i >= 0)
                eng.assume(i < nexp)
                for c in comps:
                    want = Rat.of(0)
                    if hasv:
                        want = want + total(N, lambda k: sum((w for w, cc in vals(k) if cc == c), Rat.of(0)) * phi(i, x(k)))
                    if hasd:
                        want = want + total(D, lambda k: sum((w * dphi(a, i, y(k)) for w, a, cc in ders(k) if cc == c), Rat.of(0)))
                    eng.prove(nm + ": each coefficient is the functional's action on an expansion function", Rat.of(r[c + (i,)]) == want)
                eng.pc = base
    eng.assumptions += ASSUME
    return eng.result()


OBLIGATIONS += [("to_riesz-%s-%d" % ("x".join(map(str, s)) or "scalar", d), "specs.c07", "riesz", (s, d)) for s, d in (((), 1), ((), 2), ((2,), 2), ((3,), 3), ((2, 2), 2))]


def dual_riesz(shape, with_derivs):
    """DualSet.to_riesz for three functionals sharing points or not (every
    pattern of coincidences), symbolic data, any expansion set."""
    from FIAT import dual_set
    from FIAT import functional as Fn
    eng, ip = prepare("DualSet.to_riesz")
    nexp, ed = isym("nexp"), isym("ed")
    eng.assume(nexp >= 1)
    eng.assume(ed >= 0)
    ps = polyset(eng, ip, ed, nexp, shape)
    comps = list(numpy.ndindex(*shape))
    cell, T = geometry(1)
    p = [(sym.sym("p%d" % i),) for i in range(4)]
    d = [(sym.sym("d%d" % i),) for i in range(3)]
    eng.assume(p[1][0] != p[2][0])
    eng.assume(d[0][0] != d[1][0])
    w = lambda n, j: sym.app("w%d" % n, j)      # noqa: E731
    data = [({p[0]: Seq([(w(0, 0), comps[0]), (w(0, 1), comps[-1]), (w(0, 2), comps[0])])}, {}),
            ({p[1]: Seq([(w(1, 0), comps[-1])]), p[2]: Seq([(w(1, 1), comps[0])])}, {}),
            ({p[3]: Seq([(w(2, 0), c) for c in comps])}, {})]
    if with_derivs:
        data[0] = (data[0][0], {d[2]: Seq([(w(4, 0), (1,), comps[-1])])})
        data[2] = ({}, {d[0]: Seq([(w(3, 0), (1,), comps[0])]), d[1]: Seq([(w(3, 1), (2,), comps[-1]), (w(3, 2), (1,), comps[-1])])})
    nm = "dual_set.DualSet.to_riesz"

    def run():
        o = object.__new__(dual_set.DualSet)
        nodes = Seq([ip.construct(Fn.Functional, [cell, shape, SDict(a), SDict(b), "x"], {}) for a, b in data])
        o.__dict__.update(nodes=nodes, ref_el=cell, entity_ids={}, entity_closure_ids={})
        return ip.call(dual_set.DualSet.to_riesz, [o, ps], {})
    for pc, kind, r in eng.explore(run):
        finish(eng, pc, kind, r, "returns", None, nm)
        if kind == "raise":
            continue
        base = list(eng.pc)
        eng.pc = base + list(pc)
        eng.where = nm
        ws = (3,) + shape + (nexp,)
        eng.prove(nm + ": shape", band(len(r.shape) == len(ws), *[Rat.of(a) == b for a, b in zip(r.shape, ws)]))
        i = sym.fresh("i")
        eng.assume(i >= 0)
        eng.assume(i < nexp)
        for k, (pd, dd) in enumerate(data):
            for c in comps:
                want = Rat.of(0)
                for x, l in pd.items():
                    want = want + sum((a for a, cc in l if cc == c), Rat.of(0)) * phi(i, x)
                for x, l in dd.items():
                    want = want + sum((a * dphi(al, i, x) for a, al, cc in l if cc == c), Rat.of(0))
                eng.prove(nm + ": the row of a functional is its action on the expansion functions, whatever the other functionals", Rat.of(r[(k,) + c + (i,)]) == want)
        eng.pc = base
    eng.assumptions += ASSUME + ["DualSet.to_riesz: three functionals with at most two points each (bounded in the number of functionals and points; symbolic data, every pattern of coinciding points, any number of expansion functions)"]
    return eng.result()


OBLIGATIONS += [("dual-to_riesz-%s%s" % ("x".join(map(str, s)) or "scalar", "-derivatives" if w else ""), "specs.c07", "dual_riesz", (s, w)) for s in ((), (2,), (2, 2)) for w in (False, True)]
