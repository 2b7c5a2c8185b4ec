"""C18: unsupported requests are rejected, supported ones are not."""
import itertools
import re

import numpy as np

from vlib import families as F, fastd, contracts as C

CELLS = ("P", "I", "T", "S", "Q", "H", "IxI", "TxI")


def accepted(name, cn, k):
    """The documented domain of each family (vlib/families.py)."""
    f = F.FAM.get(name)
    if f is not None:
        if name == "DiscontinuousTaylor" and cn == "P":
            return None            # not stated
        if name == "Bernstein" and cn == "P":
            return None
        if name == "DiscontinuousLagrange" and cn == "P":
            return k == 0
        if name == "BrezziDouglasMarini" and cn == "I":
            return None if k == 1 else False
        if name == "Lagrange" and cn == "P":
            return None
        d = {"P": 0, "I": 1, "T": 2, "S": 3}.get(cn)
        if d is None or d not in f.dims:
            return False
        return True if not f.has_degree else f.accepts(k, d)
    if name == "Serendipity":
        return cn in ("Q", "H", "I", "IxI") and k >= 1
    if name == "DPC":
        return (cn in ("Q", "H", "I", "IxI") and k >= 0) if cn != "P" else None
    if name == "Bubble":
        return {"I": k >= 2, "T": k >= 3, "S": k >= 4, "P": None}.get(cn, False)
    if name == "FacetBubble":
        return {"I": k >= 1, "T": k >= 2, "S": k >= 3}.get(cn, False)
    if name == "HDivTrace":
        return cn in ("T", "S", "Q", "IxI", "TxI") and k >= 0


def domain(ctx, name, cn, ks):
    fastd.install(2)
    f = F.FAM.get(name)
    if f is not None and not f.has_degree:
        ks = (None,)
    for k in ks:
        ex = "%s(%s)" % (name, cn) if k is None else "%s(%s, %d)" % (name, cn, k)
        a = accepted(name, cn, k)
        if a is None:
            continue
        if a:
            el = ctx.noraise(lambda: F.build(ex), ex + " (supported)")
            if el is not None:
                ctx.ok(el.space_dimension() > 0, ex, "no basis functions")
        else:
            ctx.raises(lambda: F.build(ex), ex + " (unsupported)", "unsupported arguments were accepted")


STRINGS = ["point", "integral", "integral(0)", "integral(1)", "integral(2)", "integral(3)", "integral(4)", "integral(7)", "integral(10)", "integral(007)", "", "Point", "points", "integral()",
           "integral(-1)", "integral(2.5)", "integral(3", "integral3", "integral (3)", " integral", "integral ", "integral(3) ", "integral\n", "integral(5)\n", "point\n", "pointintegral", "xintegral",
           "integral(3)(4)", "integral(a)", "Integral", "integral,3", "alternative"]


def parse(s, k):
    """Specification of the variant language."""
    if s is None or s == "point":
        return ("point", None)
    if s == "integral":
        return ("integral", 5 * (k + 1))
    if s.startswith("integral(") and s.endswith(")") and s[9:-1].isascii() and s[9:-1].isdigit():
        n = int(s[9:-1])
        return ("integral", n) if n >= k + 1 else None
    return None


def variants(ctx):
    from FIAT.check_format_variant import check_format_variant as cf
    for k in range(0, 12):
        for s in [None] + STRINGS + ["integral(%d)" % n for n in range(0, 70, 1)]:
            w = parse(s, k)
            case = "check_format_variant(%r, %d)" % (s, k)
            if w is None:
                ctx.raises(lambda: cf(s, k, "E"), case, "accepted")
            else:
                r = ctx.noraise(lambda: cf(s, k, "E"), case)
                ctx.ok(r is not None and tuple(r) == w, case, "gave %s instead of %s" % (r, w))


def elem_variants(ctx, name, cn, k):
    """Variant strings through the constructors; the default is "point"; the
    quadrature degree is measured against degree k-1 polynomials for the
    first-kind families."""
    fastd.install(2)
    kk = k - 1 if name in ("RaviartThomas", "Nedelec") else k
    ref = {}
    for v in ("point", "integral"):
        ref[v] = _dual(F.build("%s(%s, %d, variant=%r)" % (name, cn, k, v)))
    d0 = _dual(F.build("%s(%s, %d)" % (name, cn, k)))
    dn = _dual(F.build("%s(%s, %d, variant=None)" % (name, cn, k)))
    ctx.ok(_same(d0, ref["point"]) and _same(dn, ref["point"]), "%s(%s, %d)" % (name, cn, k), "omitted variant is not the documented default")
    ctx.ok(not _same(ref["integral"], ref["point"]), "%s(%s, %d)" % (name, cn, k), "integral variant has the point evaluation degrees of freedom")
    for s in STRINGS + ["integral(%d)" % kk, "integral(%d)" % (kk + 1), "integral(%d)" % (5 * (kk + 1))]:
        w = parse(s, kk)
        ex = "%s(%s, %d, variant=%r)" % (name, cn, k, s)
        if w is None:
            ctx.raises(lambda: F.build(ex), ex, "accepted")
            continue
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        got = _dual(el)
        if w == ("integral", 5 * (kk + 1)) or s == "point":
            ctx.ok(_same(got, ref[w[0]]), ex, "is not the %s variant" % w[0])
        elif s == "integral(%d)" % w[1]:
            ctx.ok(not _same(got, ref["point"]), ex, "is the point variant")


def _dual(el):
    return el.dual_basis()


def _same(a, b):
    return C.same_nodes(a, b)


def schemes(ctx):
    from FIAT.quadrature_schemes import create_quadrature as cq
    from FIAT import quadrature as q
    for cn in ("P", "I", "T", "S", "Q", "H", "TxI", "IxI", "DT", "KS"):
        cell = F.cell(cn)
        for deg in (-3, -1, 0, 1, 2, 5, 8):
            for sch in ("default", "canonical"):
                case = "create_quadrature(%s, %d, %r)" % (cn, deg, sch)
                if deg < 0:
                    ctx.raises(lambda: cq(cell, deg, sch), case, "a negative degree was accepted")
                else:
                    r = ctx.noraise(lambda: cq(cell, deg, sch), case)
                    ctx.ok(r is not None and len(r.get_points()) == len(r.get_weights()) > 0, case, "no rule")
            for sch in ("", "Default", "kmv", "KMVx", "lump", None, 3):
                ctx.raises(lambda: cq(cell, deg, sch), "create_quadrature(%s, %d, %r)" % (cn, deg, sch), "an unknown scheme was accepted")
        for k in (-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9):
            case = "create_quadrature(%s, %d, 'KMV')" % (cn, k)
            good = {"T": 1 <= k <= 5, "S": 1 <= k <= 3}.get(cn, False)
            if cn in ("TxI", "DT", "KS", "IxI") and k >= 1:
                continue
            if cn == "T" and k == 6 or cn == "S" and k == 4:
                pass
            (ctx.noraise if good else ctx.raises)(lambda: cq(cell, k, "KMV"), case)
        for m in (-2, 0):
            ctx.raises(lambda: q.make_quadrature(cell, m), "make_quadrature(%s, %d)" % (cn, m), "no points per direction was accepted")
    line = F.cell("I")
    for m in (-2, -1, 0, 1, 2, 3):
        for nm, lo in (("GaussLobattoLegendreQuadratureLineRule", 2), ("GaussLegendreQuadratureLineRule", 1), ("RadauQuadratureLineRule", 1)):
            fn = getattr(q, nm)
            (ctx.noraise if m >= lo else ctx.raises)(lambda: fn(line, m), "%s(I, %d)" % (nm, m))
    for a, b in ((3, 2), (0, 1), (2, 3)):
        ctx.raises(lambda: q.QuadratureRule(line, [(0.1,)] * a, [1.0] * b), "QuadratureRule with %d points and %d weights" % (a, b), "accepted")
    for a in (1, 3):
        ctx.noraise(lambda: q.QuadratureRule(line, [(0.1,)] * a, [1.0] * a), "QuadratureRule with %d points and weights" % a)
    for cn, deg in (("TxI", (1, 2, 3)), ("TxI", (1,)), ("IxIxI", (1, 1))):
        ctx.raises(lambda: cq(F.cell(cn), deg), "create_quadrature(%s, %s)" % (cn, deg), "wrong number of degrees accepted")
    for cn, deg in (("TxI", (1, 2)), ("IxIxI", (1, 1, 2)), ("TxI", (0, 0))):
        ctx.noraise(lambda: cq(F.cell(cn), deg), "create_quadrature(%s, %s)" % (cn, deg))
    for cn, deg in (("TxI", (1, -1)), ("TxI", (-1, 1))):
        ctx.raises(lambda: cq(F.cell(cn), deg), "create_quadrature(%s, %s)" % (cn, deg), "negative degree accepted")


def cells(ctx):
    from FIAT import reference_element as R
    for n in range(-2, 7):
        (ctx.noraise if 0 <= n <= 3 else ctx.raises)(lambda: R.ufc_simplex(n), "ufc_simplex(%d)" % n)
        (ctx.noraise if 1 <= n <= 3 else ctx.raises)(lambda: R.default_simplex(n), "default_simplex(%d)" % n) if n != 0 else None
    names = ["vertex", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "triangle * interval", "interval * interval", "interval * interval * interval"]
    for n in names + ["", "point3", "Triangle", "cube", "triangle *", "* interval", "triangle x interval", "simplex"]:
        (ctx.noraise if n in names else ctx.raises)(lambda: R.ufc_cell(n), "ufc_cell(%r)" % n)
    for cn in ("I", "T", "S", "Q", "H"):
        cell = F.cell(cn)
        d = C.sdim(cell)
        for dim in list(range(-1, d + 1)) + [4, 5]:
            (ctx.noraise if 0 <= dim <= d else ctx.raises)(lambda: cell.construct_subelement(dim), "%s.construct_subelement(%d)" % (cn, dim))
        for dim, en in itertools.product(range(0, d + 2), range(0, 14)):
            if en < len(cell.get_topology().get(dim, ())):
                ctx.noraise(lambda: cell.get_entity_transform(dim, en), "%s.get_entity_transform(%d, %d)" % (cn, dim, en))
            else:
                ctx.raises(lambda: cell.get_entity_transform(dim, en), "%s.get_entity_transform(%d, %d)" % (cn, dim, en), "an entity that does not exist was mapped")
    for cn in ("I", "T", "S"):
        cell = F.cell(cn)
        d = C.sdim(cell)
        for bad in (d, d - 2, d + 1):
            ctx.raises(lambda: cell.get_facet_transform(99), "%s.get_facet_transform(99)" % cn, "accepted")
        for dim in (-1, d + 1, d + 2):
            ctx.raises(lambda: cell.make_points(dim, 0, 3), "%s.make_points(%d, 0, 3)" % (cn, dim), "a dimension the cell does not have was accepted")


def args(ctx):
    """Index, restriction, combination and tabulation arguments."""
    fastd.install(2)
    T2 = "Lagrange(T, 2)"
    bad = ["RestrictedElement(%s)" % T2, "RestrictedElement(%s, indices=[])" % T2, "RestrictedElement(%s, indices=[1, 1])" % T2, "RestrictedElement(%s, indices=[6])" % T2,
           "RestrictedElement(%s, indices=[-1])" % T2, "RestrictedElement(%s, 'facet')" % T2, "RestrictedElement(%s, restriction_domain='cell')" % T2,
           "RestrictedElement(%s, restriction_domain='')" % T2, "RestrictedElement(%s, restriction_domain='Facet')" % T2, "RestrictedElement(DiscontinuousLagrange(T, 1), restriction_domain='vertex')",
           "RestrictedElement(Lagrange(T, 1), restriction_domain='interior')", "RestrictedElement(RaviartThomas(T, 1), restriction_domain='vertex')",
           "EnrichedElement(Lagrange(T, 1), Lagrange(I, 1))", "EnrichedElement(Lagrange(T, 1), RaviartThomas(T, 1))", "EnrichedElement(RaviartThomas(T, 1), Nedelec(T, 1))",
           "EnrichedElement(Lagrange(T, 1), Regge(T, 0))", "NodalEnrichedElement(Lagrange(T, 1), Bernstein(T, 3))", "NodalEnrichedElement(Lagrange(T, 1), RaviartThomas(T, 1))",
           "NodalEnrichedElement(Lagrange(T, 1), Bubble(I, 2))", "NodalEnrichedElement(RaviartThomas(T, 1), Nedelec(T, 1))", "NodalEnrichedElement(Lagrange(T, 2), Lagrange(T, 2))",
           "MixedElement([Lagrange(T, 1), Lagrange(S, 1)])", "MixedElement([])", "TP(RaviartThomas(T, 1), RaviartThomas(T, 1))", "TP(Nedelec(T, 1), RaviartThomas(T, 1))",
           "Hdiv(Lagrange(T, 1))", "Hcurl(Lagrange(T, 1))", "Hdiv(TP(Lagrange(I, 1), Lagrange(I, 1)))", "Hcurl(TP(Lagrange(I, 1), Lagrange(I, 1)))", "Hcurl(TP(Lagrange(T, 1), Lagrange(I, 1)))",
           "Hdiv(TP(DiscontinuousLagrange(T, 1), DiscontinuousLagrange(I, 1)))", "Hdiv(TP(Lagrange(T, 1), DiscontinuousLagrange(I, 0)))", "Hcurl(TP(DiscontinuousLagrange(T, 1), Lagrange(I, 1)))",
           "HDivTrace(T, (1, 2))", "HDivTrace(TxI, (1, 2, 3))", "HDivTrace(IxI, (1,))", "HDivTrace(H, 1)", "HDivTrace(I, 1)", "HDivTrace(P, 0)",
           "Lagrange(T, 1, variant='point')", "Flat(Lagrange(T, 1))", "DiscontinuousElement()"]
    good = ["RestrictedElement(%s, indices=[5])" % T2, "RestrictedElement(%s, indices=[5, 0])" % T2, "RestrictedElement(%s, restriction_domain='facet')" % T2, "RestrictedElement(%s, indices=range(6))" % T2,
            "EnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "NodalEnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "MixedElement([Lagrange(T, 1)])", "HDivTrace(TxI, (1, 2))", "HDivTrace(IxI, (0, 2))"]
    for ex in bad:
        ctx.raises(lambda: F.build(ex), ex, "accepted")
    for ex in good:
        ctx.noraise(lambda: F.build(ex), ex)
    # tabulation on entities that do not exist
    for ex in ("Lagrange(T, 2)", "Lagrange(S, 1)", "RaviartThomas(T, 1, variant='point')", "GaussLegendre(I, 2)", "Bernstein(T, 2)", "TP(Lagrange(I, 1), Lagrange(I, 1))", "Flat(TP(Lagrange(I, 1), Lagrange(I, 1)))",
               "EnrichedElement(Lagrange(T, 1), Bubble(T, 3))", "MixedElement([Lagrange(T, 2), Lagrange(T, 1)])", "HDivTrace(T, 1)", "RestrictedElement(Lagrange(T, 2), restriction_domain='facet')"):
        el = F.build(ex)
        top = el.get_reference_element().get_topology()
        for dim in top:
            sub = el.get_reference_element().construct_subelement(dim)
            pts = C.interior_points(sub, 1, np.random.RandomState(0)) if sub.get_spatial_dimension() else [()]
            n = len(top[dim])
            for en in (n, n + 3):
                if ex.startswith("HDivTrace") and dim != 1:
                    continue
                ctx.raises(lambda: el.tabulate(0, pts, (dim, en)), "%s on entity (%s, %d)" % (ex, dim, en), "an entity that does not exist was accepted")


def shapes(ctx):
    from FIAT import functional as fn, reference_element as R
    T = R.UFCTriangle()
    for sh, comp in (((2,), (2,)), ((2,), ()), ((2,), (0, 0)), ((3,), (0,))):
        pass
    for sh, comp in (((2,), 0), ((2,), 1), ((3,), 2)):
        ctx.noraise(lambda: fn.ComponentPointEvaluation(T, comp, sh, (0.1, 0.2)), "ComponentPointEvaluation(T, %s, %s)" % (comp, sh))
    for sh, comp in (((2,), 2), ((2,), -1), ((3,), 3), ((2, 2), 0), ((), 0)):
        ctx.raises(lambda: fn.ComponentPointEvaluation(T, comp, sh, (0.1, 0.2)), "ComponentPointEvaluation(T, %s, %s)" % (comp, sh), "an illegal shape or component was accepted")
    from FIAT import expansions as E
    for cls, own in ((E.LineExpansionSet, "I"), (E.TriangleExpansionSet, "T"), (E.TetrahedronExpansionSet, "S"), (E.PointExpansionSet, "P")):
        for cn in ("P", "I", "T", "S"):
            (ctx.noraise if cn == own else ctx.raises)(lambda: cls(F.cell(cn)), "%s(%s)" % (cls.__name__, cn))
    for cn in ("Q", "H", "TxI"):
        ctx.raises(lambda: E.get_expansion_set(F.cell(cn)), "get_expansion_set(%s)" % cn, "accepted")
    for n in (1, 2):
        ctx.raises(lambda: E.polynomial_dimension(F.cell("P"), n), "polynomial_dimension(P, %d)" % n, "accepted")


def check(tier):
    deep = tier == "thorough"
    names = [f.name for f in F.FAMILIES] + ["Serendipity", "DPC", "Bubble", "FacetBubble", "HDivTrace"]
    T = [("variant-strings", "props.c18", "variants", ()), ("quadrature", "props.c18", "schemes", ()), ("cells", "props.c18", "cells", ()), ("arguments", "props.c18", "args", ()), ("shapes", "props.c18", "shapes", ())]
    for nm in names:
        for cn in CELLS:
            top = {"I": 8, "T": 7, "S": 4, "H": 3, "Q": 5}.get(cn, 4) + (2 if deep and cn in "IT" else 0)
            T.append(("domain-%s-%s" % (nm, cn), "props.c18", "domain", (nm, cn, range(-3, top + 1))))
    for nm in ("RaviartThomas", "Nedelec", "BrezziDouglasMarini", "NedelecSecondKind"):
        for cn, ks in (("T", (1, 2, 3)), ("S", (1, 2))):
            T += [("variants-%s-%s-%d" % (nm, cn, k), "props.c18", "elem_variants", (nm, cn, k)) for k in ks]
    return dict(bounded=T, bound="degrees -3..8, the listed cells, strings and arguments", obligations=[])
