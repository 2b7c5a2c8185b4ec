"""Constructors and accessors of the elements, for every degree: which space
(C14), which metadata (C19) and which requests are refused (C18)."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq, SymArr, Opaque
from specs import duals as D, spaces
from specs.duals import pdim, rtdim, n1dim
from specs.families import cell, CELLS, FAMS
from specs.util import finish, pure

k = isym("degree")
q = isym("quad")


class El(object):
    def __init__(self, module, fn, cells, dim, space, mapping, form, low=1, high=None, order=0, variants=(None,), only=None, emb=0, shape=(), flat=False, reject=()):
        self.__dict__.update(locals())


VAR = (None, "point", "integral", "integral(n)")
ALL = ("interval", "triangle", "tetrahedron")
scal = lambda d: pdim(k, d)      # noqa: E731
ELS = {
    "Lagrange": El("lagrange", "Lagrange", ALL + ("default triangle", "default line"), scal, "P", "affine", lambda d: 0),
    "DiscontinuousLagrange": El("discontinuous_lagrange", "DiscontinuousLagrange", ALL, scal, "P", "affine", lambda d: d, low=0),
    "DiscontinuousTaylor": El("discontinuous_taylor", "DiscontinuousTaylor", ALL, scal, "P", "affine", lambda d: d, low=0),
    "DPC": El("discontinuous_pc", "DPC", ("interval", "quadrilateral", "hexahedron"), scal, "P", "affine", lambda d: d, low=0, flat=True),
    "CrouzeixRaviart": El("crouzeix_raviart", "CrouzeixRaviart", ALL, scal, "P", "affine", None, low=1, high=1),
    "GaussLegendre": El("gauss_legendre", "GaussLegendre", ("interval", "default line"), scal, "P", "affine", lambda d: d, low=0, reject=("triangle", "tetrahedron")),
    "GaussLobattoLegendre": El("gauss_lobatto_legendre", "GaussLobattoLegendre", ("interval", "default line"), scal, "P", "affine", lambda d: 0, reject=("triangle", "tetrahedron")),
    "GaussRadau": El("gauss_radau", "GaussRadau", ("interval",), scal, "P", "affine", lambda d: d, low=0, reject=("triangle", "tetrahedron")),
    "RaviartThomas": El("raviart_thomas", "RaviartThomas", ("triangle", "tetrahedron"), lambda d: rtdim(k, d), "RTSpace", "contravariant piola", lambda d: d - 1, order=-1, variants=VAR, shape="v"),
    "DiscontinuousRaviartThomas": El("discontinuous_raviart_thomas", "DiscontinuousRaviartThomas", ("triangle", "tetrahedron"), lambda d: rtdim(k, d), "RTSpace", "contravariant piola", None, order=-1, shape="v"),
    "Nedelec": El("nedelec", "Nedelec", ("triangle", "tetrahedron"), lambda d: n1dim(k, d), "NedelecSpace", "covariant piola", lambda d: 1, order=-1, variants=VAR, shape="v", reject=("interval",)),
    "BrezziDouglasMarini": El("brezzi_douglas_marini", "BrezziDouglasMarini", ("triangle", "tetrahedron"), lambda d: d * pdim(k, d), "P", "contravariant piola", lambda d: d - 1, variants=VAR, shape="v"),
    "NedelecSecondKind": El("nedelec_second_kind", "NedelecSecondKind", ("triangle", "tetrahedron"), lambda d: d * pdim(k, d), "P", "covariant piola", lambda d: 1, variants=VAR, shape="v", reject=("interval",)),
    "Regge": El("regge", "Regge", ("triangle", "tetrahedron"), lambda d: pdim(k, d) * (d * (d + 1) // 2), "PS", "double covariant piola", None, low=0, shape="m", reject=("interval",)),
    "HellanHerrmannJohnson": El("hellan_herrmann_johnson", "HellanHerrmannJohnson", ("triangle",), lambda d: pdim(k, d) * 3, "PS", "double contravariant piola", None, low=0, shape="m", reject=("interval", "tetrahedron")),
}
SPACES = {"RTSpace": ("raviart_thomas", "RTSpace"), "NedelecSpace2D": ("nedelec", "NedelecSpace2D"), "NedelecSpace3D": ("nedelec", "NedelecSpace3D")}


def setting(name, c):
    from FIAT import finite_element as E, polynomial_set as P, reference_element as R
    import importlib
    S = D.Setting(name, c)
    ip, eng = S.ip, S.eng

    def refuse(contract):
        def new(ip, args, kw):
            deg = Rat.of(list(args)[1] if len(args) > 1 else kw["degree"])
            if deg < 0:
                import numpy
                raise sym.sem(numpy.linalg.LinAlgError("degree below zero"))
            return contract(ip, args, kw)
        return new
    ip.contracts[P.ONPolynomialSet] = refuse(S.onp)
    ip.contracts[P.ONSymTensorPolynomialSet] = refuse(S.onsym)
    from FIAT import raviart_thomas, nedelec
    from FIAT.check_format_variant import check_format_variant

    def variants(ip, args, kw):
        """contract, see `variant_contract`"""
        v, deg = args[0], Rat.of(args[1])
        if v is None or v == "point":
            return ("point", None)
        if v == "integral":
            return ("integral", 5 * (deg + 1))
        if v == "integral(n)":
            if q < deg + 1:
                raise sym.sem(ValueError("quadrature degree too low"))
            return ("integral", q)
        raise sym.sem(ValueError("variant"))
    ip.contracts[check_format_variant] = variants
    for x in (raviart_thomas.RaviartThomas, nedelec.Nedelec):
        S.whole = dict(getattr(S, "whole", {}))
        S.whole[x] = ip.contracts.pop(x)
    for n, (m, f) in SPACES.items():
        fn = getattr(importlib.import_module("FIAT." + m), f)

        def space(ip, args, kw, n=n):
            cc, deg = args[0], Rat.of(args[1])
            d = len(cc.get_vertices()) - 1
            if n != "RTSpace" and d != int(n[-2]):
                raise sym.sem(Exception(n + " on the wrong cell"))
            # the constructor starts with the orthonormal set of degree + 1
            ip.contracts[P.ONPolynomialSet](ip, (cc, deg + 1), {})
            num = (rtdim if n == "RTSpace" else n1dim)(deg + 1, d)
            return S.pset(n[:12], cc, deg + 1, (d,), num)
        ip.contracts[fn] = space

    def init(ip, args, kw):
        self, names = args[0], ("poly_set", "dual", "order", "formdegree", "mapping", "ref_el")
        a = dict(formdegree=None, mapping="affine", ref_el=None)
        a.update(zip(names, args[1:]))
        a.update(kw)
        ps = a["poly_set"]
        ref = ps._attrs["get_reference_element"]() if a["ref_el"] is None else a["ref_el"]
        n = D.length(a["dual"].nodes)
        if eng.entails(n != ps._attrs["get_num_members"]()):
            import numpy
            raise sym.sem(numpy.linalg.LinAlgError("not square"))
        eng.prove("%s: precondition of CiarletElement (as many functionals as members)" % eng.where, n == ps._attrs["get_num_members"]())
        import types
        ip.call(types.MethodType(E.FiniteElement.__init__, self), [ref, a["dual"], a["order"], a["formdegree"], a["mapping"]], {})
        ip.store_attr(self, "given", ps) if hasattr(ip, "store_attr") else self.__dict__.__setitem__("given", ps)
        self.__dict__["poly_set"] = ps
        return None
    ip.contracts[E.CiarletElement.__init__] = init
    return S


def build(S, nm, e, c, variant, degree):
    import importlib
    fn = getattr(importlib.import_module("FIAT." + e.module), e.fn)
    args = [c, degree]
    if variant is not None:
        args.append(variant)
    return S.ip.call(fn, args, {}) if not isinstance(fn, type) else S.ip.construct(fn, args, {})


def simplex(c, e):
    """the cell of the polynomial set"""
    from FIAT import reference_element as R
    if not e.flat:
        return c
    return R.ufc_simplex(c.get_spatial_dimension())


def accepted(prop, name, cname, variant):
    e = ELS[name]
    c = cell(cname)
    d = CELLS[cname][0]
    S = setting("%s on the %s%s" % (name, cname, ", %s" % variant if variant else ""), c)
    eng = S.eng
    eng.assume(k >= e.low)
    if e.high is not None:
        eng.assume(k <= e.high)
    nm = "%s.%s" % (e.module, e.fn)
    v = variant
    if variant == "integral(n)":
        eng.assume(q >= k + 1 + e.order)

    def go():
        eng.where = nm
        el = build(S, nm, e, c, v, k)
        post(S, prop, nm, e, el, c, d)
        return el
    for pc, kind, val in eng.explore(go):
        if kind == "raise":
            if prop == "C18" or True:
                finish(eng, pc, kind, val, "accepts every supported request", None, nm)
    return eng.result()


def post(S, prop, nm, e, el, c, d):
    eng, ip = S.eng, S.ip
    if prop == "C18":
        eng.prove(nm + ": accepts every supported request", True)
        return
    ps = el.given
    if prop == "C01":
        call = lambda m, *a: pure(eng, ip, getattr(el, m), list(a), {})        # noqa: E731
        eng.prove(nm + ": the basis is the one CiarletElement computed", el.poly_set is ps and call("get_nodal_basis") is ps)
        eng.prove(nm + ": the degrees of freedom are those of the dual set it was computed for", call("dual_basis") is el.dual.nodes and call("get_dual_set") is el.dual)
        eng.prove(nm + ": as many basis functions as degrees of freedom", band(Rat.of(call("space_dimension")) == D.length(el.dual.nodes), D.length(el.dual.nodes) == ps._attrs["get_num_members"]()))
        return
    shape = {"v": (d,), "m": (d, d)}.get(e.shape, ())
    if prop == "C14":
        tag = e.space + ("%dD" % d if e.space == "NedelecSpace" else "")
        eng.prove(nm + ": the element is built from the space of its family", ps._kind == tag[:12] and ps._attrs["get_shape"]() == shape,
                  "%s of shape %s" % (ps._kind, ps._attrs["get_shape"]()))
        eng.prove(nm + ": the space has the degree of the element", ps._attrs["get_embedded_degree"]() == k, "degree %s" % ps._attrs["get_embedded_degree"]())
        cc = ps._attrs["get_reference_element"]()
        want = simplex(c, e)
        eng.prove(nm + ": the space lives on the cell of the element", cc.get_vertices() == want.get_vertices() and cc.get_topology() == want.get_topology())
        return
    call = lambda m, *a: pure(eng, ip, getattr(el, m), list(a), {})        # noqa: E731
    n = Rat.of(call("space_dimension"))
    eng.prove(nm + ": space_dimension is the dimension of the space", n == e.dim(d), "%s, expected %s" % (n, e.dim(d)))
    eng.prove(nm + ": the dual basis has as many functionals", D.length(call("dual_basis")) == n)
    eng.prove(nm + ": degree is the polynomial degree of the space", Rat.of(call("degree")) == k, "%s" % call("degree"))
    eng.prove(nm + ": the element has the cell it was asked for", call("get_reference_element") is c)
    f = call("get_formdegree")
    if e.form is not None:
        eng.prove(nm + ": form degree", f is not None and Rat.of(f) == e.form(d), "%s" % f)
    m = call("mapping")
    segs = m.as_segs() if isinstance(m, Seq) else [("items", list(m))]
    names = set()
    for g in segs:
        if isinstance(g, SymIter):
            names.add(g.fn(sym.fresh("k")))
        else:
            names.update(g[1])
    eng.prove(nm + ": one mapping name per basis function", D.length(m) == n, "%s names" % D.length(m))
    eng.prove(nm + ": the mapping is the one of the family", names == {e.mapping}, "%s" % names)
    eng.prove(nm + ": value shape", tuple(call("value_shape")) == {"v": (d,), "m": (d, d)}.get(e.shape, ()))
    eng.prove(nm + ": one sub-element", Rat.of(call("num_sub_elements")) == 1)
    eng.prove(nm + ": the element is nodal", call("is_nodal") is True)
    eng.prove(nm + ": entity_dofs and entity_closure_dofs are those of the dual set", call("entity_dofs") is el.dual.entity_ids and call("entity_closure_dofs") is el.dual.entity_closure_ids
              and call("get_dual_set") is el.dual)


def refused(name, cname, variant):
    """Every degree below (above) the supported ones, and every degree on a
    cell of another family, raises."""
    e = ELS[name]
    c = cell(cname)
    nm = "%s.%s" % (e.module, e.fn)
    S = setting("%s refused on the %s" % (name, cname), c)
    eng = S.eng
    eng.where = nm
    what = nm + ": an unsupported request raises"
    ranges = [(None, -1)] + [(j, j) for j in range(e.low)] + ([(e.high + 1, None)] if e.high is not None else [])
    if cname not in e.cells:
        ranges = [(None, None)]
    base = list(eng.pc)
    import warnings

    def explore():
        for pc, kind, v in eng.explore(lambda: build(S, nm, e, c, variant, k)):
            b = list(eng.pc)
            eng.pc = b + list(pc)
            if kind == "raise" and not getattr(v, "_pyvc", False):
                raise Unsupported("%s: %s" % (type(v).__name__, v))
            eng.prove(what, kind == "raise", "%s" % [str(p) for p in pc])
            eng.pc = b
    for lo, hi in ranges:
        if lo is not None and lo == hi:
            import importlib
            fn = getattr(importlib.import_module("FIAT." + e.module), e.fn)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    fn(*([c, lo] + ([variant.replace("(n)", "(9)")] if variant else [])))
                eng.prove(what, False, "degree %d is accepted" % lo)
            except Exception:
                eng.prove(what, True)
            continue
        eng.pc = list(base)
        if lo is not None:
            eng.assume(k >= lo)
        if hi is not None:
            eng.assume(k <= hi)
        explore()
    if variant == "integral(n)" and cname in e.cells:
        eng.pc = list(base)
        eng.assume(k >= e.low)
        eng.assume(q < k + 1 + e.order)
        eng.assume(q >= 0)
        explore()
    eng.pc = base
    return eng.result()


def obligations(prop):
    out = []
    for n, e in ELS.items():
        for c in e.cells:
            for v in e.variants:
                out.append(("element/%s/%s%s" % (n, c, "/%s" % v if v else ""), "specs.elements", "accepted", (prop, n, c, v)))
                if prop == "C18":
                    out.append(("refuse/%s/%s%s" % (n, c, "/%s" % v if v else ""), "specs.elements", "refused", (n, c, v)))
        if prop == "C18":
            for c in e.reject:
                out.append(("refuse/%s/%s" % (n, c), "specs.elements", "refused", (n, c, None)))
    return out



OBLIGATIONS = obligations("C19")
