"""The finite element families whose dual sets are executed for a symbolic
degree: cells, constructor arguments, continuity, dimensions."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym
from vlib.pyvc.sym import Rat, isym
from specs import duals as D
from specs.duals import pdim, binom, rtdim, n1dim
from specs.util import finish

CELLS = {"interval": (1, "UFCInterval"), "triangle": (2, "UFCTriangle"), "tetrahedron": (3, "UFCTetrahedron"), "default triangle": (2, "DefaultTriangle"),
         "default tetrahedron": (3, "DefaultTetrahedron"), "default line": (1, "DefaultLine"),
         "quadrilateral": (2, "UFCQuadrilateral"), "hexahedron": (3, "UFCHexahedron")}


def cell(name):
    from FIAT import reference_element as R
    return getattr(R, CELLS[name][1])()


class Fam(object):
    def __init__(self, module, cls, cells, args, low, kind, dim, trace, klow=None, variants=(None,)):
        self.__dict__.update(locals())


k = isym("degree")


def H1(d):
    return {j: pdim(k, j) for j in range(d)}


def facet(f):
    return lambda d: {d - 1: f(d)}


def merge(*ds):
    out = {}
    for x in ds:
        out.update(x)
    return out


QD = isym("quad_degree")


def ifvar(v):
    return [v, QD if v == "integral" else None]


FAMS = {
    "Lagrange": Fam("lagrange", "LagrangeDualSet", ("interval", "triangle", "tetrahedron", "default triangle", "default line"),
                    lambda c, v: [c, k], 1, "value", lambda d: pdim(k, d), H1),
    # degree is one less than the degree the user asks for
    "RT": Fam("raviart_thomas", "RTDualSet", ("triangle", "tetrahedron", "default triangle"), lambda c, v: [c, k] + ifvar(v), 0, "normal",
              lambda d: rtdim(k + 1, d), lambda d: {d - 1: pdim(k, d - 1)}, variants=("point", "integral")),
    "BDM": Fam("brezzi_douglas_marini", "BDMDualSet", ("triangle", "tetrahedron"), lambda c, v: [c, k] + ifvar(v), 1, "normal",
               lambda d: pdim(k, d) * d, lambda d: {d - 1: pdim(k, d - 1)}, variants=("point", "integral")),
    "N1curl2D": Fam("nedelec", "NedelecDual2D", ("triangle",), lambda c, v: [c, k] + ifvar(v), 0, "tangential",
                    lambda d: n1dim(k + 1, d), lambda d: {1: k + 1}, variants=("point", "integral")),
    "N1curl3D": Fam("nedelec", "NedelecDual3D", ("tetrahedron",), lambda c, v: [c, k] + ifvar(v), 0, "tangential",
                    lambda d: n1dim(k + 1, d), lambda d: {1: k + 1, 2: n1dim(k + 1, 2)}, variants=("point", "integral")),
    "N2curl": Fam("nedelec_second_kind", "NedelecSecondKindDual", ("triangle", "tetrahedron"), lambda c, v: [c, k] + ifvar(v), 1, "tangential",
                  lambda d: pdim(k, d) * d, lambda d: merge({1: k + 1}, {2: 2 * pdim(k, 2)} if d == 3 else {}), variants=("point", "integral")),
}


def none(d):
    return {j: Rat.of(0) for j in range(d)}


def DGc(module, cls, cells, args, low, dim=lambda d: pdim(k, d)):
    return Fam(module, cls, cells, args, low, None, dim, none)


FAMS.update({
    "Regge": Fam("regge", "ReggeDual", ("triangle", "tetrahedron"), lambda c, v: [c, k], 0, "tt",
                 lambda d: pdim(k, d) * (d * (d + 1) // 2), lambda d: {j: pdim(k, j) * (j * (j + 1) // 2) for j in range(1, d)}),
    "HHJ": Fam("hellan_herrmann_johnson", "HellanHerrmannJohnsonDual", ("triangle",), lambda c, v: [c, k], 0, "nn",
               lambda d: pdim(k, 2) * 3, lambda d: {1: k + 1}),
    "CR": Fam("crouzeix_raviart", "CrouzeixRaviartDualSet", ("interval", "triangle", "tetrahedron"), lambda c, v: [c, 1], 0, None,
              lambda d: Rat.of(d + 1), lambda d: {d - 1: Rat.of(1)}),
    "BDFM": Fam("brezzi_douglas_fortin_marini", "BDFMDualSet", ("triangle",), lambda c, v: [c, 1], 0, "normal", lambda d: Rat.of(9), lambda d: {1: Rat.of(2)}),
    "DG": DGc("discontinuous_lagrange", "DiscontinuousLagrangeDualSet", ("interval", "triangle", "tetrahedron"), lambda c, v: [c, k], 1),
    "DPC": DGc("discontinuous_pc", "DPCDualSet", ("interval", "quadrilateral", "hexahedron"), lambda c, v: [c, flat(c), k], 1),
    "P0": DGc("P0", "P0Dual", ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron"), lambda c, v: [c], 0, lambda d: Rat.of(1)),
    "GL": DGc("gauss_legendre", "GaussLegendreDualSet", ("interval",), lambda c, v: [c, k], 0),
    "GR": DGc("gauss_radau", "GaussRadauDualSet", ("interval",), lambda c, v: [c, k], 0),
    "GLL": Fam("gauss_lobatto_legendre", "GaussLobattoLegendreDualSet", ("interval", "default line"), lambda c, v: [c, k], 1, "value",
               lambda d: k + 1, H1),
    "DRT": DGc("discontinuous_raviart_thomas", "DRTDualSet", ("triangle", "tetrahedron"), lambda c, v: [c, k], 0, lambda d: rtdim(k + 1, d)),
    "DTaylor": DGc("discontinuous_taylor", "DiscontinuousTaylorDualSet", ("interval", "triangle", "tetrahedron"), lambda c, v: [c, k], 1),
})


def flat(c):
    from FIAT.reference_element import flatten_reference_cube
    return flatten_reference_cube(c)


def run(prop, name, cname, variant, refine=()):
    f = FAMS[name]
    c = cell(cname)
    d = CELLS[cname][0]
    S = D.Setting("%s on the %s%s" % (name, cname, ", %s" % variant if variant else ""), c)
    eng = S.eng
    eng.assume(k >= f.low)
    if variant == "integral":
        eng.assume(QD >= 0)
    import importlib
    cls = getattr(importlib.import_module("FIAT." + f.module), f.cls)
    nm = "%s.%s" % (f.module, f.cls)

    def go():
        dual = S.ip.construct(cls, f.args(c, variant), {})
        eng.where = nm
        check(S, prop, nm, f, dual, c, d)
        return dual
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "constructs", None, nm)
    return eng.result()


def check(S, prop, nm, f, dual, c, d):
    top = c.get_topology()
    if prop == "C14":
        S.eng.prove(nm + ": as many functionals as the space has dimensions", D.length(dual.nodes) == f.dim(d), "%s, space %s" % (D.length(dual.nodes), f.dim(d)))
        return
    if prop == "C02":
        S.eng.prove(nm + ": the dual set keeps the cell and the functionals", dual.ref_el is c)
        iv = D.numbering(S, nm, dual, top)
        D.equal_counts(S, nm, iv, top)
        D.closures(S, nm, dual, iv, top)
        return
    q = S.quiet()
    iv = D.numbering(S, nm, dual, top)
    q()
    if f.kind is not None or f.cls[:3] == "Cro":
        D.support(S, nm, dual, iv, c)
    D.trace_kind(S, nm, dual, iv, c, f.kind)
    D.trace_counts(S, nm, iv, c, f.trace(d))
    if f.kind is not None and type(c).__name__.startswith("UFC"):
        D.gluing(S, nm, dual, iv, c, f.kind)


def obligations(prop):
    out = []
    for n, f in FAMS.items():
        for c in f.cells:
            for v in f.variants:
                out.append(("%s/%s%s" % (n, c, "/" + v if v else ""), "specs.families", "run", (prop, n, c, v)))
    return out
