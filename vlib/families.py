"""Family specifications: what each element family promises, written from the
literature/docstrings (not from the numbering code).  Everything here is spec
side: formulas in the degree k and the cell dimension."""
from math import comb

from vlib import env  # noqa: F401
import FIAT
from FIAT import reference_element as R


def P(k, d):
    """dim P_k in d variables (0 for negative k)."""
    return comb(k + d, d) if k >= 0 else 0


def rt_dim(k, d):
    if k < 1:
        return 0
    return d * P(k - 1, d) + comb(k - 1 + d - 1, d - 1)


def n1_dim(k, d):
    if k < 1:
        return 0
    return {1: k, 2: k * (k + 2), 3: k * (k + 2) * (k + 3) // 2}[d]


class MovedSimplex(R.Simplex):
    """A simplex in general position with the UFC numbering of sub-entities."""

    def __init__(self, base, verts):
        super().__init__(base.get_shape(), verts, base.get_topology())

    def get_facet_element(self):
        return R.ufc_simplex(self.get_spatial_dimension() - 1)


moved = MovedSimplex


def cells():
    c = {"P": R.ufc_simplex(0), "I": R.ufc_simplex(1), "T": R.ufc_simplex(2), "S": R.ufc_simplex(3),
         "Q": R.UFCQuadrilateral(), "H": R.UFCHexahedron(),
         "DI": R.DefaultLine(), "DT": R.DefaultTriangle(), "DS": R.DefaultTetrahedron(),
         "KT": R.IntrepidTriangle(), "KS": R.IntrepidTetrahedron()}

    # affinely moved simplices with UFC numbering (generic position)
    c["AI"] = moved(R.UFCInterval(), ((0.25,), (1.75,)))
    c["AT"] = moved(R.UFCTriangle(), ((0.1, 0.2), (1.3, -0.1), (0.4, 1.1)))
    c["AS"] = moved(R.UFCTetrahedron(), ((0.1, 0.0, -0.2), (1.2, 0.1, 0.3), (-0.1, 1.1, 0.2), (0.2, 0.3, 1.4)))
    # simplices of negative orientation
    c["RI"] = moved(R.UFCInterval(), ((1.5,), (-0.25,)))
    c["RT"] = moved(R.UFCTriangle(), ((0.1, 0.2), (0.4, 1.1), (1.3, -0.1)))
    c["RS"] = moved(R.UFCTetrahedron(), ((0.1, 0.0, -0.2), (-0.1, 1.1, 0.2), (1.2, 0.1, 0.3), (0.2, 0.3, 1.4)))
    c["IxI"] = R.TensorProductCell(R.UFCInterval(), R.UFCInterval())
    c["TxI"] = R.TensorProductCell(R.UFCTriangle(), R.UFCInterval())
    c["IxT"] = R.TensorProductCell(R.UFCInterval(), R.UFCTriangle())
    c["QxI"] = R.TensorProductCell(R.UFCQuadrilateral(), R.UFCInterval())
    c["IxIxI"] = R.TensorProductCell(R.UFCInterval(), R.UFCInterval(), R.UFCInterval())
    return c


def namespace():
    ns = {}
    ns.update(vars(FIAT))
    import importlib
    for mod, names in (("P0", ["P0"]), ("argyris", ["QuinticArgyris"]), ("tensor_product", ["FlattenedDimensions"]),
                       ("restricted", ["RestrictedElement"])):
        m = importlib.import_module("FIAT." + mod)
        for n in names:
            ns[n] = getattr(m, n)
    ns["Flat"] = ns["FlattenedDimensions"]
    ns["TP"] = ns["TensorProductElement"]
    ns["reference_element"] = R
    import numpy
    ns["numpy"] = numpy
    ns.update(cells())
    return ns


_NS = None


def build(expr):
    """Evaluate an element expression such as "RaviartThomas(T, 2)" freshly."""
    global _NS
    if _NS is None:
        _NS = namespace()
    return eval(expr, _NS)


def cell(name):
    global _NS
    if _NS is None:
        _NS = namespace()
    return _NS[name]


CELL_DIM = {"P": 0, "I": 1, "T": 2, "S": 3, "DI": 1, "DT": 2, "DS": 3, "KT": 2, "KS": 3,
            "AI": 1, "AT": 2, "AS": 3, "Q": 2, "H": 3}


class Fam(object):
    """name: constructor; dims: cell dimensions supported; kmin/kmax: degree
    range (None = unbounded); counts(k, d, e): dofs on an entity of dimension e
    of a cell of dimension d; kind: continuity kind; mapping; formdegree(d);
    vshape(d); degree(k): embedding degree; contains(k): complete polynomial
    degree contained."""

    def __init__(self, name, dims, kmin, kmax, counts, kind, mapping="affine", form=None,
                 vshape=lambda d: (), degree=lambda k, d: k, complete=lambda k, d: k,
                 variants=(None,), has_degree=True, dim=None, extra_cells=True):
        self.__dict__.update(locals())

    def accepts(self, k, d):
        return d in self.dims and k >= self.kmin and (self.kmax is None or k <= self.kmax_of(d))

    def kmax_of(self, d):
        if isinstance(self.kmax, dict):
            return self.kmax[d]
        return self.kmax

    def expr(self, cellname, k, variant=None):
        a = [cellname]
        if self.has_degree:
            a.append(str(k))
        if variant is not None:
            a.append("variant=%r" % variant)
        return "%s(%s)" % (self.name, ", ".join(a))


def lag(k, d, e):
    return 1 if e == 0 else comb(k - 1, e)


def interior_only(f):
    return lambda k, d, e: f(k, d) if e == d else 0


def rt_counts(k, d, e):
    if e == d:
        return d * P(k - 2, d)
    if e == d - 1:
        return P(k - 1, d - 1)
    return 0


def bdm_counts(k, d, e):
    if e == d - 1:
        return P(k, d - 1)
    if e == d:
        return n1_dim(k - 1, d) if d > 1 else d * P(k, d) - (d + 1) * P(k, d - 1)
    return 0


def n1_counts(k, d, e):
    if e == 1:
        return k
    if e == 2:
        return 2 * P(k - 2, 2)
    if e == 3:
        return 3 * P(k - 3, 3)
    return 0


def n2_counts(k, d, e):
    if e == 1:
        return k + 1
    if e == 2:
        return rt_dim(k - 1, 2)
    if e == 3:
        return rt_dim(k - 2, 3)
    return 0


def regge_counts(r, d, e):
    if e == 0:
        return 0
    return {1: 1, 2: 3, 3: 6}[e] * P(r - e + 1, e)


def hhj_counts(r, d, e):
    return {0: 0, 1: P(r, 1), 2: 3 * P(r - 1, 2)}[e]


def argyris_counts(k, d, e):
    return {0: 6, 1: (k - 4) + (k - 5), 2: P(k - 6, 2)}[e]


def hermite_counts(k, d, e):
    if e == 0:
        return 1 + d
    if e == 2:
        return 1
    return 0


vec = lambda d: (d,)       # noqa: E731
mat = lambda d: (d, d)     # noqa: E731
PI = ("point", "integral")

FAMILIES = [
    Fam("Lagrange", (1, 2, 3), 1, None, lag, "H1", form=lambda d: 0),
    Fam("DiscontinuousLagrange", (0, 1, 2, 3), 0, None, interior_only(P), "L2", form=lambda d: d),
    Fam("DiscontinuousTaylor", (1, 2, 3), 0, None, interior_only(P), "L2", form=lambda d: d),
    Fam("P0", (0, 1, 2, 3), 0, 0, interior_only(P), "L2", form=lambda d: d, has_degree=False),
    Fam("CrouzeixRaviart", (1, 2, 3), 1, 1, lambda k, d, e: 1 if e == d - 1 else 0, "CR", form=None),
    Fam("Bernstein", (1, 2, 3), 1, None, lag, "H1", form=lambda d: 0),
    Fam("RaviartThomas", (1, 2, 3), 1, None, rt_counts, "Hdiv", "contravariant piola", lambda d: d - 1, vec,
        lambda k, d: k, lambda k, d: k - 1, PI, dim=rt_dim),
    Fam("DiscontinuousRaviartThomas", (1, 2, 3), 1, None, interior_only(rt_dim), "L2v", "contravariant piola",
        None, vec, lambda k, d: k, lambda k, d: k - 1, dim=rt_dim),
    Fam("BrezziDouglasMarini", (2, 3), 1, None, bdm_counts, "Hdiv", "contravariant piola", lambda d: d - 1, vec,
        variants=PI, dim=lambda k, d: d * P(k, d)),
    Fam("BrezziDouglasFortinMarini", (2,), 2, 2, lambda k, d, e: {0: 0, 1: 2, 2: 3}[e], "Hdiv",
        "contravariant piola", lambda d: d - 1, vec, lambda k, d: k, lambda k, d: k - 1),
    Fam("Nedelec", (2, 3), 1, None, n1_counts, "Hcurl", "covariant piola", lambda d: 1, vec,
        lambda k, d: k, lambda k, d: k - 1, PI, dim=n1_dim),
    Fam("NedelecSecondKind", (2, 3), 1, None, n2_counts, "Hcurl", "covariant piola", lambda d: 1, vec,
        variants=PI, dim=lambda k, d: d * P(k, d)),
    Fam("Regge", (2, 3), 0, None, regge_counts, "tt", "double covariant piola", None, mat,
        dim=lambda k, d: d * (d + 1) // 2 * P(k, d)),
    Fam("HellanHerrmannJohnson", (2,), 0, None, hhj_counts, "nn", "double contravariant piola", None, mat,
        dim=lambda k, d: 3 * P(k, d)),
    Fam("Argyris", (2,), 5, None, argyris_counts, "C1", "affine", None),
    Fam("QuinticArgyris", (2,), 5, 5, lambda k, d, e: {0: 6, 1: 1, 2: 0}[e], "C1", "affine", None,
        has_degree=False),
    Fam("Bell", (2,), 5, 5, lambda k, d, e: {0: 6, 1: 1, 2: 0}[e], "C1bell", "affine", None, has_degree=False),
    Fam("CubicHermite", (1, 2, 3), 3, 3, hermite_counts, "Hermite", "affine", None, has_degree=False),
    Fam("Morley", (2,), 2, 2, lambda k, d, e: {0: 1, 1: 1, 2: 0}[e], "Morley", "affine", None, has_degree=False),
    Fam("ArnoldWinther", (2,), 3, 3, None, "AW", "double contravariant piola", None, mat,
        dim=lambda k, d: 30),
    Fam("ArnoldWintherNC", (2,), 2, 2, None, "AWnc", "double contravariant piola", None, mat,
        dim=lambda k, d: 18),
    Fam("MardalTaiWinther", (2,), 3, 3, None, "MTW", "contravariant piola", None, vec,
        dim=lambda k, d: 20),
    Fam("KongMulderVeldhuizen", (2, 3), 1, {2: 5, 3: 3}, None, "H1", form=lambda d: 0),
    Fam("GaussLegendre", (1,), 0, None, interior_only(P), "L2", form=lambda d: d),
    Fam("GaussLobattoLegendre", (1,), 1, None, lag, "H1", form=lambda d: 0),
    Fam("GaussRadau", (1,), 0, None, interior_only(P), "L2", form=lambda d: d),
]
FAM = {f.name: f for f in FAMILIES}
UFC = {0: "P", 1: "I", 2: "T", 3: "S"}


def instances(kmax, families=None, cellset=UFC, variants=True):
    """All (fam, k, d, cellname, variant, expr) up to degree kmax[d]."""
    for f in FAMILIES:
        if families is not None and f.name not in families:
            continue
        for d in f.dims:
            if d not in cellset:
                continue
            km = kmax[d] if not isinstance(kmax, int) else kmax
            top = max(km, f.kmin)
            hi = f.kmax_of(d) if f.kmax is not None else None
            if hi is not None:
                top = min(top, hi) if f.has_degree else f.kmin
            for k in range(f.kmin, top + 1):
                for v in (f.variants if variants else f.variants[:1]):
                    if v == "integral" and d == 1:
                        continue
                    cn = cellset[d]
                    yield f, k, d, cn, v, f.expr(cn, k, v)
