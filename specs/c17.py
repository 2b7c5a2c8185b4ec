"""C17 obligations: facet trace elements, for a symbolic degree, number of
degrees of freedom of the facet elements, and number of points."""
import itertools

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, band, bor, bnot, isym, Unsupported
from vlib.pyvc.values import SymArr, SymIter, Seq, SDict, Opaque
from specs.c15 import engine
from specs.c10 import native, same
from specs.c12 import dualset, concatenated, at, as_seq, dispatch, places
from specs.util import finish, pure
import numpy


def cells(name):
    from FIAT import reference_element as R
    one = dict(I=R.UFCInterval, T=R.UFCTriangle, S=R.UFCTetrahedron, Q=R.UFCQuadrilateral, H=R.UFCHexahedron, P=R.Point, DT=R.DefaultTriangle, DS=R.DefaultTetrahedron, IT=R.IntrepidTriangle, IS=R.IntrepidTetrahedron)
    if "x" in name:
        return R.TensorProductCell(*[cells(c) for c in name.split("x")])
    return one[name]()


def sd(c):
    return c.get_spatial_dimension()


class DG(object):
    """contract of an element on a facet: one point evaluation per basis
    function, a table of values at the points asked for"""

    def __init__(self, eng, tag, cell, what):
        self.eng, self.cell, self.what, self.tag = eng, cell, what, tag
        self.n, self.deg = isym("n" + tag), isym("degree" + tag)
        eng.assume(self.n >= 1)
        self.calls = []
        d = sd(cell)
        self.nodes = Seq.from_segs([SymIter(self.n, lambda i: Opaque("dof" + tag, (i,), dict(get_point_dict=lambda: SDict({tuple(self.x(i, c) for c in range(d)): Seq([(Rat.of(1), ())])}))))])
        self.el = Opaque("element" + tag, (), dict(space_dimension=lambda: self.n, degree=lambda: self.deg, dual_basis=lambda: self.nodes, get_reference_element=lambda: cell, ref_el=cell,
                                                   tabulate=lambda order, pts, entity=None: self.tabulate(order, pts, entity), value_shape=lambda: (), is_nodal=lambda: True))
        self.el._dg = self

    def x(self, i, c):
        return sym.app("x" + self.tag, i, c)

    def tabulate(self, order, pts, entity):
        self.eng.prove("HDivTrace.tabulate: the facet element is asked for values in its own cell", Rat.of(order) == 0 and (entity is None or entity == (self.cell.get_dimension(), 0)))
        self.calls.append(pts)
        n = pts.shape[0] if isinstance(pts, (SymArr, numpy.ndarray)) else as_seq(pts).length()
        return SDict({(0,) * sd(self.cell): SymArr((self.n, n), lambda i: sym.app("phi" + self.tag, i[0], i[1]))})


def facet_elements(ip):
    """DiscontinuousLagrange and TensorProductElement by their contracts"""
    from FIAT import discontinuous_lagrange as D, tensor_product as TP
    made = []

    def dg(ip, g, kw):
        g = list(g) + [kw[k] for k in ("ref_el", "degree") if k in kw]
        made.append(DG(ip.eng, "%d" % len(made), g[0], ("DG", g[0], g[1])))
        return made[-1].el

    def tp(ip, g, kw):
        from FIAT import reference_element as R
        parts = [e._dg for e in g]
        made.append(DG(ip.eng, "%d" % len(made), R.TensorProductCell(*[p.cell for p in parts]), ("TP",) + tuple(p.what for p in parts)))
        return made[-1].el
    ip.contracts[D.DiscontinuousLagrange] = dg
    ip.contracts[TP.TensorProductElement] = tp
    return made


def expected(cell, k):
    """the discontinuous Lagrange element of a facet"""
    from FIAT import reference_element as R
    s = cell.get_shape()
    if s in (R.LINE, R.TRIANGLE):
        return [(s, k)]
    if s == R.QUADRILATERAL:
        return [(R.LINE, k), (R.LINE, k)]
    if s == R.POINT:
        return []
    return [x for c, kk in zip(cell.cells, k) for x in expected(c, kk)]


def leaves(w):
    if w[0] == "DG":
        return [w]
    return [x for y in w[1:] for x in leaves(y)]


def matches(eng, what, cell, k):
    """`what` is the element expected on a facet"""
    want, got = expected(cell, k), leaves(what)
    return len(want) == len(got) and all(g[1].get_shape() == s and type(g[1]).__name__ != "x" for g, (s, _) in zip(got, want)) and band(*[Rat.of(g[2]) == kk for g, (_, kk) in zip(got, want)])


def transforms(ip):
    """get_entity_transform by contract (C08): an affine map of the entity's
    cell onto the entity"""
    from FIAT import reference_element as R

    def f(self, dim, i):
        top = self.get_topology()
        if dim not in top or i not in top[dim]:
            raise Unsupported("transform of an entity that does not exist")
        return lambda pt: tuple(sym.app("F%s_%d" % (str(dim).replace(" ", ""), i), c, *list(pt)) for c in range(sd(self)))
    for cls in (R.Cell, R.Simplex, R.UFCQuadrilateral, R.TensorProductCell, R.UFCHexahedron, R.Point, getattr(R, "SimplicialComplex", R.Cell)):
        g = vars(cls).get("get_entity_transform")
        if g is not None:
            ip.contracts[g] = lambda ip, g, kw: f(*g, **kw)


def evaluations(ip):
    from FIAT import functional as F
    ip.contracts[F.PointEvaluation] = lambda ip, g, kw: Opaque("evaluation", tuple(g[1]), dict(cell=g[0]))


def facets(cell):
    top = cell.get_topology()
    tot = lambda d: sum(d) if isinstance(d, tuple) else d     # noqa: E731
    return [(d, e) for d in sorted(top) if tot(d) == sd(cell) - 1 for e in sorted(top[d])]


def degrees(eng, cell, kind):
    """-> (argument, degrees expected per factor or the one degree)"""
    ks = [isym("k%d" % i) for i in range(len(getattr(cell, "cells", ()) or (0,)))]
    for k in ks:
        eng.assume(k >= 0)
    if kind == "one":
        return ks[0], ((ks[0],) * len(cell.cells) if hasattr(cell, "cells") and cell.cells else ks[0])
    if kind == "list":
        return Seq(ks), tuple(ks)
    return tuple(ks), tuple(ks)


def setup(cname, kind):
    from FIAT import hdiv_trace as X
    nm = "HDivTrace"
    eng, ip = engine(nm)
    native(ip)
    ip.lazy_extremes = True
    cell = cells(cname)
    deg, ks = degrees(eng, cell, kind)
    made = facet_elements(ip)
    transforms(ip)
    evaluations(ip)
    dualset(ip, [])
    C = X.HDivTrace

    def build():
        del made[:]
        eng.where = nm
        el = object.__new__(C)
        ip.call(C.__init__, [el, cell, deg], {})
        return el
    return eng, ip, cell, ks, made, C, build


def construction(cname, kind):
    eng, ip, cell, ks, made, C, build = setup(cname, kind)
    nm = "HDivTrace"

    def go():
        el = build()
        fs = facets(cell)
        dims = sorted({d for d, e in fs})
        D = el.dg_elements
        eng.prove(nm + ": one facet element per kind of facet", set(D) == set(dims))
        for d in dims:
            eng.prove(nm + ": the facet element is the discontinuous Lagrange element of the degree", matches(eng, D[d]._dg.what, cell.construct_subelement(d), ks))
        ids, top = el.dual.entity_ids, cell.get_topology()
        eng.prove(nm + ": one list for every entity", set(ids) == set(top) and all(set(ids[d]) == set(top[d]) for d in top))
        off, want = Rat.of(0), []
        for d in top:
            for e in top[d]:
                if (d, e) not in fs:
                    eng.prove(nm + ": no degrees of freedom off the facets", Rat.of(as_seq(ids[d][e]).length()) == 0)
        for d, e in fs:
            n = D[d]._dg.n
            concatenated(eng, nm, "the degrees of freedom of a facet (numbered facet by facet)", ids[d][e], [(n, lambda k, off=off: off + k)], lambda a, b: Rat.of(a) == Rat.of(b))
            off = off + n
            want.append((n, lambda k, d=d, e=e: (d, e, k)))

        def is_node(v, w):
            d, e, k = w
            g = D[d]._dg
            p = [g.x(k, c) for c in range(sd(g.cell))]
            img = [sym.app("F%s_%d" % (str(d).replace(" ", ""), e), c, *p) for c in range(sd(cell))]
            if not isinstance(v, Opaque) or v._kind != "evaluation" or len(v._args) != len(img) or v._attrs["cell"] is not cell:
                return False
            return band(*[Rat.of(a) == b for a, b in zip(v._args, img)])
        concatenated(eng, nm, "functionals (evaluations at the images of the facet element's points)", el.dual.nodes, want, is_node)
        got = Rat.of(el.degree() if not hasattr(el, "polydegree") else pure(eng, ip, C.degree, [el], {}))
        ds = [D[d]._dg.deg for d in dims]
        eng.prove(nm + ": the degree is the largest of the facet elements'", band(bor(*[got == x for x in ds]), *[got >= x for x in ds]))
        eng.prove(nm + ": a scalar nodal element on the cell", pure(eng, ip, C.value_shape, [el], {}) == () and pure(eng, ip, ip.getattr(el, "is_nodal"), [], {}) is True and pure(eng, ip, C.get_reference_element, [el], {}) is cell)
        eng.prove(nm + ": form degree of the facets, mapped as scalars", Rat.of(pure(eng, ip, C.get_formdegree, [el], {})) == sd(cell) - 1)
        concatenated(eng, nm, "mapping names", pure(eng, ip, C.mapping, [el], {}), [(off, lambda k: "affine")], lambda a, b: a == b)
        eng.prove(nm + ": the dimension is the number of degrees of freedom", Rat.of(pure(eng, ip, C.space_dimension, [el], {})) == off)
        return el
    dispatch(eng, nm, go, True)
    eng.assumptions += ["DiscontinuousLagrange and TensorProductElement by contract (C01, C02, C10); entity transforms by contract (C08); DualSet constructor by contract (C02)"]
    return eng.result()


def refused(cname, degs):
    from FIAT import hdiv_trace as X
    nm = "HDivTrace"
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    facet_elements(ip)
    transforms(ip)
    evaluations(ip)
    dualset(ip, [])
    ks = [isym("k%d" % i) for i in range(max(degs, 1))]
    for k in ks:
        eng.assume(k >= 0)
    deg = ks[0] if degs == 0 else tuple(ks)
    C = X.HDivTrace
    dispatch(eng, nm, lambda: (setattr(eng, "where", nm), ip.call(C.__init__, [object.__new__(C), cell, deg], {})), False)
    return eng.result()


# ---------------------------------------------------------------- tabulation
def points(eng, n, dim, tag="p"):
    return Seq.from_segs([SymIter(n, lambda q: tuple(sym.app(tag, q, c) for c in range(dim)))])


def check_values(eng, nm, T, el, d, order, npts, facet, value):
    """zero off the facet's own degrees of freedom, the facet element's values on them"""
    from FIAT import hdiv_trace as X
    cell = el.ref_el
    mis = {al for al in itertools.product(range(order + 1), repeat=sd(cell)) if sum(al) <= order}
    eng.prove(nm + ": one entry per derivative", set(T) == mis)
    for al in mis:
        if sum(al):
            eng.prove(nm + ": derivatives are an error value", isinstance(T[al], X.TraceError))
    t = T[(0,) * sd(cell)]
    D = el.dg_elements
    fs = facets(cell)
    tot = sum([D[dd]._dg.n for dd, e in fs], Rat.of(0))
    t = values.as_symarr(t).frozen()
    fits = len(t.shape) == 2
    eng.prove(nm + ": the table has a row per basis function and a column per point", fits and band(Rat.of(t.shape[0]) == tot, Rat.of(t.shape[1]) == npts))
    if not fits:
        return
    off = Rat.of(0)
    for dd, e in fs:
        n = D[dd]._dg.n
        i, q = sym.fresh("i"), sym.fresh("q")
        base = list(eng.pc)
        eng.assume(band(i >= 0, i < n, q >= 0, q < npts))
        w = value(i, q) if (dd, e) == facet else Rat.of(0)
        eng.prove(nm + (": the facet's own functions take the facet element's values" if (dd, e) == facet else ": the other facets' functions are zero"), Rat.of(t.at((off + i, q))) == w)
        eng.pc = base
        off = off + n


def on_entity(cname, dim, e):
    """tabulate(order, points, (dim, e))"""
    from FIAT import hdiv_trace as X
    eng, ip, cell, ks, made, C, build = setup(cname, "one")
    nm = "HDivTrace.tabulate"
    facet = (dim, e) in facets(cell)
    npts = isym("npts")
    eng.assume(npts >= 1)

    def go():
        el = build()
        eng.where = nm
        pts = points(eng, npts, sd(cell.construct_subelement(dim)))
        for order in (0, 1, 2):
            for m in made:
                del m.calls[:]
            T = pure(eng, ip, C.tabulate, [el, order, pts, (dim, e)], {})
            if not facet:
                eng.prove(nm + ": off the facets every entry is an error value", len(T) > 0 and all(isinstance(v, X.TraceError) for v in T.values()))
                eng.prove(nm + ": off the facets no element is evaluated", not any(m.calls for m in made))
                continue
            g = el.dg_elements[dim]._dg
            eng.prove(nm + ": the facet element is evaluated at the given points", len(g.calls) >= 1 and all(c is pts for c in g.calls))
            check_values(eng, nm, T, el, sd(cell), order, npts, (dim, e), lambda i, q: sym.app("phi" + g.tag, i, q))
        return el
    dispatch(eng, nm, go, True)
    eng.assumptions += ["the facet elements' contracts; order of derivatives enumerated (0, 1, 2)"]
    return eng.result()


CELLS = ("T", "S", "DT", "DS", "IT", "IS", "Q", "IxI", "TxI", "IxIxI", "QxI")
OBLIGATIONS = [("trace %s degree %s" % (c, k), "specs.c17", "construction", (c, k)) for c in CELLS for k in (("one",) if "x" not in c else ("one", "tuple", "list"))]
OBLIGATIONS += [("trace refused %s %d" % (c, k), "specs.c17", "refused", (c, k)) for c, k in (("P", 0), ("I", 0), ("H", 0), ("T", 2), ("S", 3), ("Q", 2), ("IxI", 3), ("IxI", 1), ("TxI", 3), ("IxIxI", 2))]


def ents():
    return [(c, d, e) for c in CELLS for d, es in sorted(cells(c).get_topology().items()) for e in sorted(es)]


OBLIGATIONS += [("trace on %s %s %s" % x, "specs.c17", "on_entity", x) for x in ents()]


# ------------------------------------------------------- points in the cell
def barycentric_sum(eng, c, vertices, x):
    """conditions: c are barycentric coordinates of x in the simplex"""
    out = [sum(c, Rat.of(0)) == 1]
    for k in range(len(x)):
        out.append(sum([ci * v[k] for ci, v in zip(c, vertices)], Rat.of(0)) == x[k])
    return out


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum([(-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M))], Rat.of(0))


def barycentric(d, kind):
    """barycentric_coordinates(points, vertices): for any simplex"""
    from FIAT import hdiv_trace as X
    nm = "barycentric_coordinates"
    eng, ip = engine(nm)
    n = isym("npts")
    eng.assume(n >= 1)
    V = [tuple(sym.app("v", i, c) for c in range(d)) for i in range(d + 1)]
    pts = points(eng, n, d)
    if kind == "array":
        pts = SymArr((n, d), lambda i: sym.app("p", *i))
    eng.assume(det([[a - b for a, b in zip(v, V[-1])] for v in V[:-1]]) != 0)
    for pc, k_, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(X.barycentric_coordinates, [pts, tuple(V)], {}))[1]):
        base = list(eng.pc)
        eng.pc = base + list(pc)
        if k_ == "raise":
            finish(eng, pc, k_, v, "returns", None, nm)
            eng.pc = base
            continue
        t = values.as_symarr(v).frozen()
        fits = len(t.shape) == 2
        eng.prove(nm + ": a row per point, a column per vertex", fits and band(Rat.of(t.shape[0]) == n, Rat.of(t.shape[1]) == d + 1))
        q = sym.fresh("q")
        eng.assume(band(q >= 0, q < n))
        c = [Rat.of(t.at((q, i))) for i in range(d + 1)]
        for cond in barycentric_sum(eng, c, V, [sym.app("p", q, k) for k in range(d)]):
            eng.prove(nm + ": coordinates add up to one and combine the vertices to the point", cond)
        eng.pc = base
    return eng.result()


def unique_facet(d, m):
    """extract_unique_facet on m points: the one vertex whose coordinate
    vanishes at all of them, if there is exactly one"""
    from FIAT import hdiv_trace as X
    nm = "extract_unique_facet"
    eng, ip = engine(nm)
    L = [[sym.app("l%d" % q, i) for i in range(d + 1)] for q in range(m)]
    tol = sym.app("tol")
    ip.lazy_extremes, eng.max_paths = True, 2000
    eng.assume(tol > 0)
    small = lambda x: band(x < tol, -x < tol)      # noqa: E731
    A = numpy.array(L, dtype=object)
    for pc, k_, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(X.extract_unique_facet, [A, tol], {}))[1]):
        if k_ == "raise":
            finish(eng, pc, k_, v, "returns", None, nm)
            continue
        base = list(eng.pc)
        eng.pc = base + list(pc)
        all_ = [band(*[small(L[q][i]) for q in range(m)]) for i in range(d + 1)]
        got, ok = v
        if ok is True:
            got = int(got)
            eng.prove(nm + ": all points are on the facet it returns and on no other", band(all_[got], *[bnot(a) for i, a in enumerate(all_) if i != got]))
        else:
            eng.prove(nm + ": fails only when no facet or several contain all points", ok is False and band(*[bnot(band(all_[i], *[bnot(a) for j, a in enumerate(all_) if j != i])) for i in range(d + 1)]))
        eng.pc = base
    eng.assumptions += ["number of points enumerated (1, 2): bounded in that number"]
    return eng.result()


def reference_vertices(cell):
    return [tuple(Rat.of(x) for x in v) for v in cell.get_vertices()]


def affine_to(cell, verts, y):
    """the affine map of a reference simplex onto the simplex `verts`"""
    V = [[Rat.of(x) for x in v] for v in cell.get_vertices()]
    h = V[1][0] - V[0][0]
    # the other vertices lie on the axes through the first, at one distance
    for i, v in enumerate(V):
        if any((v[j] - V[0][j] - (h if j == i - 1 else 0)).const() != 0 for j in range(len(v))):
            raise Unsupported("a reference simplex with other vertices")
    lam = [(a - b) / h for a, b in zip(y, V[0])]
    lam = [1 - sum(lam, Rat.of(0))] + lam
    return [sum([l * Rat.of(v[k]) for l, v in zip(lam, verts)], Rat.of(0)) for k in range(len(verts[0]))]


def on_cell(cname, kind="list"):
    """tabulate(order, points) at points of the cell"""
    from FIAT import hdiv_trace as X
    eng, ip, cell, ks, made, C, build = setup(cname, "one")
    nm = "HDivTrace.tabulate in the cell"
    d = sd(cell)
    npts = isym("npts")
    eng.assume(npts >= 1)
    if kind == "array":
        pts = SymArr((npts, d), lambda i: sym.app("p", *i))
    else:
        pts = points(eng, npts, d)
    choice = isym("facet")
    state = {}

    def extract(coordinates, *a):
        """contract of extract_unique_facet: i if all the points' i-th
        coordinates (and no others) vanish"""
        eng.prove(nm + ": the tolerance of the identification is the module's", len(a) == 0 or Rat.of(a[0]) == X.epsilon)
        c = values.as_symarr(coordinates).frozen()
        q = sym.fresh("q")
        base = list(eng.pc)
        eng.assume(band(q >= 0, q < npts))
        for cond in barycentric_sum(eng, [Rat.of(c.at((q, i))) for i in range(d + 1)], [tuple(Rat.of(x) for x in v) for v in cell.get_vertices()], [sym.app("p", q, k) for k in range(d)]):
            eng.prove(nm + ": the facet is identified by the barycentric coordinates of the points", cond)
        eng.pc = base
        for i in range(d + 1):
            if bool(choice == i):
                state["facet"] = i
                # every point has a vanishing i-th coordinate (in exact terms)
                bary_zero.append(lambda q, i=i: Rat.of(c.at((q, i))) == 0)
                return (i, True)
        state["facet"] = None
        return (None, False)
    bary_zero = []
    ip.contracts[X.extract_unique_facet] = lambda ip, g, kw: extract(*g, **kw)
    if "x" in cname or cname == "Q":
        def refuse():
            el = build()
            eng.where = nm
            return pure(eng, ip, C.tabulate, [el, 0, pts], {})
        dispatch(eng, nm, refuse, False)
        return eng.result()

    def go():
        el = build()
        eng.where = nm
        for order in (0, 1, 2):
            state.clear()
            del bary_zero[:]
            for m in made:
                del m.calls[:]
            T = pure(eng, ip, C.tabulate, [el, order, pts], {})
            g = el.dg_elements[d - 1]._dg
            mis = {al for al in itertools.product(range(order + 1), repeat=d) if sum(al) <= order}
            v = state["facet"]
            if v is None:
                eng.prove(nm + ": one entry per derivative", set(T) == mis)
                eng.prove(nm + ": no element is evaluated for points on no facet or several", not any(m.calls for m in made))
                for al in mis:
                    t = T[al]
                    if isinstance(t, X.TraceError):
                        continue
                    t = values.as_symarr(t)
                    x = t.frozen().at((sym.fresh("i"), sym.fresh("q")))
                    eng.prove(nm + ": points on no facet or several give no numbers", isinstance(x, float) and x != x or is_nan(x))
                continue
            top = cell.get_topology()
            f, = [e for e in top[d - 1] if v not in top[d - 1][e]]
            eng.prove(nm + ": the facet element is evaluated once", len(g.calls) == 1)
            given = g.calls[0]
            check_values(eng, nm, T, el, d, order, npts, (d - 1, f), lambda i, q: sym.app("phi" + g.tag, i, q))
            # at the points of its own cell which the facet's map takes to the points given
            a = values.as_symarr(given).frozen()
            eng.prove(nm + ": one point per point given", len(a.shape) == 2 and band(Rat.of(a.shape[0]) == npts, Rat.of(a.shape[1]) == d - 1))
            q = sym.fresh("q")
            base = list(eng.pc)
            eng.assume(band(q >= 0, q < npts))
            eng.assume(bary_zero[-1](q))
            img = affine_to(g.cell, [cell.get_vertices()[j] for j in top[d - 1][f]], [Rat.of(a.at((q, k))) for k in range(d - 1)])
            for k in range(d):
                eng.prove(nm + ": the facet element is evaluated at the points themselves, in the facet's coordinates", img[k] == sym.app("p", q, k))
            eng.pc = base
        return el
    dispatch(eng, nm, go, True)
    eng.assumptions += ["extract_unique_facet by contract (below); points exactly on the facet; order of derivatives enumerated (0, 1, 2)"]
    return eng.result()


def is_nan(x):
    x = Rat.of(x) if not isinstance(x, float) else x
    return isinstance(x, Rat) and any(sym.ATOMS[a].name == "nan" for a in x.atoms())


def map_to(d):
    from FIAT import hdiv_trace as X
    nm = "map_to_reference_facet"
    eng, ip = engine(nm)
    native(ip)
    n = isym("npts")
    eng.assume(n >= 1)
    V = [tuple(sym.app("v", i, c) for c in range(d)) for i in range(d + 1)]
    pts = points(eng, n, d)
    Lc = lambda q, i: sym.app("lam", q, i)     # noqa: E731
    ip.contracts[X.barycentric_coordinates] = lambda ip, g, kw: SymArr((n, d + 1), lambda i: Lc(*i)) if g[0] is pts and tuple(map(tuple, g[1])) == tuple(V) else (_ for _ in ()).throw(Unsupported("coordinates of other points"))
    for f in range(d + 1):
        for pc, k_, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(X.map_to_reference_facet, [pts, tuple(V), f], {}))[1]):
            if k_ == "raise":
                finish(eng, pc, k_, v, "returns", None, nm)
                continue
            base = list(eng.pc)
            eng.pc = base + list(pc)
            q = sym.fresh("q")
            eng.assume(band(q >= 0, q < n))
            eng.prove(nm + ": one point per point", Rat.of(as_seq(v).length()) == n)
            r = values.as_symarr(at(v, q)).frozen()
            rest = [j for j in range(d + 1) if j != f]
            # reference vertices: origin and unit vectors
            for k in range(d - 1):
                eng.prove(nm + ": the point of the reference facet with the same barycentric coordinates", Rat.of(r.at((k,))) == Lc(q, rest[k + 1]))
            eng.pc = base
    eng.assumptions += ["barycentric_coordinates by contract (above)"]
    return eng.result()


def map_from(d):
    from FIAT import hdiv_trace as X
    nm = "map_from_reference_facet"
    eng, ip = engine(nm)
    native(ip)
    V = [tuple(sym.app("v", i, c) for c in range(d + 1)) for i in range(d + 1)]
    pt = tuple(sym.app("y", c) for c in range(d))
    A = [numpy.array(v, dtype=object) for v in V]
    for pc, k_, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(X.map_from_reference_facet, [pt, A], {}))[1]):
        if k_ == "raise":
            finish(eng, pc, k_, v, "returns", None, nm)
            continue
        lam = [1 - sum(pt, Rat.of(0))] + list(pt)
        base = list(eng.pc)
        eng.pc = base + list(pc)
        for k in range(d + 1):
            eng.prove(nm + ": the affine map onto the facet", Rat.of(v[k]) == sum([l * w[k] for l, w in zip(lam, V)], Rat.of(0)))
        eng.pc = base
    return eng.result()


OBLIGATIONS += [("barycentric coordinates %d %s" % (d, k), "specs.c17", "barycentric", (d, k)) for d in (1, 2, 3) for k in ("list", "array")]
OBLIGATIONS += [("unique facet %d, %d points" % x, "specs.c17", "unique_facet", x) for x in ((2, 1), (2, 2), (3, 1), (3, 2))]
OBLIGATIONS += [("trace in %s, points as %s" % x, "specs.c17", "on_cell", x) for x in itertools.product(("T", "S", "DT", "DS", "IT", "IS", "Q", "TxI"), ("list", "array"))]
OBLIGATIONS += [("to reference facet %d" % d, "specs.c17", "map_to", (d,)) for d in (2, 3)] + [("from reference facet %d" % d, "specs.c17", "map_from", (d,)) for d in (1, 2)]
