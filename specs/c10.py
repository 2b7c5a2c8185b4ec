"""C10 obligations: tensor-product and flattened elements for factors with a
symbolic number of basis functions, points, degrees of freedom per entity and
derivative order, on pairs of shipped cells."""
import itertools

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymArr, SymIter, Seq, SDict, Opaque
from specs.c15 import engine, check_table, jets
from specs.util import finish, pure
import numpy


def cells(name):
    from FIAT import reference_element as R
    one = dict(I=R.UFCInterval, T=R.UFCTriangle, S=R.UFCTetrahedron, Q=R.UFCQuadrilateral)
    if name == "IxI":
        return R.TensorProductCell(R.UFCInterval(), R.UFCInterval())
    return one[name]()


def sdim(c):
    return c.get_spatial_dimension()


def native(ip):
    from FIAT import reference_element as R
    for cls in (R.Cell, R.Simplex, R.UFCSimplex, R.UFCInterval, R.UFCTriangle, R.UFCTetrahedron, R.UFCQuadrilateral, R.UFCHexahedron, R.Point, R.TensorProductCell):
        for n, f in list(vars(cls).items()):
            if callable(f) and n != "get_entity_transform":
                ip.native.add(f)
    for n in ("ufc_simplex", "ufc_cell", "compute_unflattening_map", "flatten_entities", "make_affine_mapping"):
        if hasattr(R, n):
            ip.native.add(getattr(R, n))


class Factor(object):
    """contract of an element: entity_dofs is a partition, tabulate returns for
    each multi-index of order at most m the derivative as a function of the
    entity and the point"""

    def __init__(self, eng, ip, tag, cell, shape):
        self.eng, self.ip, self.tag, self.cell, self.shape = eng, ip, tag, cell, tuple(shape)
        self.n = isym("n" + tag)
        eng.assume(self.n >= 1)
        self.calls = []
        self.entity = None
        self.el = Opaque("element" + tag, (), dict(
            tabulate=lambda order, pts, entity=None: self.tabulate(order, pts, entity), value_shape=lambda: self.shape, space_dimension=lambda: self.n,
            get_reference_element=lambda: cell, ref_el=cell))

    def value(self, m, comp, al, x):
        return sym.app("f" + self.tag, m, *(tuple(comp) + tuple(al) + tuple(x)))

    def point(self, pts, q):
        x = values.seq_at(pts, Rat.of(q), inside=True) if isinstance(pts, Seq) else None
        if x is None:
            a = values.as_symarr(pts).frozen()
            return [Rat.of(a.at((q, c))) for c in range(int(Rat.of(a.shape[1]).concrete()))]
        return [Rat.of(c) for c in x]

    def tabulate(self, order, pts, entity=None):
        self.calls.append((order, entity))
        d = sdim(self.cell)
        n = pts.length() if isinstance(pts, Seq) else pts.shape[0]

        def get(al):
            al = [Rat.of(a) for a in al]
            if len(al) != d:
                raise sym.sem(KeyError(tuple(al)))
            tot = sum(al, Rat.of(0))
            self.eng.prove("%s: only derivatives up to the requested order are read" % self.eng.where,
                           band(tot <= Rat.of(order), *[a >= 0 for a in al]))
            return SymArr((self.n,) + self.shape + (n,), lambda i: self.value(i[0], i[1:-1], al, self.point(pts, i[-1])))
        return Opaque("table", (), {"__getitem__": get})


def product_tabulate(a, b, sa, sb, entity):
    """TensorProductElement.tabulate(order, points, entity)"""
    from FIAT import tensor_product as X, polynomial_set as P, reference_element as R
    nm = "TensorProductElement.tabulate"
    eng, ip = engine(nm)
    native(ip)
    ca, cb = cells(a), cells(b)
    A, B = Factor(eng, ip, "A", ca, sa), Factor(eng, ip, "B", cb, sb)
    cell = R.TensorProductCell(ca, cb)
    da, db = sdim(ca), sdim(cb)
    np_, jet = isym("npts"), isym("order")
    eng.assume(np_ >= 1)
    eng.assume(jet >= 0)
    for fn in (P.mis, getattr(X, "mis", None)):
        if fn is not None:
            ip.contracts[fn] = lambda ip, g, kw: facts(eng, jets(ip, g[0], Rat.of(g[1])), Rat.of(g[1]))
    ed, ei = (cell.get_dimension(), 0) if entity is None else entity
    sub = cell.construct_subelement(ed)
    pa, pb = sdim(sub.cells[0]), sdim(sub.cells[1])
    pts = Seq.from_segs([SymIter(np_, lambda q: tuple(sym.app("x", q, c) for c in range(pa + pb)))])
    ta, tb = ca.get_topology()[ed[0]], cb.get_topology()[ed[1]]
    ea, eb = list(itertools.product(sorted(ta), sorted(tb)))[ei]
    vector = sa or sb

    def go():
        del A.calls[:], B.calls[:]
        el = object.__new__(X.TensorProductElement)
        el.__dict__.update(ref_el=cell, A=A.el, B=B.el)
        eng.where = nm
        out = pure(eng, ip, X.TensorProductElement.tabulate, [el, jet, pts] + ([] if entity is None else [entity]), {})
        for F, dim, e in ((A, ed[0], ea), (B, ed[1], eb)):
            eng.prove(nm + ": each factor is tabulated on its own entity", len(F.calls) >= 1 and all(
                (g is None and dim == F.cell.get_dimension()) or (g is not None and same(g[0], dim) and Rat.of(g[1]).concrete() == e) for o, g in F.calls))

        def want(which, al, v):
            v = values.as_symarr(v).frozen()
            shp = (A.n * B.n,) + tuple(vector) + (np_,)
            ok = len(v.shape) == len(shp)
            eng.prove(nm + ": shape of the %s" % which, ok and band(*[Rat.of(p) == Rat.of(q) for p, q in zip(v.shape, shp)]))
            if not ok:
                return
            i, j, p = sym.fresh("i"), sym.fresh("j"), sym.fresh("p")
            eng.assume(band(i >= 0, i < A.n, j >= 0, j < B.n, p >= 0, p < np_))
            x = [sym.app("x", p, c) for c in range(pa + pb)]
            for c in numpy.ndindex(*vector):
                w = A.value(i, c if sa else (), [Rat.of(q) for q in al[:da]], x[:pa]) * B.value(j, c if sb else (), [Rat.of(q) for q in al[da:]], x[pa:])
                eng.prove(nm + ": the %s of function (i, j) are products of the factors' derivatives, B's index fastest" % which,
                          Rat.of(v.at((i * B.n + j,) + tuple(c) + (p,))) == w)
        check_table(eng, ip, nm, out, da + db, jet, want)
        return out
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    eng.assumptions += ["the factors' tabulate by contract (one array per multi-index, a function of entity and point); mis by contract (C09)"]
    return eng.result()


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return Rat.of(a).concrete() == b


def facts(eng, seq, n):
    """the entries of a multi-index of sum n are between 0 and n"""
    def fn(q, f=None):
        al = f(q)
        for a in al:
            eng.assume(Rat.of(a) >= 0)
        eng.assume(sum([Rat.of(a) for a in al], Rat.of(0)) == n)
        return al
    out = []
    for g in seq.as_segs():
        out.append(SymIter(g.n, lambda q, f=g.fn: fn(q, f)) if isinstance(g, SymIter) else g)
    return Seq.from_segs(out)


PAIRS = [("I", "I"), ("T", "I"), ("I", "T"), ("S", "I"), ("IxI", "I"), ("I", "IxI"), ("Q", "I")]


def entities(a, b):
    from FIAT import reference_element as R
    c = R.TensorProductCell(cells(a), cells(b))
    out = [None]
    for d, es in sorted(c.get_topology().items()):
        ks = sorted(es)
        out += [(d, k) for k in sorted({ks[0], ks[len(ks) // 2], ks[-1]})]
    return out


SHAPES = {"I": [()], "T": [(), (2,)], "S": [(3,)], "IxI": [(), (2,)], "Q": [(), (2,)]}
OBLIGATIONS = [("tabulate %s%s x %s%s entity %s" % (a, list(sa), b, list(sb), e), "specs.c10", "product_tabulate", (a, b, sa, sb, e))
               for a, b in PAIRS for sa in SHAPES[a] for sb in SHAPES[b] for e in entities(a, b) if not (sa and sb)]


# ----------------------------------------------------------- the dual set
def rat_points(ip, tag, i, d):
    return tuple(sym.app("p" + tag, i, c) for c in range(d))


def node(eng, ip, kind, tag, i, cell, Q):
    """the i-th functional of a factor, with the point data its class stores (C07)"""
    from FIAT import functional as F
    d = sdim(cell)
    x = rat_points(ip, tag, i, d)
    vec = lambda q: [(sym.app("w" + tag, i, q, c), (c,)) for c in range(d)]      # noqa: E731
    at = lambda q: tuple(sym.app("r" + tag, q, c) for c in range(d))      # noqa: E731

    def many(f):
        s = SDict()
        s.add_gen(SymIter(Q, lambda q: (at(q), f(q))))
        return s
    one = lambda l: SDict({x: Seq(l)})          # noqa: E731
    cls, shp, pd, extra = {
        "PE": lambda: (F.PointEvaluation, (), one([(1.0, ())]), {}),
        "PD": lambda: (F.PointDerivative, (), SDict(), {}),
        "PSNE": lambda: (F.PointScaledNormalEvaluation, (d,), one(vec(0)), {}),
        "PETE": lambda: (F.PointEdgeTangentEvaluation, (d,), one(vec(0)), {}),
        "CPE": lambda: (F.ComponentPointEvaluation, (d,), one([(1.0, (sym.app("c" + tag, i),))]), {"comp": sym.app("c" + tag, i, sort="int")}),
        "FIM": lambda: (F.FrobeniusIntegralMoment, (d,), many(lambda q: Seq(vec(q))), {}),
        "IM": lambda: (F.IntegralMoment, (), many(lambda q: Seq([(sym.app("w" + tag, i, q), ())])), {}),
        "other": lambda: (F.Functional, None, SDict(), {}),
    }[kind]()
    f = object.__new__(cls)
    f.__dict__.update(ref_el=cell, target_shape=shp, pt_dict=pd, deriv_dict={}, max_deriv_order=0, functional_type=kind, **extra)
    return f


class DofFactor(object):
    """contract of an element as the product's constructor sees it: one list of
    degrees of freedom per entity, one functional per basis function"""

    def __init__(self, eng, ip, tag, cell, kind, mapping="affine", form=0):
        self.eng, self.tag, self.cell, self.kind = eng, tag, cell, kind
        self.n = isym("n" + tag)
        self.Q = isym("points" + tag)
        eng.assume(self.n >= 1)
        eng.assume(self.Q >= 1)
        self.ids = {}
        for dim, es in sorted(cell.get_topology().items()):
            self.ids[dim] = {}
            for e in sorted(es):
                m = isym("n%s_%s_%d" % (tag, str(dim).replace(" ", ""), e))
                eng.assume(m >= 0)
                self.ids[dim][e] = (m, lambda q, dim=dim, e=e: sym.app("dof%s_%s_%d" % (tag, str(dim).replace(" ", ""), e), q, sort="int"))
        self.order, self.deg = isym("order" + tag), isym("degree" + tag)
        self.form = form
        nodes = Seq.from_segs([SymIter(self.n, lambda i: node(eng, ip, kind, tag, i, cell, self.Q))])
        table = {dim: {e: Seq.from_segs([SymIter(m, f)]) for e, (m, f) in es.items()} for dim, es in self.ids.items()}
        self.el = Opaque("element" + tag, (), dict(
            get_order=lambda: self.order, get_formdegree=lambda: self.form, get_reference_element=lambda: cell, ref_el=cell,
            mapping=lambda: Seq.from_segs([SymIter(self.n, lambda i: mapping)]), entity_dofs=lambda: table, space_dimension=lambda: self.n,
            dual_basis=lambda: nodes, degree=lambda: self.deg))


KINDS = ["PE", "PSNE", "PETE", "CPE", "FIM", "IM", "other"]


def product_init(a, b, ka, kb, ma="affine", mb="affine", form=(0, 1)):
    from FIAT import tensor_product as X, dual_set, reference_element as R, functional as F
    nm = "TensorProductElement.__init__"
    eng, ip = engine(nm)
    native(ip)
    ca, cb = cells(a), cells(b)
    da, db = sdim(ca), sdim(cb)
    A, B = DofFactor(eng, ip, "A", ca, ka, ma, form[0]), DofFactor(eng, ip, "B", cb, kb, mb, form[1])
    if ka == "CPE":
        c = sym.app("cA", sym.fresh("i"), sort="int")
    made = []

    def dualset(self, nodes, ref_el, ids):
        self.__dict__.update(nodes=nodes, ref_el=ref_el, entity_ids=ids, entity_closure_ids={})
    ip.contracts[dual_set.DualSet.__init__] = lambda ip, g, kw: dualset(*g, **kw)

    def comp(ip, g, kw):
        # ComponentPointEvaluation by contract (C07): requires 0 <= comp < shape
        self, cell, c, shp, x = g
        ip.call(F.Functional.__init__, [self, cell, shp, SDict({x: Seq([(1.0, (c,))])}), {}, "ComponentPointEval"], {})
        ip.eng.prove("%s: components stay inside the value shape" % nm, Rat.of(shp[0]) == da + db)
        self.__dict__["comp"] = c
    ip.contracts[F.ComponentPointEvaluation.__init__] = comp

    def go():
        el = object.__new__(X.TensorProductElement)
        eng.where = nm
        ip.call(X.TensorProductElement.__init__, [el, A.el, B.el], {})
        check(el)
        return el

    def check(el):
        cell = R.TensorProductCell(ca, cb)
        eng.prove(nm + ": lives on the product of the factors' cells", isinstance(el.ref_el, R.TensorProductCell) and tuple(el.ref_el.cells) == (ca, cb))
        eng.prove(nm + ": keeps its factors", el.A is A.el and el.B is B.el)
        ids = el.entity_dofs()
        topo = cell.get_topology()
        eng.prove(nm + ": one list for every entity of the product", set(ids) == set(topo) and all(set(ids[d]) == set(topo[d]) for d in topo))
        for d in topo:
            for e, (ea, eb) in zip(sorted(topo[d]), itertools.product(sorted(ca.get_topology()[d[0]]), sorted(cb.get_topology()[d[1]]))):
                na, fa = A.ids[d[0]][ea]
                nb, fb = B.ids[d[1]][eb]
                l = ids[d][e]
                l = l if isinstance(l, Seq) else Seq(l)
                eng.prove(nm + ": as many degrees of freedom as pairs of the factors' entities", Rat.of(l.length()) == na * nb)
                base = list(eng.pc)
                i, j = sym.fresh("i"), sym.fresh("j")
                eng.assume(band(i >= 0, i < na, j >= 0, j < nb))
                eng.prove(nm + ": degree of freedom (x, y) of a pair of entities is x*dim(B) + y", Rat.of(values.seq_at(l, i * nb + j, inside=True)) == fa(i) * B.n + fb(j))
                eng.pc = base
        nodes = el.dual_basis()
        nodes = nodes if isinstance(nodes, Seq) else Seq(nodes)
        eng.prove(nm + ": one functional per pair of the factors' functionals", Rat.of(nodes.length()) == A.n * B.n)
        i, j = sym.fresh("i"), sym.fresh("j")
        eng.assume(band(i >= 0, i < A.n, j >= 0, j < B.n))
        f = values.seq_at(nodes, i * B.n + j, inside=True)
        functional(f, i, j)
        meta(el)

    def functional(f, i, j):
        x, y = rat_points(ip, "A", i, da), rat_points(ip, "B", j, db)
        if kb != "PE" or ka == "other":
            eng.prove(nm + ": a functional without a product form is marked undefined", f.functional_type == "Undefined" and f.ref_el is None and f.pt_dict is None)
            return
        eng.prove(nm + ": functionals live on the product cell", isinstance(f.ref_el, R.TensorProductCell))
        entries = [(None, None, p, l) for p, l in dict.items(f.pt_dict)] + [(g.n, sym.fresh("q"), None, g) for g in getattr(f.pt_dict, "gens", [])]
        eng.prove(nm + ": one entry of point data", len(entries) == 1)
        n, q, p, l = entries[0]
        if n is not None:
            eng.prove(nm + ": one entry of point data per point of the factor's functional", n == A.Q)
            eng.assume(band(q >= 0, q < A.Q))
            p, l = l.fn(q)
            x = tuple(sym.app("rA", q, c) for c in range(da))
        eng.prove(nm + ": the points are the factors' points side by side", len(p) == da + db and band(*[Rat.of(s) == Rat.of(t) for s, t in zip(p, x + y)]))
        qq = Rat.of(0) if q is None else q
        shape = () if ka in ("PE", "IM") else (da + db,)
        want = {"PE": lambda: {(): Rat.of(1)}, "IM": lambda: {(): sym.app("wA", i, qq)},
                "CPE": lambda: {(sym.app("cA", i, sort="int"),): Rat.of(1)}}.get(ka, lambda: dict([((c,), sym.app("wA", i, qq, c)) for c in range(da)] + [((da + c,), Rat.of(0)) for c in range(db)]))()
        eng.prove(nm + ": target shape", (shape == () and ka == "IM") or band(len(f.target_shape) == len(shape), *[Rat.of(s) == t for s, t in zip(f.target_shape, shape)]))
        got = {}
        for w, c in (list(l) if not isinstance(l, Seq) or l.segs is None else [v for g in l.as_segs() for v in g[1]]):
            key = tuple(Rat.of(t).concrete() if Rat.of(t).concrete() is not None else t for t in c)
            got[key] = got.get(key, Rat.of(0)) + Rat.of(w)
        keys = {repr(s): s for s in list(got) + list(want)}
        for s in sorted(keys):
            g = [v for t, v in got.items() if repr(t) == s] or [Rat.of(0)]
            w = [v for t, v in want.items() if repr(t) == s] or [Rat.of(0)]
            eng.prove(nm + ": the weights are those of the factor's functional on its own components", g[0] == w[0], "component %s: %s, expected %s" % (s, g[0], w[0]))

    def meta(el):
        o = Rat.of(el.get_order())
        eng.prove(nm + ": the order is the smaller one", band(o <= A.order, o <= B.order, sym.bor(o == A.order, o == B.order)))
        d = Rat.of(pure(eng, ip, X.TensorProductElement.degree, [el], {}))
        eng.prove(nm + ": the degree is the larger one", band(d >= A.deg, d >= B.deg, sym.bor(d == A.deg, d == B.deg)))
        ff = el.get_formdegree()
        eng.prove(nm + ": form degrees add", ff is None if None in form else (ff is not None and Rat.of(ff) == form[0] + form[1]))
        m = pure(eng, ip, X.TensorProductElement.mapping, [el], {})
        m = m if isinstance(m, Seq) else Seq(m)
        names = {g.fn(sym.fresh("i")) if isinstance(g, SymIter) else None for g in m.as_segs()}
        want = mb if ma == "affine" else ma
        eng.prove(nm + ": the mapping is the one of the non-affine factor", names == {want} and m.length() == A.n * B.n)
    ok = (ma == "affine" or mb == "affine") and (kb == "PE" or ka == "other" or (ka == "PE" and kb in ("IM", "PD"))) \
        and not (ka in ("PSNE", "PETE") and db > 1)
    for pc, kind, v in eng.explore(go):
        if not ok:
            base = list(eng.pc)
            eng.pc = base + list(pc)
            if kind == "raise" and not getattr(v, "_pyvc", False):
                raise Unsupported("%s: %s" % (type(v).__name__, v))
            eng.prove(nm + ": an unsupported combination is refused", kind == "raise" and isinstance(v, (ValueError, NotImplementedError)))
            eng.pc = base
        elif kind == "raise":
            finish(eng, pc, kind, v, "accepts a supported pair of factors", None, nm)
    eng.assumptions += ["the factors' functionals hold the point data of their class (C07); ComponentPointEvaluation and DualSet constructors by contract (C07, C02)",
                        "dof lists of the factors partition their basis functions"]
    return eng.result()


def flattening_pairs(ka):
    """(x, y) -> x*dim(B) + y is a bijection onto range(dim(A)*dim(B))"""
    eng, ip = engine("numbering of pairs")
    A, B, x, y, u, v = [isym(t) for t in "A B x y u v".split()]
    nm = "TensorProductElement.__init__"
    eng.where = nm
    eng.assume(band(x >= 0, x < A, y >= 0, y < B, u >= 0, u < A, v >= 0, v < B))
    base = list(eng.pc)
    eng.prove(nm + ": the number of a pair is below the dimension of the product", band(x * B + y >= 0, x * B + y < A * B))
    # x < u gives x*B + y < (x+1)*B <= u*B
    eng.assume(x < u)
    eng.prove(nm + ": different pairs have different numbers (first component)", x * B + y < u * B + v)
    eng.pc = base + [x == u, x * B + y == u * B + v]
    eng.prove(nm + ": different pairs have different numbers (second component)", y == v)
    return eng.result()


OBLIGATIONS += [("init %s %s x %s %s" % (a, ka, b, kb), "specs.c10", "product_init", (a, b, ka, kb))
                for a, b in [("T", "I"), ("I", "I"), ("I", "IxI"), ("IxI", "I")] for ka in KINDS for kb in ["PE"]]
OBLIGATIONS += [("init %s %s x %s %s" % ("T", ka, "I", kb), "specs.c10", "product_init", ("T", "I", ka, kb)) for ka in KINDS for kb in ["IM", "PD", "other"]]
OBLIGATIONS += [("init mappings %s x %s" % (ma, mb), "specs.c10", "product_init", ("T", "I", "PE", "PE", ma, mb)) for ma in ("affine", "contravariant piola", "covariant piola") for mb in ("affine", "contravariant piola", "covariant piola")]
OBLIGATIONS += [("init form degrees %s" % (f,), "specs.c10", "product_init", ("T", "I", "PE", "PE", "affine", "affine", f)) for f in ((None, 1), (2, None), (1, 1))]
OBLIGATIONS += [("numbering of pairs", "specs.c10", "flattening_pairs", (0,))]


# -------------------------------------------------------------- accessors
def accessors(a, b, sa, sb):
    """value_shape, is_nodal; products of vector-valued factors are refused"""
    from FIAT import tensor_product as X, polynomial_set as P, reference_element as R
    nm = "TensorProductElement"
    eng, ip = engine(nm)
    native(ip)
    for fn in (P.mis, getattr(X, "mis", None)):
        if fn is not None:
            ip.contracts[fn] = lambda ip, g, kw: facts(eng, jets(ip, g[0], Rat.of(g[1])), Rat.of(g[1]))
    ca, cb = cells(a), cells(b)
    A, B = Factor(eng, ip, "A", ca, sa), Factor(eng, ip, "B", cb, sb)
    jet, np_ = isym("order"), isym("npts")
    eng.assume(jet >= 0)
    eng.assume(np_ >= 1)
    el = object.__new__(X.TensorProductElement)
    el.__dict__.update(ref_el=R.TensorProductCell(ca, cb), A=A.el, B=B.el)
    d = sdim(ca) + sdim(cb)
    pts = Seq.from_segs([SymIter(np_, lambda q: tuple(sym.app("x", q, c) for c in range(d)))])
    both = bool(sa) and bool(sb)

    def run(what, thunk, want):
        for pc, kind, v in eng.explore(thunk):
            base = list(eng.pc)
            eng.pc = base + list(pc)
            if kind == "raise":
                if not getattr(v, "_pyvc", False):
                    raise Unsupported("%s: %s" % (type(v).__name__, v))
                eng.prove(nm + ": " + what, both, "raises %s" % type(v).__name__)
            else:
                eng.prove(nm + ": " + what, not both and want(v), "returns %r" % (v,))
            eng.pc = base
    eng.where = nm + ".value_shape"
    run("the value shape is that of the vector factor, two vector factors are refused", lambda: ip.call(X.TensorProductElement.value_shape, [el], {}), lambda v: tuple(v) == tuple(sa or sb))
    if both:
        eng.where = nm + ".tabulate"
        run("two vector factors are refused", lambda: ip.call(X.TensorProductElement.tabulate, [el, jet, pts], {}), None)
    for na in (True, False):
        for nb in (True, False):
            el2 = object.__new__(X.TensorProductElement)
            el2.__dict__.update(A=Opaque("a", (), dict(is_nodal=lambda: na)), B=Opaque("b", (), dict(is_nodal=lambda: nb)))
            eng.where = nm + ".is_nodal"
            eng.prove(nm + ": nodal exactly when both factors are", bool(ip.call(X.TensorProductElement.is_nodal, [el2], {})) == (na and nb))
    return eng.result()


# --------------------------------------------------------------- flattening
def product_cell(dims):
    from FIAT import reference_element as R
    I = R.UFCInterval      # noqa: E741
    one = {"I": lambda: I(), "T": R.UFCTriangle, "Q": R.UFCQuadrilateral, "IxI": lambda: R.TensorProductCell(I(), I()), "S": R.UFCTetrahedron}
    return R.TensorProductCell(*[one[x]() for x in dims])


def flatten(dims):
    """FlattenedDimensions: the same functions, each entity carrying the
    degrees of freedom of the product entity with the same vertices"""
    from FIAT import tensor_product as X, dual_set, reference_element as R
    nm = "FlattenedDimensions"
    eng, ip = engine(nm)
    native(ip)
    cell = product_cell(dims)
    d = sdim(cell)
    n = isym("n")
    eng.assume(n >= 1)
    topo = cell.get_topology()
    ids = {dd: {e: Seq.from_segs([SymIter(isym("m_%s_%d" % (str(dd).replace(" ", ""), e)), lambda q, dd=dd, e=e: sym.app("dof_%s_%d" % (str(dd).replace(" ", ""), e), q, sort="int"))]) for e in topo[dd]} for dd in topo}
    nodes = Seq.from_segs([SymIter(n, lambda i: Opaque("node", (i,), {}))])
    asked = []

    def tab(order, pts, entity=None):
        asked.append((order, pts, entity))
        return Opaque("table", (len(asked),), {})
    order, deg = isym("order"), isym("degree")
    coeffs = Opaque("coeffs", (), {})
    parts = dict(get_order=lambda: order, get_formdegree=lambda: isym("form"), degree=lambda: deg, value_shape=lambda: (2,), is_nodal=lambda: Rat.of(isym("nodal")) == 1)
    inner = Opaque("element", (), dict(dual=Opaque("dual", (), dict(nodes=nodes, entity_ids=ids)), ref_el=cell, _mapping="covariant piola", tabulate=tab,
                                       get_reference_element=lambda: cell, entity_dofs=lambda: ids, dual_basis=lambda: nodes, mapping=lambda: Seq.from_segs([SymIter(n, lambda i: "covariant piola")]),
                                       get_dual_set=lambda: inner._attrs["dual"], space_dimension=lambda: n, get_coeffs=lambda: coeffs, **parts))

    def dualset(self, nodes, ref_el, ids):
        self.__dict__.update(nodes=nodes, ref_el=ref_el, entity_ids=ids, entity_closure_ids={})
    ip.contracts[dual_set.DualSet.__init__] = lambda ip, g, kw: dualset(*g, **kw)
    C = X.FlattenedDimensions
    # the product entity with the same vertices, found by geometry
    pv = [tuple(v) for v in cell.get_vertices()]
    want_cell = R.UFCQuadrilateral if d == 2 else R.UFCHexahedron if d == 3 else None

    def product_entity(flat, dim, e):
        fv = [tuple(v) for v in flat.get_vertices()]
        vs = {fv[i] for i in flat.get_topology()[dim][e]}
        hit = [(dd, ee) for dd in topo for ee in topo[dd] if {pv[i] for i in topo[dd][ee]} == vs]
        assert len(hit) == 1
        return hit[0]

    def go():
        del asked[:]
        el = object.__new__(C)
        eng.where = nm
        ip.call(C.__init__, [el, inner], {})
        flat = pure(eng, ip, C.get_reference_element, [el], {})
        if want_cell is None:
            return el
        eng.prove(nm + ": lives on the flattened cell", isinstance(flat, want_cell))
        ft = flat.get_topology()
        got = pure(eng, ip, C.entity_dofs, [el], {})
        eng.prove(nm + ": one list per entity of the flattened cell", set(got) == set(ft) and all(set(got[k]) == set(ft[k]) for k in ft))
        pts = Seq.from_segs([SymIter(isym("npts"), lambda q: tuple(sym.app("x", q, c) for c in range(d)))])
        o = isym("jet")
        for dim in ft:
            for e in ft[dim]:
                pd, pe = product_entity(flat, dim, e)
                eng.prove(nm + ": an entity carries the degrees of freedom of the product entity with its vertices", same_list(eng, got[dim][e], ids[pd][pe]), "entity (%d, %d) against %s" % (dim, e, (pd, pe)))
                r = pure(eng, ip, C.tabulate, [el, o, pts, (dim, e)], {})
                eng.prove(nm + ": tabulation on an entity is the product's on that entity", len(asked) >= 1 and asked[-1][0] is o and asked[-1][1] is pts
                          and asked[-1][2] is not None and same(tuple(asked[-1][2][0]), tuple(pd)) and Rat.of(asked[-1][2][1]).concrete() == pe and r._args[0] == len(asked), "entity (%d, %d): %s" % (dim, e, asked[-1:]))
        r = pure(eng, ip, C.tabulate, [el, o, pts], {})
        eng.prove(nm + ": without an entity the product is tabulated on its cell", asked[-1][2] is None or (same(tuple(asked[-1][2][0]), tuple(cell.get_dimension())) and Rat.of(asked[-1][2][1]).concrete() == 0))
        eng.prove(nm + ": the functionals are the product's", pure(eng, ip, C.dual_basis, [el], {}) is nodes)
        for m, f in parts.items():
            a, b = pure(eng, ip, getattr(C, m), [el], {}), f()
            ok = tuple(a) == tuple(b) if isinstance(b, tuple) else (a is b or same_bool(a, b))
            eng.prove(nm + ": %s is the product's" % m, ok)
        ms = pure(eng, ip, C.mapping, [el], {})
        eng.prove(nm + ": the mapping is the product's", ms.length() == n and {g.fn(sym.fresh("i")) for g in ms.as_segs()} == {"covariant piola"})
        return el
    for pc, kind, v in eng.explore(go):
        base = list(eng.pc)
        eng.pc = base + list(pc)
        if want_cell is None:
            eng.prove(nm + ": other dimensions are refused", kind == "raise" and getattr(v, "_pyvc", False))
        elif kind == "raise":
            eng.pc = base
            finish(eng, pc, kind, v, "flattens products of intervals", None, nm)
        eng.pc = base
    eng.assumptions += ["topology of the shipped cells is executed natively (C08)", "DualSet constructor by contract (C02)"]
    return eng.result()


def same_bool(a, b):
    if isinstance(a, sym.SymBool) or isinstance(b, sym.SymBool):
        return str(a) == str(b)
    return Rat.of(a) == Rat.of(b)


def same_list(eng, a, b):
    if a is b:
        return True
    if not isinstance(a, Seq) or a.segs is None:
        return False
    if not eng.entails(Rat.of(a.length()) == Rat.of(b.length())):
        return False
    i = sym.fresh("i")
    base = list(eng.pc)
    eng.assume(band(i >= 0, i < b.length()))
    r = eng.entails(Rat.of(values.seq_at(a, i, True)) == Rat.of(values.seq_at(b, i, True)))
    eng.pc = base
    return r


OBLIGATIONS += [("accessors %s%s x %s%s" % (a, list(sa), b, list(sb)), "specs.c10", "accessors", (a, b, sa, sb)) for a, b in (("T", "I"), ("T", "T")) for sa in ((), (2,)) for sb in ((), (1 if b == "I" else 2,))]
OBLIGATIONS += [("flatten %s" % "x".join(d), "specs.c10", "flatten", (d,)) for d in (("I", "I"), ("IxI", "I"), ("I", "IxI"), ("Q", "I"), ("I", "Q"), ("T", "IxI"))]
