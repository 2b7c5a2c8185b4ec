"""C03 obligations: tabulation of nodal elements and of expansion derivatives."""
from vlib import env  # noqa: F401
from vlib.pyvc import matrix, sym, values
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymArr, SymIter, Seq, Opaque
from specs import c15
from specs.c15 import engine
from specs.util import finish, pure
import numpy


def coords(ip, pts, q, d):
    """the coordinates of the q-th point"""
    x = values.seq_at(pts, Rat.of(q), inside=True) if isinstance(pts, Seq) else None
    if x is None:
        a = values.as_symarr(pts).frozen()
        return tuple(Rat.of(a.at((q, c))) for c in range(d))
    return tuple(Rat.of(ip.getitem(x, c)) for c in range(d))


def ciarlet(d, shape, entity):
    """CiarletElement.tabulate(order, points, entity): one entry for every
    multi-index, whose value at point p is coefficients . (D^alpha)^T . phi(T p)
    with T the map of the entity: a function of that point alone"""
    from FIAT import finite_element as E
    nm = "CiarletElement.tabulate"
    S = c15.Setup(nm, d, shape)
    eng, ip = S.eng, S.ip
    np_, jet = isym("npts"), isym("jet_order")
    eng.assume(np_ >= 1)
    eng.assume(jet >= 0)
    ed, ei = (d, 0) if entity is None else entity
    pts = Seq.from_segs([SymIter(np_, lambda q: tuple(sym.app("x", q, c) for c in range(ed)))])
    asked = []

    def phi(i, x):
        return sym.app("phi", i, *x)

    def tab(n, p):
        S.asked.append((n, p))
        return SymArr((S.N, S.count(p)), lambda i: phi(i[0], coords(ip, p, i[1], d)))
    S.es._attrs["tabulate"] = tab

    def transform(dim, e):
        asked.append((dim, e))
        if Rat.of(dim).concrete() == d:
            return lambda x: x
        return lambda x: tuple(sym.app("T%d" % c, *[Rat.of(ip.getitem(x, j)) for j in range(ed)]) for c in range(d))
    S.cell._attrs["get_entity_transform"] = transform

    def go():
        del S.asked[:], asked[:]
        s = S.make()
        el = object.__new__(E.CiarletElement)
        el.__dict__.update(ref_el=S.cell, poly_set=s)
        eng.where = nm
        args = [el, jet, pts] + ([] if entity is None else [entity])
        out = pure(eng, ip, E.CiarletElement.tabulate, args, {})
        for n, p in S.asked:
            eng.prove(nm + ": expansion functions of the embedded degree", Rat.of(n) - S.emb == 0)
            eng.prove(nm + ": as many points as given", S.count(p) - np_ == 0)
        for dim, e in asked:
            eng.prove(nm + ": the map of the given entity", band(Rat.of(dim) == ed, Rat.of(e) == ei))
        x = lambda q: tuple(sym.app("x", q, c) for c in range(ed))      # noqa: E731
        at = x if ed == d else lambda q: tuple(sym.app("T%d" % c, *x(q)) for c in range(d))

        def want(which, al, v):
            D = matrix.Mat(S.N)
            for i, e in enumerate(al):
                D = D.mul(S.dmats[i].power(e))
            base = values.sym_dot(D.T, SymArr((S.N, np_), lambda i: phi(i[0], at(i[1]))))
            v = values.as_symarr(v).frozen()
            eng.prove(nm + ": shape of the %s" % which, len(v.shape) == len(S.shape) + 2 and all(Rat.of(a) - Rat.of(b) == 0 for a, b in zip(v.shape, (S.M,) + S.shape + (np_,))))
            m, p = sym.fresh("m"), sym.fresh("p")
            eng.assume(band(m >= 0, m < S.M, p >= 0, p < np_))
            for c in numpy.ndindex(*S.shape):
                eng.prove(nm + ": the %s at point p are those of the element's functions at the entity's point p mapped into the cell" % which,
                          v.at((m,) + tuple(c) + (p,)) - values.total(S.N, lambda q: sym.app("C", m, *(tuple(c) + (q,))) * base.at((q, p))) == 0)
        c15.check_table(eng, ip, nm, out, d, jet, want)
        return out
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    eng.assumptions += ["get_entity_transform by contract (C08): a function of the point; form_matrix_product and mis by contract (C15, C09)",
                        "the expansion set's tabulate by contract: a function of the point (C04); the derivative matrices by C15"]
    return eng.result()


OBLIGATIONS = [("CiarletElement.tabulate dim %d shape %s entity %s" % (d, s, e), "specs.c03", "ciarlet", (d, s, e))
               for d in (1, 2, 3) for s in ((), (3,), (2, 2)) for e in [None] + [(q, 0) for q in range(d + 1)] + [(q, 1) for q in range(d)]]


# ------------------------------------------------ derivatives of expansion functions
class Expr(object):
    """the i-th expression of the tabulator, differentiated in the variables ds"""

    def __init__(self, i, ds=()):
        self.i, self.ds = i, tuple(sorted(ds))

    def at(self, x):
        return sym.app("F%d" % self.i, *([Rat.of(c) for c in x] + [Rat.of(q) for q in self.ds]))


def tabulate_dpts(D, order, count):
    """_tabulate_dpts(tabulator, D, n, order, pts): data[r][i][p][j1]..[jr] is
    the derivative of the tabulator's i-th expression in x_j1 .. x_jr at point p"""
    from FIAT import expansions as X
    import sympy
    nm = "_tabulate_dpts"
    eng, ip = engine(nm)
    np_, n = isym("npts"), isym("n")
    eng.assume(np_ >= 1)
    eng.assume(n >= 0)
    vec = []

    def tabulator(deg, x):
        eng.prove(nm + ": the expressions of the requested degree", Rat.of(deg) == n)
        vec.append(x)
        return [Expr(i) for i in range(count)]

    def diff(ip, a, kw):
        F, v = a
        if isinstance(F, list):
            raise sym.sem(AttributeError("list"))
        if not isinstance(F, Expr):
            raise Unsupported("derivative of %s" % type(F).__name__)
        for j in range(D):
            if v == vec[-1][j]:
                return Expr(F.i, F.ds + (j,))
        raise Unsupported("derivative in another variable")

    def lambdify(ip, a, kw):
        x, F = a
        if kw or x is not vec[-1] or not isinstance(F, Expr):
            raise Unsupported("lambdify of something else")

        def f(p):
            p = values.as_symarr(p).frozen()
            if p.ndim == 1:
                return F.at([p.at((c,)) for c in range(D)])
            return SymArr(p.shape[1:], lambda idx: F.at([p.at((c,) + tuple(idx)) for c in range(D)]))
        return f
    ip.contracts[sympy.diff] = diff
    ip.contracts[sympy.lambdify] = lambdify
    pts = SymArr((np_, D), lambda i: sym.app("x", *i))

    def go():
        del vec[:]
        data = ip.call(X._tabulate_dpts, [tabulator, D, n, order, pts], {})
        eng.where = nm
        eng.prove(nm + ": one table for every order up to the requested one", len(data) == order + 1)
        p = sym.fresh("p")
        eng.assume(band(p >= 0, p < np_))
        for r, t in enumerate(data):
            t = values.as_symarr(t).frozen()
            want = (count, np_) + (D,) * r
            ok = len(t.shape) == len(want)
            eng.prove(nm + ": shape", ok and band(*[Rat.of(a) == b for a, b in zip(t.shape, want)]))
            if not ok:
                continue
            for i in range(count):
                for js in numpy.ndindex(*(D,) * r):
                    eng.prove(nm + ": the entries are the partial derivatives of the expressions at the points",
                              Rat.of(t.at((i, p) + tuple(js))) == Expr(i, js).at([sym.app("x", p, c) for c in range(D)]))
        return data
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    eng.assumptions += ["sympy.diff and sympy.lambdify: the partial derivative of an expression and its value at arrays of points",
                        "the number of expressions is enumerated (they are treated one by one)"]
    return eng.result()


OBLIGATIONS += [("_tabulate_dpts dim %d order %d, %d functions" % (d, o, c), "specs.c03", "tabulate_dpts", (d, o, c)) for d in (1, 2, 3) for o in (0, 1, 2) for c in (1, 3)]


def expansion_derivatives(kind):
    """tabulate_derivatives: entry [i][j] is the pair (value, gradient) of the
    i-th expansion function at the j-th point; tabulate_jet: the tables up to
    the requested order"""
    from FIAT import expansions as X
    D = {"Line": 1, "Triangle": 2, "Tetrahedron": 3}[kind]
    cls = getattr(X, kind + "ExpansionSet")
    nm = "%sExpansionSet.tabulate_derivatives" % kind
    eng, ip = engine(nm)
    np_, n, N = isym("npts"), isym("n"), isym("N")
    eng.assume(np_ >= 1)
    eng.assume(n >= 0)
    eng.assume(N >= 1)
    obj = object.__new__(cls)
    pts = Seq.from_segs([SymIter(np_, lambda q: tuple(sym.app("x", q, c) for c in range(D)))])
    val = lambda i, x: sym.app("phi", i, *x)            # noqa: E731
    der = lambda i, x, js: sym.app("dphi%s" % "".join(map(str, sorted(js))), i, *x)        # noqa: E731
    what = [nm, 1]

    def dpts(ip, a, kw):
        tab, dim, deg, order, p = a
        eng.prove(what[0] + ": differentiates the set's own functions of the requested degree",
                  getattr(tab, "__self__", None) is obj and getattr(tab, "__name__", "") == "_tabulate" and Rat.of(deg) == n)
        eng.prove(what[0] + ": in all variables, to the requested order", Rat.of(dim).concrete() == D and Rat.of(order) == what[1])
        p = values.as_symarr(p).frozen()
        eng.prove(what[0] + ": at the given points", len(p.shape) == 2 and band(Rat.of(p.shape[0]) == np_, Rat.of(p.shape[1]) == D))
        x = lambda q: [p.at((q, c)) for c in range(D)]      # noqa: E731
        o = Rat.of(order).concrete()
        return [SymArr((N, np_) + (D,) * r, lambda i: val(i[0], x(i[1])) if len(i) == 2 else der(i[0], x(i[1]), [int(Rat.of(c).concrete()) for c in i[2:]])) for r in range(int(o) + 1)]
    ip.contracts[X._tabulate_dpts] = dpts

    def pick(t, *idx):
        for i in idx:
            t = ip.getitem(t, i)
        return t

    def go():
        what[:] = [nm, 1]
        out = ip.call(cls.tabulate_derivatives, [obj, n, pts], {})
        eng.where = nm
        i, j = sym.fresh("i"), sym.fresh("j")
        eng.assume(band(i >= 0, i < N, j >= 0, j < np_))
        x = [sym.app("x", j, c) for c in range(D)]
        rows = out.length() if isinstance(out, Seq) else len(out)
        eng.prove(nm + ": one row per expansion function", Rat.of(rows) == N)
        row = pick(out, i)
        eng.prove(nm + ": one entry per point", Rat.of(row.length() if isinstance(row, Seq) else len(row)) == np_)
        e = pick(row, j)
        eng.prove(nm + ": the entry is the pair of value and gradient", len(e) == 2)
        eng.prove(nm + ": value", Rat.of(e[0]) == val(i, x))
        g = values.as_symarr(e[1]).frozen()
        eng.prove(nm + ": gradient", len(g.shape) == 1 and band(Rat.of(g.shape[0]) == D, *[Rat.of(g.at((c,))) == der(i, x, [c]) for c in range(D)]))

    def jet():
        if not hasattr(cls, "tabulate_jet"):
            return
        for order in (None, 0, 1, 2):
            what[:] = ["%sExpansionSet.tabulate_jet" % kind, 1 if order is None else order]
            out = ip.call(cls.tabulate_jet, [obj, n, pts] + ([] if order is None else [order]), {})
            eng.where = w = what[0]
            eng.prove(w + ": one table per order", len(out) == what[1] + 1)
            i, j = sym.fresh("i"), sym.fresh("j")
            eng.assume(band(i >= 0, i < N, j >= 0, j < np_))
            x = [sym.app("x", j, c) for c in range(D)]
            for r, t in enumerate(out):
                t = values.as_symarr(t).frozen()
                for js in numpy.ndindex(*(D,) * r):
                    eng.prove(w + ": values and derivatives", Rat.of(t.at((i, j) + tuple(js))) == (val(i, x) if r == 0 else der(i, x, js)))
    for f in (go, jet):
        for pc, kd, v in eng.explore(f):
            if kd == "raise":
                finish(eng, pc, kd, v, "returns", None, nm)
    eng.assumptions.append("_tabulate_dpts by its contract")
    return eng.result()


OBLIGATIONS += [("tabulate_derivatives %s" % s, "specs.c03", "expansion_derivatives", (s,)) for s in ("Triangle", "Tetrahedron")]


def line_derivatives():
    """LineExpansionSet.tabulate_derivatives: entry [k][j] is the value and the
    derivative of the k-th scaled Legendre polynomial composed with the map"""
    from FIAT import expansions as X, jacobi
    cls = X.LineExpansionSet
    nm = "LineExpansionSet.tabulate_derivatives"
    eng, ip = engine(nm)
    n, np_ = isym("n"), isym("npts")
    eng.assume(n >= 0)
    eng.assume(np_ >= 1)
    A, b = sym.sym("A"), sym.sym("b")
    x = lambda i: sym.app("x", i)       # noqa: E731
    dJ = lambda k, u: sym.app("dJ", k, u)       # noqa: E731
    phi = lambda k, u: sym.app("phi", k, u)       # noqa: E731
    o = object.__new__(cls)
    Am = numpy.empty((1, 1), dtype=object)
    Am[0, 0] = A

    def mapping(p):
        raise NotImplementedError
    ip.contracts[mapping] = lambda ip, args, kw: [A * ip.getitem(args[0], 0) + b]
    o.__dict__.update(A=Am, mapping=mapping)
    pts = Seq.from_segs([SymIter(np_, lambda i: (x(i),))])

    def cderiv(ip, a, kw):
        a_, b_, n_, xs = a
        eng.prove(nm + ": Legendre polynomials of the requested degree", band(Rat.of(a_) == 0, Rat.of(b_) == 0, Rat.of(n_) == n))
        xs = values.as_symarr(xs).frozen()
        return values.SymArr((Rat.of(n_) + 1, xs.shape[0]), lambda i: dJ(i[0], xs.at((i[1], 0))))
    ip.contracts[jacobi.eval_jacobi_deriv_batch] = cderiv

    def tab(ip, a, kw):
        s, n_, p = a
        eng.prove(nm + ": the set's own values at the given points", band(s is o, Rat.of(n_) == n, p is pts))
        return SymArr((n + 1, np_), lambda i: phi(i[0], x(i[1])))
    ip.contracts[cls.tabulate] = tab

    def go():
        out = ip.call(cls.tabulate_derivatives, [o, n, pts], {})
        eng.where = nm
        k, j = sym.fresh("k"), sym.fresh("j")
        eng.assume(band(k >= 0, k <= n, j >= 0, j < np_))
        eng.prove(nm + ": one row per expansion function", Rat.of(out.length() if isinstance(out, Seq) else len(out)) == n + 1)
        e = ip.getitem(ip.getitem(out, k), j)
        eng.prove(nm + ": value", Rat.of(e[0]) == phi(k, x(j)))
        eng.prove(nm + ": derivative by the chain rule", Rat.of(e[1][0]) == A * dJ(k, A * x(j) + b) * sym.sqrt(k + sym.Fraction(1, 2)))
    for pc, kd, v in eng.explore(go):
        if kd == "raise":
            finish(eng, pc, kd, v, "returns", None, nm)
    eng.assumptions.append("the Jacobi routines by contract (C05); LineExpansionSet.tabulate by contract (C04)")
    return eng.result()


OBLIGATIONS += [("tabulate_derivatives Line", "specs.c03", "line_derivatives", ())]

OBLIGATIONS += [o for o in c15.OBLIGATIONS if o[2] == "tabulate" or (o[2] == "on_set" and o[3][0] == "full" and o[3][2] == ())]
