"""C15 obligations: polynomial sets for a symbolic degree, symbolic coefficient
arrays, any number of members, points and derivative orders."""
from vlib import env  # noqa: F401
from vlib.pyvc import matrix, sym, values
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq, SymArr, Opaque
from specs.duals import pdim, binom
from specs.util import finish, pure
import numpy

ASSUME = ["machine arithmetic is treated as real arithmetic (a float literal denotes the decimal written)"]
k = isym("degree")


def engine(name):
    eng = Engine(name)
    eng.lenient_division = True
    eng.assumptions += ASSUME
    return eng, Interp(eng)


# ------------------------------------------------------------ D^alpha
def product_contract(n_mats, mod="FIAT.polynomial_set"):
    """form_matrix_product(mats, alpha) is a product of exactly alpha[i] factors
    mats[i] (the derivative matrices commute), for all alpha"""
    import importlib
    P = importlib.import_module(mod)
    nm = "form_matrix_product"
    eng, ip = engine(nm)
    n = isym("n")
    eng.assume(n >= 1)
    mats = [matrix.gen("D%d" % i, n) for i in range(n_mats)]
    al = tuple(isym("alpha%d" % i) for i in range(n_mats))
    for a in al:
        eng.assume(a >= 0)
    for pc, kind, v in eng.explore(lambda: ip.call(P.form_matrix_product, [mats, al], {})):
        base = list(eng.pc)
        eng.pc = base + list(pc)
        eng.where = nm
        try:
            if kind == "raise":
                eng.pc = base
                finish(eng, pc, kind, v, "returns", None, nm)
                continue
            if not isinstance(v, matrix.Mat):
                raise Unsupported("result of form_matrix_product is not a product of its matrices")
            eng.prove(nm + ": square of the same size", Rat.of(v.shape[0]) - n == 0)
            for i in range(n_mats):
                cnt = Rat.of(0)
                for name, e, t in v.word:
                    if name == "D%d" % i:
                        if t:
                            raise Unsupported("transposed factor")
                        cnt = cnt + e
                    elif not name.startswith("D"):
                        raise Unsupported("foreign factor")
                eng.prove(nm + ": exactly alpha[%d] factors of matrix %d" % (i, i), cnt == al[i])
        finally:
            eng.pc = base
    eng.assumptions.append("derivative matrices of one expansion set commute (partial derivatives do)")
    return eng.result()


OBLIGATIONS = [("form_matrix_product in %d variables" % d, "specs.c15", "product_contract", (d,)) for d in (1, 2, 3)]


# ------------------------------------------------------------ tabulate
def jets(ip, m, n):
    """contract of mis: every multi-index of length m and sum n, once (C09)"""
    c = Rat.of(m).concrete()
    if c is None or c < 1:
        raise Unsupported("multi-indices of unknown length")

    def item(q):
        al = [sym.app("mi%d" % int(c), n, q, i, sort="int") for i in range(int(c))]
        return tuple(al)
    return Seq.from_segs([SymIter(binom(n + int(c) - 1, int(c) - 1), item)])


class Setup(object):
    """A polynomial set over a cell of dimension d with a symbolic number of
    members M, N expansion functions and value shape `shape`."""

    def __init__(self, name, d, shape):
        from FIAT import polynomial_set as P
        self.P, self.d, self.shape = P, d, tuple(shape)
        self.eng, self.ip = engine(name)
        eng, ip = self.eng, self.ip
        self.N, self.M = isym("N"), isym("M")
        eng.assume(self.N >= 1)
        eng.assume(self.M >= 1)
        self.deg, self.emb = isym("degree"), isym("embedded_degree")
        self.cell = Opaque("cell", (), dict(get_spatial_dimension=lambda: d, get_dimension=lambda: d))
        self.asked = []

        def tab(n, pts):
            self.asked.append((n, pts))
            return SymArr((self.N, self.count(pts)), lambda i: sym.app("phi", *i))
        self.es = Opaque("expansion set", (), dict(tabulate=tab, get_num_members=lambda n: self.N))
        self.coeffs = SymArr((self.M,) + self.shape + (self.N,), lambda i: sym.app("C", *i))
        self.dmats = [matrix.gen("D%d" % i, self.N) for i in range(d)]
        self.set = object.__new__(P.PolynomialSet)
        ip.contracts[P.mis] = lambda ip, a, kw: jets(ip, a[0], Rat.of(a[1]))
        ip.contracts[P.form_matrix_product] = self.product

    def count(self, pts):
        return pts.length() if isinstance(pts, Seq) else pts.shape[0]

    def product(self, ip, a, kw):
        mats, al = a
        out = matrix.Mat(self.N)
        ms = list(mats)
        ip.eng.prove("%s: one derivative matrix per entry of the multi-index" % ip.eng.where, len(ms) == len(al))
        for m, e in zip(ms, al):
            out = out.mul(m.power(e))
        return out

    def make(self):
        s = self.set
        self.ip.call(self.P.PolynomialSet.__init__, [s, self.cell, self.deg, self.emb, self.es, self.coeffs, self.dmats], {})
        return s


def tabulate(d, shape):
    """tabulate(pts, jets): one entry for every multi-index of order at most
    jets, and the entry is coefficients . (D^alpha)^T . expansion functions"""
    nm = "PolynomialSet.tabulate"
    S = Setup(nm, d, shape)
    eng, ip = S.eng, S.ip
    np_, jet = isym("npts"), isym("jet_order")
    eng.assume(np_ >= 1)
    eng.assume(jet >= 0)
    pts = Seq.from_segs([SymIter(np_, lambda q: tuple(sym.app("x", q, c) for c in range(d)))])

    def go():
        S.asked[:] = []
        s = S.make()
        eng.where = nm
        out = pure(eng, ip, S.P.PolynomialSet.tabulate, [s, pts, jet], {})
        for n, p in S.asked:
            eng.prove(nm + ": expansion functions of the embedded degree", Rat.of(n) - S.emb == 0)
            eng.prove(nm + ": at the given points", p is pts)
        check_entries(eng, S, nm, out, jet, np_)
        return out
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    return eng.result()


def entry(ip, out, d, i, j):
    """the entry of a table at the j-th multi-index of order i"""
    if not isinstance(out, dict):
        raise Unsupported("result is not a dictionary")
    key = tuple(sym.app("mi%d" % d, i, j, c, sort="int") for c in range(d))
    zero = (0,) * d
    if isinstance(out, values.SDict) and out.gens:
        try:
            return key, ip.lookup_gen(out, key)
        except Unsupported:
            if Rat.of(i).concrete() != 0:
                raise
    elif zero not in out or Rat.of(i).concrete() != 0:
        return key, None
    return zero, dict.get(out, zero)


def check_table(eng, ip, nm, out, d, jet, want):
    """exactly the multi-indices of order 0 .. jet, each with the entry of
    want(alpha)(idx)"""
    n = out.length() if isinstance(out, values.SDict) else len(out)
    eng.prove(nm + ": as many entries as multi-indices of order at most the requested one", Rat.of(n) - binom(Rat.of(jet) + d, d) == 0)
    for first in (True, False):
        i = Rat.of(0) if first else sym.fresh("i")
        j = Rat.of(0) if first or d == 1 else sym.fresh("j")
        base = list(eng.pc)
        try:
            if not first:
                eng.assume(band(i >= 1, i <= jet, j >= 0, j < binom(i + d - 1, d - 1)))
            al, v = entry(ip, out, d, i, j)
            which = "values" if first else "derivatives"
            if v is None:
                if eng.check([])[0] != "unsat":
                    eng.prove(nm + ": an entry for every multi-index (%s)" % which, False)
                continue
            for c in al:
                eng.assume(Rat.of(c) >= 0)
            want(which, al, v)
        finally:
            eng.pc = base


def check_entries(eng, S, nm, out, jet, np_, C=None, M=None):
    C = C or (lambda i: sym.app("C", *i))
    M = S.M if M is None else M

    def want(which, al, v):
        D = matrix.Mat(S.N)
        for i, e in enumerate(al):
            D = D.mul(S.dmats[i].power(e))
        phi = SymArr((S.N, np_), lambda i: sym.app("phi", *i))
        base = values.sym_dot(D.T, phi)
        v = values.as_symarr(v).frozen()
        eng.prove(nm + ": shape of the %s" % which, len(v.shape) == len(S.shape) + 2 and all(Rat.of(a) - Rat.of(b) == 0 for a, b in zip(v.shape, (M,) + S.shape + (np_,))))
        m, p = sym.fresh("m"), sym.fresh("p")
        eng.assume(band(m >= 0, m < M, p >= 0, p < np_))
        for c in numpy.ndindex(*S.shape):
            eng.prove(nm + ": %s are the coefficients applied to the %s of the expansion functions" % (which, which),
                      v.at((m,) + tuple(c) + (p,)) - values.total(S.N, lambda q: C((m,) + tuple(c) + (q,)) * base.at((q, p))) == 0)
    check_table(eng, S.ip, nm, out, S.d, jet, want)


OBLIGATIONS += [("PolynomialSet.tabulate dim %d shape %s" % (d, s), "specs.c15", "tabulate", (d, s)) for d in (1, 2, 3) for s in ((), (3,), (2, 2))]


# ------------------------------------------------------------ orthonormal sets
def on_set(kind, name, shape, positive):
    """ONPolynomialSet / ONSymTensorPolynomialSet(cell, degree, shape)"""
    from FIAT import polynomial_set as P, expansions as E
    from specs.families import cell as mk
    from FIAT import reference_element as R
    c = R.Point() if name == "point" else mk(name)
    d = len(c.get_vertices()) - 1
    cls = P.ONPolynomialSet if kind == "full" else P.ONSymTensorPolynomialSet
    nm = cls.__name__
    eng, ip = engine(nm)
    for C in (R.Cell, R.Simplex, R.UFCInterval, R.UFCTriangle, R.UFCTetrahedron, R.Point, R.DefaultTriangle, R.DefaultTetrahedron, R.DefaultLine, R.UFCSimplex):
        for n_, f in list(vars(C).items()):
            if callable(f) and n_ != "make_points":
                ip.native.add(f)
    if positive:
        deg = k
        eng.assume(k >= 1)
    else:
        deg = 0
    N = pdim(deg, d)
    seen = {}

    def points(ip, a, kw):
        cc, dim, e, order = a
        eng.prove(nm + ": points in the interior of the cell", cc is c and Rat.of(dim).concrete() == d and Rat.of(e).concrete() == 0)
        order = Rat.of(order)
        eng.prove(nm + ": precondition of make_points (order at least 1)", order >= 1)
        seen["order"] = order
        return Seq.from_segs([SymIter(binom(order - 1, d), lambda q: tuple(sym.app("x", q, i) for i in range(d)))])
    ip.contracts[R.Simplex.make_points] = points

    def cnt(pts):
        return pts.length() if isinstance(pts, (Seq, SymArr)) else len(pts)

    def at(n, pts):
        eng.prove(nm + ": expansion functions of the set's degree", Rat.of(n) - deg == 0)

    def tab(n, pts):
        at(n, pts)
        return SymArr((N, cnt(pts)), lambda i: sym.app("phi", *i))

    def dtab(n, pts):
        at(n, pts)
        return SymArr((N, cnt(pts)), lambda i: (sym.app("phi", *i), tuple(sym.app("dphi%d" % q, *i) if positive else Rat.of(0) for q in range(d))))
    es = Opaque("expansion set", (), dict(tabulate=tab, tabulate_derivatives=dtab, get_num_members=lambda n: pdim(n, d)))

    def get_es(ip, a, kw):
        eng.prove(nm + ": expansion set of the given cell", a[0] is c)
        return es
    ip.contracts[E.get_expansion_set] = get_es
    ip.contracts[E.polynomial_dimension] = lambda ip, a, kw: pdim(a[1], d)

    def inverse(a):
        if not (Rat.of(a.shape[0]) - Rat.of(a.shape[1]) == 0):
            raise sym.sem(numpy.linalg.LinAlgError("not square"))
        i, j = sym.fresh("i"), sym.fresh("j")
        e = a.at((i, j))
        if e is not None and e - sym.app("phi", j, i) == 0 and not isinstance(e - sym.app("phi", j, i) == 0, sym.SymBool):
            return SymArr(a.shape, lambda idx: sym.app("Vinv", *idx))
        if e - sym.app("phi", i, j) == 0 and not isinstance(e - sym.app("phi", i, j) == 0, sym.SymBool):
            return SymArr(a.shape, lambda idx: sym.app("Vinv", *idx[::-1]))
        raise Unsupported("inverse of another matrix")
    ip.inv_contract = inverse

    def solve(a, b):
        inv = inverse(a)
        return values.sym_dot(inv, b)
    ip.solve_contract = solve
    size = shape if kind == "sym" else None
    args = [c, deg] + ([shape] if kind == "full" else ([] if shape is None else [shape]))
    full = shape if kind == "full" else ((d if shape is None else shape,) * 2)

    def go():
        s = ip.call(cls, args, {})
        eng.where = nm
        check_on(eng, nm, kind, s, c, d, deg, N, full, es)
        return s
    for pc, kindr, v in eng.explore(go):
        if kindr == "raise":
            finish(eng, pc, kindr, v, "returns", None, nm)
    eng.assumptions += ["expansion sets by contract: number of members, values and first derivatives (C04)",
                        "numpy.linalg.inv returns the inverse of a square matrix; the lattice points are unisolvent for P_degree (C09)"]
    return eng.result()


def forall(eng, nm, fn):
    """prove fn's conditions on every path, without multiplying the paths of
    the caller"""
    for pc, kind, v in eng.explore(fn):
        if kind == "raise":
            finish(eng, pc, kind, v, "evaluates", None, nm)


def check_on(eng, nm, kind, s, c, d, deg, N, shape, es):
    comps = list(numpy.ndindex(*shape))
    if kind == "sym":
        comps = [(i, j) for i, j in comps if i <= j]
    num = N * len(comps)
    eng.prove(nm + ": number of members", Rat.of(s.num_members) - num == 0)
    eng.prove(nm + ": degree", band(Rat.of(s.degree) - deg == 0, Rat.of(s.embedded_degree) - deg == 0))
    eng.prove(nm + ": cell", s.ref_el is c)
    eng.prove(nm + ": expansion set", s.expansion_set is es)
    co = values.as_symarr(s.coeffs).frozen()
    want = (num,) + tuple(shape) + (N,)
    ok = len(co.shape) == len(want)
    eng.prove(nm + ": shape of the coefficients", ok and band(*[Rat.of(a) - Rat.of(b) == 0 for a, b in zip(co.shape, want)]))
    if not ok:
        return
    # row b*N + e has the b-th component, expansion function e
    conc = Rat.of(N).concrete() is not None
    base = list(eng.pc)
    for b, cm in enumerate(comps):
        for other in numpy.ndindex(*shape):
            eng.pc = list(base)
            e, f = (sym.fresh("e"), sym.fresh("f")) if not conc else (Rat.of(0), Rat.of(0))
            if not conc:
                eng.assume(band(e >= 0, e < N, f >= 0, f < N))
            hit = tuple(other) == tuple(cm) or (kind == "sym" and tuple(other) == tuple(cm)[::-1])
            row = b * N + e

            def one():
                v = Rat.of(co.at((row,) + tuple(other) + (f,)))
                if not hit:
                    eng.prove(nm + ": coefficients outside the member's component are zero", v == 0)
                elif conc:
                    eng.prove(nm + ": the member's coefficient is one", v == 1)
                else:
                    eng.prove(nm + ": the coefficient of the member's own expansion function is one, all others are zero", (v == 1) if bool(e == f) else (v == 0))
            forall(eng, nm, one)
    eng.pc = base
    dm = list(s.dmats)
    eng.prove(nm + ": one derivative matrix per direction", len(dm) == d)
    for i, D in enumerate(dm):
        D = values.as_symarr(D).frozen()
        eng.prove(nm + ": derivative matrices are square of the size of the expansion set", band(Rat.of(D.shape[0]) - N == 0, Rat.of(D.shape[1]) - N == 0))
        if conc:
            eng.prove(nm + ": constants have derivative zero", Rat.of(D.at((0, 0))) == 0)
            continue
        a, b = sym.fresh("a"), sym.fresh("b")
        w = values.total(N, lambda p: sym.app("Vinv", a, p) * sym.app("dphi%d" % i, b, p))
        eng.prove(nm + ": derivative matrix times the values at the points is the derivative there", Rat.of(D.at((a, b))) - w == 0)


ON = [("full", c, s, p) for c in ("interval", "triangle", "tetrahedron", "default triangle", "default tetrahedron", "default line") for s in ((), (2,), (3,), (2, 2)) for p in (True, False)] + [("full", "point", (), False)]
ON += [("sym", c, s, True) for c in ("interval", "triangle", "tetrahedron", "default triangle") for s in (None, 1, 2, 3)]
ON += [("sym", c, None, False) for c in ("interval", "triangle", "tetrahedron")]
OBLIGATIONS += [("%s on %s shape %s%s" % (("ONPolynomialSet", "ONSymTensorPolynomialSet")[kd == "sym"], c, s, "" if p else " degree 0"), "specs.c15", "on_set", (kd, c, s, p)) for kd, c, s, p in ON]


# ------------------------------------------------------------ take, project, union
def take(shape):
    nm = "PolynomialSet.take"
    S = Setup(nm, 2, shape)
    eng, ip = S.eng, S.ip
    n = isym("n_items")
    eng.assume(n >= 1)
    items = Seq.from_segs([SymIter(n, lambda q: sym.app("item", q, sort="int"))])

    def go():
        s = S.make()
        eng.where = nm
        t = pure(eng, ip, S.P.PolynomialSet.take, [s, items], {})
        selected(eng, nm, S, t, n, lambda q: sym.app("item", q, sort="int"))
        same_space(eng, nm, S, t)
        return t
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    return eng.result()


def selected(eng, nm, S, t, n, item):
    eng.prove(nm + ": as many members as items", Rat.of(t.num_members) - n == 0)
    co = values.as_symarr(t.coeffs).frozen()
    i, e = sym.fresh("i"), sym.fresh("e")
    eng.assume(band(i >= 0, i < n, e >= 0, e < S.N))
    eng.prove(nm + ": shape", len(co.shape) == len(S.shape) + 2 and band(*[Rat.of(a) - Rat.of(b) == 0 for a, b in zip(co.shape, (n,) + S.shape + (S.N,))]))
    for c in numpy.ndindex(*S.shape):
        eng.prove(nm + ": member i is the selected member", Rat.of(co.at((i,) + tuple(c) + (e,))) - sym.app("C", item(i), *c, e) == 0)


def same_space(eng, nm, S, t):
    eng.prove(nm + ": cell", t.ref_el is S.cell)
    eng.prove(nm + ": degrees", band(Rat.of(t.degree) - S.deg == 0, Rat.of(t.embedded_degree) - S.emb == 0))
    eng.prove(nm + ": expansion set", t.expansion_set is S.es)
    eng.prove(nm + ": derivative matrices", len(t.dmats) == len(S.dmats) and all(a is b for a, b in zip(t.dmats, S.dmats)))


def project(d):
    """project(f, U, Q)_i = sum_q w_q f(x_q) phi_i(x_q)"""
    from FIAT import polynomial_set as P
    nm = "project"
    S = Setup(nm, d, ())
    eng, ip = S.eng, S.ip
    nq = isym("nq")
    eng.assume(nq >= 1)
    pt = lambda q: tuple(sym.app("x", q, c) for c in range(d))      # noqa: E731
    pts = Seq.from_segs([SymIter(nq, pt)])
    w = SymArr((nq,), lambda i: sym.app("w", i[0]))
    Q = Opaque("rule", (), dict(get_points=lambda: pts, get_weights=lambda: w))
    zero = (0,) * d

    def tab(p, jet=0):
        eng.prove(nm + ": tabulated at the rule's points", p is pts)
        out = values.SDict()
        dict.__setitem__(out, zero, SymArr((S.M, nq), lambda i: sym.app("U", *i)))
        return out
    U = Opaque("set", (), dict(tabulate=tab, get_reference_element=lambda: S.cell, get_num_members=lambda: S.M, ref_el=S.cell, num_members=S.M))

    def f(x):
        return sym.app("f", *list(x))

    def go():
        r = values.as_symarr(pure(eng, ip, P.project, [f, U, Q], {})).frozen()
        eng.where = nm
        i = sym.fresh("i")
        eng.assume(band(i >= 0, i < S.M))
        eng.prove(nm + ": one coefficient per member", len(r.shape) == 1 and Rat.of(r.shape[0]) - S.M == 0)
        eng.prove(nm + ": the coefficients are the weighted sums of f times the member",
                  Rat.of(r.at((i,))) - values.total(nq, lambda q: sym.app("w", q) * sym.app("f", *pt(q)) * sym.app("U", i, q)) == 0)
        return r
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    eng.assumptions.append("with an orthonormal set and an exact rule the weighted sums are the coefficients of the L2 projection")
    return eng.result()


def union(shape):
    """The matrix handed to the singular value decomposition has the members of
    A and B as rows, and the result consists of the right singular vectors of
    the non-negligible singular values, put back into shape."""
    from FIAT import polynomial_set as P
    nm = "polynomial_set_union_normalized"
    S = Setup(nm, 2, shape)
    eng, ip = S.eng, S.ip
    MB = isym("MB")
    eng.assume(MB >= 1)
    nc = 1
    for s in shape:
        nc *= s
    K = S.N * nc
    got = {}
    r = isym("rank")

    def svd(a, full):
        got["matrix"] = a
        rows, cols = a.shape
        eng.assume(isym("n_sv") >= 1)
        got["cols"] = cols
        sig = Seq.from_segs([SymIter(isym("n_sv"), lambda q: sym.app("sigma", q))])
        return (Opaque("u"), sig, SymArr((cols, cols), lambda i: sym.app("vt", *i)))
    ip.svd_contract = svd

    def keep(n, kk, yes, no, vals):
        if not (Rat.of(n) - isym("n_sv")).const() == 0 or len(yes) < 1:
            return None
        # kept exactly when the singular value exceeds a tolerance
        s = sym.app("sigma", kk)
        for tol in (None,):
            for sgn, cs in ((True, yes), (False, no)):
                for c in cs:
                    base = list(eng.pc)
                    eng.pc = base + list(c) + [s >= 0]
                    big = eng.check([s > sym.Fraction(1, 10 ** 6)])[0] == "sat"
                    small = eng.check([s < sym.Fraction(1, 10 ** 14)])[0] == "sat"
                    eng.pc = base
                    eng.prove(nm + (": singular values that are kept are not negligible" if sgn else ": only negligible singular values are dropped"), not (small if sgn else big))
        eng.assume(band(r >= 0, r <= K))
        return SymIter(r, lambda q: sym.app("kept", q))
    ip.filter_contract = keep

    def mk(tag, M):
        s = object.__new__(P.PolynomialSet)
        ip.call(P.PolynomialSet.__init__, [s, S.cell, S.deg, S.emb, S.es, SymArr((M,) + S.shape + (S.N,), lambda i: sym.app(tag, *i)), S.dmats], {})
        return s

    def go():
        A, B = mk("A", S.M), mk("B", MB)
        eng.where = nm
        t = ip.call(P.polynomial_set_union_normalized, [A, B], {})
        same_space(eng, nm, S, t)
        a = got["matrix"].frozen()
        eng.prove(nm + ": one row per member of A and B, one column per component and expansion function", len(a.shape) == 2 and band(Rat.of(a.shape[0]) - S.M - MB == 0, Rat.of(a.shape[1]) - K == 0))
        co = values.as_symarr(t.coeffs).frozen()
        eng.prove(nm + ": as many members as singular values kept", band(Rat.of(t.num_members) - r == 0, Rat.of(co.shape[0]) - r == 0))
        eng.prove(nm + ": shape", len(co.shape) == len(S.shape) + 2 and band(*[Rat.of(x) - Rat.of(y) == 0 for x, y in zip(co.shape, (r,) + S.shape + (S.N,))]))
        i, e = sym.fresh("i"), sym.fresh("e")
        for b, c in enumerate(numpy.ndindex(*S.shape)):
            col = b * S.N + e

            def rowA():
                eng.assume(band(i >= 0, i < S.M, e >= 0, e < S.N))
                eng.prove(nm + ": the first rows are the members of A", Rat.of(a.at((i, col))) - sym.app("A", i, *c, e) == 0)

            def rowB():
                eng.assume(band(i >= 0, i < MB, e >= 0, e < S.N))
                eng.prove(nm + ": the other rows are the members of B", Rat.of(a.at((S.M + i, col))) - sym.app("B", i, *c, e) == 0)

            def res():
                eng.assume(band(i >= 0, i < r, e >= 0, e < S.N))
                eng.prove(nm + ": the members are the right singular vectors in the same layout", Rat.of(co.at((i,) + tuple(c) + (e,))) - sym.app("vt", i, col) == 0)
            for f in (rowA, rowB, res):
                forall(eng, nm, f)
        return t
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    eng.assumptions.append("numpy.linalg.svd: the right singular vectors of the non-zero singular values are an orthonormal basis of the row space; singular values are sorted and those under the tolerance are zero")
    return eng.result()


SH = [(), (2,), (3,), (2, 2), (3, 3)]
OBLIGATIONS += [("PolynomialSet.take shape %s" % (s,), "specs.c15", "take", (s,)) for s in SH]
OBLIGATIONS += [("project in %d variables" % d, "specs.c15", "project", (d,)) for d in (1, 2, 3)]
OBLIGATIONS += [("polynomial_set_union_normalized shape %s" % (s,), "specs.c15", "union", (s,)) for s in SH]


def accessors(shape):
    """get_*, tabulate_new; the vertex set"""
    from FIAT import polynomial_set as P
    nm = "PolynomialSet accessors"
    S = Setup(nm, 2, shape)
    eng, ip = S.eng, S.ip
    np_ = isym("npts")
    eng.assume(np_ >= 1)
    pts = Seq.from_segs([SymIter(np_, lambda q: (sym.app("x", q, 0), sym.app("x", q, 1)))])

    def go():
        s = S.make()
        eng.where = nm
        get = lambda n: ip.call(getattr(P.PolynomialSet, n), [s], {})        # noqa: E731
        eng.prove(nm + ": number of members", Rat.of(get("get_num_members")) - S.M == 0)
        eng.prove(nm + ": degree", Rat.of(get("get_degree")) - S.deg == 0)
        eng.prove(nm + ": embedded degree", Rat.of(get("get_embedded_degree")) - S.emb == 0)
        eng.prove(nm + ": cell", get("get_reference_element") is S.cell)
        eng.prove(nm + ": expansion set", get("get_expansion_set") is S.es)
        eng.prove(nm + ": derivative matrices", all(a is b for a, b in zip(get("get_dmats"), S.dmats)))
        sh = get("get_shape")
        eng.prove(nm + ": shape of the values", len(sh) == len(S.shape) and all(Rat.of(a).concrete() == b for a, b in zip(sh, S.shape)))
        selected(eng, nm, S, s, S.M, lambda q: q)
        t = values.as_symarr(ip.call(P.PolynomialSet.tabulate_new, [s, pts], {})).frozen()
        m, p = sym.fresh("m"), sym.fresh("p")
        eng.assume(band(m >= 0, m < S.M, p >= 0, p < np_))
        for c in numpy.ndindex(*S.shape):
            eng.prove(nm + ": tabulate_new is the coefficients applied to the expansion functions",
                      Rat.of(t.at((m,) + tuple(c) + (p,))) - values.total(S.N, lambda q: sym.app("C", m, *c, q) * sym.app("phi", q, p)) == 0)
        return s
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    return eng.result()


def vertex(jet):
    """tabulate on a point, at its only point without coordinates"""
    from FIAT import polynomial_set as P
    nm = "PolynomialSet.tabulate (vertex)"
    S = Setup(nm, 0, ())
    eng, ip = S.eng, S.ip
    ip.contracts.pop(P.mis)
    S.N = Rat.of(1)
    S.coeffs = SymArr((S.M, 1), lambda i: sym.app("C", *i))
    S.es._attrs["tabulate"] = lambda n, pts: SymArr((1, len(pts)), lambda i: sym.app("phi", *i))

    def go():
        s = S.make()
        eng.where = nm
        t = ip.call(P.PolynomialSet.tabulate, [s, [()], jet], {})
        eng.prove(nm + ": values only", list(dict.keys(t)) == [()])
        v = values.as_symarr(t[()]).frozen()
        m = sym.fresh("m")
        eng.assume(band(m >= 0, m < S.M))
        eng.prove(nm + ": shape", len(v.shape) == 2 and Rat.of(v.shape[0]) - S.M == 0 and Rat.of(v.shape[1]).concrete() == 1)
        eng.prove(nm + ": the coefficients applied to the constant", Rat.of(v.at((m, Rat.of(0)))) - sym.app("C", m, 0) * sym.app("phi", 0, 0) == 0)
        return t
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    return eng.result()


OBLIGATIONS += [("PolynomialSet accessors shape %s" % (s,), "specs.c15", "accessors", (s,)) for s in ((), (3,), (2, 2))]
OBLIGATIONS += [("PolynomialSet.tabulate on a vertex, order %d" % j, "specs.c15", "vertex", (j,)) for j in (0, 1, 2)]
