"""C04 obligations: the expansion sets against the Dubiner basis in closed form."""
from fractions import Fraction

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, isym, bnot, Unsupported, ATOMS
from vlib.pyvc.tables import SpecTable
from vlib.pyvc.values import SymArr, SymIter, Seq
from specs import jacobi as SJ
from specs.jacobi import J
from specs.util import finish, val
import numpy

ASSUME = ["machine arithmetic is treated as real arithmetic",
          "Jacobi polynomials P_n^(a,b) with weight (1-x)^a (1+x)^b are orthogonal with the classical norms (so the closed form proved here is the orthonormal Dubiner basis; the numerical Gram matrix is checked, bounded, for small degrees)"]


def tri(s):
    return s * (s + 1) / 2


def tet(s):
    return s * (s + 1) * (s + 2) / 6


def degree_in(e, at):
    return max([sum(x for a, x in m if a in at) for m in e.num.t] or [0])


def decodings(e, parts, ks):
    """Ways to write e = parts[0](s0) + parts[1](s1) + ... + s_last with each
    s_i a sub-sum of loop variables plus a small constant."""
    import itertools
    c = e.concrete()
    if c is not None:
        out = []
        for f in parts:
            s = 0
            while Rat.of(f(Rat.of(s + 1))).concrete() <= c:
                s += 1
            out.append(Rat.of(s))
            c -= Rat.of(f(Rat.of(s))).concrete()
        yield out + [Rat.of(c)]
        return
    if e.den:
        return
    if not parts:
        if all(sum(x for a, x in m) <= 1 and (not m or c == 1) for m, c in e.num.t.items()) and abs(e.num.t.get((), 0)) <= 4:
            yield [e]
        return
    for r in range(len(ks) + 1):
        for sub in itertools.combinations(ks, r):
            lin = Rat.of(0)
            for k in sub:
                lin = lin + k
            for c in range(-3, 5):
                r2 = e - parts[0](lin + c)
                if degree_in(r2, r2.num.atoms()) < len(parts) + 1:
                    for tail in decodings(r2, parts[1:], ks):
                        yield [lin + c] + tail


def decode(eng, e, parts, ks):
    """The reading of a flat index as a key: the one with a non-negative key."""
    first = None
    for d in decodings(e, parts, ks):
        first = first or d
        if eng.entails(band(d[-1] >= 0, *[d[i] - d[i + 1] >= 0 for i in range(len(d) - 1)])):
            return d
    return first


def loopvars(eng):
    return [j["k"] for j in eng.journal]


def simplex_tabulate(dim):
    from FIAT import expansions
    cls = {2: expansions.TriangleExpansionSet, 3: expansions.TetrahedronExpansionSet}[dim]
    name = "expansions.%s._tabulate" % cls.__name__
    eng = Engine(name)
    eng.normalizers.append(SJ.normalize)
    eng.lenient_division = True
    ip = Interp(eng)
    n = isym("n")
    eng.assume(n >= 0)
    X = [sym.sym(c) for c in "xyz"[:dim]]
    P = [sym.sym("p%d" % i) for i in range(dim)]
    A = numpy.empty((dim, dim), dtype=object)
    b = numpy.empty((dim,), dtype=object)
    for i in range(dim):
        for j in range(dim):
            A[i, j] = sym.sym("A%d%d" % (i, j))
        # without loss of generality b = X - A p with X the mapped point
        b[i] = X[i] - sum((A[i, j] * P[j] for j in range(dim)), Rat.of(0))
    obj = object.__new__(cls)
    obj.__dict__.update(A=A, b=b)

    if dim == 2:
        x, y = X
        f1, f2 = (1 + 2 * x + y) / 2, (1 - y) / 2

        def S1(p, q):
            return J(0, 0, p, f1 / f2) * f2 ** p * J(2 * p + 1, 0, q, y)

        def S2(p, q):
            return S1(p, q) * sym.sqrt((p + SJ.H) * (p + q + 1))

        def key_of(idx):
            d = decode(eng, idx[0], [tri], loopvars(eng))
            return None if d is None else (d[0] - d[1], d[1])

        def dom(k):
            return band(k[0] >= 0, k[1] >= 0, k[0] + k[1] <= n)
        N = tri(n + 1)
    else:
        x, y, z = X
        g1, g2 = (2 + 2 * x + y + z) / 2, -(y + z) / 2
        h1, h2 = (1 + 2 * y + z) / 2, (1 - z) / 2

        def S1(p, q, r):
            return J(0, 0, p, g1 / g2) * g2 ** p * J(2 * p + 1, 0, q, h1 / h2) * h2 ** q * J(2 * p + 2 * q + 2, 0, r, z)

        def S2(p, q, r):
            return S1(p, q, r) * sym.sqrt((p + SJ.H) * (p + q + 1) * (p + q + r + Fraction(3, 2)))

        def key_of(idx):
            d = decode(eng, idx[0], [tet, tri], loopvars(eng))
            return None if d is None else (d[0] - d[1], d[1] - d[2], d[2])

        def dom(k):
            return band(k[0] >= 0, k[1] >= 0, k[2] >= 0, k[0] + k[1] + k[2] <= n)
        N = tet(n + 1)
    # the recurrences below divide by 1-y etc. only inside the specification
    tabs = []

    def policy(shape, fill):
        if len(shape) != 1:
            return None
        t = SpecTable(ip, shape, "the result", dim, key_of, dom, [S1, S2], is_list=True)
        tabs.append(t)
        return t
    values.CURRENT["table_policy"] = policy

    def contract_jrc(ip, args, kw):
        return ip.run_function(expansions.jrc, args, kw)

    def run():
        ip.tables[:] = []
        r = ip.call(cls._tabulate, [obj, n, list(P)], {})
        eng.where = name
        if not isinstance(r, SpecTable):
            eng.prove(name + ": degree zero yields the constant one", band(n == 0, r.length() == 1, Rat.of(r[0]) == 1))
            return r
        if eng.entails(n == 0):
            eng.prove(name + ": one entry per polynomial of degree at most n", r.shape[0] == N)
            r.finish(0 if r.cur == 0 else None)
            if r.cur == 0:
                eng.prove(name + ": degree zero yields the constant one", S1(*[Rat.of(0)] * dim) == 1)
            return r
        eng.prove(name + ": one entry per polynomial of degree at most n", r.shape[0] == N)
        r.finish()
        return r
    for pc, kind, v in eng.explore(run):
        if kind == "raise":
            finish(eng, pc, kind, v, "_tabulate returns", None, name)
    eng.assumptions += ASSUME
    return eng.result()


def numbering():
    """The index function used in the closed form enumerates the keys, by
    total degree, without gaps; the member count agrees."""
    from FIAT import expansions, reference_element
    eng = Engine("numbering")
    ip = Interp(eng)
    eng.where = "expansions numbering"
    n, q, r, s = isym("n"), isym("q"), isym("r"), isym("s")
    for v in (n, q, r, s):
        eng.assume(v >= 0)
    for cls, f in ((expansions.LineExpansionSet, n + 1), (expansions.TriangleExpansionSet, tri(n + 1)), (expansions.TetrahedronExpansionSet, tet(n + 1)), (expansions.PointExpansionSet, Rat.of(1))):
        o = object.__new__(cls)
        eng.prove("expansions.%s.get_num_members is the dimension of the polynomials" % cls.__name__, Rat.of(ip.call(cls.get_num_members, [o, n], {})) == f)
    for cell, f in ((reference_element.UFCInterval, n + 1), (reference_element.UFCTriangle, tri(n + 1)), (reference_element.UFCTetrahedron, tet(n + 1))):
        for pc, kind, v in eng.explore(lambda: ip.call(expansions.polynomial_dimension, [cell(), n], {})):
            finish(eng, pc, kind, v, "dimension on %s" % cell.__name__, lambda: f, "expansions.polynomial_dimension")
    eng.where = "expansions numbering"
    T2 = lambda p, q: tri(p + q) + q      # noqa: E731
    eng.prove("triangle numbering starts at zero", T2(Rat.of(0), Rat.of(0)) == 0)
    eng.prove("triangle numbering: next within a degree", T2(s - 1, q + 1) == T2(s, q) + 1)
    eng.prove("triangle numbering: next degree", T2(q + 1, Rat.of(0)) == T2(Rat.of(0), q) + 1)
    eng.prove("triangle numbering: the last key is the last index", T2(Rat.of(0), n) == tri(n + 1) - 1)
    T3 = lambda p, q, r: tet(p + q + r) + tri(q + r) + r      # noqa: E731
    eng.prove("tetrahedron numbering starts at zero", T3(Rat.of(0), Rat.of(0), Rat.of(0)) == 0)
    eng.prove("tetrahedron numbering: next r", T3(s, q - 1, r + 1) == T3(s, q, r) + 1)
    eng.prove("tetrahedron numbering: next q", T3(s - 1, r + 1, Rat.of(0)) == T3(s, Rat.of(0), r) + 1)
    eng.prove("tetrahedron numbering: next degree", T3(r + 1, Rat.of(0), Rat.of(0)) == T3(Rat.of(0), Rat.of(0), r) + 1)
    eng.prove("tetrahedron numbering: the last key is the last index", T3(Rat.of(0), Rat.of(0), n) == tet(n + 1) - 1)
    # the recurrence coefficients
    a, b, m = sym.sym("a"), sym.sym("b"), isym("m")
    eng.assume(a > -1)
    eng.assume(b > -1)
    eng.assume(m >= 1)
    for pc, kind, v in eng.explore(lambda: ip.call(expansions.jrc, [a, b, m], {})):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, "expansions.jrc")
            continue
        eng.where = "expansions.jrc"
        A, B, C = SJ.coeffs(a, b, m + 1)
        eng.prove("expansions.jrc: the coefficients are those of the classical recurrence", band(v[0] == B, v[1] == A, v[2] == C))
    eng.assumptions += ASSUME
    return eng.result()


def line():
    from FIAT import expansions, jacobi, reference_element
    eng = Engine("line")
    eng.normalizers.append(SJ.normalize)
    ip = Interp(eng)
    n, N = isym("n"), isym("npts")
    eng.assume(n >= 0)
    eng.assume(N >= 1)
    A, b = sym.sym("A"), sym.sym("b")
    X = lambda i: sym.app("x", i)      # noqa: E731
    cls = expansions.LineExpansionSet

    def cbatch(ip, args, kw):
        a_, b_, n_, xs = args
        n_ = Rat.of(n_)
        eng.prove("expansions.LineExpansionSet: precondition of eval_jacobi_batch", band(Rat.of(a_) > -1, Rat.of(b_) > -1, n_ >= 0))
        return SymArr((n_ + 1, xs.shape[0]), lambda idx: J(a_, b_, idx[0], xs.at((idx[1], 0))))

    def cderiv(ip, args, kw):
        a_, b_, n_, xs = args
        a_, b_, n_ = Rat.of(a_), Rat.of(b_), Rat.of(n_)
        return SymArr((n_ + 1, xs.shape[0]), lambda idx: dJ(a_, b_, idx[0], xs.at((idx[1], 0))))

    def dJ(a_, b_, k, x):
        return sym.app("dJ", Rat.of(a_), Rat.of(b_), Rat.of(k), x)
    ip.contracts[jacobi.eval_jacobi_batch] = cbatch
    ip.contracts[jacobi.eval_jacobi_deriv_batch] = cderiv
    mode = ["v"]

    def spec(k, i):
        u = A * X(i) + b
        if mode[0] == "v":
            return J(0, 0, k, u) * sym.sqrt(k + SJ.H)
        return A * dJ(0, 0, k, u) * sym.sqrt(k + SJ.H)
    tabs = []

    def policy(shape, fill):
        t = SpecTable(ip, shape, "the result", 2, lambda idx: idx,
                      lambda key: band(key[0] >= 0, key[0] < shape[0], key[1] >= 0, key[1] < shape[1]), [spec])
        tabs.append(t)
        return t
    values.CURRENT["table_policy"] = policy
    o = object.__new__(cls)
    Am = numpy.empty((1, 1), dtype=object)
    Am[0, 0] = A
    bm = numpy.empty((1,), dtype=object)
    bm[0] = b
    def mapping(x):
        raise NotImplementedError
    # the contract of the map, proved below for __init__
    ip.contracts[mapping] = lambda ip, args, kw: [A * ip.getitem(args[0], 0) + b]
    o.__dict__.update(A=Am, b=bm, mapping=mapping)
    pts = Seq.from_segs([SymIter(N, lambda i: (X(i),))])

    def run():
        ip.tables[:] = []
        del tabs[:]
        r = ip.call(cls.tabulate, [o, n, pts], {})
        eng.where = "expansions.LineExpansionSet.tabulate"
        eng.prove("expansions.LineExpansionSet.tabulate: result shape", band(r.shape[0] == n + 1, r.shape[1] == N))
        r.finish()
    for pc, kind, v in eng.explore(run):
        if kind == "raise":
            finish(eng, pc, kind, v, "tabulate returns", None, "expansions.LineExpansionSet.tabulate")
    # the map: two-point affine interpolation takes the vertices to -1 and 1
    v0, v1, t = sym.sym("v0"), sym.sym("v1"), sym.sym("t")
    eng.assume(v0 != v1)
    eng.where = "expansions.LineExpansionSet.__init__"

    class Cell(reference_element.Simplex):
        def __init__(self):
            self.shape, self.vertices = reference_element.LINE, ((v0,), (v1,))
            self.topology = {0: {0: (0,), 1: (1,)}, 1: {0: (0, 1)}}
    eng.muted += 1
    try:
        outs = eng.explore(lambda: ip.construct(cls, [Cell()], {}))
    finally:
        eng.muted -= 1
    for pc, kind, v in outs:
        if kind == "raise":
            finish(eng, pc, kind, v, "constructs", None, "expansions.LineExpansionSet.__init__")
            continue
        m = ip.call(v.mapping, [(v0 + t * (v1 - v0),)], {})
        eng.prove("expansions.LineExpansionSet.__init__: the map takes the cell affinely to (-1, 1)", Rat.of(m[0]) == -1 + 2 * t)
    eng.assumptions += ASSUME
    return eng.result()


OBLIGATIONS = [("triangle-dubiner", "specs.c04", "simplex_tabulate", (2,)), ("tetrahedron-dubiner", "specs.c04", "simplex_tabulate", (3,)),
               ("numbering", "specs.c04", "numbering", ()), ("line-legendre", "specs.c04", "line", ())]
