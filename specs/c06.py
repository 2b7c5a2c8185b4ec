"""C06 obligations: quadrature rules for cells with symbolic vertices and a
symbolic number of points per direction; dispatch on the degree."""
from fractions import Fraction
import itertools

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values, stubs
from vlib.pyvc.sym import Rat, band, bor, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq, Opaque
from specs.c15 import engine
from specs.c08 import plain, simplex, dot, sub, shipped
from specs.util import finish
import numpy

ASSUME = ["the m-point Gauss-Jacobi rule is exact to degree 2m-1, the m-point Gauss-Lobatto rule to 2m-3 (classical; the nodes and weights of the reference rules, computed by Newton's method and eigenvalue decompositions in floating point, are compared with exact moments by the bounded check)",
          "change of variables: a rule for a weight |det DF| and polynomials F of degree one in each variable integrates every polynomial up to its own degree",
          "make_affine_mapping by contract (C08): the affine map taking vertices to vertices",
          "real arithmetic instead of floating point"]


def linear(M, r):
    """exact solution of a small system with rational matrix"""
    n = len(M)
    M = [[Fraction(x) for x in row] for row in M]
    r = [list(x) for x in r]
    for i in range(n):
        p = [j for j in range(i, n) if M[j][i] != 0]
        if not p:
            raise numpy.linalg.LinAlgError("Singular matrix")
        M[i], M[p[0]], r[i], r[p[0]] = M[p[0]], M[i], r[p[0]], r[i]
        f = M[i][i]
        M[i] = [x / f for x in M[i]]
        r[i] = [x / f for x in r[i]]
        for j in range(n):
            if j != i and M[j][i] != 0:
                f = M[j][i]
                M[j] = [x - f * y for x, y in zip(M[j], M[i])]
                r[j] = [x - f * y for x, y in zip(r[j], r[i])]
    return r


def points(xs):
    out = []
    for x in xs:
        try:
            out.append([Rat.of(c) for c in x])
        except TypeError:
            out.append([Rat.of(x)])
    return out


def affine(eng):
    """the unique affine map of a simplex with rational vertices"""
    def build(ip, args, kw):
        xs, ys = args
        xs, ys = points(xs), points(ys)
        if len(xs) != len(ys):
            raise Exception("")
        if any(c.concrete() is None for x in xs for c in x):
            raise Unsupported("affine map of a symbolic simplex")
        dx, dy = len(xs[0]), len(ys[0])
        if len(xs) != dx + 1:
            raise Unsupported("affine map of something that is not a simplex")
        Z = linear([[c.concrete() for c in x] + [1] for x in xs], ys)
        A = numpy.array([[Z[i][j] for i in range(dx)] for j in range(dy)], dtype=object).reshape(dy, dx)
        return A, numpy.array([Z[dx][j] for j in range(dy)], dtype=object)
    return build


def family(tag, m):
    """points and weights of a reference rule"""
    return (Seq.from_segs([SymIter(m, lambda k: sym.app("x" + tag, m, k))]), Seq.from_segs([SymIter(m, lambda k: sym.app("w" + tag, m, k))]))


def reference(eng, ip):
    """the one-dimensional reference rules"""
    from FIAT import quadrature as Q, orthopoly as O, reference_element as R

    def jac(ip, args, kw):
        a, b, m = [Rat.of(x) for x in args]
        if a.concrete() is None or b.concrete() is None:
            raise Unsupported("Gauss-Jacobi rule with symbolic weights")
        eng.prove("%s: precondition of the Gauss-Jacobi rule (at least one point)" % eng.where, m >= 1)
        return family("J%s_%s" % (a.concrete(), b.concrete()), m)
    ip.contracts[Q.compute_gauss_jacobi_rule] = jac
    ip.contracts[Q.compute_gauss_jacobi_points] = lambda ip, a, kw: jac(ip, a, kw)[0]
    ip.contracts[numpy.polynomial.legendre.leggauss] = lambda ip, a, kw: jac(ip, [0, 0, a[0]], kw)

    def rec(ip, args, kw):
        m, a, b = args
        return Opaque("alpha", (), dict(rec=(m, a, b))), Opaque("beta", (), dict(rec=(m, a, b)))
    ip.contracts[O.rec_jacobi] = rec

    def coefficients(al, be):
        r, s = getattr(al, "_attrs", {}).get("rec"), getattr(be, "_attrs", {}).get("rec")
        if r is None or s is None or al._kind != "alpha" or be._kind != "beta":
            raise Unsupported("recursion coefficients of unknown origin")
        ok = all(eng.entails(Rat.of(x) == Rat.of(y)) for x, y in zip(r, s))
        eng.prove("%s: the recursion coefficients belong together" % eng.where, ok)
        if Rat.of(r[1]).concrete() is None or Rat.of(r[2]).concrete() is None:
            raise Unsupported("symbolic Jacobi weights")
        return Rat.of(r[0]), Rat.of(r[1]).concrete(), Rat.of(r[2]).concrete()

    def lob(ip, args, kw):
        m, a, b = coefficients(*args[:2])
        eng.prove("%s: precondition of the Lobatto rule (the end points of the reference interval, weight 1, more than two points)" % eng.where,
                  band(Rat.of(args[2]) == -1, Rat.of(args[3]) == 1, a == 0, b == 0, m >= 3), "ends %s, %s, weights %s, %s, m = %s" % (args[2], args[3], a, b, m))
        eng.assume(sym.app("xL", m, Rat.of(0)) == -1)
        eng.assume(sym.app("xL", m, m - 1) == 1)
        return family("L", m)
    ip.contracts[O.lobatto] = lob

    def gau(ip, args, kw):
        m, a, b = coefficients(*args[:2])
        return jac(ip, [a, b, m], kw)
    ip.contracts[O.gauss] = gau
    ip.contracts[R.make_affine_mapping] = affine(eng)


def rule_of(v):
    from FIAT.quadrature import QuadratureRule
    return isinstance(v, QuadratureRule)


def as_seq(x):
    if isinstance(x, Seq):
        return x
    if isinstance(x, values.SymArr):
        return Seq.from_segs([SymIter(Rat.of(x.shape[0]), lambda k: x.at((k,)) if len(x.shape) == 1 else tuple(x.at((k, Rat.of(c))) for c in range(int(Rat.of(x.shape[1]).concrete()))))])
    return Seq(list(x))


def explore(eng, ip, nm, fn, args, post, kw=None):
    def go():
        eng.where = nm
        return ip.call(fn, args, dict(kw or {}))
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns a rule", None, nm)
            continue
        base = list(eng.pc)
        eng.pc = base + list(pc)
        eng.where = nm
        try:
            post(v)
        except Stop:
            pass
        eng.pc = base


def refuses(eng, ip, nm, what, fn, args, kw=None, after=()):
    """every path raises an ordinary exception"""
    for pc, kind, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(fn, args, dict(kw or {})))[1]):
        eng.prove("%s: %s" % (nm, what), kind == "raise" and isinstance(v, Exception), "returns %r" % (v,))


class Stop(Exception):
    """an obligation failed on which the others of the path depend"""


def need(eng, name, b, detail=""):
    if not eng.prove(name, b, detail):
        raise Stop()


def size(eng, nm, v, cell, n):
    """a rule of the cell with n points and n weights"""
    need(eng, nm + ": a quadrature rule of the cell asked for", rule_of(v) and v.ref_el is cell)
    xs, ws = as_seq(v.pts), as_seq(v.wts)
    need(eng, nm + ": number of points and weights", band(Rat.of(xs.length()) == n, Rat.of(ws.length()) == n), "%s points, %s weights, expected %s" % (xs.length(), ws.length(), n))
    return xs, ws


# ------------------------------------------------------------- line rules
LINES = dict(GaussJacobi=("GaussJacobiQuadratureLineRule", "J0_0", 1), GaussLegendre=("GaussLegendreQuadratureLineRule", "J0_0", 1),
             Lobatto=("GaussLobattoLegendreQuadratureLineRule", "L", 3), Lobatto2=("GaussLobattoLegendreQuadratureLineRule", None, 2))


def linepost(eng, nm, v, cell, V, m, tag, sign, ident=True):
    """v is the image of the m-point reference rule on the interval V"""
    xs, ws = size(eng, nm, v, cell, m)
    a, b = V[0][0], V[1][0]
    i = isym("i")
    eng.assume(i >= 0)
    eng.assume(i < m)
    p, w = values.seq_at(xs, i, True), Rat.of(values.seq_at(ws, i, True))
    eng.prove(nm + ": a point has one coordinate", len(p) == 1)
    # in the order of the reference rule, or backward
    X, W = [sym.app("x" + tag, m, i), sym.app("x" + tag, m, m - 1 - i)], [sym.app("w" + tag, m, i), sym.app("w" + tag, m, m - 1 - i)]
    image = lambda x: a + (x + 1) / 2 * (b - a)      # noqa: E731
    back = eng.entails(Rat.of(p[0]) == image(X[1]))
    eng.prove(nm + ": points are the images of the reference points", Rat.of(p[0]) == image(X[back]), "%s" % (p,))
    eng.prove(nm + ": weights are the reference weights times half the length of the interval", w == W[back] * (b - a) * sign / 2, "%s" % w)
    if tag == "L":
        ends = [Rat.of(values.seq_at(xs, Rat.of(q), True)[0]) for q in (Rat.of(0), m - 1)]
        eng.prove(nm + ": the ends belong to the rule", band(*[bor(*[x == w[0] for x in ends]) for w in V]), "%s" % (ends,))


def line(cname, sign, which, entry=None):
    """the line rules on an interval with symbolic end points"""
    from FIAT import quadrature as Q
    nm, tag, lowest = LINES[which]
    cls = getattr(Q, nm)
    if entry:
        nm, cls = entry, getattr(Q, entry)
    eng, ip = engine(nm)
    plain(eng, ip)
    reference(eng, ip)
    ref, cell, V = simplex(eng, ip, cname)
    a, b = V[0][0], V[1][0]
    eng.assume((b - a) * sign > 0)
    m = isym("m") if tag else Rat.of(2)
    eng.assume(m >= lowest)

    def post(v):
        if tag is not None:
            return linepost(eng, nm, v, cell, V, m, tag, sign)
        xs, ws = size(eng, nm, v, cell, m)
        if True:
            for i in range(2):
                p = values.seq_at(xs, Rat.of(i), True)
                eng.prove(nm + ": the two-point rule uses the end points", band(len(p) == 1, bor(*[Rat.of(p[0]) == w[0] for w in V])), "%s" % (p,))
                eng.prove(nm + ": the two-point rule weighs both ends equally", Rat.of(values.seq_at(ws, Rat.of(i), True)) == (b - a) * sign / 2)
            eng.prove(nm + ": the end points are different", Rat.of(values.seq_at(xs, Rat.of(0), True)[0]) != Rat.of(values.seq_at(xs, Rat.of(1), True)[0]))
    explore(eng, ip, nm, cls, [cell, m], post)
    if entry or which in ("GaussLegendre", "Lobatto"):      # make_quadrature refuses the others
        few = isym("few")
        eng.assume(few < (2 if tag == "L" else 1))
        refuses(eng, ip, nm, "too few points are refused", cls, [cell, few])
    return done(eng)


def done(eng):
    eng.assumptions += ASSUME
    return eng.result()


# -------------------------------------------------------- collapsed rules
def ix(a):
    """number of an atom"""
    r = a if isinstance(a, Rat) else Rat.atom(a)
    x, = r.atoms(False)
    return x


def linear_part(r, a):
    """(r at a = 0, derivative) when r is of degree at most one in the atom a"""
    x = ix(a)
    at = lambda c: r.subs({x: Rat.of(c)})      # noqa: E731
    r0, r1 = at(0), at(1)
    if not (r - r0 - Rat.atom(a) * (r1 - r0)) == 0:
        return None
    return r0, r1 - r0


def collapsed(cname, sign, entry=None):
    from FIAT import quadrature as Q, reference_element as R
    ref = shipped(cname)
    sd = ref.get_spatial_dimension()
    cls = {2: Q.CollapsedQuadratureTriangleRule, 3: Q.CollapsedQuadratureTetrahedronRule}[sd]
    nm = cls.__name__
    if entry:
        nm, cls = entry, getattr(Q, entry)
    eng, ip = engine(nm)
    plain(eng, ip)
    reference(eng, ip)
    ref, cell, V = simplex(eng, ip, cname)
    E = [sub(v, V[0]) for v in V[1:]]
    D = Rat.of(stubs.det(E))
    if sd == 2:
        eng.assume(D * sign > 0)
        vol = D * sign
    else:       # the determinant under a name
        vol = None
    m = isym("m")
    eng.assume(m >= 1)
    dets = []
    if sd == 3:
        def det(ip, a, kw):
            M = numpy.asarray(a[0], dtype=object)
            d = Rat.of(stubs.det([[Rat.of(x) for x in row] for row in M]))
            g = sym.fresh("det", "real")
            eng.assume(g != 0)
            dets.append((d, g))
            return g
        ip.contracts[numpy.linalg.det] = det

    def post(v):
        xs, ws = size(eng, nm, v, cell, m ** sd)
        idx = [isym("i%d" % c) for c in range(sd)]
        for i in idx:
            eng.assume(i >= 0)
            eng.assume(i < m)
        r = Rat.of(0)
        for i in idx:
            r = r * m + i
        p, w = [Rat.of(x) for x in values.seq_at(xs, r, True)], Rat.of(values.seq_at(ws, r, True))
        eng.prove(nm + ": a point has %d coordinates" % sd, len(p) == sd)
        # the reference points it was made from, one of each direction
        used = [sym.ATOMS[a] for x in p for a in x.atoms(False) if sym.ATOMS[a].name.startswith("xJ")]
        used = list({id(a): a for a in used}.values())
        ok = len(used) == sd and all(eng.entails(Rat.of(a.args[0]) == m) for a in used)
        eng.prove(nm + ": a point is made of one point of %d rules with m points" % sd, ok, "%s" % (used,))
        if not ok:
            return
        perm = [[eng.entails(Rat.of(a.args[1]) == i) for i in idx] for a in used]
        eng.prove(nm + ": every combination of the points is used once", all(sum(map(bool, q)) == 1 for q in perm) and all(any(q[c] for q in perm) for c in range(sd)), "%s" % (used,))
        wprod, weight = Rat.of(1), Rat.of(1)
        for a in used:
            al, be = [Fraction(q) for q in a.name[2:].split("_")]
            wprod = wprod * sym.app("w" + a.name[1:], *a.args)
            if al.denominator != 1 or be.denominator != 1:
                raise Unsupported("fractional Jacobi weights")
            weight = weight * (1 - Rat.atom(a)) ** int(al) * (1 + Rat.atom(a)) ** int(be)
        # barycentric coordinates of the point
        unit = {}
        for k, vv in enumerate(V):
            for c, x in enumerate(vv):
                unit[ix(x)] = Rat.of(1 if k == c + 1 else 0)
        lam = [x.subs(unit) for x in p]
        for c in range(sd):
            eng.prove(nm + ": the point is a combination of the vertices", p[c] == V[0][c] + dot(lam, [e[c] for e in E]), "coordinate %d: %s" % (c, p[c]))
        J = []
        for x in lam:
            row = []
            for a in used:
                q = linear_part(x, a)
                eng.prove(nm + ": the map from the cube is of degree one in each direction", q is not None)
                if q is None:
                    return
                row.append(q[1])
            J.append(row)
        dj = Rat.of(stubs.det(J))
        # dj = const * weight: compare at the centre of the cube
        centre = {ix(a): Rat.of(0) for a in used}
        c0 = dj.subs(centre)
        eng.prove(nm + ": the Jacobian of the map from the cube is a multiple of the weight functions of the rules", band(dj == c0 * weight, c0 != 0), "%s, weight %s" % (dj, weight))
        cc = c0.concrete()
        if cc is None:
            raise Unsupported("Jacobian")
        inside = [band(Rat.atom(a) >= -1, Rat.atom(a) <= 1) for a in used]
        for q in inside:
            eng.assume(q)
        bary = [1 - sum(lam, Rat.of(0))] + lam
        for x in bary:
            eng.prove(nm + ": the cube is mapped into the cell", nonneg(eng, x, used), "%s" % x)
        prod = Rat.of(1)
        for x in bary:
            prod = prod * x
        for a in used:
            for e in (-1, 1):
                eng.prove(nm + ": the boundary of the cube is mapped to the boundary of the cell", prod.subs({ix(a): Rat.of(e)}) == 0)
        if vol is not None:
            eng.prove(nm + ": weights are the products of the weights times the Jacobian", w == wprod * abs(cc) * vol, "%s" % w)
        else:
            good = False
            for d, g in dets:
                f = None
                for q in (Fraction(1, 8), Fraction(1), Fraction(1, 6), Fraction(8), Fraction(1, 2), Fraction(1, 4)):
                    if eng.entails(d == q * D) or eng.entails(d == -q * D):
                        f = q
                if f is None:
                    continue
                eng_ok = eng.entails(bor(band(g > 0, w == wprod * abs(cc) / f * g), band(g < 0, w == -wprod * abs(cc) / f * g)))
                good = good or eng_ok
            eng.prove(nm + ": weights are the products of the weights times the Jacobian", good, "%s" % w)
    explore(eng, ip, nm, cls, [cell, m], post)
    return done(eng)


def nonneg(eng, x, used):
    """x >= 0 on the cube: of degree one in each direction, so at the corners"""
    for corner in itertools.product((-1, 1), repeat=len(used)):
        y = x.subs({ix(a): Rat.of(e) for a, e in zip(used, corner)})
        if not eng.entails(y >= 0):
            return False
    return True


# ---------------------------------------------------- rules by contract
class Given(object):
    """quadrature rules by contract: n symbolic points and weights"""

    def __init__(self, eng, ip):
        self.eng, self.ip, self.made = eng, ip, []

    def rule(self, cell, tag, n=None, sd=None):
        from FIAT.quadrature import QuadratureRule
        sd = total(cell.get_spatial_dimension()) if sd is None else sd
        n = isym("n" + tag) if n is None else n
        self.eng.assume(n >= 1)
        q = object.__new__(QuadratureRule)
        q.__dict__.update(ref_el=cell, pts=Seq.from_segs([SymIter(n, lambda k: tuple(sym.app("p" + tag, k, c) for c in range(sd)))]),
                          wts=Seq.from_segs([SymIter(n, lambda k: sym.app("w" + tag, k))]))
        q._n, q._tag, q._sd = n, tag, sd
        return q

    def make(self, ip, args, kw):
        """make_quadrature"""
        a = dict(zip(("ref_el", "m"), args))
        a.update(kw)
        c, m = a["ref_el"], a["m"]
        if isinstance(m, tuple):
            raise Unsupported("make_quadrature with a tuple")
        self.eng.prove("%s: precondition of make_quadrature (at least one point per direction)" % self.eng.where, Rat.of(m) >= 1)
        q = self.rule(c, "r%d" % len(self.made))
        q._m = Rat.of(m)
        self.made.append(q)
        return q


def total(d):
    return sum(d) if isinstance(d, tuple) else d


def product_of(eng, nm, v, rules, degrees=None):
    """v is the product of the rules: points concatenated, weights multiplied,
    every combination once"""
    n = Rat.of(1)
    for q in rules:
        n = n * q._n
    xs, ws = as_seq(v.pts), as_seq(v.wts)
    eng.prove(nm + ": number of points and weights", band(Rat.of(xs.length()) == n, Rat.of(ws.length()) == n), "%s points, %s weights, expected %s" % (xs.length(), ws.length(), n))
    idx = [isym("i%d" % c) for c in range(len(rules))]
    for i, q in zip(idx, rules):
        eng.assume(i >= 0)
        eng.assume(i < q._n)
    # last index fastest
    r = Rat.of(0)
    for i, q in zip(idx, rules):
        r = r * q._n + i
    p = list(values.seq_at(xs, r, True))
    w = Rat.of(values.seq_at(ws, r, True))
    wantp = [sym.app("p" + q._tag, i, c) for i, q in zip(idx, rules) for c in range(q._sd)]
    wantw = Rat.of(1)
    for i, q in zip(idx, rules):
        wantw = wantw * sym.app("w" + q._tag, i)
    eng.prove(nm + ": coordinates of the factors' points in order", band(len(p) == len(wantp), *[Rat.of(x) == y for x, y in zip(p, wantp)]), "%s, expected %s" % (p, wantp))
    eng.prove(nm + ": weights are products of the factors' weights", w == wantw, "%s, expected %s" % (w, wantw))


def native(ip):
    """product cells of concrete cells are built by the real constructor (C08)"""
    from FIAT import reference_element as R
    ip.contracts[R.TensorProductCell] = lambda ip, a, kw: R.TensorProductCell(*a)


def tensor(names):
    """make_tensor_product_quadrature of rules with any number of points"""
    from FIAT import quadrature as Q
    nm = "make_tensor_product_quadrature"
    eng, ip = engine(nm)
    plain(eng, ip)
    native(ip)
    G = Given(eng, ip)
    cells = [shipped(c) for c in names]
    rules = [G.rule(c, "f%d" % i) for i, c in enumerate(cells)]

    def post(v):
        eng.prove(nm + ": a rule of the product of the cells", rule_of(v) and hasattr(v.ref_el, "cells") and len(v.ref_el.cells) == len(cells) and all(a is b for a, b in zip(v.ref_el.cells, cells)))
        product_of(eng, nm, v, rules)
    explore(eng, ip, nm, Q.make_tensor_product_quadrature, rules, post)
    return done(eng)


def ruleclass():
    """QuadratureRule: constructor, accessors and integrate"""
    from FIAT import quadrature as Q
    nm = "QuadratureRule"
    eng, ip = engine(nm)
    plain(eng, ip)
    n, k = isym("n"), isym("k")
    eng.assume(n >= 0)
    eng.assume(k >= 0)
    c = shipped("T")
    P = Seq.from_segs([SymIter(n, lambda i: (sym.app("x", i), sym.app("y", i)))])
    W = Seq.from_segs([SymIter(n, lambda i: sym.app("w", i))])
    V = Seq.from_segs([SymIter(k, lambda i: sym.app("v", i))])
    base = list(eng.pc)
    eng.assume(n != k)
    refuses(eng, ip, nm, "different numbers of points and weights are refused", Q.QuadratureRule, [c, P, V])
    eng.pc = base
    eng.assume(n >= 1)
    i = isym("i")
    eng.assume(i >= 0)
    eng.assume(i < n)

    def post(v):
        xs, ws = size(eng, nm, v, c, n)
        x, w = values.seq_at(xs, i, True), values.seq_at(ws, i, True)
        eng.prove(nm + ": points and weights are kept", band(len(x) == 2, Rat.of(x[0]) == sym.app("x", i), Rat.of(x[1]) == sym.app("y", i), Rat.of(w) == sym.app("w", i)))
        X, Z = values.as_symarr(ip.call(v.get_points, [], {})), values.as_symarr(ip.call(v.get_weights, [], {}))
        eng.prove(nm + ": get_points returns the points", band(len(X.shape) == 2, Rat.of(X.shape[0]) == n, Rat.of(X.shape[1]) == 2, *[Rat.of(X.at((i, Rat.of(q)))) == sym.app("xy"[q], i) for q in (0, 1)]))
        eng.prove(nm + ": get_weights returns the weights", band(len(Z.shape) == 1, Rat.of(Z.shape[0]) == n, Rat.of(Z.at((i,))) == sym.app("w", i)))
        f = lambda p: sym.app("f", p[0], p[1])      # noqa: E731
        got = ip.call(v.integrate, [f], {})
        want = values.total(n, lambda j: sym.app("w", j) * sym.app("f", sym.app("x", j), sym.app("y", j)))
        eng.prove(nm + ": integrate is the weighted sum of the function's values", Rat.of(got) == want, "%s" % got)
    explore(eng, ip, nm, Q.QuadratureRule, [c, P, W], post)
    return done(eng)


def face(number):
    """UFCTetrahedronFaceQuadratureRule"""
    from FIAT import quadrature as Q
    nm = "UFCTetrahedronFaceQuadratureRule"
    eng, ip = engine(nm)
    plain(eng, ip)
    G = Given(eng, ip)
    ip.contracts[Q.make_quadrature] = G.make
    m = isym("m")
    eng.assume(m >= 1)
    tet = shipped("S")
    vs = [[Rat.of(x) for x in tet.get_vertices()[i]] for i in tet.get_topology()[2][number]]
    a, b = sub(vs[1], vs[0]), sub(vs[2], vs[0])
    n = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def go():
        G.made[:] = []
        eng.where = nm
        return ip.call(Q.UFCTetrahedronFaceQuadratureRule, [number, m], {})
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns a rule", None, nm)
            continue
        base = list(eng.pc)
        eng.pc = base + list(pc)
        eng.prove(nm + ": one rule of the UFC triangle with m points per direction", len(G.made) == 1 and type(G.made[0].ref_el).__name__ == "UFCTriangle" and eng.entails(G.made[0]._m >= m))
        q = G.made[0]
        X, Z = values.as_symarr(v.pts), values.as_symarr(v.wts)
        i = isym("i")
        eng.assume(i >= 0)
        eng.assume(i < q._n)
        eng.prove(nm + ": number of points and weights", band(rule_of(v), Rat.of(X.shape[0]) == q._n, Rat.of(Z.shape[0]) == q._n, Rat.of(X.shape[1]) == 3))
        s, t = [sym.app("p" + q._tag, i, c) for c in (0, 1)]
        for c in range(3):
            eng.prove(nm + ": points are the images of the triangle's points on the face", Rat.of(X.at((i, Rat.of(c)))) == vs[0][c] + s * a[c] + t * b[c])
        w = Rat.of(Z.at((i,)))
        wr = sym.app("w" + q._tag, i)
        scale = sym.sqrt(dot(n, n))
        eng.prove(nm + ": weights times twice the area of the face", w == wr * scale, "%s" % w)
        J = numpy.asarray(ip.call(v.jacobian, [], {}), dtype=object)
        eng.prove(nm + ": jacobian", J.shape == (3, 2) and eng.entails(band(*[Rat.of(J[c][e]) == (a, b)[e][c] for c in range(3) for e in (0, 1)])))
        eng.prove(nm + ": reference rule", ip.call(v.reference_rule, [], {}) is q)
        eng.pc = base
    return done(eng)


def hypercube(cname):
    """make_quadrature on quadrilateral and hexahedron"""
    from FIAT import quadrature as Q
    nm = "make_quadrature"
    eng, ip = engine(nm)
    plain(eng, ip)
    reference(eng, ip)
    native(ip)
    cell = shipped(cname)
    sd = {"Q": 2, "H": 3}[cname]
    m = isym("m")
    eng.assume(m >= 1)
    parts = []

    def prod(ip, a, kw):
        parts[:] = list(a)
        return "product"
    ip.contracts[Q.make_tensor_product_quadrature] = prod

    def post(v):
        eng.prove(nm + ": the product of %d rules" % sd, v == "product" and len(parts) == sd)
        for q in parts:
            I = q.ref_el
            vs = [[Rat.of(x) for x in p] for p in I.get_vertices()]
            eng.prove(nm + ": a factor is a rule of the unit interval", len(vs) == 2 and eng.entails(band(vs[0][0] == 0, vs[1][0] == 1)))
            linepost(eng, nm, q, I, vs, m, "J0_0", 1)
    explore(eng, ip, nm, Q.make_quadrature, [cell, m], post)
    return done(eng)


def make():
    """make_quadrature: points, refusals"""
    from FIAT import quadrature as Q
    nm = "make_quadrature"
    eng, ip = engine(nm)
    plain(eng, ip)
    reference(eng, ip)
    m = isym("m")
    base = list(eng.pc)
    eng.assume(m >= 1)
    c = shipped("P")

    def post(v):
        xs, ws = size(eng, nm, v, c, 1)
        eng.prove(nm + ": the point is a rule of one point with weight one", len(tuple(values.seq_at(xs, Rat.of(0), True))) == 0 and eng.entails(Rat.of(values.seq_at(ws, Rat.of(0), True)) == 1))
    explore(eng, ip, nm, Q.make_quadrature, [c, m], post)
    for cn in ("IxI", "TxI"):
        refuses(eng, ip, nm, "unsupported cells are refused", Q.make_quadrature, [shipped(cn), m])
    eng.pc = base
    eng.assume(m <= 0)
    n = isym("n")
    for cn in ("P", "I", "T", "S", "Q", "H", "TxI"):
        refuses(eng, ip, nm, "no point per direction is refused", Q.make_quadrature, [shipped(cn), m])
        refuses(eng, ip, nm, "no point per direction is refused", Q.make_quadrature, [shipped(cn), (m, n)])
        refuses(eng, ip, nm, "no point per direction is refused", Q.make_quadrature, [shipped(cn), (n, m)])
    return done(eng)


# ------------------------------------------------------------ the dispatch
def exactness(q, cell, limit=40):
    """the degree up to which a concrete rule is exact (to rounding)"""
    import numpy as np
    from props import c06 as B
    from vlib import num
    f = lambda x: float(Rat.of(x).concrete())      # noqa: E731
    pts = np.array([[f(c) for c in x] for x in as_list(q.pts)])
    wts = np.array([f(w) for w in as_list(q.wts)])
    if len(pts) != len(wts):
        return -1, False
    sd = cell.get_spatial_dimension()
    deg = -1
    for n in range(limit + 1):
        al = num.alphas(sd, n)
        want = B.mono_int(cell, al)
        got = np.array([float(np.dot(wts, np.prod(pts ** np.array(a), axis=1))) for a in al])
        if np.abs(got - want).max() > 2e-12:
            break
        deg = n
    return deg, B.inside(cell, pts)


def as_list(x):
    if isinstance(x, numpy.ndarray):
        return [list(r) if hasattr(r, "__len__") else r for r in x]
    if isinstance(x, values.SymArr):
        n = [int(Rat.of(k).concrete()) for k in x.shape]
        return [x.at((Rat.of(i),)) for i in range(n[0])] if len(n) == 1 else [[x.at((Rat.of(i), Rat.of(j))) for j in range(n[1])] for i in range(n[0])]
    return list(x)


def same_cell(a, b):
    if a.get_shape() != b.get_shape() or a.get_spatial_dimension() != b.get_spatial_dimension():
        return False
    return a is b or [tuple(map(float, v)) for v in a.get_vertices()] == [tuple(map(float, v)) for v in b.get_vertices()]


def holds(eng, nm, v, cell, deg, G, lumped=False):
    """the rule is exact on the cell to the degree asked for"""
    if not rule_of(v):
        eng.prove(nm + ": returns a rule", False, "%r" % (v,))
        return
    cells = getattr(cell, "cells", None)
    if hasattr(v, "_factors"):
        cells = cells or [cell]
        eng.prove(nm + ": the product of as many rules as the cell has factors", len(v._factors) == len(cells), "%d factors" % len(v._factors))
        if len(v._factors) == len(cells):
            for q, c, d in zip(v._factors, cells, deg if isinstance(deg, tuple) else (deg,) * len(cells)):
                holds(eng, nm, q, c, d, G)
        return
    eng.prove(nm + ": a rule of the cell asked for", same_cell(v.ref_el, cell))
    if hasattr(v, "_m"):
        eng.prove(nm + ": the rule with m points per direction is exact to the degree asked for", 2 * v._m - 1 >= deg, "m = %s" % v._m)
        return
    if cell.get_spatial_dimension() == 0:
        eng.prove(nm + ": a rule of a point", len(v.pts) == 1 and eng.entails(Rat.of(v.wts[0]) == 1))
        return
    d, inside = exactness(v, cell)
    eng.prove(nm + ": the table is exact to the degree asked for", Rat.of(deg) <= d, "%d points, exact to degree %d" % (len(as_list(v.pts)), d))
    eng.prove(nm + ": the points lie in the cell", inside)


def create(cname, scheme, scalar=True):
    """create_quadrature for every degree"""
    from FIAT import quadrature as Q, quadrature_schemes as QS
    nm = "create_quadrature"
    eng, ip = engine(nm)
    plain(eng, ip)
    native(ip)
    G = Given(eng, ip)
    cell = shipped(cname)
    product = getattr(cell, "cells", None) or (cell.product.cells if hasattr(cell, "product") else None)
    G.cells = {}

    def mk(ip, a, kw):
        return G.make(ip, a, kw)

    def tp(ip, a, kw):
        from FIAT.quadrature import QuadratureRule
        q = object.__new__(QuadratureRule)
        q.__dict__.update(ref_el=None, pts=None, wts=None, _factors=list(a))
        return q
    ip.contracts[QS.make_quadrature] = mk
    ip.contracts[Q.make_tensor_product_quadrature] = tp
    args = lambda d: [cell, d] + ([scheme] if scheme else [])      # noqa: E731

    def leaves(c, d):
        """degrees of the factors, nested as the cell"""
        return d
    degs = isym("degree") if scalar else tuple(isym("degree%d" % i) for i in range(len(product)))
    every = (degs,) if scalar else degs
    base = list(eng.pc)
    for d in every:
        eng.assume(d >= 0)
    target = cell.product if hasattr(cell, "product") else cell

    def go():
        G.made[:] = []
        eng.where = nm
        return ip.call(QS.create_quadrature, args(degs), {})
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns a rule", None, nm)
            continue
        b2 = list(eng.pc)
        eng.pc = b2 + list(pc)
        eng.where = nm
        holds(eng, nm, v, target, degs, G)
        eng.pc = b2
    eng.pc = base
    for i, d in enumerate(every):
        eng.pc = list(base)
        eng.assume(d <= -1)
        for j, e in enumerate(every):
            if j != i:
                eng.assume(e >= 0)
        refuses(eng, ip, nm, "negative degrees are refused", QS.create_quadrature, args(degs))
    eng.pc = base
    return done(eng)


def unknown(cname):
    """every string that is not the name of a scheme"""
    from FIAT import quadrature as Q, quadrature_schemes as QS
    nm = "create_quadrature"
    eng, ip = engine(nm)
    plain(eng, ip)
    native(ip)
    G = Given(eng, ip)
    ip.contracts[QS.make_quadrature] = G.make
    d = isym("degree")
    eng.assume(d >= 0)
    for scheme in ("", "kmv", "Default", "canonical ", "GLL", None, 1):
        refuses(eng, ip, nm, "unknown schemes are refused", QS.create_quadrature, [shipped(cname), d, scheme])
    return done(eng)


def lumping(cname):
    """KMV: every degree of the tables, the others refused; other cells by their affine map"""
    from FIAT import quadrature_schemes as QS
    nm = "create_quadrature(KMV)"
    ref = shipped(cname)
    sd = ref.get_spatial_dimension()
    eng, ip = engine(nm)
    plain(eng, ip)
    reference(eng, ip)
    G = Given(eng, ip)
    ip.contracts[QS.make_quadrature] = G.make
    top = {1: 1, 2: 5, 3: 3}[sd] if sd > 1 else 0
    k = isym("degree")
    eng.assume(k >= 0)
    need = {(2, 1): 1, (2, 2): 3, (2, 3): 5, (2, 4): 7, (2, 5): 9, (3, 1): 1, (3, 2): 3, (3, 3): 5}
    seen = []
    for pc, kind, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(QS.create_quadrature, [ref, k, "KMV"], {}))[1]):
        base = list(eng.pc)
        eng.pc = base + list(pc)
        if kind == "raise":
            eng.prove(nm + ": the degrees of the tables are supported", bor(k < 1, k > top), "raises %s" % (v,))
        else:
            hit = [d for d in range(1, top + 1) if eng.entails(k == d)]
            eng.prove(nm + ": other degrees are refused", len(hit) == 1)
            if hit:
                seen.append(hit[0])
                d, inside = exactness(v, ref)
                eng.prove(nm + ": the table is exact to the degree the lumped element needs", d >= need[sd, hit[0]] and d >= hit[0], "degree %d: exact to %d" % (hit[0], d))
        eng.pc = base
    eng.prove(nm + ": all degrees of the tables", sorted(seen) == list(range(1, top + 1)), "%s" % seen)
    return done(eng)


def lumping_moved(cname):
    """KMV on a simplex with symbolic vertices"""
    from FIAT import quadrature_schemes as QS, quadrature as Q
    nm = "create_quadrature(KMV), other cells"
    eng, ip = engine(nm)
    plain(eng, ip)
    reference(eng, ip)
    ref, cell, V = simplex(eng, ip, cname)
    ip.lazy_extremes = False
    sd = ref.get_spatial_dimension()
    ufc = shipped({2: "T", 3: "S"}[sd])
    # different from the UFC cell
    eng.assume(bor(*[V[i][c] != Rat.of(x) for i, p in enumerate(ufc.get_vertices()) for c, x in enumerate(p)]))
    E = [sub(v, V[0]) for v in V[1:]]
    D = Rat.of(stubs.det(E))
    vol = sym.fresh("volume", "real")
    eng.assume(vol > 0)

    def det(ip, a, kw):
        M = numpy.asarray(a[0], dtype=object)
        d = Rat.of(stubs.det([[Rat.of(x) for x in row] for row in M]))
        for sg in (1, -1):
            if eng.entails(d == sg * D):
                return sg * vol
        raise Unsupported("another determinant")
    ip.contracts[numpy.linalg.det] = det
    num = lambda x: Rat.of(x)      # noqa: E731
    for k in range(1, {2: 5, 3: 3}[sd] + 1):
        base = QS.create_quadrature(ufc, k, "KMV")
        P, W = [list(map(num, x)) for x in as_list(base.pts)], list(map(num, as_list(base.wts)))

        def post(v):
            xs, ws = as_list(v.pts), as_list(v.wts)
            eng.prove(nm + ": number of points and weights", rule_of(v) and len(xs) == len(P) and len(ws) == len(W))
            if len(xs) != len(P) or len(ws) != len(W):
                return
            eng.prove(nm + ": a rule of the cell asked for", v.ref_el is cell)
            for x, p in zip(xs, P):
                for c in range(sd):
                    e = num(x[c]) - V[0][c] - dot(p, [e[c] for e in E])
                    # table entries are floats: 1 - a is rounded
                    eng.prove(nm + ": points are the images of the UFC cell's points", small(e, V), "%s" % (x,))
            eng.prove(nm + ": weights times the ratio of the volumes", all(small(num(w) - q * vol, [[vol]]) for w, q in zip(ws, W)))
        explore(eng, ip, nm, QS.create_quadrature, [cell, k, "KMV"], post)
    return done(eng)


def small(e, V):
    """a linear form in the coordinates with coefficients at rounding level"""
    at = {ix(x): Rat.of(0) for v in V for x in v}
    if e.subs(at).concrete() is None or abs(e.subs(at).concrete()) > 1e-13:
        return False
    for a in at:
        m = dict(at)
        m[a] = Rat.of(1)
        c = e.subs(m).concrete()
        if c is None or abs(c) > 1e-13:
            return False
    return True


# ------------------------------------------------------------ Gauss-Jacobi
def gamma_contracts(ip):
    """gamma and factorial in one normal form: factorial of an integer symbol,
    rational factors for integer shifts"""
    import math

    def fact(n):
        n = Rat.of(n)
        c = n.concrete()
        if c is not None:
            if c.denominator != 1 or c < 0:
                raise Unsupported("factorial")
            return Rat.of(math.factorial(int(c)))
        k = n.subs({a: Rat.of(0) for a in n.atoms(False)}).concrete()
        if k is None or k.denominator != 1:
            return sym.app("factorial", n)
        base = n - k
        f = sym.app("factorial", base)
        for t in range(1, int(k) + 1):
            f = f * (base + t)
        for t in range(int(k) + 1, 1):
            f = f / (base + t)
        return f
    ip.contracts[math.factorial] = lambda ip, a, kw: fact(a[0])
    ip.contracts[math.gamma] = lambda ip, a, kw: fact(Rat.of(a[0]) - 1)
    return fact


def jacobi_rule(a, b):
    """weights of the Gauss-Jacobi rule for any number of points"""
    import math
    from FIAT import quadrature as Q, jacobi as J
    nm = "compute_gauss_jacobi_rule"
    eng, ip = engine(nm)
    plain(eng, ip)
    fact = gamma_contracts(ip)
    m = isym("m")
    eng.assume(m >= 1)
    tag = "x"

    def pts(ip, args, kw):
        eng.prove(nm + ": the points are the roots of the polynomial of the rule", band(Rat.of(args[0]) == a, Rat.of(args[1]) == b, Rat.of(args[2]) == m), "%s" % (args,))
        return Seq.from_segs([SymIter(m, lambda k: sym.app(tag, k))])
    ip.contracts[Q.compute_gauss_jacobi_points] = pts

    def deriv(ip, args, kw):
        aa, bb, n, x = [Rat.of(q) for q in args]
        if aa.concrete() is None or bb.concrete() is None:
            raise Unsupported("Jacobi polynomial")
        return sym.app("dP%s_%s" % (aa.concrete(), bb.concrete()), n, x)
    ip.contracts[J.eval_jacobi_deriv] = deriv
    i = isym("i")
    eng.assume(i >= 0)
    eng.assume(i < m)
    x = sym.app(tag, i)
    eng.assume(band(x > -1, x < 1))
    d = sym.app("dP%s_%s" % (a, b), m, x)
    eng.assume(d != 0)

    def post(v):
        xs, ws = as_seq(v[0]), as_seq(v[1])
        eng.prove(nm + ": number of points and weights", band(Rat.of(xs.length()) == m, Rat.of(ws.length()) == m))
        eng.prove(nm + ": points", Rat.of(values.seq_at(xs, i, True)) == x)
        w = Rat.of(values.seq_at(ws, i, True))
        want = Rat.of(2 ** (a + b + 1)) * fact(m + a) * fact(m + b) / (fact(m + a + b) * fact(m)) / ((1 - x * x) * d * d)
        eng.prove(nm + ": weights are 2^(a+b+1) Gamma(a+m+1) Gamma(b+m+1) / (Gamma(a+b+m+1) m! (1 - x^2) P'(x)^2)", w == want, "%s, expected %s" % (w, want))
    explore(eng, ip, nm, Q.compute_gauss_jacobi_rule, [Rat.of(a), Rat.of(b), m], post)
    eng.assumptions += ["the classical formula for the weights of the Gauss-Jacobi rule; P' by contract (C05)"]
    return done(eng)


def recursion(which):
    """recursion coefficients of the monic Jacobi polynomials"""
    from FIAT import orthopoly as O
    nm = "rec_jacobi"
    eng, ip = engine(nm)
    plain(eng, ip)
    N = isym("N")
    eng.assume(N >= 3)
    a, b = (Rat.of(0), Rat.of(0)) if which == "Legendre" else (Rat.of(which[0]), Rat.of(which[1]))
    gamma_contracts(ip)
    i = isym("i")
    eng.assume(i >= 0)
    eng.assume(i < N)
    import math

    def post(v):
        al, be = values.as_symarr(v[0]), values.as_symarr(v[1])
        eng.prove(nm + ": number of coefficients", band(Rat.of(al.shape[0]) == N, Rat.of(be.shape[0]) == N))
        fa, fb = int(a.concrete()), int(b.concrete())
        base = list(eng.pc)
        mu = Fraction(2 ** (fa + fb + 1) * math.factorial(fa) * math.factorial(fb), math.factorial(fa + fb + 1))
        for j, A, B in ((Rat.of(0), (b - a) / (a + b + 2), mu), (Rat.of(1), None, 4 * (a + 1) * (b + 1) / ((a + b + 2) ** 2 * (a + b + 3))), (i, None, None)):
            eng.pc = list(base)
            if j is i:
                eng.assume(i >= 2)
            s = 2 * j + a + b
            A = (b ** 2 - a ** 2) / (s * (s + 2)) if A is None else A
            B = 4 * j * (j + a) * (j + b) * (j + a + b) / (s ** 2 * (s + 1) * (s - 1)) if B is None else B
            eng.prove(nm + ": alpha_k", Rat.of(al.at((j,))) == A, "%s" % al.at((j,)))
            eng.prove(nm + ": beta_k", Rat.of(be.at((j,))) == B, "%s" % be.at((j,)))
        eng.pc = base
    explore(eng, ip, nm, O.rec_jacobi, [N, int(a.concrete()), int(b.concrete())], post)
    eng.assumptions += ["classical recursion coefficients of the monic Jacobi polynomials"]
    return done(eng)


OBLIGATIONS = [("%s line rule, %s, %s orientation" % (w, c, ("", "positive", "negative")[s]), "specs.c06", "line", (c, s, w)) for w in LINES for c, s in (("I", 1), ("I", -1), ("DI", 1))]
OBLIGATIONS += [("collapsed rule, %s, %s orientation" % (c, ("", "positive", "negative")[s]), "specs.c06", "collapsed", (c, s)) for c, s in (("T", 1), ("T", -1), ("KT", 1), ("S", 0))]
OBLIGATIONS += [("product rule " + "x".join(c), "specs.c06", "tensor", (c,)) for c in (("I", "I"), ("T", "I"), ("I", "T"), ("I", "I", "I"), ("TxI", "I"), ("P", "I"), ("I",))]
OBLIGATIONS += [("QuadratureRule", "specs.c06", "ruleclass", ())] + [("face rule %d" % f, "specs.c06", "face", (f,)) for f in range(4)]
OBLIGATIONS += [("make_quadrature, %s, %s orientation" % (c, ("", "positive", "negative")[s]), "specs.c06", "line", (c, s, "GaussJacobi", "make_quadrature")) for c, s in (("I", 1), ("DI", -1))]
OBLIGATIONS += [("make_quadrature, %s" % c, "specs.c06", "collapsed", (c, s, "make_quadrature")) for c, s in (("DT", 1), ("KT", -1), ("DS", 0))]
OBLIGATIONS += [("make_quadrature, %s" % c, "specs.c06", "hypercube", (c,)) for c in "QH"] + [("make_quadrature, point and refusals", "specs.c06", "make", ())]
OBLIGATIONS += [("create_quadrature, %s, %s" % (c, s or "default"), "specs.c06", "create", (c, s)) for c in ("P", "I", "T", "S", "DI", "DT", "DS", "KT", "Q", "H", "IxI", "TxI") for s in (None, "default", "canonical")]
OBLIGATIONS += [("create_quadrature, %s, a degree per factor" % c, "specs.c06", "create", (c, s, False)) for c, s in (("IxI", None), ("TxI", "default"), ("IxT", "canonical"), ("IxIxI", None))]
OBLIGATIONS += [("other names of schemes, %s" % c, "specs.c06", "unknown", (c,)) for c in ("I", "T", "S", "DT", "TxI", "Q")]
OBLIGATIONS += [("KMV, %s" % c, "specs.c06", "lumping", (c,)) for c in ("T", "S")]
OBLIGATIONS += [("KMV, other cells, %s" % c, "specs.c06", "lumping_moved", (c,)) for c in ("DT", "DS")]
OBLIGATIONS += [("weights of the Gauss-Jacobi rule (%d, %d)" % ab, "specs.c06", "jacobi_rule", ab) for ab in ((0, 0), (1, 0), (2, 0), (1, 1), (0, 2))]
OBLIGATIONS += [("recursion coefficients %s" % (w,), "specs.c06", "recursion", (w,)) for w in ("Legendre", (1, 0), (2, 3))]
