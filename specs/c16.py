"""C16 obligations: spectral elements of every degree on intervals with any end
points; the barycentric formula; quadrature elements with any points; lumped
elements take the points of the lumping rule."""
from fractions import Fraction
import itertools

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, band, bor, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq
from specs.c15 import engine
from specs.c06 import reference, refuses, as_seq, done, explore, need
from specs.c08 import plain, simplex, shipped
from specs.util import finish, pure
import numpy

DUALS = dict(GL=("gauss_legendre", "GaussLegendre"), GLL=("gauss_lobatto_legendre", "GaussLobattoLegendre"), GR=("gauss_radau", "GaussRadau"))


def mod(which):
    import importlib
    m, c = DUALS[which]
    m = importlib.import_module("FIAT." + m)
    return m, getattr(m, c), getattr(m, c + "DualSet")


def point_of(eng, ip, nm, f, cell, shape=()):
    """f is the value at a point: the point"""
    d = ip.call(f.get_point_dict, [], {})
    items = list(d.items())
    need(eng, nm + ": a node is the value at one point", len(items) == 1 and len(items[0][1]) == 1, "%s" % (items,))
    (p, ((w, c),)), = items
    eng.prove(nm + ": a node is the value at one point", band(Rat.of(w) == 1, len(c) == 0) and not f.deriv_dict, "weight %s, component %s" % (w, c))
    eng.prove(nm + ": a node of the cell asked for", f.ref_el is cell)
    return [Rat.of(x) for x in p]


def ids(eng, nm, got, want):
    """entity numbering: want maps (d, e) to a (start, stop) range"""
    got = {int(Rat.of(d).concrete()): {int(Rat.of(e).concrete()): as_seq(l) for e, l in es.items()} for d, es in got.items()}
    shape = {}
    for d, e in want:
        shape.setdefault(d, set()).add(e)
    need(eng, nm + ": entity numbering has an entry for every entity", {d: set(es) for d, es in got.items()} == shape)
    for (d, e), (lo, hi) in want.items():
        l = got[d][e]
        n = Rat.of(l.length())
        eng.prove(nm + ": number of nodes of entity (%d, %d)" % (d, e), n == hi - lo, "%s nodes, expected %s" % (n, hi - lo))
        base = list(eng.pc)
        i = isym("i")
        eng.assume(i >= 0)
        eng.assume(i < n)
        if eng.check([])[0] != "unsat":
            eng.prove(nm + ": nodes of entity (%d, %d) in increasing order" % (d, e), Rat.of(values.seq_at(l, i, True)) == lo + i)
        eng.pc = base


def dual(which, cname, sign):
    """the dual set: its nodes are the points of the rule, in order"""
    from FIAT import quadrature as Q
    m, cls, ds = mod(which)
    nm = ds.__name__
    eng, ip = engine(nm)
    plain(eng, ip)
    reference(eng, ip)
    ref, cell, V = simplex(eng, ip, cname)
    a, b = V[0][0], V[1][0]
    eng.assume((b - a) * sign > 0)
    k = isym("degree")
    low = 1 if which == "GLL" else 0
    eng.assume(k >= low)
    tag = "L" if which == "GLL" else "J0_0"
    made = []
    if which == "GR":
        def radau(ip, args, kw):
            q = dict(zip(("ref_el", "m", "right"), args), **kw)
            n = Rat.of(q["m"])
            r = bool(q.get("right", True))
            eng.prove(nm + ": precondition of the Radau rule (at least one point)", n >= 1)
            made.append((q["ref_el"], n, r))
            out = object.__new__(Q.QuadratureRule)
            A = lambda t: tuple([a + (sym.app("xR%d" % r, n, t) + 1) / 2 * (b - a)])      # noqa: E731
            out.__dict__.update(ref_el=q["ref_el"], pts=Seq.from_segs([SymIter(n, A)]), wts=Seq.from_segs([SymIter(n, lambda t: sym.app("wR", n, t))]))
            return out
        ip.contracts[Q.RadauQuadratureLineRule] = radau
    for kw in ([{}] if which != "GR" else [{}, {"right": True}, {"right": False}]):
        tag = "R%d" % kw.get("right", True) if which == "GR" else tag

        def post(v):
            n = k + 1
            ns = as_seq(v.nodes)
            need(eng, nm + ": as many nodes as points of the rule", Rat.of(ns.length()) == n, "%s nodes" % ns.length())
            want = {(0, 0): (Rat.of(0), Rat.of(0)), (0, 1): (n, n), (1, 0): (Rat.of(0), n)}
            if which == "GLL":
                want = {(0, 0): (Rat.of(0), Rat.of(1)), (0, 1): (k, n), (1, 0): (Rat.of(1), k)}
            ids(eng, nm, v.get_entity_ids() if hasattr(v, "get_entity_ids") else v.entity_ids, want)
            if which == "GR":
                eng.prove(nm + ": nodes of a rule of the cell", all(c is cell for c, _, _ in made))
            i = isym("i")
            eng.assume(i >= 0)
            eng.assume(i < n)
            two = which == "GLL" and eng.entails(k == 1)
            p = point_of(eng, ip, nm, values.seq_at(ns, i, True), cell)
            x = 2 * i - 1 if two else sym.app("x" + tag, n, i)
            eng.prove(nm + ": the nodes are the points of the rule, in order along the cell", band(len(p) == 1, p[0] == a + (x + 1) / 2 * (b - a)), "%s" % (p,))
            if which == "GLL":
                for j, w in ((Rat.of(0), a), (k, b)):
                    p = point_of(eng, ip, nm, values.seq_at(ns, j, True), cell)
                    eng.prove(nm + ": the nodes of the vertices are the vertices", p[0] == w, "%s" % (p,))
        explore(eng, ip, nm, ds, [cell, k], post, kw)
    return done(eng)


def element(which, cname, sign):
    """the element: the polynomials of its degree with the nodes of its dual
    set; tabulation interpolates from the nodes in order to the points"""
    from FIAT import finite_element as FE, polynomial_set as P, barycentric_interpolation as B
    m, cls, ds = mod(which)
    nm = cls.__name__
    eng, ip = engine(nm)
    plain(eng, ip)
    ref, cell, V = simplex(eng, ip, cname)
    a, b = V[0][0], V[1][0]
    eng.assume((b - a) * sign > 0)
    k = isym("degree")
    eng.assume(k >= (1 if which == "GLL" else 0))
    X = lambda i: (sym.app("X", i),)      # noqa: E731
    n = k + 1
    seen = {}

    def dualset(ip, args, kw):
        from FIAT import dual_set, functional
        c, d = args[0], Rat.of(args[1])
        eng.prove(nm + ": the dual set of the cell and degree", band(d == k) if c is cell else False)
        seen["kw"] = (args[2:], kw)
        q = object.__new__(ds)
        node = lambda i: ip.call(functional.PointEvaluation, [cell, X(i)], {})      # noqa: E731
        q.__dict__.update(nodes=Seq.from_segs([SymIter(n, node)]), ref_el=cell, entity_ids={})
        return q
    ip.contracts[ds] = dualset
    ip.contracts[P.ONPolynomialSet] = lambda ip, args, kw: values.Opaque("ONP", (), dict(on=(args, kw)))

    def ciarlet(ip, args, kw):
        q = dict(zip(("self", "poly_set", "dual", "order", "formdegree", "mapping", "ref_el"), args), **kw)
        seen["ciarlet"] = q
        q["self"].__dict__.update(ref_el=q["dual"].ref_el, dual=q["dual"], order=q["order"], poly_set=q["poly_set"])
    ip.contracts[FE.CiarletElement.__init__] = ciarlet
    res = {}

    def bary(ip, args, kw):
        q = dict(zip(("xsrc", "xdst", "order"), args), **kw)
        res["call"] = (q["xsrc"], q["xdst"], q.get("order", 0))
        res["out"] = object()
        return res["out"]
    ip.contracts[B.barycentric_interpolation] = bary
    j = isym("j")
    np_ = isym("npoints")
    eng.assume(np_ >= 1)
    order = isym("order")
    eng.assume(order >= 0)

    def post(el):
        q = seen.get("ciarlet")
        need(eng, nm + ": built as a nodal element", q is not None and q["self"] is el)
        on = getattr(q["poly_set"], "_attrs", {}).get("on")
        need(eng, nm + ": the space is the polynomials of the degree", on is not None and on[0][0] is cell and not on[0][2:] and not [w for w in on[1] if w not in ("scale", "variant")] and eng.entails(Rat.of(on[0][1]) == k), "%s" % (on,))
        eng.prove(nm + ": with the nodes of its dual set", type(q["dual"]) is ds)
        eng.prove(nm + ": of the degree asked for", Rat.of(q["order"]) == k)
        if which == "GR":
            return
        base = list(eng.pc)
        for ent, tr in ((None, lambda t: t[0]), ((1, 0), lambda t: t[0]), ((0, 0), lambda t: None), ((0, 1), lambda t: None)):
            eng.pc = list(base)
            d = 0 if ent and ent[0] == 0 else 1
            pts = Seq.from_segs([SymIter(np_, lambda i: tuple(sym.app("t", i) for c in range(d)))])
            for pc, kind, v in eng.explore(lambda: (res.clear(), setattr(eng, "where", nm), pure(eng, ip, el.tabulate, [order, pts] + ([ent] if ent else []), {}))[2]):
                if kind == "raise":
                    finish(eng, pc, kind, v, "tabulates", None, nm)
                    continue
                b2 = list(eng.pc)
                eng.pc = b2 + list(pc)
                eng.where = nm
                ok = "call" in res and v is res["out"]
                need(eng, nm + ": tabulate is the barycentric interpolation", ok)
                s, t, o = res["call"]
                s, t = values.as_symarr(s), values.as_symarr(t)
                i = isym("i")
                eng.assume(i >= 0)
                # `(pt,), = point_dict.keys()` gives coordinates
                need(eng, nm + ": from the nodes in order, as a vector", band(len(s.shape) == 1, Rat.of(s.shape[0]) == n), "shape %s" % (s.shape,))
                need(eng, nm + ": to as many points as asked, as a vector", band(len(t.shape) == 1, Rat.of(t.shape[0]) == np_), "shape %s" % (t.shape,))
                eng.prove(nm + ": with the derivatives asked for", Rat.of(o) == order)
                b3 = list(eng.pc)
                eng.assume(i < n)
                eng.prove(nm + ": from the nodes in order", Rat.of(s.at((i,))) == X(i)[0], "%s" % s.at((i,)))
                eng.pc = b3
                eng.assume(i < np_)
                got = Rat.of(t.at((i,)))
                # entity (1, 0) is the cell itself: the identity
                want = sym.app("t", i) if d == 1 else V[ent[1]][0]
                eng.prove(nm + ": to the points of the entity %s" % (ent,), got == want, "%s, expected %s" % (got, want))
                eng.pc = b2
        eng.pc = base
    explore(eng, ip, nm, cls, [cell, k], post)
    for c in ("T", "S", "P", "Q"):
        refuses(eng, ip, nm, "cells other than intervals are refused", cls, [shipped(c), k])
    return done(eng)


# -------------------------------------------------- barycentric formula
TOL = Fraction(1, 10 ** 8)
SEP = "points closer than 1e-8 to a node without being one are left to the bounded check"


def objects(ip, eng):
    """numpy on arrays of terms"""
    def nat(f):
        def g(ip, args, kw):
            args = [numpy.array([Rat.of(x) for x in a.flat], dtype=object).reshape(a.shape) if isinstance(a, numpy.ndarray) and a.dtype != bool else a for a in args]
            return f(*args, **kw)
        return g
    for u in (numpy.add, numpy.subtract, numpy.multiply, numpy.divide):
        ip.contracts[u.outer] = nat(u.outer)
    for f in (numpy.prod, numpy.sum, numpy.diag, numpy.matmul, numpy.dot):
        ip.contracts[f] = nat(f)
    ip.contracts[numpy.fill_diagonal] = lambda ip, a, kw: numpy.fill_diagonal(*a, **kw)
    for f in (numpy.argwhere, numpy.nonzero):
        ip.contracts[f] = lambda ip, a, kw, f=f: f(*a)

    def isclose(ip, args, kw):
        q = dict(zip(("a", "b", "rtol", "atol"), args), **kw)
        r, t = q.get("rtol", 1e-5), q.get("atol", 1e-8)
        a, b = numpy.broadcast_arrays(q["a"], q["b"])
        out = numpy.zeros(a.shape, dtype=bool)
        for i in numpy.ndindex(*a.shape):
            b_ = Rat.of(b[i])
            if b_.concrete() is None:
                raise Unsupported("tolerance relative to a term")
            d = Rat.of(a[i]) - b_
            tol = Rat.of(t) + Rat.of(r) * abs(b_.concrete())
            out[i] = bool(band(d <= tol, d >= -tol))
        return out
    ip.contracts[numpy.isclose] = isclose


def derivative(x, i, y, o):
    """the o-th derivative at y of the i-th Lagrange polynomial of the nodes x"""
    n = len(x)
    if o > n - 1:
        return Rat.of(0)
    c = Rat.of(1)
    for j in range(n):
        if j != i:
            c = c / (x[i] - x[j])
    s = Rat.of(0)
    for left in itertools.permutations([j for j in range(n) if j != i], o):
        t = Rat.of(1)
        for j in range(n):
            if j != i and j not in left:
                t = t * (y - x[j])
        s = s + t
    return c * s


def barycentric(n, where, order):
    """n nodes anywhere; the points: `free`, or the nodes listed"""
    from FIAT import barycentric_interpolation as B
    nm = "barycentric_interpolation"
    eng, ip = engine(nm)
    plain(eng, ip)
    objects(ip, eng)
    x = [sym.sym("x%d" % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            eng.assume(bor(x[i] - x[j] > TOL, x[j] - x[i] > TOL))
    ys = []
    for w in where:
        if w == "free":
            y = sym.sym("y%d" % len(ys))
            for v in x:
                eng.assume(bor(y - v > TOL, v - y > TOL))
            ys.append(y)
        else:
            ys.append(x[w])

    def oa(v):
        a = numpy.empty(len(v), dtype=object)
        a[:] = v
        return a

    def post(v):
        keys = {tuple(int(Rat.of(t).concrete()) for t in q) for q in v}
        need(eng, nm + ": a table for every derivative up to the order", keys == {(o,) for o in range(order + 1)}, "%s" % keys)
        for o in range(order + 1):
            T = v[(o,)]
            need(eng, nm + ": one row per node, one column per point", T.shape == (n, len(ys)), "%s" % (T.shape,))
            for i in range(n):
                for j, y in enumerate(ys):
                    what = "at a node" if where[j] != "free" else "at a point"
                    eng.prove(nm + ": derivative %d of the Lagrange polynomials %s" % (o, what), Rat.of(T[i, j]) == derivative(x, i, y, o), "%d nodes, polynomial %d: %s" % (n, i, T[i, j]))
    explore(eng, ip, nm, B.barycentric_interpolation, [oa(x), oa(ys)], post, {"order": order})
    eng.assumptions += [SEP]
    return done(eng)


class Mask(object):
    """where the points are nodes"""

    def __init__(self, S, shape):
        self.S, self.shape = S, shape

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None) and self.S.listed is self:
            return MaskIndex(self, int(Rat.of(key[1]).concrete()))
        raise Unsupported("index into a mask")


class MaskIndex(object):
    def __init__(self, mask, axis):
        self.mask, self.axis = mask, axis


class Listed(object):
    """the indices at which a mask holds, one per row"""

    def __init__(self, mask):
        self.mask = mask

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2 and key[0] == slice(None):
            return MaskIndex(self.mask, int(Rat.of(key[1]).concrete()) % 2)
        raise Unsupported("index into a list of indices")

    @property
    def T(self):
        return (MaskIndex(self.mask, 0), MaskIndex(self.mask, 1))


class Grid(values.SymArr):
    """a matrix with n rows: off(i, j) in general, on(j) in row `row(j)` of
    column j where one is distinguished (the diagonal; the node the point j is)"""
    _symstore = "grid"
    __array_priority__ = 3000

    def __init__(self, S, shape, off, on=None, rel=None):
        values.SymArr.__init__(self, shape, self.entry)
        self.S, self.off, self.on, self.rel = S, off, on, rel

    def entry(self, idx):
        i, j = idx
        if self.rel is None:
            return self.off(i, j)
        raise Unsupported("entry of a matrix with a distinguished entry per column")

    def frozen(self):
        return Grid(self.S, self.shape, self.off, self.on, self.rel)

    copy = frozen

    def assign_from(self, g):
        if len(g.shape) != 2 or not all(bool(Rat.of(x) == y) for x, y in zip(g.shape, self.shape)):
            raise Unsupported("in-place operation changing the shape")
        g = g if isinstance(g, Grid) else self.S.lift(g)
        self.off, self.on, self.rel = g.off, g.on, g.rel

    def row(self, j):
        return Rat.of(j) if self.rel == "diag" else sym.app("q", j)

    def dist(self, rel):
        """value in the distinguished row"""
        if self.rel is not None:
            if self.rel != rel:
                raise Unsupported("two kinds of distinguished entries")
            return self.on
        off = self.off
        return lambda j: off(Rat.of(j) if rel == "diag" else sym.app("q", j), j)

    def _ew(self, o, op, swap=False):
        a, b = self.frozen(), self.S.lift(o)
        shape = values._bshape(a.shape, b.shape)
        if swap:
            a, b = b, a
        rel = a.rel or b.rel
        return Grid(self.S, shape, lambda i, j: op(a.off(i, j), b.off(i, j)), None if rel is None else (lambda j: op(a.dist(rel)(j), b.dist(rel)(j))), rel)

    def __radd__(self, o):
        return self._ew(o, lambda a, b: a + b, True)

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: a - b, True)

    def __rmul__(self, o):
        return self._ew(o, lambda a, b: a * b, True)

    def __rtruediv__(self, o):
        return self._ew(o, lambda a, b: a / b, True)

    def __neg__(self):
        return self._ew(-1, lambda a, b: a * b)

    def __pow__(self, o):
        raise Unsupported("power of a matrix's entries")

    @property
    def T(self):
        raise Unsupported("transposed matrix")

    def __getitem__(self, key):
        if self.rel is None and not isinstance(key, (Mask, Listed)) and not (isinstance(key, tuple) and any(isinstance(k, MaskIndex) for k in key)):
            return values.SymArr(self.shape, self.entry)[key]
        raise Unsupported("indexing a matrix with distinguished entries")

    def __setitem__(self, key, v):
        S = self.S
        if isinstance(key, Mask):
            key = (MaskIndex(key, 0), MaskIndex(key, 1))
        if not isinstance(key, tuple) or len(key) != 2 or not isinstance(key[1], MaskIndex) or key[1].axis != 1 or not isinstance(v, (int, float, Rat)):
            raise Unsupported("assignment into a matrix")
        if key[1].mask.S is not S or not all(bool(Rat.of(x) == y) for x, y in zip(key[1].mask.shape, self.shape)):
            raise Unsupported("mask of another matrix")
        v = Rat.of(v)
        if isinstance(key[0], MaskIndex) and key[0].axis == 0:
            if S.hit:
                self.dist("hit")
                self.on, self.rel = (lambda j: v), "hit"
        elif key[0] == slice(None):
            if S.hit:
                self.off, self.on, self.rel = (lambda i, j: v), (lambda j: v), self.rel
        else:
            raise Unsupported("assignment into a matrix")

    def column(self, kind):
        a = self.frozen()
        n = a.shape[0]

        def f(idx):
            j, = idx
            mark = (lambda k: Rat.of(1)) if a.rel is None else (lambda k: sym.app("other", k, a.row(j)))
            if kind == "sum":
                s = values.total(n, lambda k: a.off(k, j) * mark(k))
                return s + a.on(j) if a.rel else s
            p = self.S.product(n, lambda k: a.off(k, j), j, a.rel)
            return p * a.on(j) if a.rel else p
        return values.SymArr((a.shape[1],), f)

    def sum(self, axis=None, **k):
        if k or axis is None or int(Rat.of(axis).concrete()) != 0:
            raise Unsupported("sum of a matrix")
        return self.column("sum")

    def prod(self, axis=None, **k):
        if k or axis is None or int(Rat.of(axis).concrete()) != 0:
            raise Unsupported("product of a matrix")
        return self.column("prod")

    def diagonal(self):
        a = self.frozen()
        if not bool(Rat.of(a.shape[0]) == a.shape[1]):
            raise Unsupported("diagonal of a rectangular matrix")
        return values.SymArr((a.shape[0],), lambda idx: a.dist("diag")(idx[0]))

    def dot(self, o):
        return Product(self.frozen(), o)

    __matmul__ = dot


class Product(object):
    def __init__(self, left, right):
        self.left, self.right = left, right


class Scene(object):
    """n nodes and any number of points: all points apart from the nodes, or
    each of them a node"""

    def __init__(self, eng, ip, hit):
        self.eng, self.hit = eng, hit
        self.n, self.J = isym("n"), isym("npoints")
        eng.assume(self.n >= 1)
        eng.assume(self.J >= 1)
        self.x = lambda i: sym.app("x", i)      # noqa: E731
        self.y = (lambda j: self.x(sym.app("q", j))) if hit else (lambda j: sym.app("y", j))      # noqa: E731
        self.xs, self.ys = values.SymArr((self.n,), lambda i: self.x(i[0])), values.SymArr((self.J,), lambda j: self.y(j[0]))

        def outer(op):
            def f(ip, args, kw):
                a, b = args
                if a.ndim != 1 or b.ndim != 1:
                    raise Unsupported("outer")
                return Grid(self, (a.shape[0], b.shape[0]), lambda i, j: op(a.at((i,)), b.at((j,))))
            return f
        import operator
        for u, op in ((numpy.add, operator.add), (numpy.subtract, operator.sub), (numpy.multiply, operator.mul), (numpy.divide, operator.truediv)):
            ip.contracts[u.outer] = outer(op)
        grid = lambda a: a if isinstance(a, Grid) else self.lift(a)      # noqa: E731
        ip.contracts[numpy.prod] = lambda ip, a, kw: grid(a[0]).prod(*a[1:], **kw)
        ip.contracts[numpy.sum] = lambda ip, a, kw: grid(a[0]).sum(*a[1:], **kw)
        ip.contracts[numpy.diag] = lambda ip, a, kw: grid(*a).diagonal()
        ip.contracts[numpy.matmul] = ip.contracts[numpy.dot] = lambda ip, a, kw: Product(grid(a[0]).frozen(), a[1])
        ip.contracts[numpy.fill_diagonal] = self.fill
        ip.contracts[numpy.isclose] = self.isclose
        ip.contracts[numpy.argwhere] = lambda ip, a, kw: Listed(self.mask(*a))
        ip.contracts[numpy.nonzero] = ip.contracts[numpy.where] = lambda ip, a, kw: Listed(self.mask(*a)).T

    def mask(self, m):
        if not isinstance(m, Mask):
            raise Unsupported("indices of something that is not a comparison")
        return m

    def lift(self, o):
        if isinstance(o, Grid):
            return o.frozen()
        if isinstance(o, values.SymArr):
            o = o.frozen()
            if o.ndim > 2:
                raise Unsupported("array of several axes")
            s = (1,) * (2 - o.ndim) + tuple(o.shape)

            def at(i, j):
                idx = tuple(Rat.of(0) if Rat.of(n).concrete() == 1 else q for q, n in zip((i, j), s))
                return o.at(idx[2 - o.ndim:])
            return Grid(self, s, at)
        if isinstance(o, (int, float, Rat)):
            return Grid(self, (1, 1), lambda i, j: Rat.of(o))
        raise Unsupported("operand")

    def fill(self, ip, args, kw):
        g, v = args
        if not isinstance(g, Grid) or not bool(Rat.of(g.shape[0]) == g.shape[1]):
            raise Unsupported("diagonal of something else")
        g.dist("diag")
        if isinstance(v, values.SymArr):
            v = v.frozen()
            if v.ndim != 1:
                raise Unsupported("diagonal")
            g.on = lambda j: v.at((j,))
        else:
            w = Rat.of(v)
            g.on = lambda j: w
        g.rel = "diag"

    def isclose(self, ip, args, kw):
        q = dict(zip(("a", "b", "rtol", "atol"), args), **kw)
        r, t, b = Rat.of(q.get("rtol", 1e-5)), Rat.of(q.get("atol", 1e-8)), Rat.of(q["b"])
        g = q["a"] if isinstance(q["a"], Grid) else self.lift(q["a"])
        i, j = isym("i"), isym("j")
        if g.rel is not None or b.concrete() is None or not bool(Rat.of(g.shape[0]) == self.n) or not bool(Rat.of(g.shape[1]) == self.J):
            raise Unsupported("comparison of something else")
        d = Rat.of(g.off(i, j)) - b
        e = self.y(j) - self.x(i)
        if not ((d - e) == 0 or (d + e) == 0):
            raise Unsupported("comparison of something that is not a distance")
        self.eng.prove("%s: points are taken for nodes only within rounding" % self.eng.where, t + r * abs(b.concrete()) <= TOL, "tolerance %s" % (t + r * abs(b.concrete())))
        return Mask(self, g.shape)

    def product(self, n, f, j, rel):
        """the product of f(k) over the rows (other than the distinguished)"""
        k = sym.isym("_k0")
        body = Rat.of(f(k))
        if body.const() is not None:
            raise Unsupported("power")
        if body.den:
            raise Unsupported("product of fractions")
        lead = sorted(body.num.t.items(), key=lambda t: str(Rat(sym.Poly({t[0]: Fraction(1)}))))[0][1]
        s = Rat.of(1)
        if lead != 1:
            if lead != -1:
                raise Unsupported("product of multiples")
            s, body = sym.app("minus", n, Rat.of(0 if rel is None else 1)), -body
        return s * sym.app("Prod", body, k, n, *([] if rel is None else [Rat.of(j) if rel == "diag" else sym.app("q", j)]))


def barygeneral(hit, order):
    """any number of nodes and points"""
    from FIAT import barycentric_interpolation as B
    nm = "barycentric_interpolation"
    eng, ip = engine(nm)
    plain(eng, ip)
    S = Scene(eng, ip, hit)
    n, J, x, y = S.n, S.J, S.x, S.y
    w = lambda i: 1 / S.product(n, lambda k: x(i) - x(k), i, "diag")      # noqa: E731
    i, j = isym("i"), isym("j")

    def square(g, r, c):
        need(eng, nm + ": one row per node, one column per point", band(Rat.of(g.shape[0]) == r, Rat.of(g.shape[1]) == c), "%s" % (g.shape,))

    def post(v):
        keys = {tuple(int(Rat.of(t).concrete()) for t in q) for q in v}
        need(eng, nm + ": a table for every derivative up to the order", keys == {(o,) for o in range(order + 1)}, "%s" % keys)
        I = v[(0,)]
        if not isinstance(I, Grid):
            raise Unsupported("values")
        square(I, n, J)
        if hit:
            if I.rel != "hit":
                raise Unsupported("values at the nodes")
            eng.prove(nm + ": the identity at the nodes", band(Rat.of(I.on(j)) == 1, Rat.of(I.off(i, j)) == 0), "%s, %s" % (I.on(j), I.off(i, j)))
        else:
            if I.rel is not None:
                raise Unsupported("values")
            want = w(i) / (y(j) - x(i)) / values.total(n, lambda k: w(k) / (y(j) - x(k)))
            eng.prove(nm + ": values by the barycentric formula of the nodes", Rat.of(I.off(i, j)) == want, "%s, expected %s" % (I.off(i, j), want))
        for o in range(1, order + 1):
            T = v[(o,)]
            if not isinstance(T, Product) or not isinstance(T.left, Grid):
                raise Unsupported("derivatives")
            need(eng, nm + ": derivatives from the table of the order before", T.right is v[(o - 1,)])
            D = T.left
            square(D, n, n)
            if D.rel != "diag":
                raise Unsupported("matrix of differentiation")
            d = lambda a, b: w(a) / w(b) / (x(b) - x(a))      # noqa: E731
            eng.prove(nm + ": derivatives of the Lagrange polynomials at the other nodes", Rat.of(D.off(i, j)) == d(i, j), "%s, expected %s" % (D.off(i, j), d(i, j)))
            s = -values.total(n, lambda k: d(k, j) * sym.app("other", k, j))
            eng.prove(nm + ": derivatives of the Lagrange polynomials at their node: those of all polynomials sum to zero", Rat.of(D.on(j)) == s, "%s, expected %s" % (D.on(j), s))
    explore(eng, ip, nm, B.barycentric_interpolation, [S.xs, S.ys], post, {"order": order})
    eng.assumptions += [SEP, "second barycentric formula and the differentiation matrix of Lagrange polynomials (Berrut and Trefethen 2004, 4.2, 9.3-9.5), for any number of nodes; checked against the product formulas for up to four nodes"]
    return done(eng)


# ----------------------------------------------------- quadrature elements
def topdim(cell):
    d = cell.get_dimension()
    return d


def entities(cell):
    return [(d, e) for d, es in cell.get_topology().items() for e in es]


def quadelement(cname):
    """constructor: any number of points, with and without weights"""
    from FIAT import quadrature_element as QE
    nm = "QuadratureElement"
    eng, ip = engine(nm)
    plain(eng, ip)
    cell = shipped(cname)
    sd = cell.get_spatial_dimension()
    n = isym("n")
    eng.assume(n >= 0)
    P = Seq.from_segs([SymIter(n, lambda i: tuple(sym.app("x%d" % c, i) for c in range(sd)))])
    W = Seq.from_segs([SymIter(n, lambda i: sym.app("w", i))])

    def post(v):
        ns = as_seq(v.dual_basis())
        need(eng, nm + ": one node per point", Rat.of(ns.length()) == n, "%s nodes" % ns.length())
        want = {(d, e): (Rat.of(0), Rat.of(0)) for d, e in entities(cell)}
        want[topdim(cell), 0] = (Rat.of(0), n)
        got = v.entity_dofs()
        need(eng, nm + ": entity numbering has an entry for every entity", {d: set(es) for d, es in got.items()} == {d: set(es) for d, es in cell.get_topology().items()})
        for (d, e), (lo, hi) in want.items():
            l = as_seq(got[d][e])
            need(eng, nm + ": all nodes belong to the cell", Rat.of(l.length()) == hi - lo, "%s nodes of (%s, %s)" % (l.length(), d, e))
        base = list(eng.pc)
        i = isym("i")
        eng.assume(i >= 0)
        eng.assume(i < n)
        if eng.check([])[0] != "unsat":
            eng.prove(nm + ": nodes in the order of the points", Rat.of(values.seq_at(as_seq(got[topdim(cell)][0]), i, True)) == i)
            p = point_of(eng, ip, nm, values.seq_at(ns, i, True), cell)
            eng.prove(nm + ": a node is the value at its point", band(len(p) == sd, *[a == sym.app("x%d" % c, i) for c, a in enumerate(p)]), "%s" % (p,))
        eng.pc = base
        eng.prove(nm + ": one basis function per point", Rat.of(ip.call(v.space_dimension, [], {})) == n)
        eng.prove(nm + ": nodal, scalar valued", bool(v.is_nodal()) and v.value_shape() == ())
    for args in ([cell, P], [cell, P, W]):
        explore(eng, ip, nm, QE.QuadratureElement, args, post)
    return done(eng)


def quadtable(cname, N):
    """tabulation of an element with N points"""
    from FIAT import quadrature_element as QE
    nm = "QuadratureElement.tabulate"
    eng, ip = engine(nm)
    plain(eng, ip)
    cell = shipped(cname)
    sd = cell.get_spatial_dimension()
    own = [tuple(sym.sym("x%d_%d" % (i, c)) for c in range(sd)) for i in range(N)]
    el = ip.call(QE.QuadratureElement, [cell, tuple(own)], {})
    full = (topdim(cell), 0)
    base = list(eng.pc)

    def identity(v):
        need(eng, nm + ": a table of values only", {tuple(int(Rat.of(t).concrete()) for t in q) for q in v} == {(0,) * sd}, "%s" % list(v))
        T, = v.values()
        T = numpy.asarray(T, dtype=object)
        need(eng, nm + ": one row and one column per point", T.shape == (N, N), "%s" % (T.shape,))
        eng.prove(nm + ": the identity at its own points", band(*[Rat.of(T[i, j]) == (1 if i == j else 0) for i in range(N) for j in range(N)]), "%s" % T)
    for ent in ([], [None], [full]):
        explore(eng, ip, nm, el.tabulate, [0, list(own)] + ent, identity)
    o = isym("order")
    eng.assume(o >= 1)
    refuses(eng, ip, nm, "derivatives are refused", el.tabulate, [o, list(own)])
    refuses(eng, ip, nm, "derivatives are refused", el.tabulate, [o, list(own), full])
    eng.pc = list(base)
    for ent in entities(cell):
        if ent != full:
            refuses(eng, ip, nm, "sub-entities are refused", el.tabulate, [0, list(own), ent])
    extra = tuple(sym.sym("z%d" % c) for c in range(sd))
    refuses(eng, ip, nm, "another number of points is refused", el.tabulate, [0, list(own) + [extra]])
    refuses(eng, ip, nm, "another number of points is refused", el.tabulate, [0, list(own)[:-1]])
    for i in range(N):
        for c in range(sd):
            eng.pc = list(base)
            d = sym.sym("shift")
            eng.assume(bor(d > Fraction(1, 10 ** 9), d < -Fraction(1, 10 ** 9)))
            other = [tuple(x + d if (j, k) == (i, c) else x for k, x in enumerate(p)) for j, p in enumerate(own)]
            refuses(eng, ip, nm, "other points are refused", el.tabulate, [0, other])
    eng.pc = base
    return done(eng)


# --------------------------------------------------------- lumped elements
def lumped(cname):
    """the dual set takes the points of the lumping rule of its degree"""
    from FIAT import kong_mulder_veldhuizen as K, quadrature as Q, quadrature_schemes as QS
    nm = "KongMulderVeldhuizenDualSet"
    eng, ip = engine(nm)
    plain(eng, ip)
    cell = shipped(cname)
    sd = cell.get_spatial_dimension()
    k = isym("degree")
    eng.assume(k >= 1)
    eng.assume(k <= {2: 5, 3: 3}[sd])
    n = isym("n")
    eng.assume(n >= 1)

    def create(ip, args, kw):
        q = dict(zip(("ref_el", "degree", "scheme"), args), **kw)
        d = Rat.of(q["degree"])
        eng.prove(nm + ": the points of the lumping rule", band(d == k, q["ref_el"] is cell, q.get("scheme", "default") == "KMV"), "%s, %s" % (d, q.get("scheme")))
        out = object.__new__(Q.QuadratureRule)
        out.__dict__.update(ref_el=q["ref_el"], pts=Seq.from_segs([SymIter(n, lambda t: tuple(sym.app("x%d" % c, d, t) for c in range(sd)))]), wts=Seq.from_segs([SymIter(n, lambda t: sym.app("w", t))]))
        return out
    ip.contracts[QS.create_quadrature] = create

    def post(v):
        ns = as_seq(v.nodes)
        need(eng, nm + ": one node per point of the rule", Rat.of(ns.length()) == n, "%s nodes" % ns.length())
        i = isym("i")
        eng.assume(i >= 0)
        eng.assume(i < n)
        p = point_of(eng, ip, nm, values.seq_at(ns, i, True), cell)
        eng.prove(nm + ": the nodes are the points of the rule in order", band(len(p) == sd, *[a == sym.app("x%d" % c, k, i) for c, a in enumerate(p)]), "%s" % (p,))
    explore(eng, ip, nm, K.KongMulderVeldhuizenDualSet, [cell, k], post)
    return done(eng)


def lumped_refused():
    """degrees and cells without a lumping rule"""
    from FIAT import kong_mulder_veldhuizen as K
    nm = "KongMulderVeldhuizen"
    eng, ip = engine(nm)
    plain(eng, ip)
    k = isym("degree")
    for c, top in (("T", 5), ("S", 3)):
        base = list(eng.pc)
        eng.assume(k > top)
        refuses(eng, ip, nm, "degrees without a lumping rule are refused", K.KongMulderVeldhuizen, [shipped(c), k])
        eng.pc = base
    for c in ("I", "Q", "H", "P", "DT", "DS", "TxI"):
        refuses(eng, ip, nm, "other cells are refused", K.KongMulderVeldhuizen, [shipped(c), k])
    return done(eng)


def obligations():
    out = []
    for w in DUALS:
        for sign, s in ((1, ""), (-1, ", negative orientation")):
            out.append(("%s dual set%s" % (mod(w)[1].__name__, s), "specs.c16", "dual", (w, "I", sign)))
            out.append(("%s%s" % (mod(w)[1].__name__, s), "specs.c16", "element", (w, "I", sign)))
    for n in (1, 2, 3, 4):
        for wh in [("free",)] + [(q,) for q in range(n)] + ([("free", 0), (n - 1, "free", 0)] if n > 1 else []):
            out.append(("barycentric interpolation, %d nodes, %s" % (n, "/".join(map(str, wh))), "specs.c16", "barycentric", (n, wh, 2 if n < 4 else 1)))
    for h in (False, True):
        out.append(("barycentric interpolation, any number of nodes, %s" % ("points at nodes" if h else "other points"), "specs.c16", "barygeneral", (h, 3)))
    for c in ("P", "I", "T", "S", "Q", "H", "TxI", "IxI"):
        out.append(("quadrature element, %s" % c, "specs.c16", "quadelement", (c,)))
        for n in (1, 2, 3):
            if (c, n) != ("P", 0):
                out.append(("tabulation of a quadrature element, %s, %d points" % (c, n), "specs.c16", "quadtable", (c, n)))
    for c in ("T", "S"):
        out.append(("lumped dual set, %s" % c, "specs.c16", "lumped", (c,)))
    out.append(("lumped elements refused", "specs.c16", "lumped_refused", ()))
    return out


OBLIGATIONS = obligations()
