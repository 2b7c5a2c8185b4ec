"""C08 obligations: geometry queries and entity maps of the reference cells for
symbolic vertex coordinates and symbolic points."""
import math
from fractions import Fraction

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values, stubs
from vlib.pyvc.sym import Rat, band, bor, bnot, Unsupported
from specs.c15 import engine
from specs.util import finish, pure
import numpy

SIMPLEX = dict(I="UFCInterval", DI="DefaultLine", T="UFCTriangle", DT="DefaultTriangle", KT="IntrepidTriangle", S="UFCTetrahedron", DS="DefaultTetrahedron", KS="IntrepidTetrahedron")


def shipped(name):
    from FIAT import reference_element as R
    if name == "P":
        return R.Point()
    if name in ("Q", "H"):
        return dict(Q=R.UFCQuadrilateral, H=R.UFCHexahedron)[name]()
    if name.startswith("("):
        return R.TensorProductCell(*[shipped(x) for x in split(name)])
    if "x" in name:
        return R.TensorProductCell(*[shipped(x) for x in name.split("x")])
    return getattr(R, SIMPLEX[name])()


def split(name):
    out, d, cur = [], 0, ""
    for ch in name[1:-1]:
        d += (ch == "(") - (ch == ")")
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur]


def plain(eng, ip):
    """everything of the module is interpreted"""
    ip.exact = True
    ip.lazy_extremes = True


def arr(v):
    """a vector returned by the code, as a list of terms"""
    a = v if isinstance(v, (list, tuple)) else numpy.asarray(v, dtype=object) if not hasattr(v, "frozen") else None
    if a is None:
        f = v.frozen()
        return [Rat.of(f.at((i,))) for i in range(int(Rat.of(f.shape[0]).concrete()))]
    return [Rat.of(x) for x in a]


def vertices(eng, tag, n, sd, general=False):
    """n points (in general position)"""
    V = [[sym.sym("%s%d_%d" % (tag, i, c)) for c in range(sd)] for i in range(n)]
    if general:
        eng.assume(stubs.det([sub(v, V[0]) for v in V[1:]]) != 0)
    return V


def dot(a, b):
    return sum([x * y for x, y in zip(a, b)], Rat.of(0))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def simplex(eng, ip, name, tag="v"):
    """an instance of a shipped simplex class with other vertices"""
    from FIAT import reference_element as R
    c = shipped(name)
    sd = c.get_spatial_dimension()
    V = vertices(eng, tag, sd + 1, sd)
    cell = object.__new__(type(c))
    ip.call(R.Cell.__init__, [cell, c.get_shape(), tuple(tuple(v) for v in V), c.get_topology()], {})
    return c, cell, V


# ------------------------------------------------------------ entity maps
def coords(n, tag="t"):
    return [sym.sym("%s%d" % (tag, i)) for i in range(n)]


def leafs(cell):
    """(simplex, its vertices) of a product, in order"""
    cs = getattr(cell, "cells", None)
    if cs is None and hasattr(cell, "product"):
        cs = cell.product.cells
    if cs is None:
        return [cell]
    return [x for c in cs for x in leafs(c)]


def entity(cell, dim, e):
    """the (simplex, dimension, entity) triples whose product is the entity,
    found from the vertices of the entity"""
    shape = [len(c.get_vertices()) for c in leafs(cell)]
    vs = [tuple(int(x) for x in numpy.unravel_index(int(v), shape)) for v in cell.get_topology()[dim][e]]
    out = []
    for i, c in enumerate(leafs(cell)):
        s = []
        for v in vs:
            if v[i] not in s:
                s.append(v[i])
        hit = [(d, k) for d in c.get_topology() for k, w in c.get_topology()[d].items() if set(w) == set(s)]
        if len(hit) != 1:
            raise Unsupported("entity that is not a product of entities")
        out.append((c,) + hit[0])
    return out


def maps(name, symbolic=True):
    """every entity map takes the reference entity to the entity, vertex by
    vertex in the order listed, and is affine"""
    from FIAT import reference_element as R
    nm = "get_entity_transform"
    eng, ip = engine(nm)
    plain(eng, ip)
    ref = shipped(name)
    if symbolic and not hasattr(ref, "cells") and not hasattr(ref, "product"):
        _, cell, V = simplex(eng, ip, name)
        VS = {id(cell): V}
    elif symbolic and hasattr(ref, "cells"):
        VS = {}

        def build(c):
            if hasattr(c, "cells"):
                return R.TensorProductCell(*[build(x) for x in c.cells])
            nmc = [k for k, v in SIMPLEX.items() if v == type(c).__name__]
            if not nmc:
                return c
            _, s, W = simplex(eng, ip, nmc[0], "v%d_" % len(VS))
            VS[id(s)] = W
            return s
        cell = build(ref)
    else:
        cell, VS = ref, {}
    place = lambda c: VS.get(id(c)) or [[Rat.of(x) for x in v] for v in c.get_vertices()]      # noqa: E731
    total = sum(c.get_spatial_dimension() for c in leafs(cell))
    for dim in ref.get_topology():
        for e in ref.get_topology()[dim]:
            parts = entity(cell, dim, e)
            t, x, want = [], [], []
            for i, (c, d, k) in enumerate(parts):
                s = coords(d, "t%d_" % i)
                W = place(c)
                vs = [W[j] for j in c.get_topology()[d][k]]
                sc = c.construct_subelement(d) if d not in (0, c.get_spatial_dimension()) else c
                # the reference entity: the sub-element, or the cell itself
                rv = [] if d == 0 else place(c) if d == c.get_spatial_dimension() else [[Rat.of(q) for q in v] for v in sc.get_vertices()]
                if d:
                    x += [rv[0][q] + sum([s[j] * (rv[j + 1][q] - rv[0][q]) for j in range(d)], Rat.of(0)) for q in range(d)]
                want += [vs[0][q] + sum([s[j] * (vs[j + 1][q] - vs[0][q]) for j in range(d)], Rat.of(0)) for q in range(c.get_spatial_dimension())]
            forms = [("tuple", tuple(x)), ("array", numpy.array(x, dtype=object))]
            for what, p in forms:
                def go(p=p):
                    eng.where = nm
                    T = pure(eng, ip, ip.getattr(cell, "get_entity_transform"), [dim, e], {})
                    return ip.call(T, [p], {})
                for pc, k, v in eng.explore(go):
                    base = list(eng.pc)
                    if k == "raise":
                        finish(eng, pc, k, v, "a map for every entity", None, nm)
                        continue
                    eng.pc = base + list(pc)
                    got = arr(v)
                    eng.prove(nm + ": points of the cell", len(got) == total)
                    for a, b in zip(got, want):
                        eng.prove(nm + ": affine, reference vertices to the entity's vertices in order", a == b, "%s entity (%s, %s) %s" % (name, dim, e, what))
                    eng.pc = base
    return eng.result()


# ---------------------------------------------------------------- tangents
def tangents(name):
    eng, ip = engine("tangents")
    plain(eng, ip)
    ref, cell, V = simplex(eng, ip, name)
    sd = ref.get_spatial_dimension()
    top = ref.get_topology()
    distinct(eng, V)

    def run(m, *a):
        nm = "compute_" + m
        out = []
        for pc, k, v in eng.explore(lambda: (setattr(eng, "where", nm), pure(eng, ip, ip.getattr(cell, nm), list(a), {}))[1]):
            if k == "raise":
                finish(eng, pc, k, v, "returns", None, nm)
            else:
                out.append((list(pc), v))
        return out

    def vectors(m, a, want, unit=False, one=False):
        nm = "compute_" + m
        for pc, v in run(m, *a):
            base = list(eng.pc)
            eng.pc = base + pc
            got = [arr(v)] if one else [arr(w) for w in v]
            eng.prove(nm + ": number of vectors", len(got) == len(want))
            for g, w in zip(got, want):
                eng.prove(nm + ": components", len(g) == sd)
                if not unit:
                    eng.prove(nm + ": differences of end vertices", band(*[x == y for x, y in zip(g, w)]), str(a))
                else:
                    same_direction(eng, nm, g, w)
            eng.pc = base
    for dim in range(1, sd + 1):
        for e, vs in top[dim].items():
            ts = [sub(V[j], V[vs[0]]) for j in vs[1:]]
            vectors("tangents", (dim, e), ts)
            vectors("normalized_tangents", (dim, e), ts, unit=True)
            vectors("face_edge_tangents", (dim, e), [sub(V[vs[j]], V[vs[i]]) for i in range(dim) for j in range(i + 1, dim + 1)])
            if dim == 1:
                vectors("edge_tangent", (e,), ts, one=True)
                vectors("normalized_edge_tangent", (e,), ts, unit=True, one=True)
            if dim == 2 and sd == 3:
                vectors("face_tangents", (e,), ts)
    return eng.result()


def same_direction(eng, nm, g, w, length2=None, factor=1):
    """g = l w with l > 0 (or l != 0 of the given sign), |g|^2 = 1"""
    eng.prove(nm + ": unit length", dot(g, g) == 1)
    for i in range(len(g)):
        for j in range(i):
            eng.prove(nm + ": direction", g[i] * w[j] == g[j] * w[i])
    eng.prove(nm + ": orientation", dot(g, w) > 0)


# ------------------------------------------------------- normals, volumes
def distinct(eng, V):
    """edges of a simplex in general position are not zero"""
    for i in range(len(V)):
        for j in range(i):
            d = sub(V[i], V[j])
            eng.assume(dot(d, d) > 0)


def decompositions(eng, ip):
    """singular value decomposition and subspace intersection by contract"""
    from FIAT import reference_element as R
    eng.grams, eng.norms, eng.offset = [], [], None

    def svd(a, full_matrices=True):
        a = numpy.array(numpy.asarray(a, dtype=object))
        m, n = a.shape
        if m == 0 or n == 0:
            return numpy.linalg.svd(numpy.zeros((m, n)))
        r = min(m, n)
        u = numpy.array([[sym.fresh("u", "real") for _ in range(m)] for _ in range(m)], dtype=object)
        vt = numpy.array([[sym.fresh("vt", "real") for _ in range(n)] for _ in range(n)], dtype=object)
        s = [sym.fresh("s", "real") for _ in range(r)]
        G = [[dot(a[i], a[j]) for j in range(m)] for i in range(m)] if m <= n else [[dot(a[:, i], a[:, j]) for j in range(n)] for i in range(n)]
        # full rank, beyond the code's tolerance
        for x in s:
            eng.assume(x > Fraction(1, 1000))
        p = Rat.of(1)
        for x in s:
            p = p * x
        # the Gram determinant under a name, to keep the queries small
        d = stubs.det(G)
        if Rat.of(d).concrete() is None:
            g = sym.fresh("gram", "real")
            eng.assume(g > 0)
            eng.grams.append((Rat.of(d), g))
            d = g
        eng.assume(p * p == d)
        for i in range(m, n):       # rows of vt beyond the rank: orthonormal complement of the rows of a
            for j in range(m):
                eng.assume(dot(vt[i], a[j]) == 0)
            for j in range(m, i + 1):
                eng.assume(dot(vt[i], vt[j]) == (1 if i == j else 0))
            if eng.offset is not None:      # the opposite vertex is not in the plane of the facet
                eng.assume(dot(vt[i], eng.offset) != 0)
        return u, numpy.array(s, dtype=object), vt

    def meet(A, B):
        A, B = numpy.asarray(A, dtype=object), numpy.asarray(B, dtype=object)
        if A.shape[0] != B.shape[0] or A.shape[1] != 1 or B.shape[1] != B.shape[0]:
            raise Unsupported("intersection of other subspaces")
        # one unit vector, and the whole space: that vector up to its sign
        sg = sym.fresh("sign", "real")
        eng.assume(bor(sg == 1, sg == -1))
        return numpy.array([[x * sg for x in row] for row in A], dtype=object)
    ip.contracts[numpy.linalg.svd] = lambda ip, g, kw: svd(*g, **kw)
    ip.contracts[R.linalg_subspace_intersection] = lambda ip, g, kw: meet(*g)

    def norm(a, ord=None):
        a = [Rat.of(x) for x in a]
        if ord is None or ord == 2:
            q = sym.fresh("norm", "real")
            eng.norms.append((a, q))
            eng.assume(q > 0)
            if len(a) < 3:
                eng.assume(q * q == dot(a, a))
            return q
        if ord != numpy.inf:
            raise Unsupported("norm")
        m = sym.fresh("max", "real")
        for x in a:
            eng.assume(band(m >= x, m >= -x))
        eng.assume(bor(*[m == s * x for x in a for s in (1, -1)]))
        return m
    ip.contracts[numpy.linalg.norm] = lambda ip, g, kw: norm(*g, **kw)


def normals(name):
    from FIAT import reference_element as R
    nm = "compute_normal"
    eng, ip = engine(nm)
    plain(eng, ip)
    decompositions(eng, ip)
    ref, cell, V = simplex(eng, ip, name)
    distinct(eng, V)
    sd = ref.get_spatial_dimension()
    top = ref.get_topology()
    for e, vs in top[sd - 1].items():
        off, = [i for i in range(sd + 1) if i not in vs]
        T = [sub(V[j], V[vs[0]]) for j in vs[1:]]
        cr = None
        eng.offset = sub(V[vs[0]], V[off])
        if sd == 3:
            a, b = T
            cr = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

        def go(m, *args):
            eng.where = m
            return pure(eng, ip, ip.getattr(cell, m), list(args), {})
        for pc, k, v in eng.explore(lambda: go("compute_normal", e)):
            base = list(eng.pc)
            if k == "raise":
                finish(eng, pc, k, v, "a normal for every facet", None, nm)
                continue
            eng.pc = base + list(pc)
            n = arr(v)
            eng.prove(nm + ": components", len(n) == sd)
            for t in T:
                eng.prove(nm + ": orthogonal to the facet", dot(n, t) == 0, "%s facet %d" % (name, e))
            if name == "T":
                t = T[0]
                same_direction(eng, nm, n, [t[1], -t[0]])
            elif name == "S":
                q = [q for w, q in eng.norms if all((x - y).const() == 0 for x, y in zip(w, cr)) or all((x + y).const() == 0 for x, y in zip(w, cr))]
                if not q:
                    raise Unsupported("a normal that is not rescaled by the length of the cross product")
                eng.prove(nm + ": -2 t0 x t1 / |t0 x t1|", band(*[x * q[0] == -2 * y for x, y in zip(n, cr)]))
            else:
                eng.prove(nm + ": unit length", dot(n, n) == 1)
                eng.prove(nm + ": outward", dot(n, sub(V[vs[0]], V[off])) > 0)
            eng.pc = base
        # infinity norm 1, along the outward normal, in every class
        N = [sym.sym("n%d" % i) for i in range(sd)]
        eng.assume(dot(N, N) == 1)
        keep = dict(ip.contracts)
        calls = []
        ip.contracts[R.Simplex.compute_normal] = lambda ip, g, kw: (calls.append(g), numpy.array(N, dtype=object))[1]
        for pc, k, v in eng.explore(lambda: (calls.clear(), go("compute_reference_normal", sd - 1, e))[1]):
            base = list(eng.pc)
            if k == "raise":
                finish(eng, pc, k, v, "a reference normal for every facet", None, "compute_reference_normal")
                continue
            eng.pc = base + list(pc)
            n = arr(v)
            w = "compute_reference_normal"
            eng.prove(w + ": the outward normal of the facet is rescaled", bool(calls) and all(c[0] is cell and c[1] == e for c in calls))
            eng.prove(w + ": infinity norm one", band(bor(*[x * s == 1 for x in n for s in (1, -1)]), *[band(x <= 1, x >= -1) for x in n]))
            for i in range(sd):
                for j in range(i):
                    eng.prove(w + ": direction", n[i] * N[j] == n[j] * N[i])
            eng.prove(w + ": outward", dot(n, N) > 0)
            eng.pc = base
        if sd > 1 or True:
            vol = sym.sym("facetvolume")
            ip.contracts[R.Simplex.volume_of_subcomplex] = lambda ip, g, kw: vol if tuple(g[1:]) == (sd - 1, e) else sym.fresh("volume", "real")
            for cls in type(cell).__mro__:
                if "compute_normal" in vars(cls):
                    ip.contracts[vars(cls)["compute_normal"]] = lambda ip, g, kw: numpy.array(N, dtype=object) if g[1] == e else numpy.array([sym.fresh("n", "real") for _ in N], dtype=object)
                    break
            for pc, k, v in eng.explore(lambda: go("compute_scaled_normal", e)):
                base = list(eng.pc)
                if k == "raise":
                    finish(eng, pc, k, v, "a scaled normal for every facet", None, "compute_scaled_normal")
                    continue
                eng.pc = base + list(pc)
                eng.prove("compute_scaled_normal: the normal times the measure of the facet", len(arr(v)) == sd and band(*[x == y * vol for x, y in zip(arr(v), N)]))
                eng.pc = base
        ip.contracts.clear()
        ip.contracts.update(keep)
    eng.assumptions += ["numpy.linalg.svd and linalg_subspace_intersection by contract: full rank above the code's tolerance, trailing right singular vectors span the orthogonal complement; the intersection of a line with the whole space is that line"]
    return eng.result()


def volumes(name):
    """measure of every entity: (n! vol)^2 is the Gram determinant of the edges"""
    nm = "volume_of_subcomplex"
    eng, ip = engine(nm)
    plain(eng, ip)
    decompositions(eng, ip)
    ref, cell, V = simplex(eng, ip, name)
    sd = ref.get_spatial_dimension()
    top = ref.get_topology()
    for dim in top:
        for e, vs in list(top[dim].items()) + ([(None, range(sd + 1))] if dim == sd else []):
            T = [sub(V[j], V[vs[0]]) for j in list(vs)[1:]]
            G = stubs.det([[dot(a, b) for b in T] for a in T])

            def go():
                eng.where = nm if e is not None else "volume"
                return pure(eng, ip, ip.getattr(cell, "volume_of_subcomplex"), [dim, e], {}) if e is not None else pure(eng, ip, ip.getattr(cell, "volume"), [], {})
            for pc, k, v in eng.explore(go):
                base = list(eng.pc)
                if k == "raise":
                    finish(eng, pc, k, v, "a volume for every entity", None, nm)
                    continue
                eng.pc = base + list(pc)
                x = Rat.of(v) * math.factorial(dim)
                g = [g for d, g in eng.grams if (d - G).const() == 0]
                eng.prove(nm + ": Euclidean measure", x * x == (g[-1] if g else G), "%s entity (%s, %s)" % (name, dim, e))
                eng.prove(nm + ": positive", x > 0)
                eng.pc = base
    eng.assumptions += ["numpy.linalg.svd by contract: the product of the singular values is the square root of the Gram determinant, each above the code's tolerance"]
    return eng.result()


# ------------------------------------------------------------- affine maps
def affine(dx, dy):
    """x -> A x + b takes the vertices to the vertices"""
    from FIAT import reference_element as R
    nm = "make_affine_mapping"
    eng, ip = engine(nm)
    plain(eng, ip)
    X, Y = vertices(eng, "x", dx + 1, dx), [[sym.sym("y%d_%d" % (i, c)) for c in range(dy)] for i in range(dx + 1)]
    systems = []

    def solve(M, r):
        M, r = numpy.asarray(M, dtype=object), numpy.asarray(r, dtype=object)
        if r.ndim != 1 or M.shape != (len(r), len(r)):
            raise Unsupported("another linear system")
        z = numpy.array([sym.fresh("z", "real") for _ in r], dtype=object)
        for row, b in zip(M, r):
            eng.assume(dot([Rat.of(q) for q in row], z) == b)
        systems.append(M)
        return z
    ip.contracts[numpy.linalg.solve] = lambda ip, g, kw: solve(*g)

    def invert(M):
        M = numpy.asarray(M, dtype=object)
        Z = numpy.array([[sym.fresh("z", "real") for _ in M] for _ in M], dtype=object)
        for i in range(len(M)):
            for j in range(len(M)):
                eng.assume(dot([Rat.of(q) for q in M[i]], Z[:, j]) == (1 if i == j else 0))
                eng.assume(dot(Z[i], [Rat.of(q) for q in M[:, j]]) == (1 if i == j else 0))
        return Z
    ip.contracts[numpy.linalg.inv] = lambda ip, g, kw: invert(*g)
    for pc, k, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(R.make_affine_mapping, [tuple(map(tuple, X)), tuple(map(tuple, Y))], {}))[1]):
        base = list(eng.pc)
        if k == "raise":
            finish(eng, pc, k, v, "a map between simplices", None, nm)
            continue
        eng.pc = base + list(pc)
        A, b = v
        A, b = numpy.asarray(A, dtype=object), numpy.asarray(b, dtype=object)
        eng.prove(nm + ": shapes", A.shape == (dy, dx) and b.shape == (dy,))
        if A.shape == (dy, dx):
            for x, y in zip(X, Y):
                for j in range(dy):
                    eng.prove(nm + ": vertices to vertices", dot([Rat.of(q) for q in A[j]], x) + b[j] == y[j], "R^%d to R^%d" % (dx, dy))
        eng.pc = base
    for n in (dx, dx + 2):
        if n < 1:
            continue
        Z = [tuple(sym.sym("w%d_%d" % (i, c)) for c in range(dy)) for i in range(n)]
        for pc, k, v in eng.explore(lambda: (setattr(eng, "where", nm), ip.call(R.make_affine_mapping, [tuple(map(tuple, X)), tuple(Z)], {}))[1]):
            eng.prove(nm + ": simplices with different numbers of vertices are refused", k == "raise" and isinstance(v, Exception))
    eng.assumptions += ["numpy.linalg.solve by contract: a solution of the system it was given (the matrix is regular for a simplex in general position)"]
    return eng.result()


# ------------------------------------------------------------- containment
def contains(name, witheps):
    nm = "contains_point"
    eng, ip = engine(nm)
    plain(eng, ip)
    cell = shipped(name)
    eps = sym.sym("epsilon") if witheps else Rat.of(0)
    eng.assume(eps >= 0)
    x, want, off = [], [], 0
    for c in leafs(cell):
        p = coords(c.get_spatial_dimension(), "x%d_" % len(x))
        x += p
        want += [q + eps >= 0 for q in p] + [sum(p, Rat.of(0)) <= 1 + eps]
    inside = band(*want) if want else True
    for p in (tuple(x), numpy.array(x, dtype=object)):
        def go():
            eng.where = nm
            r = pure(eng, ip, ip.getattr(cell, nm), [p], dict(epsilon=eps) if witheps else {})
            return ip.truth(r)
        for pc, k, v in eng.explore(go):
            base = list(eng.pc)
            if k == "raise":
                finish(eng, pc, k, v, "answers for every point", None, nm)
                continue
            eng.pc = base + list(pc)
            eng.prove(nm + ": the points satisfying the inequalities of the cell", inside if v else bnot(inside) if isinstance(inside, sym.SymBool) else not inside, name)
            eng.pc = base
    return eng.result()


def product_volume(name):
    from FIAT import reference_element as R
    nm = "TensorProductCell.volume"
    eng, ip = engine(nm)
    plain(eng, ip)
    cell = shipped(name)
    vol = {}
    for cls in (R.Simplex,):
        ip.contracts[cls.volume] = lambda ip, g, kw: vol.setdefault(id(g[0]), sym.sym("volume%d" % len(vol)))
    for pc, k, v in eng.explore(lambda: (setattr(eng, "where", nm), pure(eng, ip, ip.getattr(cell, "volume"), [], {}))[1]):
        base = list(eng.pc)
        if k == "raise":
            finish(eng, pc, k, v, "a volume", None, nm)
            continue
        eng.pc = base + list(pc)
        want = Rat.of(1)
        for c in leafs(cell):
            want = want * vol.get(id(c), sym.sym("volume of a factor not asked"))
        eng.prove(nm + ": product of the factors' volumes", Rat.of(v) == want)
        eng.pc = base
    return eng.result()


def product_normal(name):
    """reference normals of products: those of the factor, zero elsewhere"""
    from FIAT import reference_element as R
    nm = "compute_reference_normal"
    eng, ip = engine(nm)
    plain(eng, ip)
    cell = shipped(name)
    calls = []

    def normal(c, dim, e):
        if dim != c.get_spatial_dimension() - 1 or e not in c.get_topology()[dim]:
            raise Unsupported("normal of an entity that is no facet")
        return numpy.array([sym.app("N%s" % e, Rat.of([i for i, x in enumerate(leafs(cell)) if x is c][0] if len(set(map(id, leafs(cell)))) == len(leafs(cell)) else 0), q) for q in range(c.get_spatial_dimension())], dtype=object)
    ip.contracts[R.Simplex.compute_reference_normal] = lambda ip, g, kw: normal(*g)
    top = cell.get_topology()
    dsum = lambda d: sum(map(dsum, d)) if isinstance(d, tuple) else d       # noqa: E731
    sd = cell.get_spatial_dimension()
    for dim in top:
        if dsum(dim) != sd - 1:
            continue
        for e in top[dim]:
            parts = entity(cell, dim, e)
            want = []
            for i, (c, d, j) in enumerate(parts):
                n = c.get_spatial_dimension()
                want += list(normal(c, d, j)) if d == n - 1 else [Rat.of(0)] * n
            for pc, k, v in eng.explore(lambda: (setattr(eng, "where", nm), pure(eng, ip, ip.getattr(cell, nm), [dim, e], {}))[1]):
                base = list(eng.pc)
                if k == "raise":
                    finish(eng, pc, k, v, "a reference normal for every facet", None, nm)
                    continue
                eng.pc = base + list(pc)
                g = arr(v)
                eng.prove(nm + ": the factor's normal in its components, zero elsewhere", len(g) == sd and band(*[a == b for a, b in zip(g, want)]), "%s facet (%s, %s)" % (name, dim, e))
                eng.pc = base
    return eng.result()


OBLIGATIONS = [("entity maps %s" % n, "specs.c08", "maps", (n,)) for n in list(SIMPLEX) + ["P", "Q", "H", "IxI", "TxI", "IxT", "QxI", "IxIxI", "TxT", "SxI", "DTxI", "((IxT),I)", "(I,(TxI))"]]
OBLIGATIONS += [("tangents %s" % n, "specs.c08", "tangents", (n,)) for n in SIMPLEX]
OBLIGATIONS += [("normals %s" % n, "specs.c08", "normals", (n,)) for n in SIMPLEX]
OBLIGATIONS += [("volumes %s" % n, "specs.c08", "volumes", (n,)) for n in SIMPLEX]
OBLIGATIONS += [("affine maps R^%d to R^%d" % x, "specs.c08", "affine", x) for x in ((1, 1), (2, 2), (3, 3), (1, 2), (1, 3), (2, 3))]
OBLIGATIONS += [("containment %s%s" % (n, " epsilon" if w else ""), "specs.c08", "contains", (n, w)) for n in ("I", "T", "S", "Q", "H", "IxI", "TxI", "IxT", "QxI", "IxIxI", "TxT", "((IxT),I)") for w in (False, True)]
OBLIGATIONS += [("volume of %s" % n, "specs.c08", "product_volume", (n,)) for n in ("Q", "H", "IxI", "TxI", "IxIxI", "((IxT),I)", "QxI")]
OBLIGATIONS += [("reference normals %s" % n, "specs.c08", "product_normal", (n,)) for n in ("Q", "H", "IxI", "TxI", "IxT", "IxIxI")]
