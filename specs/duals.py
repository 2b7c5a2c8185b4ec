"""Dual sets for a symbolic degree: every `XDualSet.__init__` is executed on
every reference cell of its family, and its numbering (C02), the support of
its functionals (C13) and their number (C14) are proved."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq, SymArr, Opaque, SDict, SymArr
from fractions import Fraction
import numpy

ASSUME = ["machine arithmetic is treated as real arithmetic (a float literal denotes the decimal written)",
          "lattice points, expansion sets and quadrature rules by contract: their counts and geometry are decided under C09, C04, C06",
          "a functional acts through its stored point data (C07)"]


def binom(n, k):
    """n choose k as a polynomial in n"""
    r = Rat.of(1)
    for i in range(k):
        r = r * (n - i) / (i + 1)
    return r


def pdim(n, d):
    """dimension of P_n in d variables"""
    return binom(Rat.of(n) + d, d)


def verts_of(cell, dim, e):
    vs = cell.get_vertices()
    return [[Fraction(str(float(x))) if not isinstance(x, Fraction) else x for x in vs[v]] for v in cell.get_topology()[dim][e]]


def bary(cell):
    """vertex -> affine function (list of coefficients + constant), exact"""
    import sympy
    vs = [[sympy.Rational(str(float(x))) for x in v] for v in cell.get_vertices()]
    n = len(vs)
    A = sympy.Matrix([[*v, 1] for v in vs]) if n > 1 else sympy.Matrix([[1]])
    B = A.inv()
    return [[Fraction(int(B[i, j].p), int(B[i, j].q)) for i in range(n)] for j in range(n)]


class Setting(object):
    def __init__(self, name, cell):
        self.eng = eng = Engine(name)
        eng.lenient_division = True
        eng.assumptions += ASSUME
        self.ip = ip = Interp(eng)
        self.cell = cell
        self.keys = {}
        from FIAT import reference_element as R, polynomial_set as P, quadrature as Q, raviart_thomas, nedelec
        from FIAT import brezzi_douglas_marini, quadrature_schemes
        for cls in (R.Cell, R.Simplex, R.UFCInterval, R.UFCTriangle, R.UFCTetrahedron, R.Point, R.DefaultTriangle, R.DefaultTetrahedron, R.DefaultLine, R.UFCSimplex, R.TensorProductCell):
            for n, f in list(vars(cls).items()):
                if callable(f) and n not in ("make_points",):
                    ip.native.add(f)
        ip.native.discard(R.Simplex.get_entity_transform)
        ip.native.discard(R.TensorProductCell.get_entity_transform)
        for n in ("ufc_simplex", "default_simplex", "make_affine_mapping", "ufc_cell"):
            if hasattr(R, n):
                ip.native.add(getattr(R, n))
        ip.contracts[R.Simplex.make_points] = self.make_points
        for cls in ("ONPolynomialSet",):
            ip.contracts[getattr(P, cls)] = self.onp
        ip.contracts[P.ONSymTensorPolynomialSet] = self.onsym
        ip.contracts[Q.make_quadrature] = self.quadrature
        ip.contracts[quadrature_schemes.create_quadrature] = self.quadrature
        ip.contracts[Q.GaussLegendreQuadratureLineRule] = self.line
        ip.contracts[Q.RadauQuadratureLineRule] = self.line
        ip.contracts[Q.GaussLobattoLegendreQuadratureLineRule] = self.lobatto
        ip.contracts[P.mis] = self.mis
        ip.contracts[raviart_thomas.RaviartThomas] = self.element("RT", rtdim)
        ip.contracts[nedelec.Nedelec] = self.element("N1", n1dim)

    def key(self, *what):
        """The same request gives the same rule or set."""
        what = repr(what)
        return self.keys.setdefault(what, len(self.keys))

    # ------------------------------------------------------- contracts
    def points(self, cell, dim, e, tag, n, args=()):
        vs = verts_of(cell, dim, e)

        def p(k):
            # the same lattice on every entity of a dimension, in the order of
            # its vertices (C09)
            lam = [sym.app(tag, dim, *(tuple(args) + (k, j))) for j in range(1, len(vs))]
            return tuple(Rat.of(vs[0][c]) + sum([l * (v[c] - vs[0][c]) for l, v in zip(lam, vs[1:])], Rat.of(0)) for c in range(len(vs[0])))
        return Seq.from_segs([SymIter(n, p)])

    def make_points(self, ip, args, kw):
        cell, dim, e, order = args
        dim, e = int(Rat.of(dim).concrete()), int(Rat.of(e).concrete())
        order = Rat.of(order)
        if dim == 0:
            return (tuple(cell.get_vertices()[e]),)
        if dim > cell.get_spatial_dimension() or dim < 0:
            raise sym.sem(ValueError("illegal dimension"))
        ip.eng.prove("%s: precondition of make_points (order at least 1)" % ip.eng.where, order >= 1)
        return self.points(cell, dim, e, "lat", binom(order - 1, dim), (order,))

    def celldim(self, cell):
        return len(cell.get_vertices()) - 1

    def onp(self, ip, args, kw):
        args = list(args)
        cell, deg = args[0], Rat.of(args[1])
        shape = args[2] if len(args) > 2 else kw.get("shape", ())
        shape = tuple(int(Rat.of(s).concrete()) for s in shape)
        d = self.celldim(cell)
        ip.eng.prove("%s: precondition of ONPolynomialSet (degree not negative)" % ip.eng.where, deg >= 0)
        num = pdim(deg, d)
        for s in shape:
            num = num * s
        return self.pset("P", cell, deg, shape, num, blocks=pdim(deg, d))

    def onsym(self, ip, args, kw):
        args = list(args)
        cell, deg = args[0], Rat.of(args[1])
        size = args[2] if len(args) > 2 else kw.get("size", None)
        sd = cell.get_spatial_dimension()
        size = sd if size is None else int(Rat.of(size).concrete())
        ip.eng.prove("%s: precondition of ONSymTensorPolynomialSet (degree not negative)" % ip.eng.where, deg >= 0)
        return self.pset("PS", cell, deg, (size, size), pdim(deg, self.celldim(cell)) * (size * (size + 1) // 2))

    def pset(self, tag, cell, deg, shape, num, **info):
        d = cell.get_spatial_dimension()
        uid = self.key("set", tag, cell.get_vertices(), str(deg), shape)

        def tabulate(pts, jet=0):
            if hasattr(pts, "shape"):
                n = pts.shape[0]
            else:
                n = pts.length() if isinstance(pts, (Seq, SymArr)) else len(pts)
            from vlib import num as N
            out = SDict()
            j = int(Rat.of(jet).concrete())
            for m in range(j + 1):
                for al in N.alphas(d, m):
                    dict.__setitem__(out, tuple(al), SymArr((num,) + shape + (n,), lambda idx, al=tuple(al): sym.app("%s%d" % (tag, uid), *(al + tuple(idx)))))
            return out
        return Opaque(tag, (), dict(get_num_members=lambda: num, tabulate=tabulate, get_degree=lambda: deg, get_embedded_degree=lambda: deg,
                                    get_reference_element=lambda: cell, get_shape=lambda: shape, __len__=lambda: num, info=info))

    def element(self, tag, dimf):
        def new(ip, args, kw):
            cell, deg = args[0], Rat.of(args[1])
            d = self.celldim(cell)
            ip.eng.prove("%s: precondition of %s (degree at least 1)" % (ip.eng.where, tag), deg >= 1)
            num = dimf(deg, d)
            ps = self.pset(tag, cell, deg, (d,), num)
            return Opaque(tag + "element", (), dict(space_dimension=lambda: num, get_nodal_basis=lambda: ps, tabulate=lambda order, pts, entity=None: ps.tabulate(pts, order),
                                                    get_reference_element=lambda: cell, degree=lambda: deg))
        return new

    def quadrature(self, ip, args, kw):
        from FIAT.quadrature import QuadratureRule
        cell = args[0]
        tag = "q%d" % self.key("rule", cell.get_vertices(), str(args[1]))
        N = isym("n" + tag)
        ip.eng.assume(N >= 1)
        dim = cell.get_spatial_dimension()
        if not isinstance(dim, int):
            dim = sum(dim)
        q = object.__new__(QuadratureRule)
        q.__dict__.update(ref_el=cell, pts=Seq.from_segs([SymIter(N, lambda k: tuple(sym.app(tag, k, c) for c in range(dim)))]),
                          wts=Seq.from_segs([SymIter(N, lambda k: sym.app(tag + "w", k))]))
        return q

    def line(self, ip, args, kw):
        """an m-point rule inside the interval"""
        from FIAT.quadrature import QuadratureRule
        m = Rat.of(args[1])
        ip.eng.prove("%s: precondition of the line rule (at least one point)" % ip.eng.where, m >= 1)
        q = object.__new__(QuadratureRule)
        q.__dict__.update(ref_el=args[0], pts=Seq.from_segs([SymIter(m, lambda k: (sym.app("gl", k),))]), wts=Seq.from_segs([SymIter(m, lambda k: sym.app("glw", k))]))
        return q

    def lobatto(self, ip, args, kw):
        """an m-point rule whose first and last points are the end points"""
        from FIAT.quadrature import QuadratureRule
        m = Rat.of(args[1])
        ip.eng.prove("%s: precondition of the Lobatto rule (at least two points)" % ip.eng.where, m >= 2)
        v = args[0].get_vertices()
        q = object.__new__(QuadratureRule)
        q.__dict__.update(ref_el=args[0], pts=Seq.from_segs([("items", [tuple(v[0])]), SymIter(m - 2, lambda k: (sym.app("gll", k),)), ("items", [tuple(v[1])])]),
                          wts=Seq.from_segs([SymIter(m, lambda k: sym.app("gllw", k))]))
        return q

    def mis(self, ip, args, kw):
        m, n = Rat.of(args[0]), Rat.of(args[1])
        m = m.concrete()
        if m is None or m < 1:
            raise Unsupported("multi-indices of unknown length")
        return Seq.from_segs([SymIter(binom(n + m - 1, m - 1), lambda k: tuple(sym.app("mi", n, k, i, sort="int") for i in range(m)))])


def rtdim(k, d):
    k = Rat.of(k)
    return {1: k + 1, 2: k * (k + 2), 3: k * (k + 1) * (k + 3) / 2}[d]


def n1dim(k, d):
    k = Rat.of(k)
    return {1: k, 2: k * (k + 2), 3: k * (k + 2) * (k + 3) / 2}[d]


# ----------------------------------------------------------- obligations

def length(v):
    if isinstance(v, Seq):
        return Rat.of(v.length())
    return Rat.of(len(v))


def ranges(v):
    """A list of indices as intervals [(start, count)], or None."""
    segs = v.as_segs() if isinstance(v, Seq) else [("items", list(v))]
    out = []
    for g in segs:
        if isinstance(g, SymIter):
            if g.flat:
                return None
            k = sym.fresh("k")
            s = g.fn(Rat.of(0))
            if Rat.of(g.fn(k)) is None or (Rat.of(g.fn(k)) - s - k).const() != 0:
                return None
            out.append((Rat.of(s), g.n))
        else:
            out += [(Rat.of(x), Rat.of(1)) for x in g[1]]
    return out


def numbering(S, nm, dual, top):
    """The numbering contract; returns {(dim, e): [(start, count)]}."""
    eng = S.eng
    ids = dual.entity_ids
    keys = {d: sorted(ids[d].keys()) for d in ids.keys()}
    eng.prove(nm + ": every entity of the cell is listed, no other", keys == {d: sorted(top[d]) for d in top},
              "listed %r" % (keys,))
    iv = {}
    for d in keys:
        for e in keys[d]:
            r = ranges(ids[d][e])
            if r is None:
                raise Unsupported("entity list of unexpected form %r" % (ids[d][e],))
            iv[(d, e)] = r
    todo = [(s, n) for r in iv.values() for (s, n) in r if not eng.entails(n == 0)]
    total = length(dual.nodes)
    cur = Rat.of(0)
    ok = True
    while todo and ok:
        for i, (s, n) in enumerate(todo):
            if (s - cur).const() == 0 or eng.entails(s == cur):
                todo.pop(i)
                cur = cur + n
                break
        else:
            ok = False
    eng.prove(nm + ": the lists of the entities are consecutive disjoint intervals starting at 0", ok,
              "after %s: %s remain" % (cur, [str(s) for s, n in todo]))
    if ok:
        eng.prove(nm + ": the intervals end at the number of degrees of freedom", cur == total, "%s listed, %s functionals" % (cur, total))
    return iv


def counts(iv, d, e):
    return sum([n for s, n in iv[(d, e)]], Rat.of(0))


def closure(top, d, e):
    v = set(top[d][e])
    return [(dd, ee) for dd in sorted(top) if dd <= d for ee in sorted(top[dd]) if set(top[dd][ee]) <= v]


def equal_counts(S, nm, iv, top):
    for d in top:
        es = sorted(top[d])
        for e in es[1:]:
            S.eng.prove(nm + ": entities of the same dimension carry equally many degrees of freedom", counts(iv, d, e) == counts(iv, d, es[0]))


def closures(S, nm, dual, iv, top):
    """entity_closure_ids is the sorted union over the closure."""
    eng = S.eng
    for d in top:
        for e in top[d]:
            r = ranges(dual.entity_closure_ids[d][e])
            if r is None:
                raise Unsupported("closure list of unexpected form")
            want = [x for c in closure(top, d, e) for x in iv[c] if not eng.entails(x[1] == 0)]
            r = [x for x in r if not eng.entails(x[1] == 0)]
            good = len(r) == len(want)
            rest = list(want)
            for x in r:
                for y in rest:
                    if (x[0] - y[0]).const() == 0 and (x[1] - y[1]).const() == 0:
                        rest.remove(y)
                        break
                else:
                    good = False
            eng.prove(nm + ": closure lists are the union of the lists of the closure", good and not rest, "entity %d %d: %s" % (d, e, r))


def node_segs(nodes):
    """[(offset, count, node or fn(k))] in order"""
    out, off = [], Rat.of(0)
    segs = nodes.as_segs() if isinstance(nodes, Seq) else [("items", list(nodes))]
    for g in segs:
        if isinstance(g, SymIter):
            c = g.count()
            out.append((off, c, g))
            off = off + c
        else:
            for x in g[1]:
                out.append((off, Rat.of(1), x))
                off = off + 1
    return out


def leaves(g, names=None):
    """the nodes described by a segment, as [(assumptions, node)]; names: an
    iterator of symbols to use for the indices"""
    if not isinstance(g, SymIter):
        return [([], g)]
    k = sym.fresh("k") if names is None else next(names)
    asm = [k >= 0, k < g.n]
    if not g.flat:
        return [(asm, g.fn(k))]
    out = []
    for s in g.fn(k):
        for x in ([s] if isinstance(s, SymIter) else s[1]):
            out += [(asm + a, n) for a, n in leaves(x, names)]
    return out


def entries(d, names=None):
    """pt_dict -> [(assumptions, point, list)]"""
    out = [([], k, v) for k, v in dict.items(d)]
    for g in getattr(d, "gens", None) or ():
        if g.flat:
            raise Unsupported("nested point data")
        k = sym.fresh("j") if names is None else next(names)
        p, l = g.fn(k)
        out.append(([k >= 0, k < g.n], p, l))
    return out


def located(S, nm, dual, iv):
    """[(dim, e, assumptions, node)]: every functional with its entity."""
    eng = S.eng
    out = []
    for off, c, g in node_segs(dual.nodes):
        if eng.entails(c == 0):
            continue
        home = None
        for (d, e), r in iv.items():
            for s, n in r:
                if (s - off).const() == 0 and (n - c).const() == 0 or eng.entails(band(s <= off, off + c <= s + n)):
                    home = (d, e)
        if home is None:
            # a position that is in no single interval: reported by numbering
            eng.prove(nm + ": each group of functionals belongs to one entity", False, "functionals %s..%s" % (off, off + c))
            continue
        for asm, node in leaves(g):
            out.append((home[0], home[1], asm, node))
    return out


def support(S, nm, dual, iv, cell):
    """Every functional uses only points of the closure of its entity."""
    eng = S.eng
    top = cell.get_topology()
    B = bary(cell)
    for d, e, asm, node in located(S, nm, dual, iv):
        base = list(eng.pc)
        for a in asm:
            eng.assume(a)
        for what in ("pt_dict", "deriv_dict"):
            for asm2, p, l in entries(getattr(node, what)):
                b2 = list(eng.pc)
                for a in asm2:
                    eng.assume(a)
                p = [Rat.of(x) for x in list(p)]
                for v in range(len(B)):
                    if v in top[d][e]:
                        continue
                    lam = sum([Rat.of(c) * x for c, x in zip(B[v], p)], Rat.of(B[v][-1]))
                    eng.prove(nm + ": a functional of an entity uses only points of its closure", lam == 0,
                              "entity (%d, %d), %s: barycentric coordinate %s" % (d, e, type(node).__name__, lam))
                eng.pc = b2
        eng.pc = base


def tangents(cell, d, e):
    vs = verts_of(cell, d, e)
    return [[b - a for a, b in zip(vs[0], v)] for v in vs[1:]]


def trace_kind(S, nm, dual, iv, cell, kind):
    """The functionals of lower-dimensional entities see only the trace."""
    eng = S.eng
    sd = cell.get_spatial_dimension()
    for d, e, asm, node in located(S, nm, dual, iv):
        if d == sd:
            continue
        base = list(eng.pc)
        for a in asm:
            eng.assume(a)
        if kind in ("value", "normal", "tangential", "nn", "tt"):
            eng.prove(nm + ": functionals of the boundary use no derivatives", not entries(node.deriv_dict), type(node).__name__)
        for asm2, p, l in entries(node.pt_dict):
            b2 = list(eng.pc)
            for a in asm2:
                eng.assume(a)
            w = {}
            for x in l:
                c = tuple(int(Rat.of(y).concrete()) for y in x[1])
                w[c] = w.get(c, Rat.of(0)) + Rat.of(x[0])
            T = tangents(cell, d, e)
            if kind == "normal":
                # annihilates every tangent field of the facet
                for t in T:
                    eng.prove(nm + ": boundary functionals see only the normal component", sum([w.get((c,), Rat.of(0)) * t[c] for c in range(sd)], Rat.of(0)) == 0, "entity (%d, %d)" % (d, e))
            elif kind == "tangential":
                for n in normals(T, sd):
                    eng.prove(nm + ": boundary functionals see only the tangential component", sum([w.get((c,), Rat.of(0)) * n[c] for c in range(sd)], Rat.of(0)) == 0, "entity (%d, %d)" % (d, e))
            elif kind in ("nn", "tt"):
                W = [[(w.get((i, j), Rat.of(0)) + w.get((j, i), Rat.of(0))) / 2 for j in range(sd)] for i in range(sd)]
                kill = T if kind == "nn" else normals(T, sd)
                for t in kill:
                    for i in range(sd):
                        eng.prove(nm + ": boundary functionals see only the %s component" % {"nn": "normal-normal", "tt": "tangential-tangential"}[kind],
                                  sum([W[i][j] * t[j] for j in range(sd)], Rat.of(0)) == 0, "entity (%d, %d)" % (d, e))
            eng.pc = b2
        eng.pc = base


def normals(T, sd):
    import sympy
    M = sympy.Matrix([[sympy.Rational(x.numerator, x.denominator) for x in t] for t in T])
    return [[Fraction(int(x.p), int(x.q)) for x in v] for v in M.nullspace()]


def trace_counts(S, nm, iv, cell, dims):
    """dims: dimension -> number of functionals in the closure."""
    top = cell.get_topology()
    for d in sorted(dims):
        if d not in top:
            continue
        for e in top[d]:
            got = sum([counts(iv, *c) for c in closure(top, d, e)], Rat.of(0))
            S.eng.prove(nm + ": the closure of each entity carries as many functionals as its trace space has dimensions", got == dims[d],
                        "entity (%d, %d): %s, trace space %s" % (d, e, got, dims[d]))


def _quiet(self):
    """Run checks of another property without recording them."""
    eng = self.eng
    saved, order = dict(eng.obs), list(eng.order)

    def restore():
        eng.obs.clear()
        eng.obs.update(saved)
        eng.order[:] = order
    return restore


Setting.quiet = _quiet


def pushback(w, kind, cell, d, e):
    """The weights of a functional of an entity in the entity's own frame
    (a list), or None if they are not of that form."""
    sd = cell.get_spatial_dimension()
    from fractions import Fraction as Fr
    if kind == "value":
        return [w.get((), Rat.of(0))]
    T = tangents(cell, d, e)
    if kind in ("normal", "nn"):
        sn = [Fr(str(round(float(x), 12))) for x in cell.compute_scaled_normal(e)]
        nn = sum(x * x for x in sn)
        if kind == "normal":
            return [sum([w.get((c,), Rat.of(0)) * sn[c] for c in range(sd)], Rat.of(0)) / nn]
        return [sum([w.get((i, j), Rat.of(0)) * sn[i] * sn[j] for i in range(sd) for j in range(sd)], Rat.of(0)) / (nn * nn)]
    import sympy
    J = sympy.Matrix([[sympy.Rational(x.numerator, x.denominator) for x in t] for t in T]).T
    P = (J.T * J).inv() * J.T
    P = [[Fr(int(P[i, j].p), int(P[i, j].q)) for j in range(sd)] for i in range(P.shape[0])]
    if kind == "tangential":
        return [sum([w.get((c,), Rat.of(0)) * r[c] for c in range(sd)], Rat.of(0)) for r in P]
    return [sum([w.get((i, j), Rat.of(0)) * r[i] * q[j] for i in range(sd) for j in range(sd)], Rat.of(0)) for a, r in enumerate(P) for q in P[a:]]


def gluing(S, nm, dual, iv, cell, kind):
    """On every entity of a dimension the functionals are the same ones in the
    entity's own coordinates."""
    eng = S.eng
    top = cell.get_topology()
    sd = cell.get_spatial_dimension()
    segs = {}
    for off, c, g in node_segs(dual.nodes):
        if eng.entails(c == 0):
            continue
        for (d, e), r in iv.items():
            for s, n in r:
                if (s - off).const() == 0 and (n - c).const() == 0 or eng.entails(band(s <= off, off + c <= s + n)):
                    segs.setdefault((d, e), []).append((off - s, g, c))
    what = nm + ": the functionals of an entity are the same in the coordinates of every entity"
    for d in top:
        if d == sd or (d, 0) not in segs:
            continue
        ref = None
        for e in sorted(top[d]):
            out = []
            pool = ["g%d" % i for i in range(60)]
            names = iter([isym(x) for x in pool])
            base = list(eng.pc)
            for off, g, c in segs.get((d, e), []):
                for asm, node in leaves(g, names):
                    for asm2, p, l in entries(node.pt_dict, names):
                        w = {}
                        for x in l:
                            cc = tuple(int(Rat.of(y).concrete()) for y in x[1])
                            w[cc] = w.get(cc, Rat.of(0)) + Rat.of(x[0])
                        out.append((off, c, asm + asm2, facet_coords(cell, d, e, p), pushback(w, kind, cell, d, e) if d else [w.get((), Rat.of(0))]))
            if ref is None:
                ref = out
                continue
            if len(out) != len(ref):
                eng.prove(what, False, "entity (%d, %d): %d groups, entity 0: %d" % (d, e, len(out), len(ref)))
                continue
            for a, b in zip(out, ref):
                eng.pc = list(base)
                eng.prove(what, band(a[0] == b[0], a[1] == b[1]), "entity (%d, %d): positions" % (d, e))
                for x in b[2]:
                    eng.assume(x)
                eng.prove(what, band(*[x == y for x, y in zip(a[3], b[3])]), "entity (%d, %d): points %s, entity 0: %s" % (d, e, a[3], b[3]))
                eng.prove(what, band(*[close(x, y) for x, y in zip(a[4], b[4])]), "entity (%d, %d): weights %s, entity 0: %s" % (d, e, [str(x) for x in a[4]], [str(x) for x in b[4]]))
            eng.pc = base


def close(x, y):
    """equal up to the rounding of the numbers that native geometry returns"""
    d = x - y
    if d.den:
        return x == y
    big = max([abs(c) for c in x.num.t.values()] or [0])
    if all(abs(c) <= Fraction(1, 10 ** 12) * big for c in d.num.t.values()):
        return True
    return x == y


def facet_coords(cell, d, e, p):
    """coordinates with respect to the vertices of the entity"""
    B = bary(cell)
    p = [Rat.of(x) for x in list(p)]
    return [sum([Rat.of(c) * x for c, x in zip(B[v], p)], Rat.of(B[v][-1])) for v in cell.get_topology()[d][e]]
