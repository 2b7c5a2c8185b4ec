"""C09 obligations: the enumerators, by induction over the recursion, and the
points they generate."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, bor, bnot, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq, SymArr
from specs.util import finish, pure
import numpy

ASSUME = ["integers are unbounded",
          "a bijection with {t : t_i >= s, sum t < f} (resp. {t >= 0 : sum t = n}, products of ranges) has the binomial (product) number of members"]


def segs(v):
    if isinstance(v, SymIter):
        return [v]
    return v.as_segs() if isinstance(v, Seq) else ([("items", list(v))] if len(v) else [])


def tuple_of(name, n, *args):
    """A tuple of symbolic length whose entries are given by a contract."""
    return Seq.from_segs([SymIter(n, lambda i: sym.app(name, *(args + (i,)), sort="int"))])


def block(eng, nm, v):
    """The single two-level block of a recursive enumeration:
    (outer count, a, inner count, k, element(a, k))."""
    out = [g for g in segs(v) if isinstance(g, SymIter) or g[1]]
    if len(out) != 1 or not isinstance(out[0], SymIter):
        return None
    g = out[0]
    a, k = sym.fresh("a"), sym.fresh("k")
    if not g.flat:
        return None
    inner = [x for x in g.fn(a) if isinstance(x, SymIter) or x[1]]
    if len(inner) != 1 or not isinstance(inner[0], SymIter) or inner[0].flat:
        return None
    return g.n, a, inner[0].n, k, inner[0].fn(k)


def length(v):
    return Rat.of(v.length() if isinstance(v, Seq) else (v.shape[0] if hasattr(v, "shape") else len(v)))


def item(v, i):
    return Rat.of(v[i])


def counts(a):
    """numbers of tuples are not negative"""
    return [Rat.atom(a) >= 0] if a.kind == "app" and a.name.startswith("N") else []


class Rec(object):
    """The contract of the recursive call: its result is enumerated as
    L(args, k, .), k < N(args)."""

    def __init__(self, name, ip, fn, nargs, extract):
        self.calls, self.name, self.extract = [], name, extract
        self.ip, self.fn = ip, fn
        ip.contracts[fn] = self
        ip.eng.facts_for.append(counts)

    def __call__(self, ip, args, kw):
        a, n = self.extract(args, kw)
        self.calls.append((a, n, list(ip.eng.pc)))
        at = tuple(x for x in a if isinstance(x, Rat))
        return Seq.from_segs([SymIter(sym.app("N" + self.name, *at, sort="int"), lambda k: tuple_of("L" + self.name, n, *(at + (k,))))])

    def top(self, args):
        del self.calls[:]
        return self.ip.run_function(self.fn, args, {})


def only_item(eng, nm, v, want, lname=None):
    """The result is the single tuple `want` (list of terms or (n, fn))."""
    out = segs(v)
    if len(out) != 1 or isinstance(out[0], SymIter) or len(out[0][1]) != 1:
        eng.prove(nm, False, "result %r" % (v,))
        return
    t = out[0][1][0]
    if isinstance(want, tuple):
        i = sym.fresh("i")
        base = list(eng.pc)
        ok = eng.prove(nm, length(t) == want[0])
        eng.assume(i >= 0)
        eng.assume(i < want[0])
        eng.prove(nm, item(t, i) == want[1](i))
        eng.pc = base
        return ok
    eng.prove(nm, band(length(t) == len(want), *[item(t, i) == w for i, w in enumerate(want)]))


def lattice():
    from FIAT import reference_element as R
    eng = Engine("lattice_iter")
    ip = Interp(eng)
    fn = "reference_element.lattice_iter"
    s, f, d = isym("start"), isym("finish"), isym("depth")
    eng.assume(s >= 0)
    eng.assume(d >= 1)
    rec = Rec("lat", ip, R.lattice_iter, 3, lambda args, kw: (tuple(Rat.of(x) for x in args), Rat.of(args[2])))
    for pc, kind, v in eng.explore(lambda: (rec.top([s, f, d]), list(rec.calls))):
        if kind == "raise":
            finish(eng, pc, kind, v, "yields", None, fn)
            continue
        v, calls = v
        base = list(eng.pc)
        eng.pc = base + list(pc)
        eng.where = fn
        if eng.entails(d == 1):
            nm = fn + ": depth one yields start, ..., finish - 1 in order"
            out = segs(v)
            if not out:
                eng.prove(nm, s >= f)
            elif len(out) == 1 and isinstance(out[0], SymIter) and not out[0].flat:
                i = sym.fresh("i")
                t = out[0].fn(i)
                eng.prove(nm, band(bor(out[0].n == f - s, band(out[0].n <= 0, f - s <= 0)), length(t) == 1, item(t, 0) == s + i))
            else:
                eng.prove(nm, False, repr(v))
        else:
            out = segs(v)
            nm = fn + ": larger depth"
            if not out:
                # nothing is yielded only when no tuple is valid
                eng.prove(nm + " yields something unless no tuple is valid", s >= f)
            else:
                b = block(eng, nm, v)
                if b is None or not calls:
                    raise Unsupported("shape of the enumeration %r" % (v,))
                n1, a, n2, k, t = b
                (s2, f2, d2), _, cpc = calls[-1]
                # calls were recorded inside the loop with its own variable
                lv = sorted((s2.atoms() | f2.atoms()) - s.atoms() - f.atoms() - d.atoms())
                m = {x: a for x in lv}
                if len(lv) > 1:
                    raise Unsupported("several loop variables")
                s2, f2, d2 = s2.subs(m), f2.subs(m), d2.subs(m)
                eng.prove(nm + ": the recursive results are used once each", n2 == sym.app("Nlat", s2, f2, d2, sort="int"))
                eng.prove(nm + ": the recursion decreases", band(d2 == d - 1, d2 >= 1))
                eng.prove(nm + ": start stays non-negative", s2 >= 0)
                eng.prove(nm + ": tuples have the depth as length", length(t) == d)
                i = sym.fresh("i")
                eng.pc = base + list(pc) + [x for x in (i >= 0, i < d - 1) if isinstance(x, sym.SymBool)]
                eng.prove(nm + ": leading components are those of the shorter tuple", item(t, i) == sym.app("Llat", s2, f2, d2, k, i, sort="int"))
                eng.pc = base + list(pc)
                last = item(t, d - 1)
                enumerates(eng, nm, a, n1, last, lambda M, S, L: band(M >= s2, S < f2), lambda M, S, x: band(M >= s, x >= s, S + x < f), increasing=True, pos=lambda M: M >= s)
        eng.pc = base
    eng.assumptions += ASSUME
    return eng.result()


def enumerates(eng, nm, a, n, comp, inner, outer, increasing, pos):
    """Given that the shorter tuples (abstracted by their minimum M and sum S)
    with inner(a) are enumerated once each: a in [0, n) x shorter tuples is in
    bijection with the tuples valid for outer, in the right order."""
    base = list(eng.pc)
    M, S, x, q = isym("M"), isym("S"), isym("x"), isym("q")
    facts = [S >= M, bor(M < 0, S >= 0)]

    def given(*cs):
        eng.pc = base + facts + [c for c in cs if isinstance(c, sym.SymBool)]
    aa = next(iter(a.atoms()))
    given(a >= 0, a < n, inner(M, S, None))
    eng.prove(nm + ": every tuple yielded is valid", outer(M, S, comp))
    # solve comp(a) = x
    d = comp - x
    parts = sym.split(d.num, aa)
    if d.den or set(parts) - {0, 1} or 1 not in parts or parts[1].const() not in (1, -1):
        raise Unsupported("component %s" % comp)
    sol = Rat(parts.get(0, sym.ZERO)) * (-1 / parts[1].const())
    given(outer(M, S, x))
    eng.prove(nm + ": every valid tuple is yielded", band(sol >= 0, sol < n.subs({aa: sol}), _at(inner(M, S, None), aa, sol)))
    given(a >= 0, q > a, q < n)
    c2 = comp.subs({aa: q})
    eng.prove(nm + ": each tuple is yielded once, in lexicographic order", c2 > comp if increasing else c2 < comp)
    eng.pc = base


def _at(b, aa, sol):
    from vlib.pyvc.values import subst
    return subst(b, {aa: sol})


def multi_indices():
    from FIAT import polynomial_set as P
    eng = Engine("mis")
    ip = Interp(eng)
    fn = "polynomial_set.mis"
    m, n = isym("m"), isym("n")
    eng.assume(n >= 0)
    eng.assume(m >= 0)
    rec = Rec("mis", ip, P.mis, 2, lambda args, kw: (tuple(Rat.of(x) for x in args), Rat.of(args[0])))
    for pc, kind, v in eng.explore(lambda: (rec.top([m, n]), list(rec.calls))):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, fn)
            continue
        v, calls = v
        base = list(eng.pc)
        eng.pc = base + list(pc)
        eng.where = fn
        if not calls:
            if not segs(v):
                eng.prove(fn + ": the result is empty only for no slot and a positive total", band(m == 0, n > 0))
            else:
                # a single tuple: valid, and the only one
                out = segs(v)
                t = out[0][1][0] if not isinstance(out[0], SymIter) and len(out) == 1 and len(out[0][1]) == 1 else None
                if t is None:
                    raise Unsupported("result %r" % (v,))
                if eng.entails(m == 1):
                    only_item(eng, fn + ": one slot", v, [n])
                elif eng.entails(n == 0):
                    only_item(eng, fn + ": total zero", v, (m, lambda i: Rat.of(0)))
                else:
                    eng.prove(fn + ": a single tuple only when there is just one", False, "result %r" % (v,))
        else:
            nm = fn + ": several slots"
            b = block(eng, nm, v)
            if b is None:
                raise Unsupported("shape of the enumeration %r" % (v,))
            n1, a, n2, k, t = b
            (m2, s2), _, cpc = calls[-1]
            lv = sorted((m2.atoms() | s2.atoms()) - m.atoms() - n.atoms())
            if len(lv) > 1:
                raise Unsupported("several loop variables")
            mm = {x: a for x in lv}
            m2, s2 = m2.subs(mm), s2.subs(mm)
            eng.prove(nm + ": the recursive results are used once each", n2 == sym.app("Nmis", m2, s2, sort="int"))
            eng.prove(nm + ": the recursion decreases", band(m2 == m - 1, m2 >= 1))
            eng.prove(nm + ": tuples have one component per slot", length(t) == m)
            i = sym.fresh("i")
            eng.pc = base + list(pc) + [x for x in (i >= 0, i < m - 1, a >= 0, a < n1) if isinstance(x, sym.SymBool)]
            eng.prove(nm + ": trailing components are those of the shorter tuple", item(t, i + 1) == sym.app("Lmis", m2, s2, k, i, sort="int"))
            eng.prove(nm + ": the total of the shorter tuples is not negative", s2 >= 0)
            eng.pc = base + list(pc)
            enumerates(eng, nm, a, n1, item(t, 0), lambda M, S, L: band(M >= 0, S == s2), lambda M, S, x: band(M >= 0, x >= 0, S + x == n), increasing=False, pos=lambda M: M >= 0)
        eng.pc = base
    eng.assumptions += ASSUME
    return eng.result()


def tensor_indices():
    from FIAT import functional as Fn
    eng = Engine("index_iterator")
    ip = Interp(eng)
    fn = "functional.index_iterator"
    L = isym("rank")
    eng.assume(L >= 1)
    shp = Seq.from_segs([SymIter(L, lambda i: sym.app("shp", i, sort="int"))])
    eng.facts_for.append(lambda a: [Rat.atom(a) >= 1] if a.kind == "app" and a.name == "shp" else [])
    rec = Rec("idx", ip, Fn.index_iterator, 1, lambda args, kw: ((args[0],), length(args[0])))
    for pc, kind, v in eng.explore(lambda: (rec.top([shp]), list(rec.calls))):
        if kind == "raise":
            finish(eng, pc, kind, v, "yields", None, fn)
            continue
        v, calls = v
        base = list(eng.pc)
        eng.pc = base + list(pc)
        eng.where = fn
        if eng.entails(L == 1):
            nm = fn + ": one slot yields 0, ..., n - 1 in order"
            out = segs(v)
            if len(out) == 1 and isinstance(out[0], SymIter) and not out[0].flat:
                i = sym.fresh("i")
                t = out[0].fn(i)
                eng.prove(nm, band(out[0].n == item(shp, 0), length(t) == 1, item(t, 0) == i))
            else:
                eng.prove(nm, False, repr(v))
        else:
            nm = fn + ": several slots"
            b = block(eng, nm, v)
            if b is None or not calls:
                raise Unsupported("shape of the enumeration %r" % (v,))
            n1, a, n2, k, t = b
            (s2,), n, cpc = calls[-1]
            eng.prove(nm + ": the recursive results are used once each", n2 == sym.app("Nidx", sort="int"))
            eng.prove(nm + ": the recursion decreases", length(s2) == L - 1)
            i = sym.fresh("i")
            eng.pc = base + list(pc) + [x for x in (i >= 0, i < L - 1) if isinstance(x, sym.SymBool)]
            eng.prove(nm + ": the recursion is on the remaining slots", item(s2, i) == item(shp, i + 1))
            eng.prove(nm + ": trailing components are those of the shorter tuple", item(t, i + 1) == sym.app("Lidx", k, i, sort="int"))
            eng.pc = base + list(pc)
            eng.prove(nm + ": one component per slot", length(t) == L)
            eng.prove(nm + ": the first component runs over its range in order", band(n1 == item(shp, 0), item(t, 0) == a))
        eng.pc = base
    eng.assumptions += ASSUME
    return eng.result()


def cell_points(m, dim):
    """make_lattice / make_points on a simplex of symbolic vertices."""
    from FIAT import reference_element as R
    eng = Engine("lattice points")
    ip = Interp(eng)
    n, off = isym("n"), isym("interior")
    eng.assume(n >= 1)
    eng.assume(off >= 0)
    V = [tuple(sym.sym("v%d%d" % (i, c)) for c in range(dim)) for i in range(m + 1)]

    calls = []

    def lat(ip, args, kw):
        s, f, d = [Rat.of(x) for x in args]
        calls.append((s, f, d))
        return Seq.from_segs([SymIter(sym.app("Nlat", s, f, d, sort="int"), lambda k: Seq([sym.app("Llat", s, f, d, k, i, sort="int") for i in range(int(d.concrete()))]))])
    ip.contracts[R.lattice_iter] = lat
    eng.facts_for.append(counts)

    def judge(v, nm, verts, order, interior, mm):
        out = segs(v)
        if len(out) != 1 or not isinstance(out[0], SymIter) or out[0].flat:
            raise Unsupported("shape of the result %r" % (v,))
        k = sym.fresh("k")
        t = out[0].fn(k)
        s, f, d = calls[-1]
        eng.prove(nm + ": the lattice has the dimension of the entity", d == mm)
        eng.prove(nm + ": the lattice leaves out the layers asked for", band(s == interior, f == order + 1 - interior))
        eng.prove(nm + ": one point per lattice tuple", out[0].n == sym.app("Nlat", s, f, d, sort="int"))
        idx = [sym.app("Llat", s, f, d, k, i, sort="int") for i in range(mm)]
        x = list(t)
        eng.prove(nm + ": points have the cell's dimension", len(x) == dim)
        for c in range(dim):
            want = verts[0][c]
            for i in range(mm):
                want = want + (verts[i + 1][c] - verts[0][c]) * idx[i] / order
            eng.prove(nm + ": points are the affine combinations of the vertices with weights from the lattice", Rat.of(x[c]) == want)
    fn = "reference_element.make_lattice"
    for pc, kind, v in eng.explore(lambda: ip.call(R.make_lattice, [tuple(V), n, off], {})):
        finish(eng, pc, kind, v, "returns", None, fn)
        if kind != "raise":
            eng.where = fn
            judge(v, fn, V, n, off, m)
    if m == dim:
        # make_points on every entity of a cell with this vertex numbering
        proto = {1: R.UFCInterval, 2: R.UFCTriangle, 3: R.UFCTetrahedron}[m]()
        cell = object.__new__(R.Simplex)
        cell.__dict__.update({k: x for k, x in proto.__dict__.items()})
        cell.vertices = tuple(V)
        fn = "reference_element.Simplex.make_points"
        for dd in range(dim + 1):
            for e, vs in proto.get_topology()[dd].items():
                for pc, kind, v in eng.explore(lambda: pure(eng, ip, R.Simplex.make_points, [cell, dd, e, n], {})):
                    finish(eng, pc, kind, v, "returns on entities of dimension %d" % dd, None, fn)
                    if kind == "raise":
                        continue
                    eng.where = fn
                    if dd == 0:
                        eng.prove(fn + ": a vertex has itself as its point", len(v) == 1 and bool(band(*[Rat.of(a) == b for a, b in zip(v[0], V[vs[0]])])))
                    else:
                        judge(v, fn + " (dimension %d)" % dd, [V[i] for i in vs], n, Rat.of(1), dd)
        for bad in (-1, dim + 1):
            outs = eng.explore(lambda: ip.call(R.Simplex.make_points, [cell, bad, 0, n], {}))
            eng.where = fn
            eng.prove(fn + ": dimensions the cell does not have are rejected", all(o[1] == "raise" for o in outs))
        # interior: positive weights summing to less than one
        base = list(eng.pc)
        S, M = isym("S"), isym("M")
        eng.pc = base + [M >= 1, S < n, S >= M]
        eng.prove(fn + ": points lie in the relative interior (all barycentric weights are positive)", band(M / n > 0, S / n < 1))
        eng.pc = base
    eng.assumptions += ASSUME + ["the vertices of an entity are affinely independent (so that distinct weights give distinct points)"]
    return eng.result()


OBLIGATIONS = [("lattice_iter", "specs.c09", "lattice", ()), ("mis", "specs.c09", "multi_indices", ()),
               ("index_iterator", "specs.c09", "tensor_indices", ())] + [
    ("points-%d-in-%d" % (m, d), "specs.c09", "cell_points", (m, d)) for d in (1, 2, 3) for m in range(1, d + 1)]
