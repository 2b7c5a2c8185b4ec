"""C12 obligations: composed elements, for parts with a symbolic number of
basis functions, degrees of freedom per entity, points and members."""
import itertools

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, SymBool, band, bor, isym, Unsupported
from vlib.pyvc.values import SymArr, SymIter, Seq, SDict, Opaque
from specs.c15 import engine
from specs.c10 import native, cells, same, same_list
from specs.util import finish, pure
import numpy


class Part(object):
    """contract of an element: per-entity lists of degrees of freedom, one
    functional and one mapping name per basis function, tables of shape
    (functions, value shape, points)"""

    def __init__(self, eng, ip, tag, cell, shape=(), mapping="affine", form=0, dims=None, nodal=True):
        self.eng, self.tag, self.cell, self.shape, self.form = eng, tag, cell, tuple(shape), form
        self.n = isym("n" + tag)
        eng.assume(self.n >= 1)
        self.order, self.deg = isym("order" + tag), isym("degree" + tag)
        self.ids = {}
        for dim, es in sorted(cell.get_topology().items()):
            self.ids[dim] = {}
            for e in sorted(es):
                nm = "%s_%s_%d" % (tag, str(dim).replace(" ", ""), e)
                m = isym("m" + nm)
                eng.assume(m >= 0)
                self.ids[dim][e] = Seq.from_segs([SymIter(m, lambda q, nm=nm: self.dof(nm, q))])
        self.nodes = Seq.from_segs([SymIter(self.n, lambda i: Opaque("node" + tag, (i,), {}))])
        self.maps = Seq.from_segs([SymIter(self.n, lambda i: mapping)])
        self.mapping = mapping
        self.calls = []
        eng.facts_for.append(lambda a, d="dof%s_" % tag: [Rat.atom(a) >= 0, Rat.atom(a) < self.n] if a.kind == "app" and a.name.startswith(d) else [])
        self.el = Opaque("element" + tag, (), dict(
            get_reference_element=lambda: cell, mapping=lambda: self.maps, value_shape=lambda: self.shape, get_order=lambda: self.order,
            get_formdegree=lambda: self.form, entity_dofs=lambda: self.ids, dual_basis=lambda: self.nodes, degree=lambda: self.deg,
            space_dimension=lambda: self.n, tabulate=lambda *a, **k: self.tabulate(*a, **k), is_nodal=lambda: nodal, num_sub_elements=lambda: 1))

    def dof(self, nm, q):
        return sym.app("dof" + nm, q, sort="int")

    def value(self, al, m, comp, p):
        return sym.app("f" + self.tag + "_".join(map(str, al)), m, *(tuple(comp) + (p,)))

    def tabulate(self, order, pts, entity=None):
        self.calls.append((order, pts, entity))
        d = self.cell.get_spatial_dimension()
        np_ = pts.length()
        return SDict({al: SymArr((self.n,) + self.shape + (np_,), lambda i, al=al: self.value(al, i[0], i[1:-1], i[-1]))
                      for al in itertools.product(range(order + 1), repeat=d) if sum(al) <= order})


def dualset(ip, made):
    from FIAT import dual_set

    def f(self, nodes, ref_el, entity_ids):
        self.__dict__.update(nodes=nodes, ref_el=ref_el, entity_ids=entity_ids, entity_closure_ids={})
        made.append(self)
    ip.contracts[dual_set.DualSet.__init__] = lambda ip, g, kw: f(*g, **kw)


def as_seq(l):
    return l if isinstance(l, Seq) else Seq(l)


def at(l, i):
    return values.seq_at(as_seq(l), Rat.of(i), inside=True)


def concatenated(eng, nm, what, got, parts, eq):
    """got is the concatenation of parts [(length, item)]"""
    got = as_seq(got)
    tot = sum([Rat.of(n) for n, f in parts], Rat.of(0))
    eng.prove(nm + ": length of %s" % what, Rat.of(got.length()) == tot)
    off = Rat.of(0)
    for n, f in parts:
        k = sym.fresh("k")
        base = list(eng.pc)
        eng.assume(band(k >= 0, k < n))
        places(eng, nm + ": %s are concatenated in order" % what, got, off + k, lambda v: eq(v, f(k)))
        eng.pc = base
        off = off + n


def places(eng, name, s, i, claim):
    """the claim on the item of the list at a position, by cases on the run of
    items the position falls into"""
    off = Rat.of(0)
    segs = []
    for g in s.as_segs():
        n = g.count() if isinstance(g, SymIter) else Rat.of(len(g[1]))
        segs.append((g, off, off + n))
        off = off + n
    for g, a, b in segs:
        if eng.entails(band(i >= a, i < b)):
            eng.prove(name, claim(values.seq_at(Seq.from_segs([g]), i - a, inside=True)))
            return
    base = list(eng.pc)
    eng.prove(name, band(i >= 0, i < off))
    for g, a, b in segs:
        c = band(i >= a, i < b)
        if isinstance(c, SymBool) and eng.check([c])[0] == "unsat" or c is False:
            continue
        eng.pc = base + [c]
        eng.prove(name, claim(values.seq_at(Seq.from_segs([g]), i - a, inside=True)))
    eng.pc = base


def same_node(a, b):
    return isinstance(a, Opaque) and isinstance(b, Opaque) and a._kind == b._kind and Rat.of(a._args[0]) == Rat.of(b._args[0])


def check_ids(eng, nm, ids, parts, cell):
    topo = cell.get_topology()
    eng.prove(nm + ": one list for every entity", set(ids) == set(topo) and all(set(ids[d]) == set(topo[d]) for d in topo))
    for d in topo:
        for e in topo[d]:
            off, want = Rat.of(0), []
            for p in parts:
                l = p.ids[d][e]
                want.append((l.length(), lambda q, l=l, off=off: at(l, q) + off))
                off = off + p.n
            concatenated(eng, nm, "the degrees of freedom of an entity (each part's shifted by the functions before it)", ids[d][e], want, lambda a, b: Rat.of(a) == Rat.of(b))


def parts_of(eng, ip, cell, shapes, mappings=None, forms=None, **kw):
    mappings = mappings or ["affine"] * len(shapes)
    forms = forms or [0] * len(shapes)
    return [Part(eng, ip, "ABC"[i], c, s, m, f, **kw) for i, (c, s, m, f) in enumerate(zip(cell if isinstance(cell, list) else [cell] * len(shapes), shapes, mappings, forms))]


def dispatch(eng, nm, thunk, ok):
    for pc, kind, v in eng.explore(thunk):
        base = list(eng.pc)
        eng.pc = base + list(pc)
        if kind == "raise" and not getattr(v, "_pyvc", False):
            raise Unsupported("%s: %s" % (type(v).__name__, v))
        if not ok:
            eng.prove(nm + ": parts that do not fit are refused", kind == "raise")
        elif kind == "raise":
            eng.pc = base
            finish(eng, pc, kind, v, "accepts parts that fit", None, nm)
        eng.pc = base


# ------------------------------------------------------- enriched and mixed
def enriched(cname, shapes, mappings=None, forms=None, cells2=None):
    from FIAT import enriched as X
    C = X.EnrichedElement
    nm = "EnrichedElement"
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    cs = cell if cells2 is None else [cell] + [cells(c) for c in cells2]
    P = parts_of(eng, ip, cs, shapes, mappings, forms)
    dualset(ip, [])
    ok = len(set(shapes)) == 1 and len(set(mappings or ["affine"])) == 1 and cells2 is None

    def go():
        for p in P:
            del p.calls[:]
        eng.where = nm
        el = object.__new__(C)
        ip.call(C.__init__, [el] + [p.el for p in P], {})
        eng.prove(nm + ": lives on the cell of its parts", pure(eng, ip, C.get_reference_element, [el], {}) is cell)
        els = pure(eng, ip, C.elements, [el], {})
        eng.prove(nm + ": keeps its parts in order", len(els) == len(P) and all(a is p.el for a, p in zip(els, P)))
        check_ids(eng, nm, pure(eng, ip, C.entity_dofs, [el], {}), P, cell)
        concatenated(eng, nm, "functionals", pure(eng, ip, C.dual_basis, [el], {}), [(p.n, lambda k, p=p: at(p.nodes, k)) for p in P], same_node)
        eng.prove(nm + ": value shape is that of the parts", tuple(pure(eng, ip, C.value_shape, [el], {})) == shapes[0])
        m = as_seq(pure(eng, ip, C.mapping, [el], {}))
        eng.prove(nm + ": one mapping name per function", m.length() == sum([p.n for p in P], Rat.of(0)))
        eng.prove(nm + ": the mapping is that of the parts", {g.fn(sym.fresh("i")) if isinstance(g, SymIter) else tuple(g[1]) for g in m.as_segs()} == {P[0].mapping})
        for what, got, items in (("degree", pure(eng, ip, C.degree, [el], {}), [p.deg for p in P]), ("order", pure(eng, ip, C.get_order, [el], {}), [p.order for p in P])):
            got = Rat.of(got)
            eng.prove(nm + ": the %s is the largest of the parts" % what, band(bor(*[got == i for i in items]), *[got >= i for i in items]))
        f = [p.form for p in P]
        got = pure(eng, ip, C.get_formdegree, [el], {})
        eng.prove(nm + ": the form degree is the largest one, or none", (got is None) if None in f else (got is not None and Rat.of(got) == max(f)))
        n = isym("npts")
        eng.assume(n >= 1)
        pts = Seq.from_segs([SymIter(n, lambda q: tuple(sym.app("x", q, c) for c in range(cell.get_spatial_dimension())))])
        for order, ent in ((0, None), (1, (cell.get_dimension(), 0)), (2, None)) if len(P) < 3 else ((1, None),):
            for p in P:
                del p.calls[:]
            T = pure(eng, ip, C.tabulate, [el, order, pts] + ([] if ent is None else [ent]), {})
            tables(order, ent, pts, n, T)
        return el

    def tables(order, ent, pts, n, T):
        eng.prove(nm + ".tabulate: each part is tabulated with the request", all(p.calls and all(c[0] == order and c[1] is pts and c[2] == ent for c in p.calls) for p in P))
        d = cell.get_spatial_dimension()
        want = {al for al in itertools.product(range(order + 1), repeat=d) if sum(al) <= order}
        eng.prove(nm + ".tabulate: one table per derivative", set(T) == want)
        tot = sum([p.n for p in P], Rat.of(0))
        for al in want:
            t = values.as_symarr(T[al]).frozen()
            shp = (tot,) + shapes[0] + (n,)
            same_shape = len(t.shape) == len(shp)
            eng.prove(nm + ".tabulate: shape", same_shape and band(*[Rat.of(a) == Rat.of(b) for a, b in zip(t.shape, shp)]))
            if not same_shape:
                continue
            off = Rat.of(0)
            for p in P:
                i, q = sym.fresh("i"), sym.fresh("q")
                base = list(eng.pc)
                eng.assume(band(i >= 0, i < p.n, q >= 0, q < n))
                for c in numpy.ndindex(*shapes[0]):
                    eng.prove(nm + ".tabulate: the functions of each part are those of the part, in order", Rat.of(t.at((off + i,) + tuple(c) + (q,))) == p.value(al, i, c, q))
                eng.pc = base
                off = off + p.n
    dispatch(eng, nm, go, ok)
    eng.assumptions += ["the parts' contracts (entity lists, functionals, tables keyed by multi-index); DualSet constructor by contract (C02)", "number of parts and derivative order enumerated"]
    return eng.result()


def mixed(cname, shapes, mappings=None, cells2=None, given=None):
    from FIAT import mixed as X
    C = X.MixedElement
    nm = "MixedElement"
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    cs = cell if cells2 is None else [cell] + [cells(c) for c in cells2]
    P = parts_of(eng, ip, cs, shapes, mappings)
    dualset(ip, [])
    ok = cells2 is None and given in (None, "same")
    ref = None if given is None else cell if given == "same" else cells(given)
    sizes = [int(numpy.prod(s, dtype=int)) for s in shapes]

    def go():
        eng.where = nm
        el = object.__new__(C)
        ip.call(C.__init__, [el, Seq([p.el for p in P])] + ([] if ref is None else [ref]), {})
        eng.prove(nm + ": lives on the cell of its parts", pure(eng, ip, C.get_reference_element, [el], {}) is cell)
        els = pure(eng, ip, C.elements, [el], {})
        eng.prove(nm + ": keeps its parts in order", len(els) == len(P) and all(a is p.el for a, p in zip(els, P)))
        P[0].el._attrs["num_sub_elements"] = lambda: 2
        eng.prove(nm + ": counts its parts", Rat.of(pure(eng, ip, C.num_sub_elements, [el], {})) == len(P))
        for bad in (None, P[0], P[-1]):
            for p in P:
                p.el._attrs["is_nodal"] = lambda p=p: p is not bad
            eng.prove(nm + ": nodal when all its parts are", bool(pure(eng, ip, C.is_nodal, [el], {})) is (bad is None))
        check_ids(eng, nm, pure(eng, ip, C.entity_dofs, [el], {}), P, cell)
        concatenated(eng, nm, "functionals", pure(eng, ip, C.dual_basis, [el], {}), [(p.n, lambda k, p=p: at(p.nodes, k)) for p in P], same_node)
        concatenated(eng, nm, "mapping names", pure(eng, ip, C.mapping, [el], {}), [(p.n, lambda k, p=p: p.mapping) for p in P], lambda a, b: a == b)
        vs = tuple(pure(eng, ip, C.value_shape, [el], {}))
        eng.prove(nm + ": the value shape has one component per component of the parts", len(vs) == 1 and Rat.of(vs[0]) == sum(sizes))
        n = isym("npts")
        eng.assume(n >= 1)
        pts = Seq.from_segs([SymIter(n, lambda q: tuple(sym.app("x", q, c) for c in range(cell.get_spatial_dimension())))])
        for order, ent in ((0, None), (1, (cell.get_dimension(), 0)), (2, None)):
            for p in P:
                del p.calls[:]
            T = pure(eng, ip, C.tabulate, [el, order, pts] + ([] if ent is None else [ent]), {})
            tables(order, ent, pts, n, T)
        return el

    def tables(order, ent, pts, n, T):
        eng.prove(nm + ".tabulate: each part is tabulated with the request", all(p.calls and all(c[0] == order and c[1] is pts and c[2] == ent for c in p.calls) for p in P))
        d = cell.get_spatial_dimension()
        want = {al for al in itertools.product(range(order + 1), repeat=d) if sum(al) <= order}
        eng.prove(nm + ".tabulate: one table per derivative", set(T) == want)
        tot = sum([p.n for p in P], Rat.of(0))
        for al in want:
            t = values.as_symarr(T[al]).frozen()
            shp = (tot, sum(sizes), n)
            same_shape = len(t.shape) == len(shp)
            eng.prove(nm + ".tabulate: shape", same_shape and band(*[Rat.of(a) == Rat.of(b) for a, b in zip(t.shape, shp)]))
            if not same_shape:
                continue
            off, c0 = Rat.of(0), 0
            for p, sz in zip(P, sizes):
                i, q = sym.fresh("i"), sym.fresh("q")
                base = list(eng.pc)
                eng.assume(band(i >= 0, i < p.n, q >= 0, q < n))
                comps = list(numpy.ndindex(*p.shape))
                for c in range(sum(sizes)):
                    w = p.value(al, i, comps[c - c0], q) if c0 <= c < c0 + sz else Rat.of(0)
                    eng.prove(nm + ".tabulate: each part's functions stand in its own block of components, zero elsewhere", Rat.of(t.at((off + i, c, q))) == w)
                eng.pc = base
                off, c0 = off + p.n, c0 + sz
    dispatch(eng, nm, go, ok)
    eng.assumptions += ["the parts' contracts (entity lists, functionals, tables keyed by multi-index); DualSet constructor by contract (C02)", "number of parts and derivative order enumerated"]
    return eng.result()


AFF, CO, CON = "affine", "covariant piola", "contravariant piola"
OBLIGATIONS = [("enriched %s %s" % (c, s), "specs.c12", "enriched", (c, s)) for c in ("I", "T", "S", "IxI") for s in ([()], [(), ()], [(), (), ()]) if (c, len(s)) != ("S", 3)]
OBLIGATIONS += [("enriched %s %s" % (c, s), "specs.c12", "enriched", (c, s, [CO] * len(s))) for c in ("T",) for s in ([(2,), (2,)], [(2, 2), (2, 2)], [(2,)] * 3)]
OBLIGATIONS += [("enriched forms %s" % (f,), "specs.c12", "enriched", ("T", [(), ()], None, f)) for f in ([0, 2], [1, 0], [None, 1], [1, None])]
OBLIGATIONS += [("enriched refused %s %s %s" % (s, m, c), "specs.c12", "enriched", ("T", s, m, None, c))
                for s, m, c in (([(), (2,)], None, None), ([(2,), (2,), (3,)], None, None), ([(2,), (2,)], [CO, CON], None), ([(), (), ()], [AFF, AFF, CO], None), ([(), ()], None, ["I"]), ([(), (), ()], None, ["T", "I"]))]
OBLIGATIONS += [("mixed %s %s" % (c, s), "specs.c12", "mixed", (c, s)) for c, s in (("I", [()]), ("T", [(), (2,)]), ("T", [(2,), ()]), ("T", [(2, 2), (), (2,)]), ("S", [(3,), (3,)]), ("IxI", [(), (2,), ()]))]
OBLIGATIONS += [("mixed mappings", "specs.c12", "mixed", ("T", [(2,), (2,), ()], [CO, CON, AFF])), ("mixed given cell", "specs.c12", "mixed", ("T", [(), ()], None, None, "same")),
                ("mixed refused cells", "specs.c12", "mixed", ("T", [(), ()], None, ["I"])), ("mixed refused given", "specs.c12", "mixed", ("T", [(), ()], None, None, "I"))]


# -------------------------------------------------------------- restriction
def ciarlet_contract(ip, made):
    """CiarletElement.__init__: the nodal basis of the dual set in the span of
    the polynomial set (C01); what it was given is kept for inspection"""
    from FIAT import finite_element as E

    def f(self, poly_set, dual, order, formdegree=None, mapping="affine", ref_el=None):
        self.__dict__.update(poly_set=poly_set, dual=dual, order=order, formdegree=formdegree, _mapping=mapping, ref_el=ref_el)
        made.append(self)
    ip.contracts[E.CiarletElement.__init__] = lambda ip, g, kw: f(*g, **kw)


def selected_entities(cell, domain):
    """the entities a restriction domain stands for"""
    topo = cell.get_topology()
    tot = lambda d: sum(d) if isinstance(d, tuple) else d     # noqa: E731
    sd = cell.get_spatial_dimension()
    if domain == "interior":
        return [(d, e) for d in topo for e in topo[d] if tot(d) == sd]
    top = {"vertex": 0, "edge": 1, "face": 2, "facet": sd - 1}[domain]
    return [(d, e) for d in topo for e in topo[d] if tot(d) <= top]


def restricted(cname, domain, as_indices=False):
    from FIAT import restricted as X
    nm = "RestrictedElement"
    C = X.RestrictedElement
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    p = Part(eng, ip, "A", cell, (2,), CO, form=1)
    ip.families = {"dofA_%s_%d" % (str(d).replace(" ", ""), e) for d in cell.get_topology() for e in cell.get_topology()[d]}
    taken, made = [], []
    dualset(ip, [])
    ciarlet_contract(ip, made)

    def take(items):
        taken.append(items)
        return Opaque("members", (len(taken),), {})
    basis = Opaque("set", (), dict(take=take, get_reference_element=lambda: cell))
    p.el._attrs["get_nodal_basis"] = lambda: basis
    sel = selected_entities(cell, domain)
    size = sum([p.ids[d][e].length() for d, e in sel], Rat.of(0))
    given = Seq.from_segs([g for d, e in sel for g in p.ids[d][e].as_segs()]) if as_indices else None

    def go():
        del taken[:], made[:]
        eng.where = nm
        el = object.__new__(C)
        kw = dict(indices=given) if as_indices else dict(restriction_domain=domain)
        try:
            ip.call(C.__init__, [el, p.el], kw)
        except Exception as e:
            if not getattr(e, "_pyvc", False):
                raise
            eng.prove(nm + ": refused only when nothing is selected", size == 0)
            eng.prove(nm + ": nothing to select is reported as an error", isinstance(e, (ValueError, RuntimeError)))
            return None
        eng.prove(nm + ": an empty restriction is refused", size >= 1)
        check(el)
        return el

    def check(el):
        eng.prove(nm + ": the basis is computed once, from a selection of the element's own basis", len(made) == 1 and len(taken) == 1 and el.poly_set._kind == "members" and el.poly_set._args[0] == 1)
        got = {}
        n = Rat.of(0)
        for g in as_seq(taken[0]).as_segs():
            if not isinstance(g, SymIter):
                raise Unsupported("selection in an unknown form")
            k = sym.fresh("k")
            f = ip.family(Rat.of(g.fn(k)))
            if f is None or not (f[1] - k == 0):
                raise Unsupported("selection in an unknown form")
            got.setdefault(f[0], []).append(g.n)
        names = {"dofA_%s_%d" % (str(d).replace(" ", ""), e): p.ids[d][e].length() for d, e in sel}
        for s in set(got) | set(names):
            eng.prove(nm + ": the selected basis functions are those of the selected entities, each once",
                      sum(got.get(s, []), Rat.of(0)) == names.get(s, Rat.of(0)) if len(got.get(s, [])) <= 1 else False, "%s" % s)
        # numbering: entities keep their functionals, numbered consecutively
        ids, nodes = el.dual.entity_ids, as_seq(el.dual.nodes)
        topo = cell.get_topology()
        eng.prove(nm + ": one list for every entity", set(ids) == set(topo) and all(set(ids[d]) == set(topo[d]) for d in topo))
        eng.prove(nm + ": one functional per selected degree of freedom", Rat.of(nodes.length()) == size)
        starts = []
        for d in topo:
            for e in topo[d]:
                l = as_seq(ids[d][e])
                old = p.ids[d][e]
                if (d, e) not in sel:
                    eng.prove(nm + ": other entities carry no degree of freedom", Rat.of(l.length()) == 0)
                    continue
                eng.prove(nm + ": a selected entity keeps its degrees of freedom", Rat.of(l.length()) == old.length())
                k = sym.fresh("k")
                base = list(eng.pc)
                eng.assume(band(k >= 0, k < old.length()))
                new = Rat.of(at(l, k))
                a, = k.atoms()
                eng.prove(nm + ": new numbers are consecutive on an entity", a not in (new - k).atoms())
                places(eng, nm + ": the functional of a kept degree of freedom is its own", nodes, new, lambda v: same_node(v, at(p.nodes, at(old, k))))
                eng.pc = base
                starts.append((new - k, old.length()))
        # disjoint: in some order every list starts where the previous ends
        chain, pos = list(starts), Rat.of(0)
        while chain:
            hit = [c for c in chain if (c[0] - pos).const() == 0]
            if not hit:
                break
            chain.remove(hit[0])
            pos = pos + hit[0][1]
        eng.prove(nm + ": the new numbers cover 0 .. n-1 once", not chain and pos == size)
        eng.prove(nm + ": mapping and form degree are kept", el._mapping == CO and el.formdegree == 1)
        eng.prove(nm + ": lives on the same cell", el.dual.ref_el is cell)
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns or refuses an empty selection", None, nm)
    eng.assumptions += ["the element's entity lists are disjoint (C02); PolynomialSet.take (C15), CiarletElement and DualSet constructors by contract (C01, C02)",
                        "a basis function of a nodal element is the one member of its span dual to its functional, so the restricted basis is the selected part of the old one"]
    return eng.result()


def refused_restriction(cname):
    from FIAT import restricted as X
    nm = "RestrictedElement"
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    p = Part(eng, ip, "A", cell)
    p.el._attrs["get_nodal_basis"] = lambda: Opaque("set", (), dict(take=lambda items: Opaque("members", (), {})))
    dualset(ip, [])
    ciarlet_contract(ip, [])
    for kw in ({}, dict(restriction_domain="edges"), dict(restriction_domain="cell"), dict(indices="facet"), dict(indices=Seq([])), dict(indices=Seq([]), restriction_domain="nothing")):
        eng.where = nm
        for pc, kind, v in eng.explore(lambda: ip.call(X.RestrictedElement.__init__, [object.__new__(X.RestrictedElement), p.el], dict(kw))):
            base = list(eng.pc)
            eng.pc = base + list(pc)
            if kind == "raise" and not getattr(v, "_pyvc", False):
                raise Unsupported("%s: %s" % (type(v).__name__, v))
            eng.prove(nm + ": an unknown domain or no selection is refused", kind == "raise", "%s" % kw)
            eng.pc = base
    return eng.result()


RES = [(c, d) for c in ("I", "T", "S", "IxI") for d in ("vertex", "edge", "face", "facet", "interior")
       if not (c == "I" and d in ("edge", "face")) and not (c in ("T", "IxI") and d == "face")]
OBLIGATIONS += [("restricted %s %s" % (c, d), "specs.c12", "restricted", (c, d)) for c, d in RES if c != "Q"]
OBLIGATIONS += [("restricted %s indices of %s" % (c, d), "specs.c12", "restricted", (c, d, True)) for c, d in (("T", "facet"), ("I", "vertex"), ("S", "face"), ("T", "interior"))]
OBLIGATIONS += [("restriction refused %s" % c, "specs.c12", "refused_restriction", (c,)) for c in ("T", "IxI")]


# ------------------------------------------------------------------ breaking
def broken(cname):
    from FIAT import discontinuous as X
    nm = "DiscontinuousElement"
    C = X.DiscontinuousElement
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    p = Part(eng, ip, "A", cell, (2,), CO, form=1)
    dualset(ip, [])
    things = {n: Opaque(n, (), {}) for n in ("basis", "coeffs", "dmats", "members")}
    p.el._attrs.update(get_nodal_basis=lambda: things["basis"], get_coeffs=lambda: things["coeffs"], dmats=lambda: things["dmats"], get_num_members=lambda a: things["members"], num_sub_elements=lambda: 1)
    sd = cell.get_spatial_dimension()

    def go():
        del p.calls[:]
        eng.where = nm
        el = object.__new__(C)
        ip.call(C.__init__, [el, p.el], {})
        call = lambda m, *a: pure(eng, ip, ip.getattr(el, m), list(a), {})     # noqa: E731
        topo = cell.get_topology()
        for get in ("entity_dofs",):
            ids = call(get)
            eng.prove(nm + ": one list for every entity", set(ids) == set(topo) and all(set(ids[d]) == set(topo[d]) for d in topo))
            for d in topo:
                tot = sum(d) if isinstance(d, tuple) else d
                for e in topo[d]:
                    l = as_seq(ids[d][e])
                    if tot != sd:
                        eng.prove(nm + ": no degree of freedom is left on the boundary", Rat.of(l.length()) == 0)
                        continue
                    eng.prove(nm + ": every degree of freedom belongs to the cell", Rat.of(l.length()) == p.n)
                    k = sym.fresh("k")
                    base = list(eng.pc)
                    eng.assume(band(k >= 0, k < p.n))
                    eng.prove(nm + ": every degree of freedom belongs to the cell", Rat.of(at(l, k)) == k)
                    eng.pc = base
        eng.prove(nm + ": the functionals are unchanged", call("dual_basis") is p.nodes and el.dual.ref_el is cell)
        eng.prove(nm + ": the basis is unchanged", call("get_nodal_basis") is things["basis"] and call("get_coeffs") is things["coeffs"] and call("dmats") is things["dmats"] and call("get_num_members", 2) is things["members"])
        eng.prove(nm + ": cell, value shape and mappings are unchanged", call("get_reference_element") is cell and call("value_shape") == (2,) and call("mapping") is p.maps)
        eng.prove(nm + ": dimension, degree and order are unchanged", band(Rat.of(call("space_dimension")) == p.n, Rat.of(call("degree")) == p.deg, Rat.of(call("get_order")) == p.order))
        eng.prove(nm + ": form degree is that of a broken space", Rat.of(call("get_formdegree")) == sd)
        eng.prove(nm + ": is nodal, one sub-element", call("is_nodal") is True and Rat.of(call("num_sub_elements")) == 1)
        n = isym("npts")
        pts = Seq.from_segs([SymIter(n, lambda q: tuple(sym.app("x", q, c) for c in range(sd)))])
        for ent in (None, (cell.get_dimension(), 0)) + tuple((d, 0) for d in topo):
            r = call("tabulate", 1, pts, *([] if ent is None else [ent]))
            o, a, e = p.calls[-1]
            eng.prove(nm + ": tabulates what the element tabulates", o == 1 and a is pts and e == ent and isinstance(r, SDict))
        return el
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    eng.assumptions += ["the element's contract; DualSet constructor by contract (C02)"]
    return eng.result()


# ------------------------------------------------------------------- bubbles
def bubble(cls, cname, args):
    from FIAT import bubble as X, restricted, lagrange
    C = getattr(X, cls)
    nm = cls
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    codim = args[0] if args else {"Bubble": 0, "FacetBubble": 1}[cls]
    deg = isym("degree")
    eng.assume(deg >= 1)
    topo = cell.get_topology()
    ids, off = {}, Rat.of(0)
    for d in sorted(topo):
        ids[d] = {}
        for e in sorted(topo[d]):
            m = isym("m_%d_%d" % (d, e))
            eng.assume(m >= 0)
            ids[d][e] = Seq.from_segs([SymIter(m, lambda q, s=off: s + q)])
            off = off + m
    want = [ids[d][e] for d in sorted(topo) if d == cell.get_dimension() - codim for e in sorted(topo[d])]
    size = sum([w.length() for w in want], Rat.of(0))
    asked, made = [], []
    lag = Opaque("Lagrange", (), dict(entity_dofs=lambda: ids, get_reference_element=lambda: cell))

    def lagr(ip, g, kw):
        asked.append((list(g), kw))
        return lag
    ip.contracts[lagrange.Lagrange] = lagr

    def restr(self, element, indices=None, restriction_domain=None):
        made.append((element, indices, restriction_domain))
        self.__dict__["given"] = True
    ip.contracts[restricted.RestrictedElement.__init__] = lambda ip, g, kw: restr(*g, **kw)

    def go():
        del asked[:], made[:]
        eng.where = nm
        el = object.__new__(C)
        try:
            ip.call(C.__init__, [el, cell, deg] + list(args), {})
        except Exception as e:
            if not getattr(e, "_pyvc", False):
                raise
            eng.prove(nm + ": refused only when there is no such degree of freedom", size == 0)
            return None
        eng.prove(nm + ": no degree of freedom on the entities is refused", size >= 1)
        eng.prove(nm + ": restricts the Lagrange element of the degree on the cell", len(asked) == 1 and len(made) == 1 and made[0][0] is lag and asked[0][0][0] is cell and Rat.of((asked[0][0] + list(asked[0][1].values()))[1]) == deg)
        idx, dom = made[0][1], made[0][2]
        if idx is None:
            eng.prove(nm + ": restricts to the interior of the entities", dom == "interior" and codim == 0)
            return el
        eng.prove(nm + ": restricts to all degrees of freedom in the interior of the entities of the codimension", Rat.of(as_seq(idx).length()) == size)
        o = Rat.of(0)
        for w in want:
            k = sym.fresh("k")
            base = list(eng.pc)
            eng.assume(band(k >= 0, k < w.length()))
            places(eng, nm + ": restricts to all degrees of freedom in the interior of the entities of the codimension", as_seq(idx), o + k, lambda v: Rat.of(v) == at(w, k))
            eng.pc = base
            o = o + w.length()
        return el
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns or refuses", None, nm)
    eng.assumptions += ["Lagrange numbers its entities consecutively (C02); RestrictedElement by contract (above)"]
    return eng.result()


# ------------------------------------------------------------ nodal enriched
class NodalPart(Part):
    def __init__(self, eng, ip, tag, cell, shape, mapping="affine", form=0, nodal=True, es=None, N=None, nmats=2):
        Part.__init__(self, eng, ip, tag, cell, shape, mapping, form, nodal=nodal)
        self.N = isym("N" + tag) if N is None else N
        eng.assume(self.N >= 1)
        self.emb, self.pdeg = isym("emb" + tag), isym("pdeg" + tag)
        self.co = SymArr((self.n,) + self.shape + (self.N,), lambda i: sym.app("C" + tag, *i))
        self.dm = [SymArr((self.N, self.N), lambda i, a=a: sym.app("D%d" % a, *i)) for a in range(nmats)]
        ps = Opaque("set", (), dict(get_expansion_set=lambda: es, get_degree=lambda: self.pdeg, get_embedded_degree=lambda: self.emb, get_reference_element=lambda: cell))
        self.el._attrs.update(get_nodal_basis=lambda: ps, get_coeffs=lambda: self.co, dmats=lambda: self.dm)


class ES1(object):
    pass


class ES2(object):
    pass


def nodal_enriched(cname, shapes, mappings=None, forms=None, nodal=None, cells2=None, sets=None, sizes=None):
    from FIAT import nodal_enriched as X, polynomial_set as P, finite_element as E
    nm = "NodalEnrichedElement"
    C = X.NodalEnrichedElement
    eng, ip = engine(nm)
    native(ip)
    cell = cells(cname)
    n = len(shapes)
    sd = cell.get_spatial_dimension()
    mappings, forms, nodal, sets = mappings or [AFF] * n, forms or [0] * n, nodal or [True] * n, sets or [ES1] * n
    cs = [cell] + [cells(c) for c in cells2] if cells2 else [cell] * n
    ip.lazy_extremes = True
    # the expansion sizes in a given order of magnitude
    Ns = [isym("N%d" % i) for i in range(n)]
    for x in Ns:
        eng.assume(x >= 1)
    order = sizes or list(range(n))
    for a, b in zip(order, order[1:]):
        eng.assume(Ns[a] <= Ns[b])
    ess = [s() for s in sets]
    Ps = [NodalPart(eng, ip, "ABC"[i], cs[i], shapes[i], mappings[i], forms[i], nodal[i], ess[i], Ns[i], sd) for i in range(n)]
    dualset(ip, [])
    made, compared = [], []
    ciarlet_contract(ip, made)

    def allclose(a, b, *x, **k):
        """the derivative matrices of the smaller expansion set are the
        leading blocks of the larger one's"""
        a, b = values.as_symarr(a).frozen(), values.as_symarr(b).frozen()
        eng.prove(nm + ": compares matrices of one size", band(*[Rat.of(s) == Rat.of(t) for s, t in zip(a.shape, b.shape)]))
        i, j = sym.fresh("i"), sym.fresh("j")
        same_ = Rat.of(a.at((i, j))) - Rat.of(b.at((i, j)))
        compared.append(same_)
        return same_.const() == 0
    ip.stubs[numpy.allclose] = allclose

    def pset(self, ref_el, degree, embedded_degree, expansion_set, coeffs, dmats):
        self.__dict__.update(ref_el=ref_el, degree=degree, embedded_degree=embedded_degree, expansion_set=expansion_set, coeffs=coeffs, dmats=dmats)
    ip.contracts[P.PolynomialSet.__init__] = lambda ip, g, kw: pset(*g, **kw)
    ok = all(nodal) and len(set(shapes)) == 1 and len(set(mappings)) == 1 and not cells2 and len(set(sets)) == 1

    def go():
        del made[:]
        eng.where = nm
        el = object.__new__(C)
        ip.call(C.__init__, [el] + [p.el for p in Ps], {})
        eng.prove(nm + ": the nodal basis is computed once", len(made) == 1)
        check_ids(eng, nm, el.dual.entity_ids, Ps, cell)
        concatenated(eng, nm, "functionals", el.dual.nodes, [(p.n, lambda k, p=p: at(p.nodes, k)) for p in Ps], same_node)
        ps = el.poly_set
        eng.prove(nm + ": lives on the cell of its parts", ps.ref_el is cell and el.dual.ref_el is cell)
        eng.prove(nm + ": same kind of expansion set", type(ps.expansion_set) is sets[0])
        extreme("embedded degree", ps.embedded_degree, [p.emb for p in Ps], True)
        extreme("order", el.order, [p.order for p in Ps], True)
        extreme("degree of polynomials contained", ps.degree, [p.pdeg for p in Ps], False)
        f = [p.form for p in Ps]
        eng.prove(nm + ": form degree is the largest one, or none", (el.formdegree is None) if None in f else (el.formdegree is not None and Rat.of(el.formdegree) == max(f)))
        eng.prove(nm + ": the mapping is that of the parts", el._mapping == mappings[0])
        co = values.as_symarr(ps.coeffs).frozen()
        big = Ns[order[-1]]
        tot = sum([p.n for p in Ps], Rat.of(0))
        shp = (tot,) + shapes[0] + (big,)
        fits = len(co.shape) == len(shp)
        eng.prove(nm + ": coefficients have the size of the largest expansion", fits and band(*[Rat.of(a) == Rat.of(b) for a, b in zip(co.shape, shp)]))
        if not fits:
            return el
        off = Rat.of(0)
        for p in Ps:
            i, e = sym.fresh("i"), sym.fresh("e")
            base = list(eng.pc)
            eng.assume(band(i >= 0, i < p.n, e >= 0))
            b2 = list(eng.pc)
            for c in numpy.ndindex(*shapes[0]):
                eng.pc = b2 + [e < p.N]
                eng.prove(nm + ": each part's functions keep their coefficients", Rat.of(co.at((off + i,) + tuple(c) + (e,))) == sym.app("C" + p.tag, i, *c, e))
                eng.pc = b2 + [e >= p.N, e < big]
                if eng.check([])[0] == "unsat":     # a part of the largest size has none
                    continue
                eng.prove(nm + ": the remaining coefficients are zero", Rat.of(co.at((off + i,) + tuple(c) + (e,))) == 0)
            eng.pc = base
            off = off + p.n
        eng.prove(nm + ": one derivative matrix per direction", len(ps.dmats) == sd)
        for a, m in enumerate(ps.dmats):
            m = values.as_symarr(m).frozen()
            i, j = sym.fresh("i"), sym.fresh("j")
            eng.prove(nm + ": derivative matrices are those of the largest expansion", band(Rat.of(m.shape[0]) == big, Rat.of(m.shape[1]) == big, Rat.of(m.at((i, j))) == sym.app("D%d" % a, i, j)))
        return el

    def extreme(what, got, items, largest):
        got = Rat.of(got)
        eng.prove(nm + ": %s is the %s of the parts" % (what, "largest" if largest else "smallest"), band(bor(*[got == i for i in items]), *[(got >= i) if largest else (got <= i) for i in items]))
    dispatch(eng, nm, go, ok)
    eng.assumptions += ["the parts' contracts; CiarletElement, PolynomialSet and DualSet constructors by contract (C01, C15, C02)",
                        "derivative matrices of one family of expansion sets are nested (the entry does not depend on the degree)"]
    return eng.result()


OBLIGATIONS += [("broken %s" % c, "specs.c12", "broken", (c,)) for c in ("I", "T", "S", "IxI")]
OBLIGATIONS += [("Bubble %s" % c, "specs.c12", "bubble", ("Bubble", c, ())) for c in ("I", "T", "S")]
OBLIGATIONS += [("FacetBubble %s" % c, "specs.c12", "bubble", ("FacetBubble", c, ())) for c in ("I", "T", "S")]
OBLIGATIONS += [("CodimBubble %s %d" % (c, k), "specs.c12", "bubble", ("CodimBubble", c, (k,))) for c, d in (("I", 1), ("T", 2), ("S", 3)) for k in range(d + 1)]
OBLIGATIONS += [("nodal enriched %s %s %s" % (c, s, o), "specs.c12", "nodal_enriched", (c, s, None, None, None, None, None, o)) for c, s, o in
                (("T", [()], [0]), ("T", [(), ()], [0, 1]), ("T", [(), ()], [1, 0]), ("I", [(), ()], [0, 1]), ("S", [(), ()], [1, 0]), ("T", [(), (), ()], [2, 0, 1]))]
OBLIGATIONS += [("nodal enriched vectors", "specs.c12", "nodal_enriched", ("T", [(2,), (2,)], [CON, CON], [1, 1])), ("nodal enriched forms", "specs.c12", "nodal_enriched", ("T", [(), ()], None, [None, 0]))]
OBLIGATIONS += [("nodal enriched refused %d" % i, "specs.c12", "nodal_enriched", a) for i, a in enumerate([
    ("T", [(), (2,)]), ("T", [(2,), (2,)], [CO, CON]), ("T", [(), ()], None, None, [True, False]), ("T", [(), ()], None, None, [False, True]), ("T", [(), ()], None, None, None, ["I"]),
    ("T", [(), ()], None, None, None, None, [ES1, ES2])])]
