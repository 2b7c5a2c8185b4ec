"""C11 obligations: H(div) and H(curl) wrapping, for products with a symbolic
number of basis functions and points."""
import itertools

from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, band, isym, Unsupported, NotEstablished
from vlib.pyvc.values import SymArr, SymIter, Seq, SDict, Opaque
from specs.c15 import engine
from specs.c10 import native, cells
from specs.c12 import at, as_seq, concatenated
from specs.c17 import points
from specs.util import finish, pure

AFF, CO, CON = "affine", "covariant piola", "contravariant piola"


class Factor(object):
    def __init__(self, tag, cell, form, mapping):
        self.cell, self.form, self.mapping = cell, form, mapping
        self.n = isym("n" + tag)
        self.el = Opaque("element" + tag, (), dict(get_formdegree=lambda: form, get_reference_element=lambda: cell, ref_el=cell, space_dimension=lambda: self.n,
                                                   mapping=lambda: Seq.from_segs([SymIter(self.n, lambda i: mapping)])))


def wrap(which, a, b, fa, fb, ma=AFF, mb=AFF, kind="points"):
    from FIAT import hdivcurl as X, tensor_product as TP, reference_element as R, functional as F
    nm = which
    W = getattr(X, which)
    eng, ip = engine(nm)
    native(ip)
    ca, cb = cells(a), cells(b)
    da, db = ca.get_spatial_dimension(), cb.get_spatial_dimension()
    sd = da + db
    A, B = Factor("A", ca, fa, ma), Factor("B", cb, fb, mb)
    for f in (A, B):
        eng.assume(f.n >= 1)
    N = A.n * B.n
    mapping = mb if ma == AFF else ma
    vdim = None if mapping == AFF else (db if ma == AFF else da)
    made, calls = [], []

    def node(i, k):
        f = object.__new__(F.PointEvaluation if k == "points" else F.IntegralMoment)
        f.__dict__.update(functional_type=k, ref_el="cell", which=i)
        return f

    def init(self, x, y):
        if x is not A.el or y is not B.el:
            raise NotEstablished("%s: a product of the same factors" % nm)
        cell = R.TensorProductCell(ca, cb)
        kinds = {"points": ["points"], "moments": ["moments"], "mixed": ["points", "moments"]}[kind]
        if kind == "mixed":
            segs = [SymIter(A.n, lambda i: node(i, "points")), SymIter(N - A.n, lambda i: node(A.n + i, "moments"))]
        else:
            segs = [SymIter(N, lambda i: node(i, kinds[0]))]
        ids = {d: {e: Opaque("ids", (str(d), e), {}) for e in es} for d, es in cell.get_topology().items()}
        dual = Opaque("dual", (), {})
        dual._attrs.update(nodes=Seq.from_segs(segs), get_entity_ids=lambda: ids, get_nodes=lambda: dual._attrs["nodes"], entity_ids=ids, ref_el=cell)
        self.__dict__.update(A=A.el, B=B.el, ref_el=cell, dual=dual, _mapping=mapping, formdegree=fa + fb if None not in (fa, fb) else None, order=Rat.of(sym.app("order")), polydegree=sym.app("deg"))
        made.append(self)

    def tabulate(self, order, pts, entity=None):
        calls.append((self, order, pts, entity))
        shp = (N,) if vdim is None else (N, vdim)
        n = as_seq(pts).length()
        return SDict({al: SymArr(shp + (n,), lambda i, al=al: value(al, *i)) for al in itertools.product(range(order + 1), repeat=sd) if sum(al) <= order})

    def value(al, i, *rest):
        return sym.app("f" + "_".join(map(str, al)), i, *rest)
    ip.contracts[TP.TensorProductElement.__init__] = lambda ip, g, kw: init(*g, **kw)
    ip.contracts[TP.TensorProductElement.tabulate] = lambda ip, g, kw: tabulate(*g, **kw)

    def reject():
        if None in (fa, fb):
            return True
        return fa + fb != (sd - 1 if which == "Hdiv" else 1)

    def want(al, i, q):
        """documented value, component by component"""
        out = [Rat.of(0)] * sd
        if mapping == AFF:
            f = value(al, i, q)
            if which == "Hdiv":
                if fa == 0:
                    out[0] = -f
                else:
                    out[-1] = f
            elif fa == 1:
                out[0] = f
            else:
                out[-1] = f
            return out
        o = da if ma == AFF else 0
        v = [value(al, i, c, q) for c in range(vdim)]
        if (which, mapping) == ("Hdiv", CO):
            v = [v[1], -v[0]]
        if (which, mapping) == ("Hcurl", CON):
            v = [-v[1], v[0]]
        out[o:o + vdim] = v
        return out
    turned = (which, mapping) in (("Hdiv", CO), ("Hcurl", CON))
    state = {}

    def go():
        del made[:], calls[:]
        eng.where = nm
        el = object.__new__(TP.TensorProductElement)
        init(el, A.el, B.el)
        before = dict(el.__dict__)
        nodes0 = el.dual._attrs["nodes"]
        state["stage"] = "wrapping"
        new = ip.call(W, [el], {})
        state["stage"] = "checking"
        eng.prove(nm + ": the element wrapped is left alone", el.__dict__ == before and el.dual._attrs["nodes"] is nodes0 and new is not el)
        eng.prove(nm + ": a product of the same factors", new.A is A.el and new.B is B.el and isinstance(new, TP.TensorProductElement))
        get = lambda m, *a: pure(eng, ip, ip.getattr(new, m), list(a), {})     # noqa: E731
        vs = tuple(get("value_shape"))
        eng.prove(nm + ": vectors of the dimension of the cell", len(vs) == 1 and Rat.of(vs[0]) == sd)
        eng.prove(nm + ": form degree is the sum", Rat.of(get("get_formdegree")) == fa + fb)
        concatenated(eng, nm, "mapping names", get("mapping"), [(N, lambda k: CON if which == "Hdiv" else CO)], lambda x, y: x == y)
        eng.prove(nm + ": dimension and entity numbering of the product", Rat.of(get("space_dimension")) == N and get("entity_dofs") is new.dual._attrs["entity_ids"])
        ns = as_seq(get("dual_basis"))
        eng.prove(nm + ": one functional per basis function", Rat.of(ns.length()) == N)
        parts = {"points": [(N, "points", Rat.of(0))], "moments": [(N, "moments", Rat.of(0))], "mixed": [(A.n, "points", Rat.of(0)), (N - A.n, "moments", A.n)]}[kind]
        for n, k, o in parts:
            i = sym.fresh("i")
            base = list(eng.pc)
            eng.assume(band(i >= 0, i < n))
            f = at(ns, o + i)
            if mapping == AFF and k == "points":
                eng.prove(nm + ": point evaluations of the scalar element are marked undefined", f.functional_type == "Undefined" and f.ref_el is None and f.pt_dict is None)
            else:
                eng.prove(nm + ": the other functionals are kept", f.functional_type == k and Rat.of(f.which) == o + i)
            eng.pc = base
        npts = isym("npts")
        eng.assume(npts >= 1)
        pts = points(eng, npts, sd)
        for order, ent in ((0, None), (1, ((da, db - 1), 0)), (2, None)):
            del calls[:]
            state["stage"] = "tabulating"
            T = get("tabulate", order, pts, *([] if ent is None else [ent]))
            state["stage"] = "checking"
            eng.prove(nm + ".tabulate: the product is tabulated with the request", bool(calls) and all(c[0] is new and c[1] == order and c[2] is pts and c[3] == ent for c in calls))
            mis = {al for al in itertools.product(range(order + 1), repeat=sd) if sum(al) <= order}
            eng.prove(nm + ".tabulate: one table per derivative", set(T) == mis)
            for al in mis:
                t = values.as_symarr(T[al]).frozen()
                shp = (N, sd, npts)
                fits = len(t.shape) == 3
                eng.prove(nm + ".tabulate: shape", fits and band(*[Rat.of(x) == Rat.of(y) for x, y in zip(t.shape, shp)]))
                if not fits:
                    continue
                i, q = sym.fresh("i"), sym.fresh("q")
                base = list(eng.pc)
                eng.assume(band(i >= 0, i < N, q >= 0, q < npts))
                for c, w in enumerate(want(al, i, q)):
                    eng.prove(nm + ".tabulate: the wrapped function in its components with the documented sign, zero elsewhere", Rat.of(t.at((i, c, q))) == w)
                eng.pc = base
        return new
    cannot_turn = turned and vdim != 2
    for pc, k, v in eng.explore(go):
        base = list(eng.pc)
        eng.pc = base + list(pc)
        if k == "raise" and not getattr(v, "_pyvc", False):
            raise Unsupported("%s: %s" % (type(v).__name__, v))
        if reject():
            eng.prove(nm + ": form degrees that do not fit are refused", k == "raise" and isinstance(v, ValueError) and state["stage"] == "wrapping")
        elif cannot_turn:
            eng.prove(nm + ": fields that cannot be turned are refused", k == "raise" and isinstance(v, ValueError))
        elif k == "raise":
            eng.pc = base
            finish(eng, pc, k, v, "accepts elements that fit", None, nm)
        eng.pc = base
    eng.assumptions += ["TensorProductElement by contract (C10)", "order of derivatives enumerated (0, 1, 2)"]
    return eng.result()


def other(which):
    """anything that is not a product element is refused"""
    from FIAT import hdivcurl as X, lagrange as L
    eng, ip = engine(which)
    el = object.__new__(L.Lagrange)
    el.__dict__.update(formdegree=1)
    for pc, k, v in eng.explore(lambda: (setattr(eng, "where", which), ip.call(getattr(X, which), [el], {}))):
        eng.prove(which + ": only product elements are wrapped", k == "raise" and isinstance(v, NotImplementedError))
    return eng.result()


HDIV = [("I", "I", 0, 1), ("I", "I", 1, 0), ("T", "I", 2, 0), ("I", "T", 0, 2), ("IxI", "I", 2, 0), ("I", "IxI", 0, 2), ("Q", "I", 2, 0),
        ("T", "I", 1, 1, CON), ("T", "I", 1, 1, CO), ("I", "T", 1, 1, AFF, CON), ("I", "T", 1, 1, AFF, CO), ("IxI", "I", 1, 1, CON), ("IxI", "I", 1, 1, CO), ("S", "I", 2, 1, CON), ("S", "I", 2, 1, CO), ("I", "S", 1, 2, AFF, CO),
        ("I", "S", 1, 2, AFF, CON)]
HCURL = [("I", "I", 0, 1), ("I", "I", 1, 0), ("T", "I", 0, 1), ("I", "T", 1, 0), ("IxI", "I", 0, 1), ("I", "IxI", 1, 0), ("S", "I", 0, 1),
         ("T", "I", 1, 0, CON), ("T", "I", 1, 0, CO), ("I", "T", 0, 1, AFF, CON), ("I", "T", 0, 1, AFF, CO), ("IxI", "I", 1, 0, CON), ("IxI", "I", 1, 0, CO), ("S", "I", 1, 0, CO), ("S", "I", 1, 0, CON), ("I", "S", 0, 1, AFF, CON)]
BAD = [("I", "I", 0, 0), ("I", "I", 1, 1), ("T", "I", 0, 1), ("T", "I", 0, 0), ("T", "I", 2, 1), ("I", "I", None, 1), ("I", "I", 0, None), ("T", "I", 1, 0)]
OBLIGATIONS = [("Hdiv %s" % (x,), "specs.c11", "wrap", ("Hdiv",) + x) for x in HDIV] + [("Hcurl %s" % (x,), "specs.c11", "wrap", ("Hcurl",) + x) for x in HCURL]
OBLIGATIONS += [("%s %s nodes %s" % (w, k, m), "specs.c11", "wrap", (w, "T", "I", f, 1 - f // 2, m, AFF, k)) for k in ("moments", "mixed") for w, f, m in (("Hdiv", 2, AFF), ("Hdiv", 1, CON), ("Hcurl", 0, AFF), ("Hcurl", 1, CO))]
OBLIGATIONS += [("%s refused %s" % (w, x), "specs.c11", "wrap", (w,) + x) for w in ("Hdiv", "Hcurl") for x in BAD]
OBLIGATIONS += [("Hdiv not a product", "specs.c11", "other", ("Hdiv",)), ("Hcurl not a product", "specs.c11", "other", ("Hcurl",))]
OBLIGATIONS = list({o[0]: o for o in OBLIGATIONS}.values())
