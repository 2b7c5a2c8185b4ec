"""C01 obligations: the basis CiarletElement.__init__ computes is dual to the
functionals and spans the given polynomial set, for any number of functionals,
members and expansion functions and symbolic coefficients."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymArr, Opaque
from specs.util import finish
import numpy

ASSUME = ["machine arithmetic is treated as real arithmetic (a float literal denotes the decimal written)"]


class Inverses(object):
    """contract of numpy.linalg.inv / solve: a non-square matrix raises, a
    singular one raises, otherwise the result is the two-sided inverse"""

    def __init__(self, eng, ip):
        self.eng, self.mats = eng, []
        ip.inv_contract = self.inv
        ip.solve_contract = lambda a, b: values.sym_dot(self.inv(a), b)

    def inv(self, a):
        a = a.frozen()
        if len(a.shape) != 2:
            raise Unsupported("inverse of a stack of matrices")
        if not (Rat.of(a.shape[0]) - Rat.of(a.shape[1]) == 0):
            raise sym.sem(numpy.linalg.LinAlgError("Last 2 dimensions of the array must be square"))
        if not (isym("regular%d" % len(self.mats)) == 1):
            raise sym.sem(numpy.linalg.LinAlgError("Singular matrix"))
        nm = "inv%d" % len(self.mats)
        r = SymArr(a.shape, lambda i: sym.app(nm, *i))
        self.mats.append((a, r))
        return r


def ciarlet(shape, explicit_ref):
    from FIAT import finite_element as E, polynomial_set as P, reference_element as R
    nm = "CiarletElement.__init__"
    eng = Engine(nm)
    eng.lenient_division = True
    eng.assumptions += ASSUME
    ip = Interp(eng)
    n, M, N = isym("functionals"), isym("members"), isym("expansion functions")
    for x in (n, M, N):
        eng.assume(x >= 1)
    shape = tuple(shape)
    A = SymArr((n,) + shape + (N,), lambda i: sym.app("A", *i))
    B = SymArr((M,) + shape + (N,), lambda i: sym.app("B", *i))
    own, given = R.UFCTriangle(), R.UFCTriangle()
    es = Opaque("expansion set", (), {})
    dm = [Opaque("dmat", (), {})]
    deg, emb, order = isym("degree"), isym("embedded"), isym("order")
    ps = object.__new__(P.PolynomialSet)
    ip.call(P.PolynomialSet.__init__, [ps, own, deg, emb, es, B, dm], {})
    asked = []
    nodes = Opaque("nodes", (), {})

    def riesz(p):
        asked.append(p)
        return A
    dual = Opaque("dual", (), dict(to_riesz=riesz, get_nodes=lambda: nodes))
    made = []

    def go():
        del asked[:], made[:]
        made.append(Inverses(eng, ip))
        el = object.__new__(E.CiarletElement)
        eng.where = nm
        kw = dict(formdegree=isym("form"), mapping="affine")
        if explicit_ref:
            kw["ref_el"] = given
        try:
            ip.call(E.CiarletElement.__init__, [el, ps, dual, order], kw)
        except Exception as e:
            if not getattr(e, "_pyvc", False):
                raise
            # an error is allowed only for a wrong number of functionals or a singular matrix
            eng.prove(nm + ": an error only for a dimension mismatch or dependent functionals", sym.bor(n != M, isym("regular0") != 1))
            return None
        check(el)
        return el

    def check(el):
        ref = given if explicit_ref else own
        eng.prove(nm + ": rejects a number of functionals different from the dimension", n == M)
        eng.prove(nm + ": the functionals are applied to the given space", all(p is ps for p in asked) and len(asked) >= 1)
        new = el.poly_set
        eng.prove(nm + ": the basis is a polynomial set on the element's cell over the same expansion set",
                  isinstance(new, P.PolynomialSet) and new.ref_el is ref and new.expansion_set is es and new.dmats is dm)
        eng.prove(nm + ": degrees are those of the space", band(Rat.of(new.degree) == deg, Rat.of(new.embedded_degree) == emb))
        eng.prove(nm + ": as many basis functions as functionals", Rat.of(new.num_members) == n)
        eng.prove(nm + ": cell, dual set and order are stored", el.ref_el is ref and el.dual is dual and el.order is order)
        co = values.as_symarr(new.coeffs).frozen()
        want = (n,) + shape + (N,)
        ok = len(co.shape) == len(want)
        eng.prove(nm + ": coefficients keep the value shape and the expansion functions", ok and band(*[Rat.of(a) == Rat.of(b) for a, b in zip(co.shape, want)]))
        if not ok:
            return
        comps = 1
        for c in shape:
            comps *= c
        flat = lambda X, rows: values.sym_reshape(X, (rows, comps * N))     # noqa: E731
        fA, fB, fC = flat(A, n), flat(B, M), flat(co, co.shape[0])
        i, j, e = sym.fresh("i"), sym.fresh("j"), sym.fresh("e")
        eng.assume(band(i >= 0, i < n, j >= 0, j < n, e >= 0, e < N))
        mats = made[0].mats
        if not mats:
            raise Unsupported("the basis is not computed with an inverse")
        # <l_i, new_j> is the (i, j) entry of V V^-1 (either order, either transpose)
        pair = values.total(comps * N, lambda c: fA.at((i, c)) * fC.at((j, c)))
        prods = []
        for a, r in mats:
            prods += [values.total(n, lambda q: a.at((i, q)) * r.at((q, j))), values.total(n, lambda q: r.at((i, q)) * a.at((q, j))),
                      values.total(n, lambda q: a.at((j, q)) * r.at((q, i))), values.total(n, lambda q: r.at((j, q)) * a.at((q, i)))]
        eng.prove(nm + ": functional i applied to basis function j is the (i, j) entry of the identity",
                  any_equal(pair, prods))
        # new = R B with R an inverse matrix: the spans agree
        for comp in numpy.ndindex(*shape):
            f = 0
            for s, c in zip(shape, comp):
                f = f * s + c
            mine = co.at((j,) + tuple(comp) + (e,))
            combos = []
            for a, r in mats:
                combos += [values.total(n, lambda q: r.at((q, j)) * B.at((q,) + tuple(comp) + (e,))), values.total(n, lambda q: r.at((j, q)) * B.at((q,) + tuple(comp) + (e,)))]
            eng.prove(nm + ": the basis is an invertible combination of the members of the space", any_equal(mine, combos))
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns or reports a dimension mismatch", None, nm)
    eng.assumptions += ["numpy.linalg.inv / solve: raises for a non-square or singular matrix, otherwise the two-sided inverse",
                        "PolynomialSet and DualSet.to_riesz by contract (C15, C07)"]
    return eng.result()


def any_equal(x, ys):
    for y in ys:
        d = x - y == 0
        if not isinstance(d, sym.SymBool):
            if d:
                return True
        elif values.sums_cancel(x - y):
            return x - y == 0
    return x - ys[0] == 0


OBLIGATIONS = [("CiarletElement value shape %s%s" % (s, " explicit cell" if r else ""), "specs.c01", "ciarlet", (s, r)) for s in ((), (2,), (3,), (2, 2), (3, 3)) for r in (False, True)]

from specs.elements import obligations    # noqa: E402
OBLIGATIONS += obligations("C01")
