"""C14: the constructors of the polynomial spaces, for a symbolic degree."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, band, isym, Unsupported
from vlib.pyvc.values import SymIter, Seq, SymArr, Opaque
from specs import duals as D
from specs.duals import pdim
from specs.families import cell, CELLS
from specs.util import finish

k = isym("degree")
LEMMAS = ["the span of an orthonormal set of P_(k+1) contains x phi for phi in P_k, and its coefficients are the L2 inner products",
          "the union of two sets spans the sum of their spans (singular value decomposition: bounded, C15)",
          "the orthonormal basis is hierarchical: its first dim P_j members span P_j, members dim P_(k-1) .. dim P_k complete P_(k-1) to P_k (C04)"]


class Made(object):
    """record of PolynomialSet(...) and of unions"""

    def __init__(self, what, **kw):
        self.what = what
        self.__dict__.update(kw)


def setting(name, c):
    S = D.Setting(name, c)
    from FIAT import polynomial_set as P, quadrature as Q
    ip = S.ip
    S.rules = []
    S.items = {}

    def item(sq):
        """position -> member of the whole set; a list of several pieces by
        name, see `resolved`"""
        if not isinstance(sq, Seq):
            return lambda i: Rat.of(sq.at((Rat.of(i),)))
        if len(sq.as_segs()) == 1 and isinstance(sq.as_segs()[0], SymIter):
            return lambda i: Rat.of(values.seq_at(sq, Rat.of(i), True))
        name = "item%d" % S.key("items", [(str(a), str(b)) for a, b in D.ranges(sq)])
        S.items[name] = sq
        return lambda i: sym.app(name, Rat.of(i), sort="int") if Rat.of(i).concrete() is None else Rat.of(values.seq_at(sq, Rat.of(i)))

    def resolved(r):
        m = {}
        for x in r.atoms():
            a = sym.ATOMS[x]
            if a.name in S.items:
                m[x] = Rat.of(values.seq_at(S.items[a.name], a.args[0]))
        return r.subs(m) if m else r
    S.item, S.resolved = item, resolved

    def new(ip, args, kw):
        args = list(args)
        names = ["ref_el", "degree", "embedded_degree", "expansion_set", "coeffs", "dmats"]
        d = dict(zip(names, args))
        d.update(kw)
        co = d["coeffs"]
        return Opaque("polyset", (), dict(made="new", num=co.shape[0], get_num_members=lambda: co.shape[0], get_coeffs=lambda: co, coeffs=co, **{n: d[n] for n in names if n != "coeffs"}))
    ip.contracts[P.PolynomialSet] = new
    ip.contracts[P.polynomial_set_union_normalized] = lambda ip, a, kw: Opaque("union", (), dict(made="union", A=a[0], B=a[1]))
    onp = S.onp

    def onp2(ip, args, kw):
        return takeable(S, onp(ip, args, kw), args[0], args[1], (args[2] if len(args) > 2 else kw.get("shape", ())))
    ip.contracts[P.ONPolynomialSet] = onp2
    quad = S.quadrature

    def quad2(ip, args, kw):
        S.rules.append((args[0], Rat.of(args[1])))
        return quad(ip, args, kw)
    ip.contracts[Q.make_quadrature] = quad2
    return S


def takeable(S, ps, c, deg, shape, items=None, whole=None):
    whole = ps if whole is None else whole
    a = ps._attrs
    uid = S.key("uid", id(whole))
    es = S.__dict__.setdefault("_es", Opaque("expansion set"))
    dm = S.__dict__.setdefault("_dm", {}).setdefault(str(deg), Opaque("dmats"))

    def take(it):
        sq = it if isinstance(it, (Seq, SymArr)) else Seq(list(it))
        n = Rat.of(sq.length() if isinstance(sq, Seq) else sq.shape[0])
        at = S.item(sq)
        old = a["tabulate"]

        def tab(pts, jet=0):
            out = old(pts, jet)
            return {al: SymArr((n,) + tuple(v.shape[1:]), lambda idx, v=v: v.at((at(idx[0]),) + tuple(idx[1:]))) for al, v in out.items()}
        sub = Opaque("taken", (), dict(get_num_members=lambda: n, tabulate=tab, get_degree=lambda: deg, get_embedded_degree=lambda: deg, get_reference_element=lambda: c,
                                       get_expansion_set=lambda: es, get_dmats=lambda: dm))
        sub._attrs["made"] = "take"
        sub._attrs["items"] = sq
        sub._attrs["whole"] = whole
        return takeable(S, sub, c, deg, shape, sq, whole)
    a.update(take=take, get_expansion_set=lambda: es, get_dmats=lambda: dm, wdeg=deg, wshape=shape, cell=c)
    return ps


def explore(S, nm, fn, args, post):
    eng = S.eng

    def go():
        S.rules[:] = []
        v = S.ip.call(fn, args, {})
        eng.where = nm
        post(v)
        return v
    for pc, kind, v in eng.explore(go):
        if kind == "raise":
            finish(eng, pc, kind, v, "returns", None, nm)
    eng.assumptions += LEMMAS
    return eng.result()


def intervals(eng, nm, sq, want):
    """the items of a take are the given intervals (in any order)"""
    r = D.ranges(sq)
    if r is None:
        raise Unsupported("items of unexpected form")
    r = [x for x in r if not eng.entails(x[1] == 0)]
    want = [x for x in want if not eng.entails(Rat.of(x[1]) == 0)]
    ok = len(r) == len(want)
    rest = list(want)
    for x in r:
        for y in rest:
            if eng.entails(band(x[0] == y[0], x[1] == y[1])):
                rest.remove(y)
                break
        else:
            ok = False
    eng.prove(nm, ok and not rest, "items %s, expected %s" % ([(str(a), str(b)) for a, b in r], [(str(a), str(b)) for a, b in want]))


def full_vector(S, nm, A, c, deg, sd):
    """A spans (P_deg)^d inside the orthonormal set of degree deg + 1"""
    eng = S.eng
    eng.prove(nm + ": the first part is taken from the orthonormal vector set of degree k + 1",
              A._attrs.get("made") == "take" and A._attrs["whole"]._kind == "P" and A._attrs["cell"] is c and eng.entails(Rat.of(A._attrs["wdeg"]) == deg + 1) and tuple(A._attrs["wshape"]) == (sd,))
    intervals(eng, nm + ": the first part is (P_k)^d", A._attrs["items"], [(pdim(deg + 1, sd) * i, pdim(deg, sd)) for i in range(sd)])


def product_space(cname, fname, lowest):
    """(P_k)^d + x P~_k (RT), (P_k)^2 + rot(x) P~_k, (P_k)^3 + x cross (P~_k)^3"""
    from FIAT import raviart_thomas, nedelec
    fn = {"RTSpace": raviart_thomas.RTSpace, "NedelecSpace2D": nedelec.NedelecSpace2D, "NedelecSpace3D": nedelec.NedelecSpace3D}[fname]
    c = cell(cname)
    sd = CELLS[cname][0]
    S = setting("%s on the %s" % (fname, cname), c)
    eng = S.eng
    k = Rat.of(0) if lowest else isym("degree")
    eng.assume(k >= 1 - bool(lowest))
    nm = "%s.%s" % (fn.__module__.split(".")[-1], fname)

    def post(v):
        eng.prove(nm + ": the space is the union of two parts", isinstance(v, Opaque) and v._attrs.get("made") == "union")
        A, B = v._attrs["A"], v._attrs["B"]
        if B._attrs.get("made") == "take":
            A, B = B, A
        full_vector(S, nm, A, c, k, sd)
        eng.prove(nm + ": the second part has the cell and the expansion set of the first", B._attrs["made"] == "new" and B._attrs["ref_el"] is c and B._attrs["expansion_set"] is S._es)
        if v._attrs["A"] is B:
            eng.prove(nm + ": the union has the embedded degree k + 1", Rat.of(B._attrs["embedded_degree"]) == k + 1)
        co = values.as_symarr(B._attrs["coeffs"])
        lo, hi = (Rat.of(0), Rat.of(1)) if eng.entails(k == 0) else (pdim(k - 1, sd), pdim(k, sd))
        rows = hi - lo
        if fname == "NedelecSpace3D":
            rows = rows * 3
        N = pdim(k + 1, sd)
        eng.prove(nm + ": shape of the second part", band(len(co.shape) == 3, Rat.of(co.shape[0]) == rows, Rat.of(co.shape[1]) == sd, Rat.of(co.shape[2]) == N),
                  "shape %s" % (tuple(str(x) for x in co.shape),))
        eng.prove(nm + ": the quadrature rule is exact for the products (degree 2k + 2)", band(len(S.rules) >= 1, *[band(a is c, 2 * m - 1 >= 2 * k + 2) for a, m in S.rules]), "%s" % [str(m) for a, m in S.rules])
        q = S.quadrature(S.ip, [c, S.rules[0][1]], {})
        x = lambda j, cc: values.seq_at(q.pts, j, True)[cc]      # noqa: E731
        w = lambda j: values.seq_at(q.wts, j, True)      # noqa: E731
        n = Rat.of(q.pts.length())
        zero = (0,) * sd
        P1 = S.onp(S.ip, [c, k + 1], {})
        phi = lambda i, j: dict.__getitem__(P1._attrs["tabulate"](q.pts), zero).at((i, j))     # noqa: E731
        one = hi - lo
        base = list(eng.pc)
        i, m = isym("row"), isym("member")
        cases = [(i, m)] if Rat.of(N).concrete() is None else [(Rat.of(i), Rat.of(m)) for i in range(int(one.concrete())) for m in range(int(Rat.of(N).concrete()))]
        signs = []

        def same(got, want):
            # the whole part may be turned
            if not signs and not eng.entails(want == 0):
                signs.append(-1 if eng.entails(got == -want) else 1)
            return got == (signs[0] * want if signs else want)
        for i, m in cases:
            for cc in range(sd):
                eng.pc = list(base)
                if len(cases) == 1:
                    for cond in (m >= 0, m < N, i >= 0, i < one):
                        eng.assume(cond)
                if fname != "NedelecSpace3D":
                    src, sign = (cc, 1) if fname == "RTSpace" else (1 - cc, 1 - 2 * cc)
                    want = values.total(n, lambda j: sign * w(j) * phi(lo + i, j) * x(j, src) * phi(m, j))
                    got = S.resolved(Rat.of(co.at((i, Rat.of(cc), m))))
                    eng.prove(nm + ": the second part is x (rot x) times the homogeneous part of P_k", same(got, want), "component %d: %s, expected %s" % (cc, got, want))
                    continue
                V1 = S.onp(S.ip, [c, k + 1, (3,)], {})
                vphi = lambda r, comp, j: dict.__getitem__(V1._attrs["tabulate"](q.pts), zero).at((r, Rat.of(comp), j))     # noqa: E731
                for blk in range(3):
                    r = blk * N + lo + i
                    want = values.total(n, lambda j: w(j) * phi(m, j) * (x(j, (cc + 2) % 3) * vphi(r, (cc + 1) % 3, j) - x(j, (cc + 1) % 3) * vphi(r, (cc + 2) % 3, j)))
                    got = S.resolved(Rat.of(co.at((blk * one + i, Rat.of(cc), m))))
                    eng.prove(nm + ": the second part is the homogeneous part of (P_k)^3 crossed with x", same(got, want), "component %d, block %d: %s, expected %s" % (cc, blk, got, want))
        eng.pc = base
    return explore(S, nm, fn, [c, 0 if lowest else k], post)


OBLIGATIONS = [("space/%s/%s/%s" % (f, c, ("k>0", "k=0")[low]), "specs.spaces", "product_space", (c, f, low)) for low in (0, 1) for f, cs in
               (("RTSpace", ("triangle", "tetrahedron")), ("NedelecSpace2D", ("triangle",)), ("NedelecSpace3D", ("tetrahedron",))) for c in cs]
