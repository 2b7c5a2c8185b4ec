"""C11: H(div) / H(curl) wrapping."""
import numpy as np

from vlib import families as F, contracts as C, num

L1, L2, D0, D1, D2 = "Lagrange(I, 1)", "Lagrange(I, 2)", "DiscontinuousLagrange(I, 0)", "DiscontinuousLagrange(I, 1)", "DiscontinuousLagrange(I, 2)"
GLL, GL = "GaussLobattoLegendre(I, 2)", "GaussLegendre(I, 1)"
LT, DT_, RT, N1, BDM = "Lagrange(T, 2)", "DiscontinuousLagrange(T, 1)", "RaviartThomas(T, 1, variant='point')", "Nedelec(T, 1, variant='point')", "BrezziDouglasMarini(T, 1, variant='point')"
N2 = "NedelecSecondKind(T, 1, variant='point')"

# (wrapper, A, B, how): "sA"/"sB" scalar in A's/B's slot (sign), vector: slot + rotation
CASES = []
for l in (L1, L2, GLL):
    for d in (D0, D1, GL):
        CASES += [("Hdiv", l, d, ("scalar", "first", -1)), ("Hdiv", d, l, ("scalar", "last", 1)),
                  ("Hcurl", d, l, ("scalar", "first", 1)), ("Hcurl", l, d, ("scalar", "last", 1))]
for d in (D0, D1):
    CASES += [("Hdiv", RT, d, ("vector", "A", "id")), ("Hdiv", BDM, d, ("vector", "A", "id")),
              ("Hdiv", N1, d, ("vector", "A", "cov2con")), ("Hdiv", N2, d, ("vector", "A", "cov2con"))]
for l in (L1, L2):
    CASES += [("Hcurl", N1, l, ("vector", "A", "id")), ("Hcurl", N2, l, ("vector", "A", "id")),
              ("Hcurl", RT, l, ("vector", "A", "con2cov")), ("Hcurl", BDM, l, ("vector", "A", "con2cov")),
              ("Hdiv", DT_, l, ("scalar", "last", 1)), ("Hcurl", LT, D0, ("scalar", "last", 1)), ("Hcurl", LT, D1, ("scalar", "last", 1)),
              ("Hdiv", l, DT_, ("scalar", "first", -1))]
CASES += [("Hcurl", D1, LT, ("scalar", "first", 1))]
# second factor vector valued, built from point-evaluation-free first factors (bubble-free integral moments)
Q1 = "Flat(TP(%s, %s))" % (L1, L1)
QD = "Flat(TP(%s, %s))" % (D0, D0)
QRT = "Flat(Hdiv(TP(%s, %s)))" % (D0, L1)
QN = "Flat(Hcurl(TP(%s, %s)))" % (D0, L1)
CASES += [("Hdiv", QD, L1, ("scalar", "last", 1)), ("Hcurl", Q1, D0, ("scalar", "last", 1)),
          ("Hdiv", QRT, D1, ("vector", "A", "id")), ("Hcurl", QN, L1, ("vector", "A", "id"))]
SECOND = "DiscontinuousTaylor(I, 1)"      # its nodes are not all point evaluations


def place(how, X, sd, da, db):
    """spec: values of the wrapped basis from the product's values X."""
    if how[0] == "scalar":
        W = np.zeros((X.shape[0], sd, X.shape[1]))
        W[:, 0 if how[1] == "first" else -1, :] = how[2] * X
        return W
    W = np.zeros((X.shape[0], sd, X.shape[2]))
    Y = X
    if how[2] == "cov2con":
        Y = np.stack([X[:, 1], -X[:, 0]], 1)
    elif how[2] == "con2cov":
        Y = np.stack([-X[:, 1], X[:, 0]], 1)
    lo = 0 if how[1] == "A" else da
    W[:, lo:lo + Y.shape[1]] = Y
    return W


def wrapped(ctx, wrap, a, b, how):
    tex = "TP(%s, %s)" % (a, b)
    ex = "%s(%s)" % (wrap, tex)
    old = F.build(tex)
    before = (list(old.mapping()), tuple(old.value_shape()), old.get_formdegree())
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    compare(ctx, ex, wrap, old, el, how)
    # wrapping leaves the wrapped element alone
    from FIAT import Hdiv, Hcurl
    w = (Hdiv if wrap == "Hdiv" else Hcurl)(old)
    ctx.ok((list(old.mapping()), tuple(old.value_shape()), old.get_formdegree()) == before, ex, "the wrapped element changed")
    compare(ctx, ex + " (explicit copy)", wrap, old, w, how)


def compare(ctx, ex, wrap, old, el, how):
    cell = el.get_reference_element()
    ctx.ok(cell == old.get_reference_element(), ex, "cell")
    sd = C.sdim(cell)
    da, db = [C.sdim(c) for c in cell.cells]
    n = old.space_dimension()
    ctx.ok(el.space_dimension() == n and len(el.dual_basis()) == n, ex, "dimension")
    ctx.ok(el.entity_dofs() == old.entity_dofs() and el.entity_closure_dofs() == old.entity_closure_dofs(), ex, "numbering")
    ctx.ok(tuple(el.value_shape()) == (sd,), ex, "value shape %s" % (el.value_shape(),))
    ctx.ok(el.mapping() == [{"Hdiv": "contravariant piola", "Hcurl": "covariant piola"}[wrap]] * n, ex, "mapping %s" % el.mapping()[:2])
    ctx.ok(el.get_formdegree() == (sd - 1 if wrap == "Hdiv" else 1), ex, "form degree")
    ctx.ok(el.degree() == old.degree(), ex, "degree")
    r = num.rng("c11", ex)
    top = cell.get_topology()
    todo = [(None, C.interior_points(cell, 3, r))]
    for dim in top:
        sub = cell.construct_subelement(dim)
        for e in top[dim]:
            todo.append(((dim, e), C.interior_points(sub, 2, r)))
    for ent, pts in todo:
        for order in (0, 2):
            t0 = old.tabulate(order, pts) if ent is None else old.tabulate(order, pts, ent)
            t1 = el.tabulate(order, pts) if ent is None else el.tabulate(order, pts, ent)
            ctx.ok(set(t0) == set(t1), ex, "derivative keys")
            for al in t0:
                ctx.close(t1[al], place(how, np.asarray(t0[al], float), sd, da, db), "%s entity %s derivative %s" % (ex, ent, al), 1e-13, "components")


def second(ctx):
    """Vector-valued second factor: the tabulation contract of the wrappers on
    a stub first factor (scalar, no point evaluations)."""
    from FIAT import Hdiv, Hcurl
    for wrap, form, b, rot in ((Hdiv, 1, RT, "id"), (Hdiv, 1, N1, "cov2con"), (Hcurl, 0, N1, "id"), (Hcurl, 0, RT, "con2cov")):
        A = F.build("DiscontinuousTaylor(I, 2)")
        from FIAT import functional as Fn
        A.dual.nodes = [Fn.Functional(n.ref_el, n.target_shape, n.pt_dict, n.deriv_dict, "x") for n in A.dual.nodes]
        A.formdegree = form
        from FIAT import TensorProductElement
        tp = TensorProductElement(A, F.build(b))
        ex = "%s(stub x %s)" % (wrap.__name__, b)
        el = ctx.noraise(lambda: wrap(tp), ex)
        if el is not None:
            compare(ctx, ex, wrap.__name__, tp, el, ("vector", "B", rot))


def rejects(ctx):
    bad = ["Hdiv(TP(%s, %s))" % (L1, L1), "Hdiv(TP(%s, %s))" % (D0, D0), "Hcurl(TP(%s, %s))" % (L1, L1), "Hcurl(TP(%s, %s))" % (D0, D0),
           "Hdiv(TP(%s, %s))" % (LT, D0), "Hdiv(TP(%s, %s))" % (RT, L1), "Hcurl(TP(%s, %s))" % (RT, D0), "Hcurl(TP(%s, %s))" % (DT_, L1),
           "Hdiv(TP(%s, %s))" % (N1, L1), "Hcurl(TP(%s, %s))" % (N1, D0), "Hdiv(TP(CrouzeixRaviart(T, 1), %s))" % D0,
           "Hcurl(TP(CrouzeixRaviart(T, 1), %s))" % D0,
           "Hdiv(Lagrange(T, 1))", "Hcurl(Lagrange(T, 1))", "Hdiv(RaviartThomas(T, 1, variant='point'))", "Hcurl(Flat(TP(%s, %s)))" % (D0, L1), "Hdiv(Flat(TP(%s, %s)))" % (D0, L1)]
    for ex in bad:
        ctx.raises(lambda: F.build(ex), ex, "unsupported wrapping accepted")


def check(tier):
    T = [("%s %s x %s" % (w, a, b), "props.c11", "wrapped", (w, a, b, how)) for w, a, b, how in CASES]
    T += [("second-factor", "props.c11", "second", ()), ("rejections", "props.c11", "rejects", ())]
    return dict(bounded=T, bound="%d wrapped products, all entities, orders 0 and 2" % len(CASES), obligations=[])
