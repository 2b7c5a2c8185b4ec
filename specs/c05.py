"""C05 obligations: FIAT.jacobi against the classical Jacobi polynomials."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym, values
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, band, isym
from vlib.pyvc.tables import SpecTable
from vlib.pyvc.values import SymArr
from specs import jacobi as SJ
from specs.jacobi import J
from specs.util import finish, replay_jacobi

ASSUME = ["machine arithmetic is treated as real arithmetic (a float literal denotes the decimal written)",
          "the Jacobi polynomials are the ones defined by P_0, P_1 and the classical three-term recurrence"]


def setup(name):
    eng = Engine(name)
    eng.normalizers.append(SJ.normalize)
    ip = Interp(eng)
    a, b = sym.sym("a"), sym.sym("b")
    eng.assume(a > -1)
    eng.assume(b > -1)
    return eng, ip, a, b


def scalar():
    from FIAT import jacobi
    eng, ip, a, b = setup("eval_jacobi")
    n, x = isym("n"), sym.sym("x")
    eng.assume(n >= 0)
    ip.templates.append(lambda k: J(a, b, k, x))
    for pc, kind, v in eng.explore(lambda: ip.call(jacobi.eval_jacobi, [a, b, n, x], {})):
        finish(eng, pc, kind, v, "eval_jacobi(a, b, n, x) = P_n^(a,b)(x)", lambda: J(a, b, n, x), "jacobi.eval_jacobi",
               lambda m: replay_jacobi("eval_jacobi", m, n, x))
    eng.assumptions += ASSUME
    return eng.result()


def batch():
    from FIAT import jacobi
    eng, ip, a, b = setup("eval_jacobi_batch")
    n, N = isym("n"), isym("npts")
    eng.assume(n >= 0)
    eng.assume(N >= 1)
    ip.templates.append(lambda k: J(a, b, k, X(sym.isym("col"))))

    def X(i):
        return sym.app("x", i)

    def policy(shape, fill):
        if len(shape) != 2:
            return None
        return SpecTable(ip, shape, "the result", 2, lambda idx: idx,
                         lambda key: band(key[0] >= 0, key[0] < shape[0], key[1] >= 0, key[1] < shape[1]),
                         [lambda k, i: J(a, b, k, X(i))])
    values.CURRENT["table_policy"] = policy
    xs = SymArr((N, 1), lambda idx: X(Rat.of(idx[0])))

    def run():
        ip.tables[:] = []
        r = ip.call(jacobi.eval_jacobi_batch, [a, b, n, xs], {})
        eng.where = "jacobi.eval_jacobi_batch"
        eng.prove("jacobi.eval_jacobi_batch: the result has shape (n+1, npts)", band(r.shape[0] == n + 1, r.shape[1] == N))
        r.finish()
        return r
    for pc, kind, v in eng.explore(run):
        if kind == "raise":
            finish(eng, pc, kind, v, "eval_jacobi_batch returns", None, "jacobi.eval_jacobi_batch")
    eng.assumptions += ASSUME
    return eng.result()


def deriv():
    from FIAT import jacobi
    eng, ip, a, b = setup("eval_jacobi_deriv")
    n, x = isym("n"), sym.sym("x")
    eng.assume(n >= 0)

    def contract(ip, args, kw):
        a_, b_, n_, x_ = [Rat.of(v) for v in args]
        eng.prove("jacobi.eval_jacobi_deriv: precondition of eval_jacobi", band(a_ > -1, b_ > -1, n_ >= 0))
        return J(a_, b_, n_, x_)
    ip.contracts[jacobi.eval_jacobi] = contract
    for pc, kind, v in eng.explore(lambda: ip.call(jacobi.eval_jacobi_deriv, [a, b, n, x], {})):
        finish(eng, pc, kind, v, "eval_jacobi_deriv = d/dx P_n (by the derivative lemma)",
               lambda: Rat.of(0) if eng.entails(n == 0) else (n + a + b + 1) * SJ.H * J(a + 1, b + 1, n - 1, x), "jacobi.eval_jacobi_deriv",
               lambda m: replay_jacobi("eval_jacobi_deriv", m, n, x))
    eng.assumptions += ASSUME
    return eng.result()


def deriv_batch():
    from FIAT import jacobi
    eng, ip, a, b = setup("eval_jacobi_deriv_batch")
    n, N = isym("n"), isym("npts")
    eng.assume(n >= 0)
    eng.assume(N >= 1)

    def X(i):
        return sym.app("x", i)
    xs = SymArr((N, 1), lambda idx: X(Rat.of(idx[0])))

    def contract(ip, args, kw):
        a_, b_, n_, xs_ = args
        a_, b_, n_ = Rat.of(a_), Rat.of(b_), Rat.of(n_)
        eng.prove("jacobi.eval_jacobi_deriv_batch: precondition of eval_jacobi_batch", band(a_ > -1, b_ > -1, n_ >= 0))
        return SymArr((n_ + 1, xs_.shape[0]), lambda idx: J(a_, b_, idx[0], xs_.at((idx[1], 0))))
    ip.contracts[jacobi.eval_jacobi_batch] = contract

    def policy(shape, fill):
        q = lambda k, i: J(a + 1, b + 1, k - 1, X(i))      # noqa: E731
        return SpecTable(ip, shape, "the result", 2, lambda idx: idx,
                         lambda key: band(key[0] >= 0, key[0] < shape[0], key[1] >= 0, key[1] < shape[1]),
                         [q, lambda k, i: (k + a + b + 1) * SJ.H * q(k, i)])
    values.CURRENT["table_policy"] = policy

    def run():
        ip.tables[:] = []
        r = ip.call(jacobi.eval_jacobi_deriv_batch, [a, b, n, xs], {})
        eng.where = "jacobi.eval_jacobi_deriv_batch"
        eng.prove("jacobi.eval_jacobi_deriv_batch: the result has shape (n+1, npts)", band(r.shape[0] == n + 1, r.shape[1] == N))
        # row 0 is the derivative of a constant: never written, so zero
        full = r.dom
        r.dom = lambda key: band(full(key), key[0] >= 1)
        r.finish()
        zero = r.covered(r.regions, (Rat.of(0), sym.fresh("key")))
        eng.prove("jacobi.eval_jacobi_deriv_batch: row zero stays zero", sym.bnot(zero))
        return r
    for pc, kind, v in eng.explore(run):
        if kind == "raise":
            finish(eng, pc, kind, v, "eval_jacobi_deriv_batch returns", None, "jacobi.eval_jacobi_deriv_batch")
    eng.assumptions += ASSUME
    return eng.result()


def lemma():
    """d/dx P_n^(a,b) = (n+a+b+1)/2 P_{n-1}^(a+1,b+1), by induction from the
    recurrences; P_n(1) = prod (k+a)/k; parity."""
    eng, ip, a, b = setup("Jacobi lemmas")
    eng.where = "lemma"
    sym.HOOKS.pop("nonzero", None)
    x, n = sym.sym("x"), isym("n")
    # E(n): (2n+a+b)(1-x^2) Q_n = n(a-b-(2n+a+b)x) P_n + 2(n+a)(n+b) P_{n-1},
    # Q_n = (n+a+b+1)/2 J(a+1,b+1,n-1)
    def rhsE(n_, P, Pm):
        s = 2 * n_ + a + b
        return (n_ * (a - b - s * x) * P + 2 * (n_ + a) * (n_ + b) * Pm) / s

    w = 1 - x * x
    for m in (1, 2):
        Q = (m + a + b + 1) * SJ.H * J(a + 1, b + 1, m - 1, x)
        eng.prove("lemma: structure relation, base n=%d" % m, w * Q == rhsE(Rat.of(m), J(a, b, m, x), J(a, b, m - 1, x)))
    # derivative of P_1 and P_2 from their definitions
    eng.prove("lemma: derivative, n=1", (a + b + 2) * SJ.H == (a + b + 2) * SJ.H * J(a + 1, b + 1, 0, x))
    A, B, C = SJ.coeffs(a, b, Rat.of(2))
    d2 = B * J(a, b, 1, x) + (A + B * x) * (a + b + 2) * SJ.H
    eng.prove("lemma: derivative, n=2", d2 == (a + b + 3) * SJ.H * J(a + 1, b + 1, 1, x))
    # induction step: assume both for n-1 and n (n >= 2), show for n+1
    eng.assume(n >= 2)
    P, Pm = sym.sym("P_n"), sym.sym("P_nm1")
    A, B, C = SJ.coeffs(a, b, n + 1)
    Pp = (A + B * x) * P - C * Pm
    A0, B0, C0 = SJ.coeffs(a, b, n)
    Pmm = ((A0 + B0 * x) * Pm - P) / C0
    wQn, wQm = rhsE(n, P, Pm), rhsE(n - 1, Pm, Pmm)
    # w * J(a+1,b+1,.) from them, then the recurrence of the shifted family
    wqn, wqm = wQn / ((n + a + b + 1) * SJ.H), wQm / ((n + a + b) * SJ.H)
    A1, B1, C1 = SJ.coeffs(a + 1, b + 1, n)
    wqp = (A1 + B1 * x) * wqn - C1 * wqm
    wQp = (n + a + b + 2) * SJ.H * wqp
    eng.prove("lemma: structure relation, step", wQp == rhsE(n + 1, Pp, P))
    # derivative recurrence: D_{n+1} = B P_n + (A+Bx) D_n - C D_{n-1}
    wDp = w * B * P + (A + B * x) * wQn - C * wQm
    eng.prove("lemma: derivative, step", wDp == wQp)
    # P_n(1) = (n+a)/n P_{n-1}(1)
    V = sym.sym("V")
    A, B, C = SJ.coeffs(a, b, n)
    eng.prove("lemma: value at one, base", J(a, b, 1, 1) == a + 1)
    eng.prove("lemma: value at one, step", (A + B) * V - C * V * (n - 1) / (n - 1 + a) == V * (n + a) / n)
    eng.prove("lemma: denominators do not vanish", band(n > 0, n + a + b > 0, 2 * n + a + b - 2 > 0, n + a - 1 > 0, n + b - 1 > 0))
    eng.functions.append("(lemmas over the contracts)")
    eng.assumptions += ASSUME
    return eng.result()


OBLIGATIONS = [("eval_jacobi", "specs.c05", "scalar", ()), ("eval_jacobi_batch", "specs.c05", "batch", ()),
               ("eval_jacobi_deriv", "specs.c05", "deriv", ()), ("eval_jacobi_deriv_batch", "specs.c05", "deriv_batch", ()),
               ("jacobi-lemmas", "specs.c05", "lemma", ())]
