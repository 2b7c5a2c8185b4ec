"""C05: Jacobi polynomials."""
from fractions import Fraction as Fr

import numpy as np

from vlib import num


def one(ctx, items):
    from FIAT import jacobi
    xs = [Fr(-1), Fr(-3, 4), Fr(-1, 7), Fr(0), Fr(1, 3), Fr(9, 10), Fr(1), Fr(5, 4)]
    X = np.array([[float(x)] for x in xs])
    for (a, b, n) in items:
        fa, fb = float(a), float(b)
        case = "a=%s, b=%s, n=%d" % (a, b, n)
        P = [num.jacobi_coeffs(a, b, k) for k in range(n + 1)]
        D = [[k * c for k, c in enumerate(p)][1:] or [Fr(0)] for p in P]
        val = np.array([[float(num.horner(p, x)) for x in xs] for p in P])
        der = np.array([[float(num.horner(p, x)) for x in xs] for p in D])
        for i, x in enumerate(xs):
            for k in ({n} if n > 3 else range(n + 1)):
                got = jacobi.eval_jacobi(fa, fb, k, float(x))
                ctx.ok(abs(got - val[k, i]) <= 1e-10 * max(1, np.abs(val).max()), case + ", scalar, x=%s" % x,
                       lambda: "eval_jacobi(%d) = %r instead of %r" % (k, got, val[k, i]))
                g2 = jacobi.eval_jacobi_deriv(fa, fb, k, float(x))
                ctx.ok(abs(g2 - der[k, i]) <= 1e-10 * max(1, np.abs(der).max()), case + ", scalar derivative, x=%s" % x,
                       lambda: "eval_jacobi_deriv(%d) = %r instead of %r" % (k, g2, der[k, i]))
        B = np.asarray(jacobi.eval_jacobi_batch(fa, fb, n, X), float)
        ctx.close(B, val, case + ", batch", 1e-10, "eval_jacobi_batch")
        DB = np.asarray(jacobi.eval_jacobi_deriv_batch(fa, fb, n, X), float)
        ctx.close(DB, der, case + ", derivative batch", 1e-10, "eval_jacobi_deriv_batch")
        # integers accepted like floats
        if a.denominator == 1 and b.denominator == 1:
            ctx.close(np.asarray(jacobi.eval_jacobi_batch(int(a), int(b), n, X), float), val, case + ", integer parameters", 1e-10, "batch")
        # one point, and no point
        ctx.close(jacobi.eval_jacobi_batch(fa, fb, n, X[:1]), val[:, :1], case + ", one point", 1e-10, "batch")


def check(tier):
    deep = tier == "thorough"
    items = []
    par = [Fr(0), Fr(1), Fr(2), Fr(3), Fr(5), Fr(9), Fr(1, 2), Fr(-1, 2), Fr(-3, 4), Fr(7, 3)]
    par_small = par[:5] + par[6:8]
    for a in par:
        for b in par if deep else par_small:
            for n in list(range(0, 9)) + [13, 20] + ([30] if deep else []):
                items.append((a, b, n))
    return dict(bounded=[("jacobi-%d" % i, "props.c05", "one", (items[i::16],)) for i in range(16)],
                bound="a, b in %s, n <= 20" % [str(p) for p in par], obligations=[])
