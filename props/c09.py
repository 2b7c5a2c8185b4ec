"""C09: enumeration of multi-indices, lattice points, tensor indices."""
import itertools
import math

import numpy as np

from vlib import families as F, contracts as C, num


def enum(ctx):
    from FIAT.reference_element import lattice_iter
    from FIAT.polynomial_set import mis
    from FIAT.functional import index_iterator
    for m in range(1, 7):
        for n in range(0, 9 if m < 5 else 6):
            got = list(map(tuple, mis(m, n)))
            want = sorted(num.alphas(m, n), reverse=True)
            ctx.ok(got == want, "mis(%d, %d)" % (m, n), lambda: "%s instead of %s" % (got[:8], want[:8]))
            ctx.ok(len(got) == math.comb(n + m - 1, m - 1), "mis(%d, %d)" % (m, n), "count")
    for depth in range(1, 6):
        for start in (0, 1, 2):
            for fin in range(start, 9 if depth < 4 else 7):
                got = list(map(tuple, lattice_iter(start, fin, depth)))
                want = [t for t in itertools.product(range(start, max(fin, start)), repeat=depth) if ok_lattice(t, start, fin)]
                want.sort(key=lambda t: t[::-1])
                ctx.ok(got == want, "lattice_iter(%d, %d, %d)" % (start, fin, depth), lambda: "%s instead of %s" % (got[:8], want[:8]))
    for shp in [(1,), (2,), (3,), (2, 2), (3, 3), (2, 3), (3, 2), (1, 4), (2, 3, 2), (2, 2, 2, 2), (3, 1, 2)]:
        got = list(map(tuple, index_iterator(shp)))
        ctx.ok(got == list(itertools.product(*map(range, shp))), "index_iterator(%s)" % (shp,))


def ok_lattice(t, start, fin):
    """every coordinate >= start and the sum < fin (start = 0 or more)."""
    return min(t) >= start and sum(t) < fin


def points(ctx, cn):
    cell = F.cell(cn)
    top = cell.get_topology()
    d = C.sdim(cell)
    V = np.array(C.cell_vertices(cell), float)
    from FIAT.reference_element import make_lattice
    for dim in range(d + 1):
        for e, vs in top[dim].items():
            for order in range(1, 11 if d < 3 else 8):
                case = "%s make_points(%d, %d, %d)" % (cn, dim, e, order)
                got = ctx.noraise(lambda: cell.make_points(dim, e, order), case)
                if got is None:
                    continue
                if dim == 0:
                    want = [V[vs[0]]]
                else:
                    ix = [t for t in itertools.product(range(1, order), repeat=dim) if sum(t) < order]
                    ix.sort(key=lambda t: t[::-1])
                    want = [V[vs[0]] + sum(i * (V[v] - V[vs[0]]) for i, v in zip(t, vs[1:])) / order for t in ix]
                ctx.ok(len(got) == (math.comb(order - 1, dim) if dim else 1), case, "%d points" % len(got))
                if want:
                    ctx.close(np.array(got, float).reshape(len(got), -1), np.array(want).reshape(len(want), -1), case, 1e-12, "points")
                ctx.ok(len({tuple(np.round(p, 9)) for p in got}) == len(got), case, "repeated points")
    for n in range(1, 7):
        for interior in (0, 1, 2):
            if d == 0:
                continue
            got = make_lattice([tuple(v) for v in V], n, interior)
            ix = [t for t in itertools.product(range(interior, n + 1), repeat=d) if sum(t) <= n - interior]
            ix.sort(key=lambda t: t[::-1])
            want = [V[0] + sum(i * (V[j + 1] - V[0]) for j, i in enumerate(t)) / n for t in ix]
            ctx.ok(len(got) == len(want), "%s make_lattice(%d, %d)" % (cn, n, interior), "%d points, expected %d" % (len(got), len(want)))
            if want and len(got) == len(want):
                ctx.close(np.array(got, float), want, "%s make_lattice(%d, %d)" % (cn, n, interior), 1e-12)
    ctx.raises(lambda: cell.make_points(d + 1, 0, 3), "%s make_points of dimension %d" % (cn, d + 1))


def check(tier):
    T = [("enumerators", "props.c09", "enum", ())] + [("points-" + c, "props.c09", "points", (c,)) for c in ("I", "T", "S", "DI", "DT", "DS", "KT", "KS", "AT", "AS")]
    return dict(bounded=T, bound="slots <= 6, totals <= 8, orders <= 10", obligations=[])
