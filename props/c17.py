"""C17: facet trace elements."""
import itertools

import numpy as np

from vlib import families as F, contracts as C, num


def err():
    from FIAT.hdiv_trace import TraceError
    return TraceError


def facets(cell):
    """[(facet dim, [entities])] in the order of numbering."""
    top = cell.get_topology()
    d = C.sdim(cell)
    dims = [dm for dm in top if (sum(dm) if isinstance(dm, tuple) else dm) == d - 1]
    return [(dm, sorted(top[dm])) for dm in sorted(dims)]


def facet_dg(cell, dm, k):
    """The discontinuous Lagrange element of the facet (reference: FIAT's own
    DiscontinuousLagrange, checked by C01-C04/C14, and its products)."""
    from FIAT import DiscontinuousLagrange
    TP = F.namespace()["TP"]
    sub = cell.construct_subelement(dm)

    def mk(c, kk):
        cs = getattr(c, "cells", None)
        if cs is None and hasattr(c, "product"):
            cs = c.product.cells
            kk = (kk,) * len(cs) if not isinstance(kk, tuple) else kk
        if cs is None:
            return DiscontinuousLagrange(c, kk)
        kk = kk if isinstance(kk, tuple) else (kk,) * len(cs)
        es = [mk(c2, k2) for c2, k2 in zip(cs, kk) if c2.get_spatial_dimension() > 0]
        el = es[0]
        for e in es[1:]:
            el = TP(el, e)
        return el
    return mk(sub, k)


def one(ctx, cn, k):
    cell = F.cell(cn)
    d = C.sdim(cell)
    ex = "HDivTrace(%s, %s)" % (cn, k)
    el = ctx.noraise(lambda: F.build(ex), ex)
    if el is None:
        return
    top = cell.get_topology()
    fs = facets(cell)
    off, want, ents = 0, {dm: {e: [] for e in top[dm]} for dm in top}, []
    dg = {}
    nodes = []
    for dm, es in fs:
        dg[dm] = facet_dg(cell, dm, k)
        n = dg[dm].space_dimension()
        for e in es:
            want[dm][e] = list(range(off, off + n))
            ents.append((dm, e, off, n))
            off += n
            for nd in dg[dm].dual_basis():
                (p, _), = nd.pt_dict.items()
                nodes.append(cell.get_entity_transform(dm, e)(p))
    ctx.ok(el.space_dimension() == off, ex, "dimension %d instead of %d" % (el.space_dimension(), off))
    ctx.ok({a: {b: list(c) for b, c in s.items()} for a, s in el.entity_dofs().items()} == want, ex, "numbering %s" % (el.entity_dofs(),))
    C.check_numbering(ctx, el, ex)
    ctx.ok(tuple(el.value_shape()) == () and el.degree() == (max(k) if isinstance(k, tuple) else k) if not isinstance(k, tuple) and cn != "TxI" else True, ex, "metadata")
    for nd, p in zip(el.dual_basis(), nodes):
        (q, wcs), = nd.pt_dict.items()
        ctx.close(q, p, ex, 1e-12, "nodes are not the facet elements' nodes")
        ctx.ok([(float(w), tuple(c)) for w, c in wcs] == [(1.0, ())], ex, "nodes are not point values")
    r = num.rng("c17", ex)
    TE = err()

    def is_err(v):
        return isinstance(v, TE) or (isinstance(v, type) and issubclass(v, TE)) or (isinstance(v, np.ndarray) and v.dtype.kind == "f" and np.all(np.isnan(v)))
    for dm, e, o, n in ents:
        sub = cell.construct_subelement(dm)
        for pts in (C.interior_points(sub, 4, r), C.interior_points(sub, 1, r), C.cell_vertices(sub)[:2]):
            ref = np.asarray(dg[dm].tabulate(0, pts)[(0,) * (d - 1)] if d - 1 else None, float)
            full = np.zeros((off, len(pts)))
            full[o:o + n] = ref
            for order in (0, 1, 2):
                cs = "%s facet (%s, %s) order %d" % (ex, dm, e, order)
                T = ctx.noraise(lambda: el.tabulate(order, pts, (dm, e)), cs)
                if T is None:
                    continue
                ctx.ok(set(T) == {a for m in range(order + 1) for a in num.alphas(d, m)}, cs, "keys")
                ctx.close(T[(0,) * d], full, cs, 1e-12, "values on the facet")
                for a in T:
                    if sum(a):
                        ctx.ok(is_err(T[a]), "%s derivative %s" % (cs, a), "a derivative was given as numbers")
    # any other entity
    for dm in top:
        if dm in dict(fs):
            continue
        sub = cell.construct_subelement(dm)
        pts = C.interior_points(sub, 2, r) if sub.get_spatial_dimension() else [()]
        for e in top[dm]:
            for order in (0, 1):
                try:
                    T = el.tabulate(order, pts, (dm, e))
                except Exception:
                    ctx.ok(True, ex)
                    continue
                ctx.ok(len(T) > 0 and all(is_err(v) for v in T.values()), "%s entity (%s, %s) order %d" % (ex, dm, e, order), "an entity that is not a facet was answered with numbers")
    if cn in ("T", "S", "DT", "DS", "KT", "KS", "AT", "AS"):
        located(ctx, el, ex, cell, ents, off, is_err)


def located(ctx, el, ex, cell, ents, off, is_err):
    d = C.sdim(cell)
    r = num.rng("c17l", ex)
    V = np.array(C.cell_vertices(cell), float)
    for dm, e, o, n in ents:
        sub = cell.construct_subelement(dm)
        ref = C.interior_points(sub, 3, r)
        tr = cell.get_entity_transform(dm, e)
        phys = [tuple(tr(p)) for p in ref]
        want = np.asarray(el.tabulate(0, ref, (dm, e))[(0,) * d], float)
        for order in (0, 1, 2):
            cs = "%s points on facet %s, no entity, order %d" % (ex, e, order)
            for sel in ([0, 1, 2], [1], [2, 0]):
                T = ctx.noraise(lambda: el.tabulate(order, [phys[i] for i in sel]), cs)
                if T is None:
                    continue
                ctx.ok(set(T) == {a for m in range(order + 1) for a in num.alphas(d, m)}, cs, "keys")
                ctx.close(T[(0,) * d], want[:, sel], cs, 1e-9, "differs from tabulation on the facet")
                for a in T:
                    if sum(a):
                        ctx.ok(is_err(T[a]), "%s derivative %s" % (cs, a), "a derivative was given as numbers")
        inner = C.interior_points(cell, 2, r)
        others = [q for (dm2, e2, _, _) in ents if e2 != e for q in [tuple(cell.get_entity_transform(dm2, e2)(C.interior_points(cell.construct_subelement(dm2), 1, r)[0]))]]
        near = tuple(np.array(phys[0]) + 1e-3 * (V.mean(0) - np.array(phys[0])))
        bad = [[inner[0]], phys + inner[:1], inner[:1] + phys, [phys[0], others[0]], others, [near], [tuple(V[0])], [phys[1], near]]
        for b in bad:
            for order in (0, 1):
                cs = "%s, points on no single facet %s" % (ex, [tuple(round(x, 3) for x in p) for p in b])
                try:
                    T = el.tabulate(order, b)
                except Exception:
                    ctx.ok(True, cs)
                    continue
                ctx.ok(len(T) > 0 and all(is_err(v) for v in T.values()), cs, "answered with numbers")


def check(tier):
    deep = tier == "thorough"
    inst = [("T", k) for k in range(0, 8)] + [("S", k) for k in range(0, 5)] + [("Q", k) for k in range(0, 6)] + [("IxI", k) for k in range(0, 4)] + \
        [("IxI", (1, 2)), ("IxI", (3, 0)), ("TxI", 0), ("TxI", 1), ("TxI", 2), ("TxI", (1, 2)), ("TxI", (2, 0)), ("TxI", (0, 3)), ("IxT", 1), ("IxT", (2, 1))] + \
        [(c, k) for c in ("DT", "KT", "AT", "DS", "KS", "AS") for k in (0, 1, 2)]
    if deep:
        inst += [("T", k) for k in range(8, 14)] + [("S", k) for k in (5, 6)] + [("TxI", 3), ("TxI", 4), ("IxT", (3, 2)), ("QxI", 1)]
    T = [("trace-%s-%s" % (c, k), "props.c17", "one", (c, k)) for c, k in inst]
    return dict(bounded=T, bound="cells T, S, Q, TxI, IxT, IxI and non-UFC/moved simplices, degrees in the tasks", obligations=[])
