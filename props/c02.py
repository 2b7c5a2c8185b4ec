"""C02: degrees of freedom are partitioned over the cell's entities."""
from vlib import families as F, fastd, contracts as C
from math import comb


def P(k, d):
    return comb(k + d, d) if k >= 0 else 0


def fam(ctx, items):
    fastd.install(2)
    for name, k, d, ex in items:
        f = F.FAM[name]
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        counts = f.counts
        if name in SPECIAL:
            counts = SPECIAL[name]
        C.check_numbering(ctx, el, ex, (lambda e: counts(k, d, e)) if counts else None)


def kmv(k, d, e):
    T = {1: (1, 0, 0), 2: (1, 1, 1), 3: (1, 2, 3), 4: (1, 3, 6), 5: (1, 4, 15)}
    S = {1: (1, 0, 0, 0), 2: (1, 1, 1, 1), 3: (1, 2, 3, 4)}
    return (T if d == 2 else S)[k][e]


SPECIAL = {"KongMulderVeldhuizen": kmv}


def other(ctx, exprs):
    fastd.install(2)
    for ex in exprs:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        C.check_numbering(ctx, el, ex)


def cube(ctx, items):
    """Serendipity / DPC / facet traces: prescribed counts per entity."""
    for ex, kind, k in items:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        d = C.sdim(el.get_reference_element())

        def cnt(dim):
            e = sum(dim) if isinstance(dim, tuple) else dim
            if kind == "S":       # Arnold & Awanou: P_{k-2e} on each e-face
                return 1 if e == 0 else P(k - 2 * e, e)
            if kind == "D":
                return P(k, d) if e == d else 0
            return None
        C.check_numbering(ctx, el, ex, cnt if kind in "SD" else None)


def tensor(ctx, pairs):
    """Product elements: counts multiply (see also C10)."""
    fastd.install(2)
    for a, b in pairs:
        ex = "TP(%s, %s)" % (a, b)
        A, B = F.build(a), F.build(b)
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        ia, ib = A.entity_dofs(), B.entity_dofs()

        def flat(dim):
            return len(ia[dim[0]][0]) * len(ib[dim[1]][0])
        C.check_numbering(ctx, el, ex, flat)


def chunks(l, n):
    return [l[i::n] for i in range(min(n, len(l)))]


def check(tier):
    deep = tier == "thorough"
    hi = {0: 0, 1: 12, 2: 6, 3: 4} if not deep else {0: 0, 1: 24, 2: 9, 3: 5}
    items = [(f.name, k, d, ex) for f, k, d, cn, v, ex in F.instances(hi)
             if not (d == 3 and v == "integral" and k > 3)]
    items += [(f.name, k, d, ex) for f, k, d, cn, v, ex in F.instances({1: 12, 2: 12, 3: 9}, ["DiscontinuousLagrange", "Lagrange", "Bernstein"])
              if k > hi[d]] if deep else []
    T = [("family-%d" % i, "props.c02", "fam", (c,)) for i, c in enumerate(chunks(items, 20))]
    T += [("composite-%d" % i, "props.c02", "other", (c,)) for i, c in enumerate(chunks(C.COMPOSITES + C.TENSOR + C.HDIVCURL + C.TRACES, 8))]
    cubes = []
    for e in C.CUBE:
        k = int(e.rstrip(")").split(",")[1])
        cubes.append((e, "S" if e.startswith("S") else "D", k))
    T += [("cube-%d" % i, "props.c02", "cube", (c,)) for i, c in enumerate(chunks(cubes, 4))]
    pr = [(a, b) for a in ("Lagrange(I, 2)", "Lagrange(T, 3)", "DiscontinuousLagrange(T, 1)", "RaviartThomas(T, 2, variant='integral')",
                           "GaussLobattoLegendre(I, 3)")
          for b in ("Lagrange(I, 1)", "Lagrange(I, 3)", "DiscontinuousLagrange(I, 2)", "CubicHermite(I)")
          if not ("Raviart" in a and "Hermite" in b)]
    T += [("tensor", "props.c02", "tensor", (pr,))]
    return dict(bounded=T, bound="families of vlib/families.py at degree <= %s" % hi, obligations=[])
