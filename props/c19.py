"""C19: metadata agrees with the tabulated arrays; queries do not change
anything; constructions do not interfere."""
import copy

import numpy as np

from vlib import families as F, fastd, contracts as C, num

MAPS = {"affine", "covariant piola", "contravariant piola", "double covariant piola", "double contravariant piola"}
SHAPE_OF = {"covariant piola": 1, "contravariant piola": 1, "double covariant piola": 2, "double contravariant piola": 2}


def basics(ctx, el, ex):
    cell = el.get_reference_element()
    d = C.sdim(cell)
    n = el.space_dimension()
    pts = C.interior_points(cell, 3, num.rng("c19", ex)) if d else [()]
    for order in (0, 1):
        T = ctx.noraise(lambda: el.tabulate(order, pts), ex)
        if T is None:
            return
        keys = {a for m in range(order + 1) for a in num.alphas(d, m)}
        ctx.ok(set(map(tuple, T)) == keys, ex, "derivative keys %s" % sorted(T))
        for a, v in T.items():
            ctx.ok(np.asarray(v).shape == (n,) + tuple(el.value_shape()) + (len(pts),), "%s derivative %s" % (ex, a),
                   "array of shape %s, space dimension %d, value shape %s, %d points" % (np.asarray(v).shape, n, el.value_shape(), len(pts)))
    ctx.ok(len(el.dual_basis()) == n, ex, "length of the dual basis %d, space dimension %d" % (len(el.dual_basis()), n))
    m = el.mapping()
    ctx.ok(isinstance(m, list) and len(m) == n and set(m) <= MAPS, ex, "mapping names %s (dimension %d)" % (m[:3], n))
    if not ex.startswith("Mixed"):
        ctx.ok(len(set(m)) == 1, ex, "several mapping names")
        want = SHAPE_OF.get(m[0])
        if want is not None:
            ctx.ok(len(el.value_shape()) == want, ex, "mapping %s for value shape %s" % (m[0], el.value_shape()))
        elif len(el.value_shape()) and not ex.startswith(("Enriched", "Disc")):
            ctx.ok(False, ex, "affine mapping for value shape %s" % (el.value_shape(),))
        ctx.ok(el.num_sub_elements() == 1 if not hasattr(el, "_elements") else True, ex, "number of sub-elements")
    f = el.get_formdegree()
    ctx.ok(f is None or (np.sum(f) <= d and np.sum(f) >= 0), ex, "form degree %s" % (f,))


def family(ctx, items):
    fastd.install(2)
    for name, k, d, cn, ex in items:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            continue
        f = F.FAM[name]
        cell = el.get_reference_element()
        if name == "Bernstein" or d == 0:
            pass
        basics(ctx, el, ex)
        ctx.ok(tuple(el.value_shape()) == tuple(f.vshape(d)), ex, "value shape %s, the family has %s" % (el.value_shape(), f.vshape(d)))
        ctx.ok(set(el.mapping()) == {f.mapping}, ex, "mapping %s, the family has %s" % (set(el.mapping()), f.mapping))
        if callable(f.form):
            ctx.ok(el.get_formdegree() == f.form(d), ex, "form degree %s, the family has %s" % (el.get_formdegree(), f.form(d)))
        ctx.ok(C.cell_vertices(cell) == C.cell_vertices(F.cell(cn)) and cell.get_shape() == F.cell(cn).get_shape(), ex, "reference cell")
        ctx.ok(el.num_sub_elements() == 1, ex, "number of sub-elements")
        ctx.ok(el.is_nodal() is (name != "Bernstein"), ex, "is_nodal")
        if name not in ("KongMulderVeldhuizen",):
            want = f.degree(k, d) if f.degree else k
            ctx.ok(el.degree() == want, ex, "degree %s, the family's embedding degree is %s" % (el.degree(), want))
        if hasattr(el, "get_order") and name != "KongMulderVeldhuizen":
            ctx.ok(el.get_order() is not None, ex, "order")
        if hasattr(el, "get_coeffs") and el.is_nodal():
            co = np.asarray(el.get_coeffs())
            ctx.ok(co.shape[0] == el.space_dimension() and co.shape[1:-1] == tuple(el.value_shape()), ex, "coefficient array %s" % (co.shape,))
            ctx.ok(el.get_num_members(el.degree()) == co.shape[-1] == F.P(el.degree(), d), ex, "number of expansion functions")
            ctx.ok(len(el.dmats()) == d or d == 0, ex, "derivative matrices")


def expected(el):
    """value shape, degree, form degree, order and mappings of a composed element
    from those of its parts (None: not determined by them)"""
    from FIAT import tensor_product as X, enriched, nodal_enriched, mixed, restricted, discontinuous
    if isinstance(el, X.FlattenedDimensions):
        e = el.element
        return dict(shape=e.value_shape(), degree=e.degree(), form=e.get_formdegree(), maps=list(e.mapping()), n=e.space_dimension())
    if isinstance(el, X.TensorProductElement):
        A, B = el.A, el.B
        fa, fb = A.get_formdegree(), B.get_formdegree()
        form = None if fa is None or fb is None else fa + fb
        n = A.space_dimension() * B.space_dimension()
        out = dict(degree=max(A.degree(), B.degree()), form=form, n=n)
        m = {x for x in A.mapping() + B.mapping() if x != "affine"}
        if type(el).tabulate is X.TensorProductElement.tabulate and el.tabulate.__func__ is X.TensorProductElement.tabulate:
            out.update(shape=A.value_shape() or B.value_shape(), maps=[m.pop() if m else "affine"] * n)
        else:        # Hdiv or Hcurl of a product
            d = C.sdim(el.get_reference_element())
            out.update(shape=(d,), maps=[{"d": "contravariant piola", "c": "covariant piola"}["d" if "contravariant piola" in el.mapping() else "c"]] * n)
        return out
    if isinstance(el, (enriched.EnrichedElement, nodal_enriched.NodalEnrichedElement)):
        parts = getattr(el, "_elements", None)
        if parts is None:
            return None
        fs = [e.get_formdegree() for e in parts]
        return dict(shape=parts[0].value_shape(), degree=max(e.degree() for e in parts), form=None if None in fs else max(fs), maps=[m for e in parts for m in e.mapping()],
                    n=sum(e.space_dimension() for e in parts))
    if isinstance(el, mixed.MixedElement):
        parts = el.elements()
        return dict(shape=(sum(int(np.prod(e.value_shape(), dtype=int)) for e in parts),), maps=[m for e in parts for m in e.mapping()], n=sum(e.space_dimension() for e in parts), subs=len(parts))
    if isinstance(el, discontinuous.DiscontinuousElement):
        e = el._element
        return dict(shape=e.value_shape(), degree=e.degree(), maps=list(e.mapping()), n=e.space_dimension(), form=C.sdim(e.get_reference_element()), cell=e.get_reference_element())
    if isinstance(el, restricted.RestrictedElement):
        e = el._element
        return dict(shape=e.value_shape(), degree=e.degree(), form=e.get_formdegree(), maps=[e.mapping()[0]] * el.space_dimension(), cell=e.get_reference_element())
    return None


def composed_meta(ctx, el, ex):
    w = expected(el)
    if w is None:
        return
    for key, get in (("shape", lambda: tuple(el.value_shape())), ("degree", lambda: el.degree()), ("form", lambda: el.get_formdegree()), ("maps", lambda: list(el.mapping())),
                     ("n", lambda: el.space_dimension()), ("subs", lambda: el.num_sub_elements()), ("cell", lambda: el.get_reference_element())):
        if key in w:
            got = get()
            ctx.ok(got is w[key] or got == w[key], ex, "%s is %r, its parts give %r" % ({"shape": "value shape", "form": "form degree", "maps": "mapping names", "n": "space dimension", "subs": "number of sub-elements", "cell": "cell"}.get(key, key), got, w[key]))


MORE = ["TP(DiscontinuousLagrange(I, 2), DiscontinuousLagrange(I, 2))", "TP(TP(DiscontinuousLagrange(I, 0), DiscontinuousLagrange(I, 1)), DiscontinuousLagrange(I, 3))",
        "Flat(TP(DiscontinuousLagrange(I, 2), DiscontinuousLagrange(I, 1)))", "TP(Lagrange(I, 5), Lagrange(T, 2))", "TP(DiscontinuousLagrange(T, 1), Lagrange(I, 4))",
        "EnrichedElement(Lagrange(I, 1), Bubble(I, 4), Bubble(I, 2))", "EnrichedElement(DiscontinuousLagrange(T, 1), Bubble(T, 3))",
        "DiscontinuousElement(RaviartThomas(T, 3, variant='point'))", "DiscontinuousElement(Nedelec(S, 2, variant='point'))", "DiscontinuousElement(EnrichedElement(Lagrange(T, 1), Bubble(T, 3)))",
        "RestrictedElement(Nedelec(S, 2, variant='point'), restriction_domain='facet')", "RestrictedElement(Regge(T, 2), restriction_domain='edge')",
        "MixedElement([Regge(T, 1), RaviartThomas(T, 1, variant='point'), Lagrange(T, 2)])", "MixedElement([Nedelec(T, 2, variant='point'), RaviartThomas(T, 1, variant='point')])"]


def composed(ctx, exprs):
    fastd.install(2)
    for ex in exprs:
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is not None:
            basics(ctx, el, ex)
            composed_meta(ctx, el, ex)


def cell_state(cell):
    out = [tuple(map(tuple, cell.get_vertices())), repr(sorted((str(k), sorted(v.items())) for k, v in cell.get_topology().items())), cell.get_shape(), cell.get_dimension(), cell.get_spatial_dimension()]
    if hasattr(cell, "get_connectivity"):
        try:
            out.append(repr(sorted((k, v) for k, v in cell.get_connectivity().items())))
        except Exception:
            pass
    return out


def nodes_state(el):
    out = []
    for n in el.dual_basis():
        if hasattr(n, "pt_dict"):
            out.append((repr(sorted((p, [(float(np.squeeze(w)), c) for w, c in l]) for p, l in n.pt_dict.items())), repr(sorted((p, [(float(np.squeeze(w)), a, c) for w, a, c in l]) for p, l in n.deriv_dict.items())),
                        n.get_type_tag(), repr(n.target_shape)))
        else:
            out.append(repr(n))
    return out


def tab_array(el, pts):
    """points in an array which the caller then uses for other points"""
    def f():
        P = np.array(pts[:3])
        el.tabulate(1, P)
        P[...] = np.array(pts[2:5])
        return {k: (np.array(v, dtype=float) if isinstance(v, np.ndarray) else repr(type(v))) for k, v in el.tabulate(1, P).items()}
    return f


def queries(el, ex):
    """name -> thunk returning a comparable value."""
    cell = el.get_reference_element()
    d = C.sdim(cell)
    r = num.rng("c19h", ex)
    pts = C.interior_points(cell, 2, r) if d else [()]
    pts2 = C.interior_points(cell, 3, r) if d else [()]

    def tab(order, p, ent=None):
        def f():
            p0 = copy.deepcopy(p)
            T = el.tabulate(order, p) if ent is None else el.tabulate(order, p, ent)
            if p0 != p:
                return "points were changed"
            out = {k: (np.array(v, dtype=float) if isinstance(v, np.ndarray) else repr(type(v))) for k, v in T.items()}
            for v in T.values():        # the result belongs to the caller, who may work in it
                if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f":
                    v[...] = 7.5
            return out
        return f
    q = {"entity_dofs": lambda: copy.deepcopy(el.entity_dofs()), "entity_closure_dofs": lambda: copy.deepcopy(el.entity_closure_dofs()), "mapping": lambda: list(el.mapping()),
         "dual_basis": lambda: nodes_state(el), "value_shape": lambda: tuple(el.value_shape()), "space_dimension": el.space_dimension, "formdegree": el.get_formdegree,
         "num_sub_elements": el.num_sub_elements, "cell": lambda: cell_state(el.get_reference_element()),
         "tabulate0": tab(0, pts), "tabulate1": tab(1, pts), "tabulate2": tab(2, pts2), "tabulate0b": tab(0, pts2)}
    if d:
        # lists which agree in length and in single points with one another
        pts3 = C.interior_points(cell, 5, r)
        for nm, sel in (("c", (0, 1, 2)), ("d", (1, 0, 2)), ("e", (0, 3, 2)), ("f", (4, 3, 2)), ("g", (4, 1, 3))):
            q["tabulate0" + nm] = tab(0, [pts3[i] for i in sel])
            q["tabulate1" + nm] = tab(1, [pts3[i] for i in sel])
        q["tabulate1 array"] = tab_array(el, pts3)
    if not (hasattr(el, "elements") and not hasattr(el, "degree")):
        q["degree"] = el.degree
    if hasattr(el, "get_coeffs"):
        try:
            el.get_coeffs()
            q["coeffs"] = lambda: np.array(el.get_coeffs())
            q["dmats"] = lambda: [np.array(m) for m in el.dmats()]
        except Exception:
            pass
    if not ex.startswith(("Mixed", "HDivTrace", "Serendipity")):
        top = cell.get_topology()
        dims = sorted(top)
        for dim in dims[-2:]:
            sub = cell.construct_subelement(dim)
            sp = C.interior_points(sub, 2, r) if sub.get_spatial_dimension() else [()]
            sp2 = C.interior_points(sub, 1, r) + sp[1:] if sub.get_spatial_dimension() else [()]
            for e in sorted(top[dim])[:2]:
                q["tabulate on %s %s" % (dim, e)] = tab(1, sp, (dim, e))
                q["tabulate on %s %s, other points" % (dim, e)] = tab(1, sp2, (dim, e))
    if not ex.startswith(("Mixed", "HDivTrace")) and len(el.value_shape()) <= 1 and C.is_simplex(cell) and d > 0:
        from FIAT.finite_element import entity_support_dofs
        for dim in range(d):
            q["support %d" % dim] = lambda dim=dim: entity_support_dofs(el, dim)
    for nm in ("get_facet_transform", "compute_normal", "compute_edge_tangent", "volume"):
        pass
    if C.is_simplex(cell) and d > 1:
        q["normals"] = lambda: [np.array(cell.compute_normal(i)) for i in range(d + 1)] + [np.array(cell.compute_scaled_normal(i)) for i in range(d + 1)]
        q["points"] = lambda: [cell.make_points(d, 0, 4), cell.make_points(1, 0, 3)]
    return q


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    return a == b


def history(ctx, exprs, seed):
    fastd.install(2)
    els, qs, first, cells = {}, {}, {}, {}
    built = []
    r = num.rng("c19hist", seed, len(exprs))
    cellstates = {n: cell_state(F.cell(n)) for n in ("I", "T", "S", "Q", "H", "IxI", "TxI")}

    def add(ex):
        el = ctx.noraise(lambda: F.build(ex), ex)
        if el is None:
            return
        els[ex] = el
        qs[ex] = queries(el, ex)
        built.append(ex)
        first[ex] = {}

    def ask(ex, nm, log):
        try:
            v = qs[ex][nm]()
        except Exception as e:
            v = "raised %s" % type(e).__name__
        if nm in first[ex]:
            ctx.ok(same(first[ex][nm], v), "%s: %s after %s" % (ex, nm, log), "the answer changed")
        else:
            first[ex][nm] = v
    log = []
    pending = list(exprs)
    steps = 0
    while pending or steps < 40 * len(exprs):
        steps += 1
        if pending and (not built or r.rand() < 0.15):
            add(pending.pop(0))
            log.append("construct " + pending[0] if False else "construct")
            continue
        if not built:
            break
        ex = built[r.randint(len(built))]
        names = sorted(qs[ex])
        nm = names[r.randint(len(names))]
        ask(ex, nm, "%d interleaved queries and constructions" % steps)
    for ex in built:
        for nm in sorted(qs[ex]):
            ask(ex, nm, "%d interleaved queries and constructions" % steps)
        # a second element built now gives the same answers as the first
        el2 = F.build(ex)
        q2 = queries(el2, ex)
        for nm in sorted(q2):
            if nm in first[ex]:
                try:
                    v = q2[nm]()
                except Exception as e:
                    v = "raised %s" % type(e).__name__
                ctx.ok(same(first[ex][nm], v), "%s rebuilt: %s" % (ex, nm), "an element built later answers differently")
    for n, s in cellstates.items():
        ctx.ok(same(s, cell_state(F.cell(n))), "cell %s" % n, "the reference cell changed")
    from FIAT import reference_element as R
    ctx.ok(same(cellstates["T"], cell_state(R.UFCTriangle())) and same(cellstates["S"], cell_state(R.UFCTetrahedron())) and same(cellstates["Q"], cell_state(R.UFCQuadrilateral())), "fresh cells", "a freshly built cell differs")
    del cells


def fresh(ctx, ex, others):
    """The same element in a process where nothing else was built."""
    import json
    import subprocess
    import sys
    from vlib import env
    code = ("import sys; sys.path.insert(0, %r); from vlib import env, families as F, contracts as C, num; import numpy as np, json\n"
            "for o in %r: F.build(o)\n"
            "el = F.build(%r); c = el.get_reference_element(); p = C.interior_points(c, 3, num.rng('f'))\n"
            "T = el.tabulate(1, p)\n"
            "print(json.dumps([sorted((str(k), np.asarray(v).tolist()) for k, v in T.items()), str(el.entity_dofs()), str(el.mapping())]))\n")
    out = []
    for o in ([], others):
        r = subprocess.run([sys.executable, "-c", code % (env.VERIF, o, ex)], capture_output=True, text=True, timeout=300, env=dict(__import__("os").environ))
        if not ctx.ok(r.returncode == 0, ex, r.stderr[-300:]):
            return
        out.append(json.loads(r.stdout.strip().splitlines()[-1]))
    ctx.ok(out[0] == out[1], ex, "depends on the elements built before it (%s)" % (others,))


def check(tier):
    deep = tier == "thorough"
    it = [(f.name, k, d, cn, ex) for f, k, d, cn, v, ex in F.instances({0: 0, 1: 6, 2: 4, 3: 3})
          if not (d == 3 and v == "integral" and k >= 3)]
    T = [("family-%d" % i, "props.c19", "family", (it[i::16],)) for i in range(16)]
    comp = C.COMPOSITES + C.TENSOR + C.HDIVCURL + MORE + [e for e in C.CUBE if not ("H, 5" in e or "H, 4" in e)]
    T += [("composed-%d" % i, "props.c19", "composed", (comp[i::8],)) for i in range(8)]
    pool = [ex for f, k, d, cn, v, ex in F.instances({0: 0, 1: 3, 2: 2, 3: 1}, variants=False) if cn != "P"] + \
        [e for e in C.COMPOSITES if "S, 5" not in e] + C.TENSOR + C.HDIVCURL + ["Serendipity(Q, 3)", "DPC(Q, 2)", "HDivTrace(T, 1)", "HDivTrace(TxI, 1)"]
    for s in range(3 if not deep else 12):
        p = [pool[i] for i in num.rng("perm", s).permutation(len(pool))]
        T += [("history-%d-%d" % (s, i), "props.c19", "history", (p[i::12], s)) for i in range(12)]
    for ex in ("Lagrange(T, 3)", "RaviartThomas(S, 1, variant='point')", "Regge(T, 1)", "Flat(TP(Lagrange(I, 1), Lagrange(I, 2)))", "GaussLobattoLegendre(I, 4)"):
        T.append(("fresh-%s" % ex, "props.c19", "fresh", (ex, ["Lagrange(T, 2)", "Nedelec(S, 1)", "GaussRadau(I, 2)", "Serendipity(Q, 2)", "Argyris(T, 5)", "TP(Lagrange(I, 1), Lagrange(I, 2))", "Bernstein(T, 2)"])))
    return dict(bounded=T, bound="family instances to degree 6/4/3, composites of vlib/contracts.py, random query/construction histories", obligations=[])
