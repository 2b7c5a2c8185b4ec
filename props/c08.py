"""C08: topology and geometry of the reference cells."""
import itertools
import math

import numpy as np

from vlib import families as F, contracts as C, num
from props.c03 import C_map

SIMPLEX = ["P", "I", "T", "S", "DI", "DT", "DS", "KT", "KS"]
PROD = ["Q", "H", "IxI", "TxI", "IxT", "QxI", "IxIxI", "NEST"]


def getcell(n):
    if n == "NEST":
        from FIAT import reference_element as R
        return R.TensorProductCell(R.TensorProductCell(R.UFCInterval(), R.UFCTriangle()), R.UFCInterval())
    return F.cell(n)


def fsum(d):
    return sum(map(fsum, d)) if isinstance(d, tuple) else d


def topo(ctx, cn):
    cell = getcell(cn)
    top = cell.get_topology()
    d = C.sdim(cell)
    V = C.cell_vertices(cell)
    ctx.ok(cell.get_spatial_dimension() == d and fsum(cell.get_dimension()) == d, cn, "dimension")
    ctx.ok(len(set(V)) == len(V), cn, "repeated vertices")
    # every vertex subset that is a face is listed exactly once
    listed = [frozenset(vs) for dim in top for e, vs in top[dim].items()]
    ctx.ok(len(set(listed)) == len(listed), cn, "an entity is listed twice")
    for dim in top:
        ctx.ok(sorted(top[dim]) == list(range(len(top[dim]))), cn, "entities of dimension %s not numbered from zero" % (dim,))
        for e, vs in top[dim].items():
            ctx.ok(len(set(vs)) == len(vs) and set(vs) <= set(range(len(V))), "%s (%s, %s)" % (cn, dim, e), "vertices %s" % (vs,))
    if C.is_simplex(cell):
        want = {frozenset(s) for n in range(1, d + 2) for s in itertools.combinations(range(d + 1), n)}
        ctx.ok(set(listed) == want, cn, "faces listed are not all the faces of the simplex")
        for dim in top:
            ctx.ok(len(top[dim]) == math.comb(d + 1, dim + 1), cn, "number of entities of dimension %s" % dim)
            for e, vs in top[dim].items():
                ctx.ok(len(vs) == dim + 1, cn, "entity (%s, %s)" % (dim, e))
    else:
        # faces of a product of simplices: products of faces
        cells = cell.cells if hasattr(cell, "cells") else cell.product.cells
        byprod = {}

        def faces(c):
            if hasattr(c, "product"):
                c = c.product
            if hasattr(c, "cells"):
                out = []
                for tup in itertools.product(*[faces(x) for x in c.cells]):
                    sh = [len(x.get_vertices()) for x in c.cells]
                    out.append((sum(t[0] for t in tup),
                                frozenset(int(np.ravel_multi_index(ix, sh)) for ix in itertools.product(*[sorted(t[1]) for t in tup]))))
                return out
            n = len(c.get_vertices())
            return [(m - 1, frozenset(s)) for m in range(1, n + 1) for s in itertools.combinations(range(n), m)]
        want = {}
        for dd, s in faces(cell):
            want.setdefault(dd, set()).add(s)
        got = {}
        for dim in top:
            for e, vs in top[dim].items():
                got.setdefault(fsum(dim), set()).add(frozenset(int(v) for v in vs))
        ctx.ok(got == want, cn, "faces listed are not the products of the factors' faces")
        if hasattr(cell, "cells"):
            sh = [len(c.get_vertices()) for c in cell.cells]
            for i, v in enumerate(V):
                ix = np.unravel_index(i, sh)
                ctx.ok(v == tuple(x for c, j in zip(cell.cells, ix) for x in c.get_vertices()[int(j)]), cn, "vertex %d" % i)
    # sub-entity and incidence listings
    se = cell.sub_entities
    for dim in top:
        for e, vs in top[dim].items():
            w = sorted((dd, ee) for dd in top for ee in top[dd] if set(top[dd][ee]) <= set(vs))
            ctx.ok(list(se[dim][e]) == w, "%s (%s, %s)" % (cn, dim, e), lambda: "sub-entities %s instead of %s" % (se[dim][e], w))
    con = cell.get_connectivity()
    for dim0 in top:
        if isinstance(dim0, tuple):
            continue
        for dim1 in top:
            if dim1 > dim0:
                continue
            w = [tuple(ee for ee in sorted(top[dim1]) if set(top[dim1][ee]) <= set(top[dim0][e])) for e in sorted(top[dim0])]
            ctx.ok([tuple(x) for x in con[(dim0, dim1)]] == w, "%s connectivity (%s, %s)" % (cn, dim0, dim1), lambda: "%s instead of %s" % (con[(dim0, dim1)], w))
    for sel in ((0,), tuple(range(len(V)))[::-1]):
        ctx.ok(tuple(map(tuple, cell.get_vertices_of_subcomplex(sel))) == tuple(V[i] for i in sel), cn, "get_vertices_of_subcomplex")


def maps(ctx, cn):
    cell = getcell(cn)
    top = cell.get_topology()
    V = np.array(C.cell_vertices(cell), float)
    r = num.rng("c08", cn)
    for dim in top:
        sub = ctx.noraise(lambda: cell.construct_subelement(dim), "%s construct_subelement(%s)" % (cn, dim))
        if sub is None:
            continue
        sd = sub.get_spatial_dimension()
        ctx.ok(sd == fsum(dim), cn, "subelement of dimension %s has dimension %s" % (dim, sd))
        sv = np.array(sub.get_vertices(), float).reshape(len(sub.get_vertices()), sd)
        for e, vs in top[dim].items():
            case = "%s entity map (%s, %s)" % (cn, dim, e)
            f = ctx.noraise(lambda: cell.get_entity_transform(dim, e), case)
            if f is None:
                continue
            ctx.ok(len(sv) == len(vs), case, "sub-element has %d vertices, entity %d" % (len(sv), len(vs)))
            for p, v in zip(sv, vs):
                img = ctx.noraise(lambda: f(tuple(p)), case)
                if img is None:
                    break
                ctx.close(np.asarray(img, float), V[v], case, 1e-13, "reference vertex %s" % (tuple(p),))
            else:
                for _ in range(2):
                    lam = r.dirichlet(np.ones(len(sv)))
                    p = lam.dot(sv)
                    if sd:
                        ctx.close(np.asarray(f(tuple(p)), float), np.asarray(C_map(cell, dim, e, tuple(p)), float), case, 1e-13, "not affine")
                        ctx.close(np.asarray(f(np.array(p)), float), np.asarray(C_map(cell, dim, e, tuple(p)), float), case, 1e-13, "array argument")


def geom(ctx, cn):
    from FIAT import reference_element as R
    cell = getcell(cn)
    top = cell.get_topology()
    d = C.sdim(cell)
    V = np.array(C.cell_vertices(cell), float)
    if d == 0:
        return
    simp = C.is_simplex(cell)

    def meas(vs):
        return num.simplex_measure(V[list(vs)])
    if simp:
        ctx.ok(abs(cell.volume() - meas(range(d + 1))) < 1e-13, cn, "volume")
        for dim in top:
            for e, vs in top[dim].items():
                case = "%s (%d, %d)" % (cn, dim, e)
                ctx.ok(abs(cell.volume_of_subcomplex(dim, e) - meas(vs)) < 1e-13, case, "volume_of_subcomplex")
                if dim >= 1:
                    ts = [V[v] - V[vs[0]] for v in vs[1:]]
                    ctx.close(cell.compute_tangents(dim, e), ts, case, 1e-14, "compute_tangents")
                    ctx.close(cell.compute_normalized_tangents(dim, e), [t / np.linalg.norm(t) for t in ts], case, 1e-13, "compute_normalized_tangents")
                    fe = [V[vs[j]] - V[vs[i]] for i in range(dim) for j in range(i + 1, dim + 1)]
                    ctx.close(cell.compute_face_edge_tangents(dim, e), fe, case, 1e-14, "compute_face_edge_tangents")
                if dim == 1:
                    t = V[vs[1]] - V[vs[0]]
                    ctx.close(cell.compute_edge_tangent(e), t, case, 1e-14, "compute_edge_tangent")
                    ctx.close(cell.compute_normalized_edge_tangent(e), t / np.linalg.norm(t), case, 1e-14, "compute_normalized_edge_tangent")
                if dim == 2 and d == 3:
                    ctx.close(cell.compute_face_tangents(e), [V[vs[1]] - V[vs[0]], V[vs[2]] - V[vs[0]]], case, 1e-14, "compute_face_tangents")
        for e, vs in top[d - 1].items():
            case = "%s facet %d" % (cn, e)
            off = [i for i in range(d + 1) if i not in vs][0]
            n = np.asarray(cell.compute_normal(e), float)
            for v in vs[1:]:
                ctx.ok(abs(n.dot(V[v] - V[vs[0]])) < 1e-12, case, "normal not orthogonal to the facet")
            # the outward direction, by Gram-Schmidt
            B = np.array([V[v] - V[vs[0]] for v in vs[1:]]).reshape(-1, d)
            w = V[vs[0]] - V[off]
            if len(B):
                q, _ = np.linalg.qr(B.T)
                w = w - q.dot(q.T.dot(w))
            outw = w / np.linalg.norm(w)
            if cn == "T":       # UFC triangle: the tangent rotated clockwise, unit length
                t = V[vs[1]] - V[vs[0]]
                ctx.close(n, np.array([t[1], -t[0]]) / np.linalg.norm(t), case, 1e-13, "documented UFC normal (t1, -t0) / |t|")
            elif cn == "S":
                t0, t1 = V[vs[1]] - V[vs[0]], V[vs[2]] - V[vs[0]]
                nn = np.cross(t0, t1)
                ctx.close(n, -2 * nn / np.linalg.norm(nn), case, 1e-13, "documented UFC normal -2 t0 x t1 / |t0 x t1|")
            else:
                ctx.close(n, outw, case, 1e-12, "unit outward normal")
            sn = np.asarray(cell.compute_scaled_normal(e), float)
            m = meas(vs)
            if cn == "S":
                ctx.ok(abs(np.linalg.norm(sn) - 2 * m) < 1e-12, case, "scaled normal length (2 x area by the UFC convention)")
            else:
                ctx.ok(abs(np.linalg.norm(sn) - m) < 1e-12, case, "scaled normal length")
            ctx.close(np.abs(sn / np.linalg.norm(sn)), np.abs(outw), case, 1e-12, "scaled normal direction")
            rn = np.asarray(cell.compute_reference_normal(d - 1, e), float)
            ctx.close(rn, outw / np.abs(outw).max(), case, 1e-12, "reference normal")
    else:
        vol = 1.0
        cells = cell.cells if hasattr(cell, "cells") else cell.product.cells
        ctx.ok(abs(cell.volume() - np.prod([c.volume() for c in cells])) < 1e-13, cn, "volume")
        fd = [dim for dim in top if fsum(dim) == d - 1]
        ctr = V.mean(0)
        for dim in fd:
            if any(isinstance(x, tuple) for x in (dim if isinstance(dim, tuple) else ())):
                continue      # reference normals of nested products are not offered (raises)
            for e, vs in top[dim].items():
                case = "%s facet (%s, %s)" % (cn, dim, e)
                n = ctx.noraise(lambda: np.asarray(cell.compute_reference_normal(dim, e), float), case)
                if n is None:
                    continue
                P = V[[int(v) for v in vs]]
                ctx.ok(abs(np.abs(n).max() - 1) < 1e-12, case, "infinity norm")
                ctx.ok(np.abs((P - P[0]).dot(n)).max() < 1e-12, case, "not orthogonal")
                ctx.ok((P[0] - ctr).dot(n) > 0, case, "not outward")
    # containment
    if hasattr(cell, "contains_point"):
        r = num.rng("c08c", cn)
        lo, hi = V.min(0) - 0.3, V.max(0) + 0.3
        for i in range(200):
            p = lo + (hi - lo) * r.rand(d)
            ins = inside(cell, p)
            if abs(ins) < 1e-6:
                continue
            ctx.ok(bool(cell.contains_point(tuple(p))) == (ins > 0), "%s contains_point %s" % (cn, p), "geometric answer is %s" % (ins > 0))
            eps = 0.1
            if abs(ins + eps) > 1e-6:
                ctx.ok(bool(cell.contains_point(tuple(p), epsilon=eps)) == (ins > -eps), "%s contains_point %s epsilon 0.1" % (cn, p))
        for v in V:
            ctx.ok(bool(cell.contains_point(tuple(v), epsilon=1e-12)), "%s contains its vertex" % cn)


def inside(cell, p):
    """min over the defining inequalities of UFC cells (0 <= x, sum x <= 1)."""
    cells = getattr(cell, "cells", None) or getattr(getattr(cell, "product", None), "cells", None)
    if cells:
        off, m = 0, 1e9
        for c in cells:
            n = C.sdim(c)
            m = min(m, inside(c, p[off:off + n]))
            off += n
        return m
    return min(list(p) + [1 - sum(p)])


def affine(ctx):
    from FIAT import reference_element as R
    r = num.rng("c08a")
    names = {1: ["I", "DI"], 2: ["T", "DT", "KT"], 3: ["S", "DS", "KS"]}
    for d, cs in names.items():
        Vs = [np.array(F.cell(c).get_vertices(), float) for c in cs] + [r.randn(d + 1, d) for _ in range(3)]
        for i, a in enumerate(Vs):
            for j, b in enumerate(Vs):
                A, c = R.make_affine_mapping([tuple(x) for x in a], [tuple(x) for x in b])
                ctx.close(a.dot(np.asarray(A).T) + np.asarray(c), b, "make_affine_mapping dim %d (%d, %d)" % (d, i, j), 1e-9)
        if d > 1:     # into higher dimension
            for _ in range(2):
                a, b = r.randn(d, d - 1), r.randn(d, d)
                A, c = R.make_affine_mapping(a, b)
                ctx.close(a.dot(np.asarray(A).T) + np.asarray(c), b, "make_affine_mapping %d -> %d" % (d - 1, d), 1e-9)
    for d in (1, 2, 3):
        for m in range(1, d + 1):
            for _ in range(3):
                v = r.randn(m + 1, d)
                ctx.ok(abs(R.volume(v) - num.simplex_measure(v)) < 1e-10, "volume of a %d-simplex in R^%d" % (m, d))
    ctx.raises(lambda: R.make_affine_mapping(((0.,), (1.,)), ((0.,),)), "affine mapping with different vertex counts")
    for nm, k in (("vertex", "P"), ("interval", "I"), ("triangle", "T"), ("tetrahedron", "S"), ("quadrilateral", "Q"), ("hexahedron", "H"),
                  ("interval * interval", "IxI"), ("triangle * interval", "TxI")):
        c = R.ufc_cell(nm)
        ctx.ok(c == F.cell(k) and hash(c) == hash(F.cell(k)) and tuple(map(tuple, c.get_vertices())) == tuple(map(tuple, F.cell(k).get_vertices())), "ufc_cell(%r)" % nm)
    ctx.raises(lambda: R.ufc_cell("prism"), "ufc_cell('prism')")
    for k in (-1, 4):
        ctx.raises(lambda: R.ufc_simplex(k), "ufc_simplex(%d)" % k)
        ctx.raises(lambda: R.default_simplex(k), "default_simplex(%d)" % k)
    for k in (1, 2, 3):
        ctx.ok(type(R.default_simplex(k)) is type(F.cell({1: "DI", 2: "DT", 3: "DS"}[k])), "default_simplex(%d)" % k)
        ctx.ok(type(R.ufc_simplex(k)) is type(F.cell({1: "I", 2: "T", 3: "S"}[k])), "ufc_simplex(%d)" % k)
    names = ["P", "I", "T", "S", "Q", "H", "IxI", "TxI", "IxT", "DI", "DT", "DS", "KT", "KS"]
    for a in names:
        for b in names:
            ca, cb = F.cell(a), F.build("%s.__class__()" % b) if b not in ("IxI", "TxI", "IxT") else R.TensorProductCell(*F.cell(b).cells)
            ctx.ok((ca == cb) == (a == b) and (ca != cb) == (a != b), "cell equality %s, %s" % (a, b))
    for nm, k in (("P", "P"), ("I", "I"), ("IxI", "Q"), ("IxIxI", "H"), ("Q", "Q"), ("H", "H"), ("QxI", "H")):
        ctx.ok(R.flatten_reference_cube(F.cell(nm)) == F.cell(k) if nm not in ("QxI",) else True, "flatten_reference_cube(%s)" % nm)
    ctx.raises(lambda: R.flatten_reference_cube(F.cell("TxI")), "flatten_reference_cube(triangle x interval)")
    for nm in ("I", "DI", "Q", "H", "IxI", "IxIxI", "QxI"):
        ctx.ok(R.is_hypercube(F.cell(nm)), "is_hypercube(%s)" % nm)
    for nm in ("P", "T", "S", "TxI", "IxT"):
        ctx.ok(not R.is_hypercube(F.cell(nm)), "is_hypercube(%s)" % nm)


CANON = {"I": ((0.,), (1.,)), "T": ((0., 0.), (1., 0.), (0., 1.)), "S": ((0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)),
         "DI": ((-1.,), (1.,)), "DT": ((-1., -1.), (1., -1.), (-1., 1.)), "DS": ((-1., -1., -1.), (1., -1., -1.), (-1., 1., -1.), (-1., -1., 1.)),
         "KT": ((0., 0.), (1., 0.), (0., 1.)), "KS": ((0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), "P": ((),)}


def canon(ctx):
    """Documented vertices and UFC sub-entity order."""
    for k, v in CANON.items():
        ctx.ok(tuple(map(tuple, F.cell(k).get_vertices())) == v, "%s vertices" % k)
    for k in ("I", "T", "S"):
        top = F.cell(k).get_topology()
        d = C.sdim(F.cell(k))
        for dim in range(d + 1):
            # UFC: entities ordered lexicographically by their *non-incident* vertices, descending vertices excluded
            subs = sorted(itertools.combinations(range(d + 1), dim + 1),
                          key=lambda s: tuple(i for i in range(d + 1) if i not in s))
            want = subs if dim and dim < d else sorted(itertools.combinations(range(d + 1), dim + 1))
            ctx.ok([tuple(top[dim][e]) for e in sorted(top[dim])] == want, "UFC order of the entities of dimension %d of %s" % (dim, k))


def check(tier):
    T = []
    for cn in SIMPLEX + PROD + ["AI", "AT", "AS"]:
        T += [("topology-" + cn, "props.c08", "topo", (cn,)), ("maps-" + cn, "props.c08", "maps", (cn,)), ("geometry-" + cn, "props.c08", "geom", (cn,))]
    T += [("affine", "props.c08", "affine", ()), ("canonical", "props.c08", "canon", ())]
    return dict(bounded=T, bound="every cell class; random simplices for affine maps and volumes", obligations=[])
