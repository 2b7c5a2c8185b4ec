"""Contracts of builtins, math and numpy on symbolic values."""
import builtins
import collections
import functools
import itertools
import math
import operator

import numpy

from vlib.pyvc import matrix, sym, values
from vlib.pyvc.sym import Rat, SymBool, Unsupported, band, bnot, bor
from vlib.pyvc.values import (Seq, SDict, SymArr, SymIter, Opaque, Store, symbolic, symrange, as_symarr, sym_dot,
                              to_segs, make_table)

NI = NotImplemented


def oarr(a):
    """concrete-shape array-like -> object ndarray"""
    if isinstance(a, numpy.ndarray):
        return a
    if isinstance(a, SymArr):
        return None
    if isinstance(a, Rat):
        o = numpy.empty((), dtype=object)
        o[()] = a
        return o
    if isinstance(a, Seq) and a.segs is not None:
        return None
    if isinstance(a, (list, tuple)):
        subs = [oarr(x) if isinstance(x, (list, tuple, numpy.ndarray, SymArr)) else x for x in a]
        if any(s is None for s in subs):
            return None
        if subs and isinstance(subs[0], numpy.ndarray):
            sh = subs[0].shape
            if any(not isinstance(s, numpy.ndarray) or s.shape != sh for s in subs):
                raise Unsupported("ragged array")
            out = numpy.empty((len(subs),) + sh, dtype=object)
            for i, s in enumerate(subs):
                out[i] = s
            return out
        out = numpy.empty((len(subs),), dtype=object)
        for i, s in enumerate(subs):
            out[i] = s
        return out
    return numpy.asarray(a)


def anysym(*xs):
    return any(symbolic(x) for x in xs)


def hasrat(v):
    if isinstance(v, Rat):
        return True
    if isinstance(v, (list, tuple)):
        if isinstance(v, Seq) and v.segs is not None:
            return True
        return any(hasrat(x) for x in v)
    if isinstance(v, SymArr):
        return True
    return isinstance(v, numpy.ndarray) and v.dtype == object


def table(ip):
    eng = ip.eng
    T = {}

    def reg(*fs):
        def deco(g):
            for f in fs:
                T[f] = g
            return g
        return deco

    @reg(builtins.len)
    def _len(x):
        if isinstance(x, (Seq, SDict, SymArr)):
            return x.length()
        if isinstance(x, SymIter):
            return x.n if x.n.concrete() is None else x.n.concrete()
        if isinstance(x, Opaque):
            m = ip.method_contracts.get((x._kind, "__len__"))
            if m is not None:
                return m(ip, x)
            if "__len__" in x._attrs:
                return x._attrs["__len__"]()
            raise Unsupported("len of %r" % x)
        if hasattr(x, "_symstore"):
            return x.shape[0]
        if type(x).__module__.startswith("FIAT") and hasattr(type(x), "__len__"):
            return ip.call(type(x).__len__, [x], {})
        return len(x)

    @reg(builtins.range)
    def _range(*a):
        if any(isinstance(x, Rat) and x.concrete() is None for x in a):
            return symrange(*a)
        return range(*[x.__index__() if isinstance(x, Rat) else x for x in a])

    @reg(builtins.list)
    def _list(x=()):
        if isinstance(x, (Seq, SymIter, SymArr)):
            if isinstance(x, SymArr) and Rat.of(x.shape[0]).concrete() is not None:
                return Seq(list(x))
            return Seq.from_segs(to_segs(x))
        if isinstance(x, SDict):
            return Seq.from_segs(to_segs(x.keys())) if x.gens else Seq(x)
        return Seq(x)

    @reg(builtins.tuple)
    def _tuple(x=()):
        if isinstance(x, Seq) and x.segs is not None:
            return x
        if isinstance(x, SymIter):
            return Seq.from_segs([x])
        if isinstance(x, SymArr):
            if Rat.of(x.shape[0]).concrete() is None:
                return Seq.from_segs(to_segs(x))
        return tuple(x)

    @reg(builtins.dict, collections.OrderedDict)
    def _dict(*a, **k):
        if a and isinstance(a[0], Seq) and a[0].segs is not None:
            raise Unsupported("dict of a symbolic list")
        return SDict(*a, **k)

    @reg(builtins.enumerate)
    def _enum(x, start=0):
        segs = ip.iter_segs(x)
        if all(not isinstance(g, SymIter) for g in segs):
            return Seq(list(enumerate([v for g in segs for v in g[1]], start)))
        out, off = [], Rat.of(start)
        for g in segs:
            if isinstance(g, SymIter):
                if g.flat:
                    raise Unsupported("enumerate over a nested symbolic list")
                out.append(SymIter(g.n, lambda k, f=g.fn, o=off: (o + k, f(k))))
                off = off + g.n
            else:
                out.append(("items", [(off + i, v) for i, v in enumerate(g[1])]))
                off = off + len(g[1])
        return Seq.from_segs(out)

    @reg(builtins.zip)
    def _zip(*xs):
        ss = [ip.iter_segs(x) for x in xs]
        if all(not isinstance(g, SymIter) for s in ss for g in s):
            return Seq(list(zip(*[[v for g in s for v in g[1]] for s in ss])))
        if not all(len(s) == 1 and isinstance(s[0], SymIter) and not s[0].flat for s in ss):
            raise Unsupported("zip of symbolic lists")
        n = ss[0][0].n
        for s in ss[1:]:
            if s[0].n < n:
                n = s[0].n
        return Seq.from_segs([SymIter(n, lambda k: tuple(s[0].fn(k) for s in ss))])

    @reg(builtins.map)
    def _map(f, *xs):
        z = _zip(*xs)
        segs = []
        for g in z.as_segs():
            if isinstance(g, SymIter):
                k = sym.fresh("m")
                ka, = k.atoms()
                outs = eng.explore(lambda: (eng.assume(k >= 0), eng.assume(k < g.n), ip.call(f, list(g.fn(k)), {}))[-1])
                if len(outs) != 1 or outs[0][1] != "value":
                    raise Unsupported("map with a branching function")
                v = outs[0][2]
                segs.append(SymIter(g.n, lambda q, v=v, ka=ka: values.subst(v, {ka: Rat.of(q)})))
            else:
                segs.append(("items", [ip.call(f, list(v), {}) for v in g[1]]))
        return Seq.from_segs(segs)

    @reg(builtins.filter)
    def _filter(f, x):
        segs = ip.iter_segs(x)
        if any(isinstance(g, SymIter) for g in segs):
            raise Unsupported("filter over a symbolic list")
        return Seq([v for g in segs for v in g[1] if ip.truth(ip.call(f, [v], {}) if f is not None else v)])

    @reg(builtins.sum)
    def _sum(x, start=0):
        segs = ip.iter_segs(x)
        s = start
        for g in segs:
            if isinstance(g, SymIter):
                if g.flat:
                    raise Unsupported("sum over a nested symbolic list")
                if isinstance(g.probe(), (list, tuple)):
                    if isinstance(s, (list, tuple)) or s == 0:
                        base = to_segs(s) if isinstance(s, (list, tuple)) else []
                        s = Seq.from_segs(list(base) + [SymIter(g.n, lambda k, f=g.fn: to_segs(f(k)), flat=True)])
                        continue
                s = s + values.total(g.n, g.fn)
            else:
                for v in g[1]:
                    s = ip.binop(__import__("ast").Add, s, v)
        return s

    @reg(builtins.sorted)
    def _sorted(x, key=None, reverse=False):
        segs = ip.iter_segs(x)
        if any(isinstance(g, SymIter) for g in segs):
            r = getattr(ip, "sorted_contract", None)
            if key is not None or reverse:
                raise Unsupported("sort of a symbolic list")
            return r(segs) if r is not None else Seq.from_segs(values.sorted_segs(segs))
        vals = [v for g in segs for v in g[1]]
        if key is None:
            return Seq(sorted(vals, reverse=bool(reverse)))
        return Seq(sorted(vals, key=lambda v: ip.call(key, [v], {}), reverse=bool(reverse)))

    @reg(builtins.reversed)
    def _rev(x):
        segs = ip.iter_segs(x)
        if any(isinstance(g, SymIter) for g in segs):
            if len(segs) == 1 and not segs[0].flat:
                g = segs[0]
                return Seq.from_segs([SymIter(g.n, lambda k: g.fn(g.n - 1 - k))])
            raise Unsupported("reversed symbolic list")
        return Seq(reversed([v for g in segs for v in g[1]]))

    @reg(builtins.frozenset)
    def _frozenset(x=()):
        return frozenset(_set(x))

    @reg(builtins.set)
    def _set(x=()):
        segs = ip.iter_segs(x)
        vs = []
        for g in segs:
            vs += repeated(g, "set of a symbolic list") if isinstance(g, SymIter) else list(g[1])
        return {ip.natkey(v) for v in vs}

    def repeated(g, what):
        """the distinct values of a symbolic list all of whose rounds give
        the same values"""
        if not eng.entails(g.n >= 1) and not bool(g.n >= 1):
            return []
        k = sym.fresh("rep")
        ka, = k.atoms()
        v = g.fn(k)
        vs = v if g.flat else [("items", [v])]
        out = []
        for x in vs:
            if isinstance(x, SymIter):
                if values.depends(x.n, {ka}):
                    raise Unsupported(what)
                out += repeated(x, what)
            else:
                out += list(x[1])
        if values.depends(out, {ka}):
            raise Unsupported(what)
        return out

    def xs_of(a):
        return a[0]

    def _minmax(op):
        def f(*a, **k):
            key, default = k.get("key"), k.get("default", NI)
            xs = list(a)
            if len(xs) == 1:
                xs = []
                for g in ip.iter_segs(xs_of(a)):
                    xs += repeated(g, "min/max of a symbolic list") if isinstance(g, SymIter) else list(g[1])
            if not xs:
                if default is not NI:
                    return default
                raise ValueError("min() arg is an empty sequence")
            best, bk = xs[0], ip.call(key, [xs[0]], {}) if key else xs[0]
            for v in xs[1:]:
                vk = ip.call(key, [v], {}) if key else v
                if getattr(ip, "lazy_extremes", False) and not key and isinstance(vk, (int, Rat)) and isinstance(bk, (int, Rat)):
                    c = op(Rat.of(vk), Rat.of(bk))
                    if isinstance(c, SymBool) and not eng.entails(c) and not eng.entails(bnot(c)):
                        # the extreme by its definition, without a case split
                        m = sym.fresh("extreme")
                        eng.assume(bor(band(c, m == vk), band(bnot(c), m == bk)))
                        best = bk = m
                        continue
                if ip.truth(op(vk, bk)):
                    best, bk = v, vk
            return best
        return f
    T[builtins.min] = _minmax(operator.lt)
    T[builtins.max] = _minmax(operator.gt)

    @reg(numpy.cumsum)
    def _cumsum(a, axis=None, dtype=None, out=None):
        if axis is not None or out is not None or isinstance(a, SymArr) or isinstance(a, numpy.ndarray) and a.ndim != 1:
            raise Unsupported("cumsum of an array")
        segs = ip.iter_segs(a)
        if any(isinstance(g, SymIter) for g in segs):
            raise Unsupported("cumsum of a symbolic list")
        s, r = Rat.of(0), []
        for g in segs:
            for v in g[1]:
                s = s + Rat.of(v)
                r.append(s)
        o = numpy.empty((len(r),), dtype=object)
        for i, v in enumerate(r):
            o[i] = v
        return o

    def quantified(x, every, what):
        for g in ip.iter_segs(x):
            if isinstance(g, SymIter):
                if not g.flat and g.fn(sym.fresh("all")) is every:
                    continue
                try:
                    vs = repeated(g, what)
                except Unsupported:
                    if g.flat or not every:
                        raise
                    k = sym.fresh("all")
                    v = g.fn(k)
                    if isinstance(v, (bool, sym.SymBool)) and values.within(k, g.n, lambda: values.sure(v)):
                        continue
                    raise
            else:
                vs = g[1]
            for v in vs:
                if bool(ip.truth(v)) is not every:
                    return not every
        return every

    @reg(builtins.all)
    def _all(x):
        return quantified(x, True, "all() over a symbolic list")

    @reg(builtins.any)
    def _any(x):
        return quantified(x, False, "any() over a symbolic list")

    def absolute(a):
        if a.kind != "app" or a.name != "absolute":
            return []
        v, x = Rat.atom(a), a.args[0]
        return [v >= 0, bor(v == x, v == -x)]

    @reg(builtins.abs, numpy.abs, numpy.fabs, math.fabs)
    def _abs(x):
        if isinstance(x, Rat):
            if getattr(ip, "lazy_extremes", False) and x.const() is None:
                if absolute not in eng.facts_for:
                    eng.facts_for.append(absolute)
                return sym.app("absolute", x)
            return abs(x)
        if isinstance(x, numpy.ndarray) and x.dtype == object:
            o = numpy.empty(x.shape, dtype=object)
            for i in numpy.ndindex(*x.shape):
                o[i] = _abs(x[i])
            return o
        if isinstance(x, SymArr):
            return SymArr(x.shape, lambda i: _abs(x.at(i)))
        if isinstance(x, (Seq, list)):
            return _abs(oarr(x))
        return abs(x)

    import re
    from vlib.pyvc import strings

    def _re(kind):
        def f(pattern, s, flags=0):
            if not isinstance(s, strings.SymStr):
                return NI
            return strings.match(kind, pattern if isinstance(pattern, re.Pattern) else re.compile(pattern, flags), s)
        return f
    for kind in ("match", "fullmatch", "search"):
        reg(getattr(re, kind))(_re(kind))

    @reg(builtins.int)
    def _int(*a):
        x = a[0] if a else 0
        if isinstance(x, Rat):
            if x.concrete() is not None:
                return int(x.concrete())
            if x.is_int():
                return x
            raise Unsupported("int() of %s" % x)
        if hasattr(x, "integer") and getattr(x, "_symstore", None) is str:
            return x.integer()
        return NI

    @reg(builtins.float)
    def _float(*a):
        x = a[0] if a else 0
        if isinstance(x, Rat):
            return x
        if isinstance(x, Opaque) and ("__float__" in x._attrs):
            return x._attrs["__float__"]()
        return NI

    @reg(builtins.bool)
    def _bool(x=False):
        return ip.truth(x)

    @reg(builtins.str, builtins.repr)
    def _str(x=""):
        return str(values_nat(x))

    @reg(builtins.isinstance)
    def _isinst(x, c):
        cs = c if isinstance(c, tuple) else (c,)
        if isinstance(x, Rat):
            isint = x.is_int()
            return any((k in (int,) and isint) or (k in (float,) and not isint) or k is object for k in cs)
        if isinstance(x, SymArr):
            return any(issubclass(numpy.ndarray, k) for k in cs)
        if isinstance(x, SymIter):
            return any(k is range for k in cs)
        if isinstance(x, Opaque):
            k = x._attrs.get("__class__")
            if k is None:
                raise Unsupported("isinstance of %r" % x)
            return issubclass(k, c)
        if hasattr(x, "_symstore"):
            return any(issubclass(x._symstore, k) for k in cs)
        return isinstance(x, c)

    @reg(builtins.type)
    def _type(x, *a):
        if isinstance(x, Rat):
            return int if x.is_int() else float
        if isinstance(x, Seq):
            return list
        if isinstance(x, SDict):
            return dict
        return type(x)

    @reg(builtins.pow, operator.pow, math.pow, numpy.power)
    def _pow(a, b):
        if anysym(a, b) or isinstance(a, Rat):
            return ip.binop(__import__("ast").Pow, a if not isinstance(a, list) else oarr(a), b)
        return NI

    @reg(math.sqrt, numpy.sqrt)
    def _sqrt(x):
        if isinstance(x, (Rat, int)):
            return sym.sqrt(x)
        if isinstance(x, SymArr):
            return SymArr(x.shape, lambda i: sym.sqrt(x.at(i)))
        if isinstance(x, numpy.ndarray) and x.dtype == object:
            o = numpy.empty(x.shape, dtype=object)
            for i in numpy.ndindex(*x.shape):
                o[i] = sym.sqrt(x[i])
            return o
        return NI

    @reg(math.factorial)
    def _fact(n):
        if isinstance(n, Rat) and n.concrete() is None:
            return sym.app("factorial", n, sort="int")
        return math.factorial(int(n))

    @reg(functools.reduce)
    def _reduce(f, xs, *init):
        segs = ip.iter_segs(xs)
        if any(isinstance(g, SymIter) for g in segs):
            raise Unsupported("reduce over a symbolic list")
        vals = [v for g in segs for v in g[1]]
        if init:
            acc = init[0]
        else:
            acc, vals = vals[0], vals[1:]
        for v in vals:
            acc = ip.call(f, [acc, v], {})
        return acc

    @reg(itertools.product)
    def _product(*xs, **kw):
        rep = kw.get("repeat", 1)
        segs = [ip.iter_segs(x) for x in xs] * int(rep)
        if all(not isinstance(g, SymIter) for s in segs for g in s):
            return Seq(list(itertools.product(*[[v for g in s for v in g[1]] for s in segs])))

        def rec(i, pre):
            if i == len(segs):
                return [("items", [pre])]
            out = []
            for g in segs[i]:
                if isinstance(g, SymIter):
                    if g.flat:
                        raise Unsupported("product of nested lists")
                    if i == len(segs) - 1:
                        out.append(SymIter(g.n, lambda k, g=g: pre + (g.fn(k),)))
                    else:
                        out.append(SymIter(g.n, lambda k, g=g: rec(i + 1, pre + (g.fn(k),)), flat=True))
                else:
                    for v in g[1]:
                        out += rec(i + 1, pre + (v,))
            return out
        return Seq.from_segs(rec(0, ()))

    @reg(itertools.chain)
    def _chain(*xs):
        return Seq.from_segs([g for x in xs for g in ip.iter_segs(x)])

    @reg(itertools.chain.from_iterable)
    def _chainfi(x):
        out = []
        for g in ip.iter_segs(x):
            if isinstance(g, SymIter):
                out.append(SymIter(g.n, lambda k, f=g.fn: to_segs(f(k)), flat=True))
            else:
                for v in g[1]:
                    out += ip.iter_segs(v)
        return Seq.from_segs(out)

    @reg(itertools.count)
    def _count(*a):
        raise Unsupported("infinite iterator")

    # ------------------------------------------------------------------ numpy
    def shape_of(s):
        if isinstance(s, (int, Rat, numpy.integer)):
            return (s,)
        return tuple(s)

    def filled(v):
        def f(shape, dtype=None, *a, **k):
            sh = shape_of(shape)
            if any(isinstance(x, Rat) and x.concrete() is None for x in sh):
                return make_table(sh, v)
            o = numpy.empty(tuple(int(x) for x in sh), dtype=object)
            o.fill(Rat.of(v) if dtype not in (object, "O", tuple) else None)
            return o
        return f
    T[numpy.zeros] = filled(0)

    def unset(shape, dtype=None, *a, **k):
        """uninitialised memory: unknown contents"""
        if dtype in (object, "O", tuple):
            return filled(0)(shape, dtype)
        return filled(sym.fresh("uninitialised", "real"))(shape, dtype)
    T[numpy.empty] = unset
    T[numpy.ndarray] = unset
    T[numpy.ones] = filled(1)

    @reg(numpy.empty_like)
    def _el(a, dtype=None, **k):
        return unset(a.shape, dtype)

    @reg(numpy.zeros_like)
    def _zl(a, dtype=None, **k):
        if isinstance(a, SymArr):
            return make_table(a.shape, 0)
        return filled(0)(numpy.shape(a))

    @reg(numpy.ones_like)
    def _ol(a, dtype=None, **k):
        if isinstance(a, SymArr):
            return SymArr(a.shape, lambda i: Rat.of(1))
        return filled(1)(numpy.shape(a))

    @reg(numpy.full)
    def _full(shape, fill_value, dtype=None):
        sh, v = shape_of(shape), fill_value
        if isinstance(v, float) and v != v:
            return SymArr(sh, lambda idx: v)       # not a number: nothing may be computed from it
        if any(isinstance(x, Rat) and x.concrete() is None for x in sh):
            return make_table(sh, v)
        o = numpy.empty(tuple(int(x) for x in sh), dtype=object)
        o.fill(v)
        return o

    @reg(numpy.eye, numpy.identity)
    def _eye(n, m=None, *a, **k):
        if isinstance(n, Rat) and n.concrete() is None:
            return matrix.Mat(n)
        n = int(n)
        m = n if m is None else int(m)
        o = filled(0)((n, m))
        for i in range(min(n, m)):
            o[i, i] = Rat.of(1)
        return o

    @reg(numpy.array, numpy.asarray, numpy.asanyarray, numpy.ascontiguousarray)
    def _array(a, dtype=None, *x, **k):
        if isinstance(a, SymArr):
            return a.copy() if not isinstance(a, Store) else a.copy()
        if isinstance(a, Opaque):
            c = a._attrs.get("__array__")
            if c is not None:
                return c()
            raise Unsupported("array of %r" % a)
        if isinstance(a, numpy.ndarray):
            return a.copy()
        if isinstance(a, Seq) and a.segs is not None:
            return as_symarr(a)
        if isinstance(a, SymIter):
            return as_symarr(Seq.from_segs([a]))
        if isinstance(a, (list, tuple)):
            o = oarr(a)
            if o is None:
                return as_symarr(stack_sym(a))
            if o.dtype == object and all(not isinstance(v, (Rat, Opaque)) for v in o.flat):
                try:
                    if all(isinstance(v, (int, float, numpy.number)) and not isinstance(v, bool) for v in o.flat):
                        oo = numpy.empty(o.shape, dtype=object)
                        for i in numpy.ndindex(*o.shape):
                            oo[i] = Rat.of(o[i]) if not isinstance(o[i], (int, numpy.integer)) else int(o[i])
                        return oo
                except Unsupported:
                    pass
            return o
        if isinstance(a, Rat):
            return oarr(a)
        return NI

    def stack_sym(a):
        parts = [as_symarr(stack_sym(x)) if isinstance(x, (list, tuple)) and getattr(x, "segs", None) is None and oarr(x) is None else as_symarr(x) for x in a]
        sh = parts[0].shape

        def fn(idx):
            i = Rat.of(idx[0])
            if i.concrete() is not None:
                return parts[i.__index__()].at(idx[1:])
            for j in range(len(parts)):
                if ip.truth(i == j):
                    return parts[j].at(idx[1:])
            raise IndexError
        return SymArr((len(parts),) + tuple(sh), fn)

    @reg(numpy.dot, numpy.matmul, numpy.inner)
    def _dot(a, b):
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            return sym_dot(a, b)
        if not (hasrat(a) or hasrat(b)):
            return NI
        A, B = oarr(a), oarr(b)
        if A is None or B is None:
            return sym_dot(a, b)
        r = numpy.dot(A.astype(object), B.astype(object))
        return r

    @reg(numpy.linalg.matrix_power)
    def _mpow(a, e):
        if isinstance(a, matrix.Mat):
            return a.power(e)
        if not anysym(a, e):
            return NI
        e = Rat.of(e).concrete()
        if e is None or e < 0 or isinstance(a, SymArr):
            raise Unsupported("matrix power")
        r = filled(0)(numpy.shape(a))
        for i in range(len(r)):
            r[i, i] = Rat.of(1)
        for _ in range(int(e)):
            r = _dot(r, a)
        return r

    @reg(numpy.outer)
    def _outer(a, b):
        if not (hasrat(a) or hasrat(b)):
            return NI
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            a, b = [x.flatten() if x.ndim != 1 else x for x in (as_symarr(a).frozen(), as_symarr(b).frozen())]
            return SymArr((a.shape[0], b.shape[0]), lambda i: a.at((i[0],)) * b.at((i[1],)))
        A, B = oarr(a).ravel(), oarr(b).ravel()
        o = numpy.empty((len(A), len(B)), dtype=object)
        for i in range(len(A)):
            for j in range(len(B)):
                o[i, j] = A[i] * B[j]
        return o

    @reg(numpy.multiply)
    def _mul(a, b):
        return ip.binop(__import__("ast").Mult, oarr(a) if isinstance(a, (list, tuple)) and oarr(a) is not None else a, oarr(b) if isinstance(b, (list, tuple)) and oarr(b) is not None else b)

    @reg(numpy.add)
    def _add(a, b):
        return ip.binop(__import__("ast").Add, oarr(a) if isinstance(a, (list, tuple)) else a, oarr(b) if isinstance(b, (list, tuple)) else b)

    @reg(numpy.subtract)
    def _sub(a, b):
        return ip.binop(__import__("ast").Sub, oarr(a) if isinstance(a, (list, tuple)) else a, oarr(b) if isinstance(b, (list, tuple)) else b)

    @reg(numpy.transpose)
    def _tr(a, axes=None):
        if not isinstance(a, SymArr) and oarr(a) is None:
            a = as_symarr(a)
        if isinstance(a, SymArr):
            return a.T if axes is None else a.transpose(*axes)
        return numpy.transpose(oarr(a), axes)

    @reg(numpy.reshape)
    def _rs(a, shape, *r, **k):
        sh = shape_of(shape)
        if not isinstance(a, SymArr) and oarr(a) is None:
            a = as_symarr(a)
        if isinstance(a, SymArr):
            return values.sym_reshape(a, sh)
        return numpy.reshape(oarr(a), tuple(int(x) for x in sh))

    @reg(numpy.ravel)
    def _rv(a):
        if not isinstance(a, SymArr) and oarr(a) is None:
            a = as_symarr(a)
        if isinstance(a, SymArr):
            return a.ravel()
        return numpy.ravel(oarr(a))

    @reg(numpy.shape)
    def _shape(a):
        return a.shape if isinstance(a, SymArr) else numpy.shape(oarr(a))

    @reg(numpy.take)
    def _take(a, items, axis=None):
        if isinstance(a, SymArr) or isinstance(items, (SymArr, SymIter)) or (isinstance(items, Seq) and items.segs is not None):
            a = as_symarr(a).frozen()
            ax = 0 if axis is None else int(axis)
            if isinstance(items, (list, tuple)) and not (isinstance(items, Seq) and items.segs is not None):
                it = list(items)
                f = lambda i: it[i.__index__()] if Rat.of(i).concrete() is not None else as_symarr(it).at((i,))    # noqa: E731
                n = len(it)
            else:
                ia = as_symarr(Seq.from_segs(to_segs(items)))
                f, n = (lambda i: ia.at((i,))), ia.shape[0]
            sh = a.shape[:ax] + (n,) + a.shape[ax + 1:]
            return SymArr(sh, lambda idx: a.at(idx[:ax] + (f(Rat.of(idx[ax])),) + idx[ax + 1:]))
        return numpy.take(oarr(a), [int(i) for i in items], axis)

    @reg(numpy.concatenate)
    def _cat(xs, axis=0):
        xs = list(xs)
        if any(isinstance(x, SymArr) for x in xs):
            xs = [as_symarr(x).frozen() for x in xs]
            n = Rat.of(0)
            offs = []
            for x in xs:
                offs.append(n)
                n = n + x.shape[axis]

            def fn(idx):
                i = Rat.of(idx[axis])
                for x, o in zip(xs, offs):
                    if ip.truth(i < o + x.shape[axis]):
                        return x.at(idx[:axis] + (i - o,) + idx[axis + 1:])
                raise IndexError
            return SymArr(xs[0].shape[:axis] + (n,) + xs[0].shape[axis + 1:], fn)
        return numpy.concatenate([oarr(x) for x in xs], axis)

    @reg(numpy.vstack)
    def _vstack(xs):
        xs = [x if isinstance(x, SymArr) else oarr(x) for x in xs]
        if any(isinstance(x, SymArr) for x in xs):
            return _cat([as_symarr(x) if as_symarr(x).ndim > 1 else as_symarr(x)[None, :] for x in xs], 0)
        return numpy.vstack(xs)

    @reg(numpy.hstack)
    def _hstack(xs):
        xs = [x if isinstance(x, SymArr) else numpy.atleast_1d(oarr(x)) for x in xs]
        if any(isinstance(x, SymArr) for x in xs):
            return _cat(xs, 0 if as_symarr(xs[0]).ndim == 1 else 1)
        return numpy.hstack(xs)

    @reg(numpy.prod)
    def _prod(a, *x, **k):
        if isinstance(a, (list, tuple, SymIter)) and not x and not k:
            segs = ip.iter_segs(a)
            if any(isinstance(g, SymIter) for g in segs):
                raise Unsupported("product over a symbolic list")
            r = 1
            for g in segs:
                for v in g[1]:
                    r = r * v
            return r
        if isinstance(a, numpy.ndarray) and not x and not k:
            r = 1
            for v in a.flat:
                r = r * v
            return r
        return NI

    @reg(numpy.sum)
    def _nsum(a, axis=None, **k):
        if isinstance(a, SymArr):
            if axis is None and a.ndim == 1:
                return values.total(a.shape[0], lambda q: a.at((q,)))
            if axis is not None:
                ax = int(axis) % a.ndim
                return SymArr(a.shape[:ax] + a.shape[ax + 1:], lambda idx: values.total(a.shape[ax], lambda q: a.at(idx[:ax] + (q,) + idx[ax:])))
            raise Unsupported("sum of an array")
        o = oarr(a)
        if o is None:
            return _nsum(as_symarr(a), axis)
        return numpy.sum(o.astype(object), axis)

    @reg(numpy.linalg.norm)
    def _norm(a, *x, **k):
        if not hasrat(a):
            return NI
        o = oarr(a)
        if o is None or x or k:
            raise Unsupported("norm")
        return sym.sqrt(sum((v * v for v in o.flat), Rat.of(0)))

    @reg(numpy.cross)
    def _cross(a, b):
        if not (hasrat(a) or hasrat(b)):
            return NI
        a, b = oarr(a), oarr(b)
        if len(a) == 3:
            r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
            return oarr(r)
        raise Unsupported("cross product")

    @reg(numpy.linalg.det)
    def _det(a):
        if not hasrat(a):
            return NI
        a = oarr(a)
        return det([[a[i, j] for j in range(a.shape[1])] for i in range(a.shape[0])])

    @reg(numpy.linalg.inv)
    def _inv(a):
        if isinstance(a, SymArr):
            h = getattr(ip, "inv_contract", None)
            if h is None:
                raise Unsupported("inverse of a matrix of symbolic size")
            return h(a)
        if not hasrat(a):
            return NI
        return inverse(oarr(a))

    @reg(numpy.linalg.svd)
    def _svd(a, full_matrices=True, *x, **k):
        if not (symbolic(a) or isinstance(a, SymArr)):
            return NI
        h = getattr(ip, "svd_contract", None)
        if h is None or x or k:
            raise Unsupported("singular value decomposition")
        return h(a if isinstance(a, SymArr) else as_symarr(a), full_matrices)

    @reg(numpy.linalg.solve)
    def _solve(a, b):
        if isinstance(a, SymArr) or isinstance(b, SymArr):
            h = getattr(ip, "solve_contract", None)
            if h is None:
                raise Unsupported("solve with a matrix of symbolic size")
            return h(as_symarr(a), as_symarr(b))
        if not (hasrat(a) or hasrat(b)):
            return NI
        return numpy.dot(inverse(oarr(a)), oarr(b).astype(object))

    def inverse(a):
        n = a.shape[0]
        if a.shape != (n, n):
            raise numpy.linalg.LinAlgError("Last 2 dimensions of the array must be square")
        M = [[Rat.of(a[i, j]) for j in range(n)] for i in range(n)]
        d = Rat.of(det(M))
        c = d.concrete()
        if c == 0:
            raise numpy.linalg.LinAlgError("Singular matrix")
        if c is None and ip.truth(d == 0):
            raise numpy.linalg.LinAlgError("Singular matrix")
        out = numpy.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = [[M[r][s] for s in range(n) if s != i] for r in range(n) if r != j]
                out[i, j] = (Rat.of(det(m)) * ((-1) ** (i + j))) / d
        return out

    @reg(numpy.allclose, numpy.isclose)
    def _allclose(a, b, *x, **k):
        if not (anysym(a, b)):
            return NI
        h = getattr(ip, "allclose_contract", None)
        if h is not None:
            return h(a, b)
        raise Unsupported("approximate comparison")

    @reg(numpy.einsum)
    def _einsum(spec, *ops):
        ins, out = spec.replace(" ", "").split("->")
        ops = [as_symarr(o).frozen() for o in ops]
        ins = ins.split(",")
        dims = {}
        for s, o in zip(ins, ops):
            for ch, n in zip(s, o.shape):
                dims.setdefault(ch, n)
        red = [ch for ch in dims if ch not in out]

        def fn(idx):
            env = dict(zip(out, idx))

            def rec(r, env):
                if not r:
                    p = Rat.of(1)
                    for s, o in zip(ins, ops):
                        p = p * o.at(tuple(env[ch] for ch in s))
                    return p
                return values.total(dims[r[0]], lambda q: rec(r[1:], dict(env, **{r[0]: q})))
            return rec(red, env)
        if not out:
            return fn(())
        return SymArr(tuple(dims[ch] for ch in out), fn)

    @reg(numpy.polynomial.legendre.legval)
    def _legval(x, c, *a, **k):
        if a or k or not (anysym(x, c) or hasrat(x)):
            return NI
        terms, off = [], Rat.of(0)
        for g in ip.iter_segs(c):
            if isinstance(g, SymIter):
                q = sym.fresh("q")
                if g.flat or not Rat.of(g.fn(q)).const() == 0:
                    raise Unsupported("series of symbolic length")
                off = off + g.n
            else:
                for v in g[1]:
                    if not (Rat.of(v).const() == 0):
                        terms.append((Rat.of(v), off))
                    off = off + 1
        f = lambda y: sum((v * sym.app("Legendre", m, y) for v, m in terms), Rat.of(0))    # noqa: E731
        if isinstance(x, Rat):
            return f(x)
        x = as_symarr(x)
        return SymArr(x.shape, lambda idx: f(Rat.of(x.at(idx))))

    @reg(numpy.where)
    def _where(*a):
        if anysym(*a):
            raise Unsupported("numpy.where")
        return NI

    @reg(numpy.copy)
    def _copy(a):
        return a.copy() if isinstance(a, (SymArr, numpy.ndarray)) else oarr(a)

    @reg(numpy.arange)
    def _arange(*a, **k):
        if anysym(*a):
            return as_symarr(Seq.from_segs([symrange(*a)]))
        return NI

    @reg(numpy.ndindex)
    def _ndindex(*a):
        if len(a) == 1 and isinstance(a[0], tuple):
            a = a[0]
        if anysym(*a):
            return _product(*[symrange(x) if isinstance(x, Rat) else range(x) for x in a])
        return Seq(list(numpy.ndindex(*[int(x) for x in a])))
    return T


def det(m):
    n = len(m)
    if n == 0:
        return Rat.of(1)
    if n == 1:
        return m[0][0]
    s = Rat.of(0)
    for j in range(n):
        c = Rat.of(m[0][j])
        if c.concrete() == 0:
            continue
        s = s + c * det([[m[i][k] for k in range(n) if k != j] for i in range(1, n)]) * (-1 if j % 2 else 1)
    return s


def values_nat(x):
    from vlib.pyvc.interp import nat
    return nat(x)
