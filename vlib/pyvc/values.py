"""Containers of symbolic size: sequences made of segments, lazily evaluated
arrays of symbolic shape, tables with a data invariant, opaque objects whose
behaviour is given by a contract."""
import itertools
import math
import types

import numpy

from vlib.pyvc import sym
from vlib.pyvc.sym import Rat, SymBool, Unsupported, band, bor, bnot, sem

_stamp = itertools.count(1)


def stamp():
    return next(_stamp)


class Opaque(object):
    """A value of which only contract-given facts are known."""

    def __init__(self, kind, args=(), attrs=None):
        self.__dict__["_kind"], self.__dict__["_args"] = kind, tuple(args)
        self.__dict__["_attrs"] = dict(attrs or {})

    def __getattr__(self, n):
        if n.startswith("_sym") or n.startswith("__"):
            raise AttributeError(n)
        a = self.__dict__["_attrs"]
        if n in a:
            return a[n]
        raise Unsupported("no contract for attribute %r of %s" % (n, self._kind))

    def __setattr__(self, n, v):
        self.__dict__["_attrs"][n] = v

    def __repr__(self):
        return "<%s %s>" % (self._kind, ", ".join(map(str, self._args)))

    def __bool__(self):
        raise Unsupported("truth value of opaque %s" % self._kind)


def subst(v, m, memo=None):
    """Replace symbols (dict atom idx -> Rat) in a value."""
    if isinstance(v, Rat):
        return v.subs(m)
    if isinstance(v, (int, float, str, bytes, type(None), bool, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
        return v
    if isinstance(v, SymBool):
        e = v.e
        if e[0] == "cmp":
            return Rat._cmp(e[2].subs(m), 0, e[1])
        if e[0] == "not":
            return bnot(subst(e[1], m))
        if e[0] in ("and", "or"):
            return (band if e[0] == "and" else bor)(*[subst(x, m) for x in e[1]])
        raise Unsupported("substitution in %s" % e[0])
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)][1]

    def put(new):
        memo[id(v)] = (v, new)
        return new
    if isinstance(v, Seq):
        s = put(Seq())
        if v.segs is None:
            list.extend(s, [subst(x, m, memo) for x in list.__iter__(v)])
        else:
            s.segs = [_subst_seg(g, m, memo) for g in v.segs]
        return s
    if isinstance(v, tuple):
        return put(tuple(subst(x, m, memo) for x in v))
    if isinstance(v, list):
        return put([subst(x, m, memo) for x in v])
    if isinstance(v, SDict):
        d = put(SDict())
        for k, x in dict.items(v):
            dict.__setitem__(d, subst(k, m, memo), subst(x, m, memo))
        d.gens = [_subst_seg(g, m, memo) for g in v.gens]
        return d
    if isinstance(v, dict):
        return put({subst(k, m, memo): subst(x, m, memo) for k, x in v.items()})
    if isinstance(v, set):
        return put({subst(k, m, memo) for k in v})
    if isinstance(v, numpy.ndarray):
        if v.dtype != object:
            return v
        out = numpy.empty(v.shape, dtype=object)
        for i in numpy.ndindex(*v.shape):
            out[i] = subst(v[i], m, memo)
        return put(out)
    if isinstance(v, SymArr):
        if hasattr(v, "substituted"):
            return put(v.substituted(m))
        if type(v) is SymArr:
            fn = v.fn
            return put(SymArr(tuple(subst(s, m, memo) for s in v.shape), lambda idx, fn=fn: _subst_after(fn, idx, m)))
        return v
    if isinstance(v, SymIter):
        return put(_subst_seg(v, m, memo))
    if isinstance(v, Opaque):
        o = Opaque(v._kind)
        put(o)
        o.__dict__["_args"] = tuple(subst(x, m, memo) for x in v._args)
        o.__dict__["_attrs"] = {k: subst(x, m, memo) for k, x in v._attrs.items()}
        return o
    if hasattr(v, "__dict__") and type(v).__module__.startswith("FIAT"):
        if not depends(v, set(m)):
            return put(v)
        o = object.__new__(type(v))
        put(o)
        for k, x in v.__dict__.items():
            o.__dict__[k] = subst(x, m, memo)
        return o
    if not depends(v, set(m)):
        return put(v)
    raise Unsupported("substitution in a %s" % type(v).__name__)


def _subst_after(fn, idx, m):
    """value of fn at idx with m applied to everything but idx."""
    ph = {}
    back = {}
    nidx = []
    for i in idx:
        i = Rat.of(i)
        if i.atoms() & set(m):
            f = sym.fresh("h")
            a, = f.atoms()
            back[a] = i
            nidx.append(f)
        else:
            nidx.append(i)
    r = subst(fn(tuple(nidx)), m)
    return subst(r, back) if back else r


def _subst_seg(g, m, memo=None):
    if isinstance(g, SymIter):
        fn = g.fn
        return SymIter(subst(g.n, m), lambda k, fn=fn: subst_fn(fn, k, m), g.flat)
    return ("items", [subst(x, m, memo) for x in g[1]])


def subst_fn(fn, k, m):
    k = Rat.of(k)
    if k.atoms() & set(m):
        f = sym.fresh("h")
        a, = f.atoms()
        return subst(subst(fn(f), m), {a: k})
    return subst(fn(k), m)


def depends(v, at, seen=None):
    """Does value v mention one of the atoms (all if at is None)?"""
    if isinstance(v, Rat):
        return bool(v.atoms() & at) if at is not None else not v.is_const()
    if isinstance(v, (int, float, str, bytes, type(None), bool, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
        return False
    if isinstance(v, SymBool):
        if at is None:
            return True
        e = v.e
        if e[0] == "cmp":
            return bool(e[2].atoms() & at)
        if e[0] == "not":
            return depends(e[1], at)
        if e[0] in ("and", "or"):
            return any(depends(x, at) for x in e[1])
        return True
    seen = set() if seen is None else seen
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Seq):
        if v.segs is not None:
            if at is None:
                return True
            return any(depends(g.n, at, seen) or depends(g.probe(), at, seen) if isinstance(g, SymIter) else depends(g[1], at, seen) for g in v.segs)
        return any(depends(x, at, seen) for x in list.__iter__(v))
    if isinstance(v, (tuple, list, set, frozenset)):
        return any(depends(x, at, seen) for x in v)
    if isinstance(v, SDict):
        if v.gens:
            return at is None or any(depends(g.n, at, seen) or depends(g.probe(), at, seen) for g in v.gens)
        return any(depends(k, at, seen) or depends(x, at, seen) for k, x in v.items())
    if isinstance(v, dict):
        return any(depends(k, at, seen) or depends(x, at, seen) for k, x in v.items())
    if isinstance(v, numpy.ndarray):
        return v.dtype == object and any(depends(x, at, seen) for x in v.flat)
    if isinstance(v, SymIter):
        return True if at is None else depends(v.n, at, seen) or depends(v.probe(), at, seen)
    if isinstance(v, SymArr):
        return True if at is None else depends(v.probe(), at, seen)
    if isinstance(v, Opaque):
        return True if at is None else depends(v._args, at, seen) or depends(v._attrs, at, seen)
    f = getattr(v, "_symbolic_parts", None)
    if f is not None:
        return depends(f(), at, seen)
    if isinstance(v, types.MethodType):
        return depends(v.__self__, at, seen)
    if hasattr(v, "__dict__") and type(v).__module__.startswith("FIAT"):
        return any(depends(x, at, seen) for x in v.__dict__.values())
    return False


def symbolic(v):
    return depends(v, None)


class SymIter(object):
    """n items, item k is fn(k) (a list of segments if flat)."""

    def __init__(self, n, fn, flat=False):
        self.n, self.fn, self.flat = Rat.of(n), fn, flat
        self._probe = None

    def probe(self):
        if self._probe is None:
            k = sym.fresh("probe")
            self._probe = (k, self.fn(k))
        return self._probe[1]

    def count(self):
        if not self.flat:
            return self.n
        k = sym.fresh("cnt")
        a, = k.atoms()
        return sym.poly_sum(Rat.of(segs_len(self.fn(k))), a, Rat.of(0), self.n)

    def __repr__(self):
        k = sym.isym("_")
        return "[%s for _ < %s]" % (self.fn(k), self.n)


def symrange(*a):
    a = [Rat.of(x) for x in a]
    if len(a) == 1:
        a = [Rat.of(0), a[0]]
    lo, hi = a[0], a[1]
    if len(a) == 3:
        s = a[2].concrete()
        if s == -1:
            return SymIter(lo - hi, lambda k: lo - k)
        if s != 1:
            raise Unsupported("symbolic range with step %s" % a[2])
    return SymIter(hi - lo, lambda k: lo + k)


def segs_len(segs):
    n = Rat.of(0)
    for g in segs:
        n = n + (g.count() if isinstance(g, SymIter) else len(g[1]))
    c = n.concrete()
    return n if c is None else c


CURRENT = {}       # "journal": list of journals (dict(stamp, events, touched))


def _journal(obj, write=True):
    j = CURRENT.get("journal")
    if j and obj.stamp < j[-1]["stamp"]:
        if write and id(obj) in j[-1].get("rd", ()):
            raise Unsupported("a container is read and then modified in the same symbolic loop")
        return j[-1]
    return None


def note_read(obj):
    for j in CURRENT.get("journal") or ():
        if obj.stamp < j["stamp"]:
            j.setdefault("rd", set()).add(id(obj))


class Seq(list):
    """A list as seen by interpreted code; concrete unless segs is not None."""

    def __init__(self, it=()):
        list.__init__(self, it)
        self.segs = None
        self.stamp = stamp()

    __hash__ = None

    @staticmethod
    def from_segs(segs):
        s = Seq()
        segs = [g for g in segs if isinstance(g, SymIter) or g[1]]
        if all(not isinstance(g, SymIter) for g in segs):
            for g in segs:
                list.extend(s, g[1])
        else:
            s.segs = segs
        return s

    def as_segs(self):
        self._read()
        return list(self.segs) if self.segs is not None else ([("items", list(list.__iter__(self)))] if list.__len__(self) else [])

    def _read(self):
        for j in CURRENT.get("journal") or ():
            if id(self) in j["touched"]:
                raise Unsupported("a list is read and extended in the same symbolic loop")
        note_read(self)

    def add_segs(self, segs):
        j = _journal(self)
        if j is not None:
            j["events"].append(("extend", self, segs))
            j["touched"].add(id(self))
            return
        if self.segs is None and all(not isinstance(g, SymIter) for g in segs):
            for g in segs:
                list.extend(self, g[1])
            return
        new = self.as_segs() + list(segs)
        list.clear(self)
        out = []
        for g in new:
            if out and not isinstance(g, SymIter) and not isinstance(out[-1], SymIter):
                out[-1] = ("items", out[-1][1] + list(g[1]))
            else:
                out.append(g)
        self.segs = out

    def append(self, v):
        self.add_segs([("items", [v])])

    def extend(self, it):
        self.add_segs(to_segs(it))

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        if isinstance(o, (SymArr, numpy.ndarray)):
            return NotImplemented
        r = Seq()
        r.add_segs(self.as_segs())
        r.add_segs(to_segs(o))
        return r

    def __radd__(self, o):
        r = Seq()
        r.add_segs(to_segs(o))
        r.add_segs(self.as_segs())
        return r

    def __mul__(self, n):
        if isinstance(n, (SymArr, numpy.ndarray)):
            return NotImplemented
        c = Rat.of(n).concrete()
        if c is not None and self.segs is None:
            return Seq(list(list.__iter__(self)) * int(c))
        if self.segs is None and list.__len__(self) == 1:
            v = self[0]
            if isinstance(v, (str, bool)):
                n = Rat.of(n)
                return Seq.from_segs([SymIter(n, lambda k: v)]) if bool(n >= 0) else Seq()
            t = make_table((Rat.of(n),), v)
            if type(t) is Store:
                t.is_list = True
            return t
        raise Unsupported("repetition of a symbolic list")
    __rmul__ = __mul__

    def length(self):
        self._read()
        return list.__len__(self) if self.segs is None else segs_len(self.segs)

    def __len__(self):
        n = self.length()
        if isinstance(n, Rat):
            raise Unsupported("len() of a symbolic list in native code")
        return n

    def __iter__(self):
        self._read()
        if self.segs is not None:
            raise Unsupported("native iteration over a list of symbolic length")
        return list.__iter__(self)

    def __bool__(self):
        n = self.length()
        return bool(n > 0) if isinstance(n, Rat) else n > 0

    def _last_appended(self):
        """(item,) when the loop body under way appended the last item"""
        for j in reversed(CURRENT.get("journal") or ()):
            if id(self) in j["touched"]:
                ev = [e for e in j["events"] if any(x is self for x in e)]
                if ev and ev[-1][0] == "extend" and ev[-1][2] and not isinstance(ev[-1][2][-1], SymIter) and ev[-1][2][-1][1]:
                    return (ev[-1][2][-1][1][-1],)
                return None
        return None

    def __getitem__(self, i):
        if not isinstance(i, slice) and isinstance(i, (int, Rat)) and Rat.of(i).concrete() == -1:
            last = self._last_appended()
            if last is not None:
                return last[0]
        self._read()
        if self.segs is None and not isinstance(i, Rat):
            if isinstance(i, slice):
                return Seq(list.__getitem__(self, i))
            return list.__getitem__(self, i)
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                return Seq.from_segs(self.as_segs())
            return seq_slice(self, i)
        return seq_at(self, Rat.of(i))

    def __setitem__(self, i, v):
        if self.segs is None and (not isinstance(i, Rat) or i.concrete() is not None):
            if _journal(self) is not None:
                raise Unsupported("list item assigned in a symbolic loop")
            return list.__setitem__(self, int(i) if isinstance(i, Rat) else i, v)
        raise Unsupported("item assignment in a symbolic list")

    def pop(self, *a):
        if self.segs is not None or _journal(self) is not None:
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, *a)

    def insert(self, i, v):
        if self.segs is not None or _journal(self) is not None:
            raise Unsupported("insert into a symbolic list")
        return list.insert(self, i, v)

    def sort(self, *a, **k):
        if _journal(self) is not None:
            raise Unsupported("sort of a symbolic list")
        if self.segs is not None:
            if a or k:
                raise Unsupported("sort of a symbolic list with a key")
            self._read()
            self.segs = sorted_segs(self.segs)
            return None
        return list.sort(self, *a, **k)

    def remove(self, v):
        if self.segs is not None or _journal(self) is not None:
            raise Unsupported("remove from a symbolic list")
        return list.remove(self, v)

    def reverse(self):
        raise Unsupported("reverse")

    def __eq__(self, o):
        if self.segs is None and not (isinstance(o, Seq) and o.segs is not None):
            return list.__eq__(self, o)
        raise Unsupported("comparison of symbolic lists")

    def __ne__(self, o):
        return not self == o

    def __contains__(self, x):
        self._read()
        if self.segs is None:
            return list.__contains__(self, x)
        raise Unsupported("membership in a symbolic list")

    def copy(self):
        return Seq.from_segs(self.as_segs())

    def __repr__(self):
        return list.__repr__(self) if self.segs is None else "Seq%r" % (self.segs,)


def to_segs(it):
    if isinstance(it, Seq):
        return it.as_segs()
    if isinstance(it, SymIter):
        return [it]
    if isinstance(it, SymArr):
        return [SymIter(it.shape[0], lambda k: it[k])] if it.shape else []
    return [("items", list(it))]


def sorted_segs(segs):
    """Disjoint integer ranges in increasing order."""
    iv = []
    for g in segs:
        if isinstance(g, SymIter):
            j = sym.fresh("k")
            s = None if g.flat else Rat.of(g.fn(Rat.of(0)))
            if s is None or (Rat.of(g.fn(j)) - s - j).const() != 0:
                raise Unsupported("sort of a symbolic list")
            iv.append((s, g.n))
        else:
            iv += [(Rat.of(x), Rat.of(1)) for x in g[1]]
    iv = [x for x in iv if not bool(x[1] <= 0)]
    out = []
    for x in iv:
        i = 0
        while i < len(out) and bool(out[i][0] <= x[0]):
            i += 1
        out.insert(i, x)
    for x, y in zip(out, out[1:]):
        if not bool(x[0] + x[1] <= y[0]):
            raise Unsupported("sort of overlapping ranges")
    return [SymIter(n, lambda k, s=s: s + k) for s, n in out]


def seq_at(s, i, inside=False):
    """Item at a (possibly symbolic) index; negative concrete indices from the
    end.  inside: the index is known to be in range."""
    c = i.concrete()
    n = Rat.of(s.length())
    if c is not None and c < 0:
        i = n + c
    off = Rat.of(0)
    segs = s.as_segs()
    if len(segs) > 1:
        same = uniform(segs)
        if same and (inside or (i >= 0) and (i < n)):
            return same[0]
    for g in segs:
        if isinstance(g, SymIter):
            cnt = g.count()
            if (inside and g is segs[-1]) or (inside or i - off >= 0) and (i - off < cnt):
                if g.flat:
                    m = Rat.of(segs_len(g.fn(sym.fresh("k"))))
                    if m.atoms() - g.n.atoms() - _env_atoms(g):
                        raise Unsupported("index into a nested symbolic list")
                    q, r = div_split(Rat.of(i - off), m)
                    return seq_at(Seq.from_segs(g.fn(Rat.of(q))), Rat.of(r), inside=True)
                return g.fn(i - off)
            off = off + cnt
        else:
            for v in g[1]:
                if i == off:
                    return v
                off = off + 1
    raise sem(IndexError("list index out of range"))


def _env_atoms(g):
    """atoms of the length of the inner lists that do not depend on the outer index"""
    a = Rat.of(segs_len(g.fn(sym.fresh("k")))).atoms()
    return a & Rat.of(segs_len(g.fn(sym.fresh("k")))).atoms()


def uniform(segs):
    """[v] when every item of the list is the same string"""
    v = None
    for g in segs:
        if isinstance(g, SymIter):
            if g.flat:
                return None
            xs = [g.fn(sym.fresh("k"))]
        else:
            xs = g[1]
        for x in xs:
            if not isinstance(x, str) or v is not None and x != v:
                return None
            v = x
    return [v] if v is not None else None


def turned(g):
    if not isinstance(g, SymIter):
        return ("items", list(g[1])[::-1])
    if g.flat:
        return SymIter(g.n, lambda k: [turned(x) for x in reversed(g.fn(g.n - 1 - k))], True)
    return SymIter(g.n, lambda k: g.fn(g.n - 1 - k))


def seq_slice(s, sl):
    if sl.step is not None and Rat.of(sl.step).concrete() == -1 and sl.start is None and sl.stop is None:
        return Seq.from_segs([turned(g) for g in reversed(s.as_segs())])
    if sl.step is not None and Rat.of(sl.step).concrete() != 1:
        raise Unsupported("slice with a step")
    n = Rat.of(s.length())
    lo = Rat.of(0) if sl.start is None else Rat.of(sl.start)
    hi = n if sl.stop is None else Rat.of(sl.stop)
    if lo.concrete() is not None and lo.concrete() < 0:
        lo = n + lo
    if hi.concrete() is not None and hi.concrete() < 0:
        hi = n + hi
    if hi > n:
        hi = n
    if lo > hi:
        lo = hi
    out, off = [], Rat.of(0)
    for g in s.as_segs():
        parts = [g] if isinstance(g, SymIter) else [("items", [v]) for v in g[1]]
        for p in parts:
            cnt = p.count() if isinstance(p, SymIter) else Rat.of(1)
            a, b = off, off + cnt
            off = b
            if b <= lo or a >= hi:
                continue
            if a >= lo and b <= hi:
                out.append(p)
                continue
            if not isinstance(p, SymIter) or p.flat:
                raise Unsupported("slice through a nested list")
            s0 = lo - a if lo > a else Rat.of(0)
            e0 = hi - a if hi < b else cnt
            out.append(SymIter(e0 - s0, lambda k, f=p.fn, s0=s0: f(k + s0)))
    return Seq.from_segs(out)


def same_key(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not (isinstance(a, Seq) and a.segs is not None) and not (isinstance(b, Seq) and b.segs is not None):
        return len(a) == len(b) and all(same_key(x, y) for x, y in zip(a, b))
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return a is b
    ra, rb = Rat.of(a), Rat.of(b)
    if ra is None or rb is None:
        return False
    return (ra - rb).const() == 0


def match(pat, v, a):
    """value of atom a for which the pattern equals v, if it can be read off"""
    if isinstance(pat, (tuple, list)) and isinstance(v, (tuple, list)):
        if len(pat) != len(v):
            return None
        for x, y in zip(pat, v):
            m = match(x, y, a)
            if m is not None:
                return m
        return None
    if isinstance(pat, Opaque) and isinstance(v, Opaque):
        return match(pat._args, v._args, a) if pat._kind == v._kind else None
    p, q = Rat.of(pat), Rat.of(v)
    if p is None or q is None or a not in p.atoms():
        return None
    if not p.den and set(sym.split(p.num, a)) <= {0, 1} and sym.split(p.num, a).get(1) is not None and sym.split(p.num, a)[1].const() is not None:
        s = sym.split(p.num, a)
        return (q - Rat(s.get(0, sym.ZERO))) / s[1].const()
    # one application on each side
    for i in p.num.atoms():
        A = sym.ATOMS[i]
        if A.kind == "app" and any(isinstance(x, Rat) and a in x.atoms() for x in A.args):
            for j in q.num.atoms():
                B = sym.ATOMS[j]
                if B.kind == "app" and B.name == A.name and len(A.args) == len(B.args):
                    for x, y in zip(A.args, B.args):
                        m = match(x, y, a) if isinstance(x, Rat) else None
                        if m is not None:
                            return m
    return None


def _map_seg(g, f):
    if not isinstance(g, SymIter):
        return ("items", [f(x) for x in g[1]])
    if g.flat:
        return SymIter(g.n, lambda i: [_map_seg(h, f) for h in g.fn(i)], flat=True)
    return SymIter(g.n, lambda i: f(g.fn(i)))


class SDict(dict):
    """A dict as seen by interpreted code; gens are families of entries with
    pairwise distinct keys (an assumption stated by whoever creates them)."""

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.gens = []
        self.stamp = stamp()

    def __setitem__(self, k, v):
        j = _journal(self)
        if j is not None:
            ka = set(j["k"].atoms())
            for i, q in j.get("dreads", ()):
                if i == id(self) and not depends(k, ka) and same_key(q, k):
                    raise Unsupported("a dict entry is read and then written in the same symbolic loop")
            j["events"].append(("set", self, k, v))
            return
        if self.gens and symbolic(k):
            raise Unsupported("entry added to a symbolic dict")
        dict.__setitem__(self, k, v)

    def __len__(self):
        if self.gens:
            raise Unsupported("len of a symbolic dict in native code")
        return dict.__len__(self)

    def own_write(self, k):
        """value written under the same key earlier in the running iteration"""
        j = _journal(self, False)
        if j is None:
            return None
        for e in reversed(j["events"]):
            if e[0] == "set" and e[1] is self and same_key(e[2], k):
                return e
        j.setdefault("dreads", []).append((id(self), k))
        return None

    def length(self):
        n = Rat.of(dict.__len__(self))
        for g in self.gens:
            n = n + g.count()
        return n if n.concrete() is None else n.concrete()

    def _nogen(self):
        if self.gens:
            raise Unsupported("symbolic dict used in native code")

    def __iter__(self):
        self._nogen()
        return dict.__iter__(self)

    def seg_items(self):
        return ([("items", list(dict.items(self)))] if dict.__len__(self) else []) + list(self.gens)

    def items(self):
        return dict.items(self) if not self.gens else Seq.from_segs(self.seg_items())

    def add_gen(self, g):
        j = _journal(self)
        if j is not None:
            if any(i == id(self) for i, q in j.get("dreads", ())):
                raise Unsupported("a dict is read and then extended in the same symbolic loop")
            j["events"].append(("gen", self, g))
            return
        self.gens.append(g)

    def keys(self):
        if not self.gens:
            return dict.keys(self)
        return Seq.from_segs([_map_seg(g, lambda kv: kv[0]) for g in self.seg_items()])

    def values(self):
        if not self.gens:
            return dict.values(self)
        return Seq.from_segs([_map_seg(g, lambda kv: kv[1]) for g in self.seg_items()])

    def update(self, o=(), **kw):
        if _journal(self) is not None:
            raise Unsupported("dict update in a symbolic loop")
        dict.update(self, o, **kw)

    def setdefault(self, k, d=None):
        if _journal(self) is not None or self.gens:
            raise Unsupported("setdefault in a symbolic loop")
        return dict.setdefault(self, k, d)

    def pop(self, *a):
        if _journal(self) is not None or self.gens:
            raise Unsupported("pop in a symbolic loop")
        return dict.pop(self, *a)


# --------------------------------------------------------------------- arrays
def _bshape(a, b):
    out = []
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    for x, y in zip(a, b):
        cx, cy = Rat.of(x).concrete(), Rat.of(y).concrete()
        if cx == 1:
            out.append(y)
        elif cy == 1:
            out.append(x)
        else:
            d = Rat.of(x) - Rat.of(y)
            if d.const() == 0 or bool(d == 0):
                out.append(x)
            else:
                raise ValueError("operands could not be broadcast together")
    return tuple(out)


def _bidx(shape, idx):
    idx = idx[len(idx) - len(shape):]
    return tuple(0 if Rat.of(s).concrete() == 1 else i for s, i in zip(shape, idx))


class SymArr(object):
    """An array of (possibly) symbolic shape given by a function of the index."""
    __array_priority__ = 2000

    def __init__(self, shape, fn, dtype=None):
        self.shape = tuple(s if Rat.of(s).concrete() is None else Rat.of(s).concrete() for s in shape)
        self.fn = fn
        self.dtype = dtype or float
        self._probe = None

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        n = 1
        for s in self.shape:
            n = n * s
        return n

    def probe(self):
        if self._probe is None:
            self._probe = (self.shape, self.fn(tuple(sym.fresh("probe") for _ in self.shape)))
        return self._probe

    def length(self):
        return self.shape[0]

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, Rat):
            raise Unsupported("native len of a symbolic array")
        return n

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, Rat):
            raise Unsupported("native iteration over a symbolic array")
        return iter([self[i] for i in range(n)])

    @property
    def T(self):
        return SymArr(self.shape[::-1], lambda idx: self.fn(tuple(idx)[::-1]))

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            return self.T
        axes = [int(a) for a in axes]
        return SymArr(tuple(self.shape[a] for a in axes), lambda idx: self.fn(tuple(idx[axes.index(i)] for i in range(len(axes)))))

    def copy(self):
        return SymArr(self.shape, self.fn)

    def astype(self, *a, **k):
        return self

    def tolist(self):
        if len(self.shape) != 1:
            raise Unsupported("tolist of a symbolic array of several axes")
        n = self.shape[0]
        if not isinstance(n, Rat):
            return [self.fn((i,)) for i in range(n)]
        return Seq.from_segs([SymIter(n, lambda k: self.fn((k,)))])

    def norm_index(self, key):
        """-> (result shape, function result idx -> base idx)"""
        if isinstance(key, Placed):
            return key.shape, key.back
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            n = self.ndim - sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:i] + (slice(None),) * n + key[i + 1:]
        n = sum(1 for k in key if k is not None)
        key = key + (slice(None),) * (self.ndim - n)
        shape, maps, ax = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            s = self.shape[ax]
            if isinstance(k, slice):
                lo = Rat.of(0 if k.start is None else k.start)
                hi = Rat.of(s if k.stop is None else k.stop)
                st = 1 if k.step is None else Rat.of(k.step).concrete()
                if lo.concrete() is not None and lo.concrete() < 0:
                    lo = Rat.of(s) + lo
                if hi.concrete() is not None and hi.concrete() < 0:
                    hi = Rat.of(s) + hi
                if st == -1 and k.start is None and k.stop is None:
                    maps.append(("rev", len(shape), Rat.of(s)))
                    shape.append(s)
                    ax += 1
                    continue
                if st != 1:
                    raise Unsupported("array slice with a step")
                if k.stop is not None and (Rat.of(hi) - Rat.of(s)).const() is None:
                    if hi > s:
                        hi = Rat.of(s)
                elif k.stop is not None and (Rat.of(hi) - Rat.of(s)).const() > 0:
                    hi = Rat.of(s)
                maps.append(("sl", len(shape), lo))
                d = hi - lo
                if d.concrete() is not None and d.concrete() < 0:
                    d = Rat.of(0)
                shape.append(d if d.concrete() is None else d.concrete())
            elif isinstance(k, (int, numpy.integer, Rat)):
                k = Rat.of(k)
                if k.concrete() is not None and k.concrete() < 0:
                    k = Rat.of(s) + k
                maps.append(("ix", k, None))
            elif isinstance(k, (Seq, SymArr, list, tuple)) and not any(m[0] == "fa" for m in maps):
                fa = as_symarr(k).frozen()
                if fa.ndim != 1:
                    raise Unsupported("array index")
                maps.append(("fa", len(shape), fa))
                shape.append(fa.shape[0])
            else:
                raise Unsupported("array index of type %s" % type(k).__name__)
            ax += 1

        def back(idx):
            out = []
            for m in maps:
                if m[0] == "ix":
                    out.append(m[1])
                elif m[0] == "fa":
                    out.append(m[2].at((idx[m[1]],)))
                elif m[0] == "sl":
                    out.append(Rat.of(idx[m[1]]) + m[2])
                else:
                    out.append(m[2] - 1 - Rat.of(idx[m[1]]))
            return tuple(out)
        # positions in result index are those of the kept axes
        return tuple(shape), back

    def __getitem__(self, key):
        shape, back = self.norm_index(key)
        if not shape:
            return self.at(back(()))
        return SymArr(shape, lambda idx: self.at(back(idx)))

    def at(self, idx):
        return self.fn(tuple(idx))

    def frozen(self):
        """the same values, not affected by later writes"""
        return self

    def _ew(self, o, op, swap=False):
        self = self.frozen()
        if isinstance(o, SymArr):
            o = o.frozen()
            os, of = o.shape, o.at
        elif isinstance(o, numpy.ndarray):
            os, of = o.shape, lambda idx: o[tuple(Rat.of(i).__index__() for i in idx)]
        elif isinstance(o, (list, tuple)):
            o = as_symarr(o)
            return self._ew(o, op, swap)
        else:
            os, of = (), lambda idx: o
        shape = _bshape(self.shape, os)
        ss = self.shape

        def f(idx):
            a, b = self.at(_bidx(ss, idx)), of(_bidx(os, idx))
            return op(b, a) if swap else op(a, b)
        return SymArr(shape, f)

    def __add__(self, o):
        return self._ew(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._ew(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ew(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._ew(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._ew(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._ew(o, lambda a, b: a / b, True)

    def __pow__(self, o):
        return self._ew(o, lambda a, b: a ** b)

    def __neg__(self):
        self = self.frozen()
        return SymArr(self.shape, lambda idx: -self.at(idx))

    def dot(self, o):
        return sym_dot(self, o)

    def __matmul__(self, o):
        return sym_dot(self, o)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return sym_reshape(self, shape)

    def sum(self, axis=None, **k):
        if k.get("keepdims"):
            raise Unsupported("sum of an array keeping its axes")
        a = self.frozen()
        if axis is None and a.ndim == 1:
            return total(Rat.of(a.shape[0]), lambda q: a.at((q,)))
        if axis is None or isinstance(axis, tuple):
            raise Unsupported("sum of an array")
        ax = int(axis) % a.ndim
        return SymArr(a.shape[:ax] + a.shape[ax + 1:], lambda idx: total(Rat.of(a.shape[ax]), lambda q: a.at(tuple(idx[:ax]) + (q,) + tuple(idx[ax:]))))

    def flatten(self):
        return sym_reshape(self, (-1,))
    ravel = flatten

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic arrays")
    __hash__ = object.__hash__


def as_symarr(a):
    if isinstance(a, SymArr):
        return a
    if isinstance(a, Seq) and a.segs is not None:
        n = a.length()
        p = a.segs[0].fn(sym.fresh("p")) if isinstance(a.segs[0], SymIter) else a.segs[0][1][0]

        def shape_of(p):
            if isinstance(p, Seq) and p.segs is not None:
                if isinstance(p.segs[0], SymIter) and p.segs[0].flat:
                    raise Unsupported("array of a nested symbolic list")
                return (p.length(),) + shape_of(p.segs[0].fn(sym.fresh("p")) if isinstance(p.segs[0], SymIter) else p.segs[0][1][0])
            if isinstance(p, (tuple, list)):
                return (len(p),) + (shape_of(p[0]) if len(p) else ())
            if isinstance(p, (SymArr, numpy.ndarray)):
                return tuple(p.shape)
            return ()
        inner = shape_of(p)

        def fn(idx):
            v = seq_at(a, Rat.of(idx[0]), True)
            for i in idx[1:]:
                if isinstance(v, Seq) and v.segs is not None:
                    v = seq_at(v, Rat.of(i), True)
                    continue
                v = v[i if Rat.of(i).concrete() is None else Rat.of(i).__index__()]
            return v
        return SymArr((n,) + inner, fn)
    a = numpy.asarray(a, dtype=object) if not isinstance(a, numpy.ndarray) else a

    def item(idx):
        idx = [Rat.of(i) for i in idx]
        for ax, i in enumerate(idx):
            if i.concrete() is None:
                n = a.shape[ax]
                for v in range(n):
                    if i == v:
                        idx[ax] = Rat.of(v)
                        break
                else:
                    raise IndexError("index out of bounds")
        return a[tuple(i.__index__() for i in idx)]
    return SymArr(a.shape, item)


def total(n, fn):
    """sum_{k<n} fn(k), concretely or as a sum atom."""
    c = Rat.of(n).concrete()
    if c is not None:
        s = Rat.of(0)
        for k in range(int(c)):
            s = s + fn(Rat.of(k))
        return s
    try:
        return sumatom(n, fn)
    except Unsupported:
        blocks = _content(Rat.of(n))
        if blocks < 2:
            raise
    # sum block by block: n = blocks * m
    m = Rat.of(n) / blocks
    s = Rat.of(0)
    for b in range(blocks):
        s = s + sumatom(m, lambda k, b=b: within(k, m, lambda: fn(b * m + k)))
    return s


def _content(n):
    """the largest integer dividing every coefficient of n"""
    if n.den:
        return 1
    g = 0
    for c in n.num.t.values():
        if c.denominator != 1:
            return 1
        g = math.gcd(g, int(c))
    return g


def within(k, m, fn):
    """fn() where 0 <= k < m may be used"""
    eng = getattr(sym.HOOKS.get("assume"), "__self__", None)
    base = list(eng.pc)
    try:
        eng.assume(k >= 0)
        eng.assume(k < m)
        return fn()
    finally:
        eng.pc = base


def sumatom(n, fn):
    """A formal sum over a symbolic range; linear, so constants are pulled out
    and polynomial terms are split."""
    k = sym.isym("_k%d" % _sumdepth(fn))
    a, = k.atoms()
    body = Rat.of(fn(k))
    return sum_expr(body, a, Rat.of(n))


_depth = [0]


def _sumdepth(fn):
    _depth[0] += 1
    try:
        k = sym.fresh("s")
        b = Rat.of(fn(k))
    finally:
        _depth[0] -= 1
    used = {sym.ATOMS[i].name for i in b.atoms()}
    d = 0
    while "_k%d" % d in used:
        d += 1
    return d


def sum_expr(body, a, n):
    if body.den and any(a in Rat(f).atoms() for f, _ in body.den):
        return sym.app("Sum", body, Rat.atom(sym.ATOMS[a]), n)
    den = Rat.of(1)
    for f, e in body.den:
        den = den * Rat(f) ** e
    out = Rat.of(0)
    groups = {}
    for m, c in body.num.t.items():
        ins, outs = [], []
        for x, e in m:
            (ins if a in Rat.atom(sym.ATOMS[x]).atoms() else outs).append((x, e))
        groups.setdefault(tuple(ins), {})[tuple(outs)] = c
    for ins, rest in groups.items():
        coef = Rat(sym.Poly(rest))
        if not ins:
            out = out + coef * n
        else:
            t = Rat(sym.Poly({ins: sym.Fraction(1)}))
            if all(x == a for x, e in ins):
                out = out + coef * sym.poly_sum(t, a, Rat.of(0), n)
            else:
                out = out + coef * sym.app("Sum", t, Rat.atom(sym.ATOMS[a]), n)
    return out / den


def sums_cancel(r):
    """Is r zero by linearity of finite sums and exchange of their order?"""
    def is_sum(x):
        return sym.ATOMS[x].kind == "app" and sym.ATOMS[x].name == "Sum"
    if not any(is_sum(x) for x in r.num.atoms()) or any(is_sum(x) for f, _ in r.den for x in Rat(f).atoms()):
        return False
    work = [(c, (), m) for m, c in r.num.t.items()]
    acc = {}
    count = 0
    while work:
        c, binders, m = work.pop()
        count += 1
        if count > 400:
            return False
        hit = next((x for x, e in m if is_sum(x)), None)
        if hit is None:
            best = None
            if len(binders) > 4:
                return False
            mono = Rat(sym.Poly({m: sym.Fraction(1)}))
            for perm in itertools.permutations(range(len(binders))):
                ren = {b[0]: sym.isym("_c%d" % i) for b, i in zip(binders, perm)}
                ns = [None] * len(binders)
                for b, i in zip(binders, perm):
                    ns[i] = str(b[1].subs(ren))
                key = (str(mono.subs(ren)), tuple(ns))
                if best is None or key < best:
                    best = key
            acc[best] = acc.get(best, 0) + c
            continue
        body, var, n = sym.ATOMS[hit].args
        if body.den:
            return False
        v = sym.fresh("b")
        va, = v.atoms()
        body = body.subs({next(iter(var.atoms())): v})
        rest = []
        for x, e in m:
            if x == hit:
                if e > 1:
                    rest.append((x, e - 1))
            else:
                rest.append((x, e))
        rest = Rat(sym.Poly({tuple(rest): sym.Fraction(1)}))
        prod = rest * body
        if prod.den:
            return False
        for m2, c2 in prod.num.t.items():
            work.append((c * c2, binders + ((va, n),), m2))
    return all(v == 0 for v in acc.values())


def sym_dot(a, b):
    if hasattr(a, "word") or hasattr(b, "word"):
        wa, wb = getattr(a, "word", None), getattr(b, "word", None)
        for x, y, ax in ((a, b, 0 if as_symarr(b).ndim == 1 else as_symarr(b).ndim - 2), (b, a, as_symarr(a).ndim - 1)):
            if hasattr(x, "word") and not (Rat.of(x.shape[0]) - Rat.of(as_symarr(y).shape[ax]) == 0):
                raise sym.sem(ValueError("shapes not aligned"))
        if wa is not None and wb is not None:
            return a.mul(b)
        if wa == ():
            return b
        if wb == ():
            return a
    a, b = as_symarr(a).frozen(), as_symarr(b).frozen()
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    n = a.shape[-1]
    ax = b.ndim - 2 if b.ndim >= 2 else 0
    m = b.shape[ax]
    if not (Rat.of(n) - Rat.of(m) == 0):
        raise sym.sem(ValueError("shapes not aligned"))
    sh = a.shape[:-1] + b.shape[:ax] + b.shape[ax + 1:]
    na = a.ndim - 1

    def fn(idx):
        ia, ib = tuple(idx[:na]), tuple(idx[na:])
        return total(n, lambda k: a.at(ia + (k,)) * b.at(ib[:ax] + (k,) + ib[ax:]))
    if not sh:
        return fn(())
    return SymArr(sh, fn)


def sym_reshape(a, shape):
    shape = tuple(shape)
    one = lambda s: Rat.of(s).concrete() == 1      # noqa: E731
    core = [(i, s) for i, s in enumerate(a.shape) if not one(s)]
    if len(shape) == 1 and Rat.of(shape[0]).concrete() == -1:
        if len(core) <= 1:
            n = core[0][1] if core else 1
            i = core[0][0] if core else None
            return SymArr((n,), lambda idx: a.at(tuple(idx[0] if j == i else 0 for j in range(a.ndim))))
    # product structure: match maximal groups of equal size
    src, dst = list(a.shape), list(shape)
    neg = [i for i, s in enumerate(dst) if Rat.of(s).concrete() == -1]
    if neg:
        tot = Rat.of(1)
        for s in src:
            tot = tot * s
        oth = Rat.of(1)
        for i, s in enumerate(dst):
            if i not in neg:
                oth = oth * s
        dst[neg[0]] = tot / oth
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        gi, gj = [i] if i < len(src) else [], [j] if j < len(dst) else []
        ps = Rat.of(src[i]) if gi else Rat.of(1)
        pd = Rat.of(dst[j]) if gj else Rat.of(1)
        i += len(gi)
        j += len(gj)
        while not (ps - pd).const() == 0:
            # extend the side that divides
            if i < len(src) and (j >= len(dst) or len(gi) <= len(gj)) and _divides(ps, pd):
                ps = ps * src[i]
                gi.append(i)
                i += 1
            elif j < len(dst):
                pd = pd * dst[j]
                gj.append(j)
                j += 1
            elif i < len(src):
                ps = ps * src[i]
                gi.append(i)
                i += 1
            else:
                raise Unsupported("reshape %s to %s" % (a.shape, shape))
        groups.append((gi, gj))

    def fn(idx):
        out = [None] * len(src)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[gi[0]] = idx[gj[0]]
                continue
            lin = Rat.of(0)
            for q in gj:
                lin = lin * dst[q] + Rat.of(idx[q])
            if len(gi) == 1:
                out[gi[0]] = lin
            else:
                for p in reversed(gi[1:]):
                    q, r = div_split(lin, Rat.of(src[p]))
                    out[p] = r
                    lin = q
                if gi:
                    out[gi[0]] = lin
        return a.at(tuple(0 if o is None else o for o in out))
    return SymArr(tuple(dst), fn)


def _divides(ps, pd):
    q = pd / ps
    return not q.den


def sure(b):
    """does b follow from what is known? (never splits the path)"""
    if not isinstance(b, SymBool):
        return bool(b)
    return sym.HOOKS["assume"].__self__.entails(b)


def div_split(e, d):
    """quotient and remainder of e by d when e is visibly q*d + r, 0<=r<d."""
    c = d.concrete()
    if c == 1:
        return e, Rat.of(0)
    q = Rat.of(0)
    r = Rat.of(0)
    if d.den or len(d.num.t) != 1:
        if c is None:
            raise Unsupported("division by %s" % d)
    if c is not None and e.concrete() is not None:
        return divmod(e.concrete(), c)
    dm = None if c is not None else next(iter(d.num.t))
    for m, k in e.num.t.items():
        t = Rat(sym.Poly({m: k}))
        x = t / d
        if (not x.den) and all(v.denominator == 1 for v in x.num.t.values()):
            q = q + x
        else:
            r = r + t
    if sure(r >= 0) and sure(r < d):
        return q, r
    raise Unsupported("division of %s by %s" % (e, d))


def make_table(shape, fill):
    pol = CURRENT.get("table_policy")
    if pol is None:
        if isinstance(fill, (int, float, Rat)):
            return Store(shape, fill)
        raise Unsupported("array of symbolic shape without a data invariant")
    t = pol(shape, fill)
    if t is None:
        if isinstance(fill, (int, float, Rat)):
            return Store(shape, fill)
        raise Unsupported("array of symbolic shape without a data invariant")
    return t


class Store(SymArr):
    """A mutable array of symbolic shape: background plus rectangular writes.
    Reads resolve through the writes, most recent first."""

    def __init__(self, shape, fill):
        self.fill = fill
        self.writes = []
        self.stamp = stamp()
        SymArr.__init__(self, shape, None)

    def probe(self):
        return (self.shape, [w[3] for w in self.writes])

    def _symbolic_parts(self):
        return self.shape

    def copy(self):
        s = Store(self.shape, self.fill)
        s.writes = list(self.writes)
        return s

    def __setitem__(self, key, v):
        j = _journal(self)
        if j is not None:
            j["events"].append(("store", self, key, v))
            j["touched"].add(id(self))
            return
        self.write((), key, v)

    def __getitem__(self, key):
        shape, back = self.norm_index(key)
        if not shape:
            return self.at(back(()))
        return View(self, shape, back)

    def accumulate(self, key, v):
        j = _journal(self)
        if j is not None:
            j["events"].append(("store", self, key, v, (), "add"))
            j["touched"].add(id(self))
            return
        self.write((), key, v, "add")

    def write(self, binders, key, v, kind="set"):
        """binders: ((atom idx, n), ...) loop variables 0 <= k < n, innermost
        first."""
        self.writes.append(self.resolve(binders, key, v, kind))

    def resolve(self, binders, key, v, kind):
        shape, back = self.norm_index(key)
        va = v if isinstance(v, SymArr) else (as_symarr(v) if isinstance(v, (numpy.ndarray, list, tuple)) else None)
        while va is not None and len(va.shape) > len(shape) and Rat.of(va.shape[0]).concrete() == 1:
            va = as_symarr(va[0]) if len(va.shape) > 1 else SymArr((), lambda idx, va=va: va.at((Rat.of(0),)))
        if va is not None:
            _bshape(shape, va.shape)      # raises on mismatch
        return (binders, shape, back, va if va is not None else v, kind)

    def at(self, idx):
        idx = tuple(Rat.of(i) for i in idx)
        touched = [j for j in CURRENT.get("journal") or () if id(self) in j["touched"]]
        if touched:
            # only what this very round wrote is known
            for j in reversed(touched):
                own = []
                for e in j["events"]:
                    if e[0] == "store" and e[1] is self:
                        own.append(self.resolve(e[4] if len(e) > 4 else (), e[2], e[3], e[5] if len(e) > 5 else "set"))
                done, v = self.lookup(own, idx)
                if done:
                    js = CURRENT["journal"]
                    for jj in js[[x is j for x in js].index(True) + 1:]:
                        jj.setdefault("rd", set()).add(id(self))
                    return v
                break
            raise Unsupported("an array is read and written in the same symbolic loop")
        note_read(self)
        done, v = self.lookup(self.writes, idx)
        return v if done else (self.fill + v if v.const() != 0 else self.fill)

    def lookup(self, writes, idx):
        """(True, value) or (False, what the writes add to the background)"""
        acc = Rat.of(0)
        for binders, shape, back, v, kind in reversed(writes):
            vs = [sym.fresh("w") for _ in shape]
            e = back(tuple(vs))
            unknown = {next(iter(x.atoms())): None for x in vs}
            for a, n in binders:
                unknown[a] = None
            eqs = [Rat.of(p) - q for p, q in zip(e, idx)]
            sol, conds = solve_linear(eqs, unknown)
            if sol is None:
                continue
            free = []
            for x, n in list(zip([next(iter(y.atoms())) for y in vs], shape)) + list(binders):
                if x not in sol:
                    if Rat.of(n).concrete() == 1:
                        sol[x] = Rat.of(0)
                    elif kind == "add":
                        free.append((x, Rat.of(n)))
                        continue
                    else:
                        # every round writes here: the last one counts
                        conds.append(Rat.of(n).subs(sol) >= 1)
                        sol[x] = Rat.of(n).subs(sol) - 1
                        continue
                conds.append(sol[x] >= 0)
                conds.append(sol[x] < n)
            c = band(*conds)
            if isinstance(c, SymBool):
                c = bool(c)       # forks
            if c:
                ii = tuple(sol[next(iter(y.atoms()))] for y in vs)
                val = v.at(_bidx(v.shape, ii)) if isinstance(v, SymArr) else v
                if binders:
                    val = subst(val, {a: sol[a] for a, n in binders if a in sol})
                if kind == "set":
                    return True, acc + val if acc.const() != 0 else val
                fa = {x for x, n in free}
                if any(depends(k, fa) for k in conds):
                    raise Unsupported("sum over part of a loop")
                for x, n in free:
                    n = n.subs({a: e for a, e in sol.items()})
                    val = total(n, lambda q, val=val, x=x: Rat.of(subst(val, {x: q})))
                acc = acc + val
        return False, acc

    is_list = False

    def __add__(self, o):
        if self.is_list and isinstance(o, (list, tuple)):
            return Seq.from_segs(to_segs(self)) + o
        return SymArr.__add__(self, o)

    def __radd__(self, o):
        if self.is_list and isinstance(o, (list, tuple)):
            return Seq(o) + Seq.from_segs(to_segs(self)) if not isinstance(o, Seq) else o + Seq.from_segs(to_segs(self))
        return SymArr.__radd__(self, o)

    def frozen(self):
        return self.copy()

    def fill_with(self, v):
        self[(slice(None),) * self.ndim] = v


class Placed(object):
    """an index already resolved to (shape, function to base indices)"""

    def __init__(self, shape, back):
        self.shape, self.back = shape, back


class View(SymArr):
    """Part of a Store; writes go to the store."""

    def __init__(self, base, shape, back):
        self.base, self.back = base, back
        SymArr.__init__(self, shape, None)

    def at(self, idx):
        return self.base.at(self.back(tuple(idx)))

    def probe(self):
        return self.base.probe()

    def frozen(self):
        return View(self.base.copy(), self.shape, self.back)

    def copy(self):
        return self.frozen()

    def place(self, key):
        shape, back = self.norm_index(key)
        return Placed(shape, lambda idx: self.back(back(idx)))

    def __getitem__(self, key):
        p = self.place(key)
        if not p.shape:
            return self.base.at(p.back(()))
        return View(self.base, p.shape, p.back)

    def __setitem__(self, key, v):
        self.base[self.place(key)] = v

    def accumulate(self, key, v):
        self.base.accumulate(self.place(key), v)


def solve_linear(eqs, unknown):
    """Solve eqs (each == 0) for the unknown atoms with unit coefficients.
    -> (solution dict, residual conditions) or (None, None) if impossible."""
    sol, conds = {}, []
    todo = list(eqs)
    progress = True
    while todo and progress:
        progress = False
        for e in list(todo):
            e2 = e.subs(sol) if sol else e
            us = [a for a in e2.num.atoms() if a in unknown and a not in sol]
            if not us:
                todo.remove(e)
                progress = True
                c = e2.const()
                if c is not None:
                    if c != 0:
                        return None, None
                else:
                    conds.append(e2 == 0)
                continue
            if len(us) == 1:
                a = us[0]
                parts = sym.split(e2.num, a)
                if set(parts) <= {0, 1} and not e2.den and parts[1].const() is not None:
                    sol[a] = Rat(parts.get(0, sym.ZERO)) * (-1 / parts[1].const())
                    todo.remove(e)
                    progress = True
    if todo:
        raise Unsupported("cannot invert an index expression")
    return sol, conds
