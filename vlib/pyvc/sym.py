"""Exact scalar terms: rational functions over atoms (integer and real symbols,
uninterpreted applications, square roots, symbolic powers).

Equality is decided by a polynomial identity after normalisation, so it is
complete for rational-function identities and sound for everything else.
Machine arithmetic is treated as mathematical: a float literal denotes the
decimal rational that is written."""
from fractions import Fraction
from functools import lru_cache
import itertools


class Unsupported(BaseException):
    """The code left the subset the verifier understands: undecided."""


class NotEstablished(Unsupported):
    """The code was understood but a loop invariant, or the absence of an
    error inside a loop, could not be established."""


ATOMS = []          # index -> Atom
_INTERN = {}


class Atom(object):
    __slots__ = ("idx", "kind", "name", "sort", "args", "z3")

    def __init__(self, kind, name, sort, args):
        self.kind, self.name, self.sort, self.args = kind, name, sort, args
        self.z3 = None

    def __repr__(self):
        if self.kind == "sym":
            return self.name
        if self.kind == "pow":
            return "(%s)^%s" % self.args
        return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))


def atom(kind, name, sort, args=()):
    key = (kind, name, sort, tuple(a.key() if isinstance(a, Rat) else a for a in args))
    a = _INTERN.get(key)
    if a is None:
        a = Atom(kind, name, sort, tuple(args))
        a.idx = len(ATOMS)
        ATOMS.append(a)
        _INTERN[key] = a
    return a


_fresh = itertools.count()


def fresh(name, sort="int"):
    return Rat.atom(atom("sym", "%s!%d" % (name, next(_fresh)), sort))


def sym(name, sort="real"):
    return Rat.atom(atom("sym", name, sort))


def isym(name):
    return sym(name, "int")


# ---------------------------------------------------------------- polynomials
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Poly(object):
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def is_zero(self):
        return not self.t

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def add(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if s:
                t[m] = s
            else:
                t.pop(m, None)
        return Poly(t)

    def scale(self, c):
        if c == 1:
            return self
        return Poly({m: v * c for m, v in self.t.items()}) if c else ZERO

    def neg(self):
        return self.scale(Fraction(-1))

    def mul(self, o):
        if not self.t or not o.t:
            return ZERO
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                s = t.get(m, 0) + c1 * c2
                if s:
                    t[m] = s
                else:
                    del t[m]
        return Poly(t)

    def atoms(self):
        return {a for m in self.t for a, e in m}

    def lead(self):
        return max(self.t)

    def monic(self):
        """(content, primitive part with leading coefficient one)"""
        c = self.t[self.lead()]
        return c, self.scale(1 / c)

    def divide(self, d):
        """Exact quotient or None."""
        if not self.t:
            return self
        # single main variable of d
        at = d.atoms()
        if not at or not at <= self.atoms():
            return None
        x = max(at)
        dn = split(d, x)
        n = split(self, x)
        dd = max(dn)
        lead = dn[dd]
        lc = lead.const()
        q = {}
        while n:
            k = max(n)
            if k < dd:
                return None
            if lc is not None:
                f = n[k].scale(1 / lc)
            else:
                f = n[k].divide(lead)
                if f is None:
                    return None
            q[k - dd] = f
            for j, p in dn.items():
                r = n.get(j + k - dd, ZERO).add(p.mul(f).neg())
                if r.t:
                    n[j + k - dd] = r
                else:
                    n.pop(j + k - dd, None)
        out = ZERO
        for k, p in q.items():
            out = out.add(p.mul(Poly({((x, k),) if k else (): Fraction(1)})))
        return out

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), reverse=True):
            s = "*".join(repr(ATOMS[a]) + ("^%d" % e if e != 1 else "") for a, e in m)
            out.append(("%s*%s" % (c, s) if c != 1 else s) if s else str(c))
        return " + ".join(out)


def split(p, x):
    d = {}
    for m, c in p.t.items():
        e = 0
        rest = []
        for a, k in m:
            if a == x:
                e = k
            else:
                rest.append((a, k))
        d.setdefault(e, {})[tuple(rest)] = c
    return {e: Poly(t) for e, t in d.items()}


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        return Fraction(repr(v))
    import numpy
    if isinstance(v, numpy.integer):
        return Fraction(int(v))
    if isinstance(v, numpy.floating):
        return Fraction(repr(float(v)))
    return None


CHOP = {}


class Rat(object):
    """num / prod(den factors); factors are monic non-constant polynomials."""
    __slots__ = ("num", "den", "_key")
    __array_priority__ = 1000

    def __init__(self, num, den=()):
        self.num, self.den = num, den
        self._key = None

    # construction
    @staticmethod
    def of(v):
        if isinstance(v, Rat):
            return v
        f = _frac(v)
        if f is None:
            return None
        return Rat(Poly({(): f})) if f else Rat(ZERO)

    @staticmethod
    def atom(a):
        return Rat(Poly({((a.idx, 1),): Fraction(1)}))

    def key(self):
        if self._key is None:
            self._key = (self.num, self.den)
        return self._key

    def const(self):
        return self.num.const() if not self.den else None

    def is_const(self):
        return self.const() is not None

    def concrete(self):
        c = self.const()
        if c is None:
            return None
        return int(c) if c.denominator == 1 else c

    @staticmethod
    def make(num, den):
        """den: dict poly -> multiplicity"""
        num = reduce_poly(num)
        if isinstance(num, Rat):        # the reduction produced a fraction
            d = dict(num.den)
            for f, e in den.items():
                d[f] = d.get(f, 0) + e
            num = num.num
            den = d
        if not num.t:
            return Rat(ZERO)
        out = {}
        for f, e in den.items():
            while e > 0:
                q = num.divide(f)
                if q is None:
                    break
                num = q
                e -= 1
            if e > 0:
                out[f] = e
        return Rat(num, tuple(sorted(out.items(), key=lambda t: (hash(t[0]), t[1]))))

    def _binop_den(self, o):
        d1, d2 = dict(self.den), dict(o.den)
        lcm = dict(d1)
        for f, e in d2.items():
            lcm[f] = max(lcm.get(f, 0), e)
        m1, m2 = ONE, ONE
        for f, e in lcm.items():
            for _ in range(e - d1.get(f, 0)):
                m1 = m1.mul(f)
            for _ in range(e - d2.get(f, 0)):
                m2 = m2.mul(f)
        return lcm, m1, m2

    def __add__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        if not self.den and not o.den:
            return Rat(self.num.add(o.num))
        if self.den == o.den:
            return Rat.make(self.num.add(o.num), dict(self.den))
        lcm, m1, m2 = self._binop_den(o)
        return Rat.make(self.num.mul(m1).add(o.num.mul(m2)), lcm)
    __radd__ = __add__

    def __neg__(self):
        return Rat(self.num.neg(), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        c = o.const()
        if c is not None:
            return Rat(self.num.scale(c), self.den) if c else Rat(ZERO)
        c = self.const()
        if c is not None:
            return Rat(o.num.scale(c), o.den) if c else Rat(ZERO)
        d = dict(self.den)
        for f, e in o.den:
            d[f] = d.get(f, 0) + e
        return Rat.make(self.num.mul(o.num), d)
    __rmul__ = __mul__

    def inv(self):
        if not self.num.t:
            raise ZeroDivisionError("division by zero")
        n = ONE
        for f, e in self.den:
            for _ in range(e):
                n = n.mul(f)
        c = self.num.const()
        if c is not None:
            return Rat(n.scale(1 / c))
        # rationalise a lone square root: 1/(c*s) = s/(c*s^2)
        if len(self.num.t) == 1:
            (m, c), = self.num.t.items()
            roots = [a for a, e in m if ATOMS[a].kind == "sqrt" and e == 1]
            if roots:
                s = Rat(Poly({tuple((a, 1) for a in roots): Fraction(1)}))
                rest = Rat.of(c)
                for a, e in m:
                    rest = rest * (Rat.atom(ATOMS[a]) ** e if a not in roots else ATOMS[a].args[0])
                return s * rest.inv() * Rat(n)
        c, mon = self.num.monic()
        # split off atoms so that monomials stay recognisable factors
        fs = {}
        if len(mon.t) == 1:
            (m, _), = mon.t.items()
            for a, e in m:
                fs[Poly({((a, 1),): Fraction(1)})] = e
        else:
            common = None
            for m in mon.t:
                d = dict(m)
                common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
            if common:
                for a, e in common.items():
                    fs[Poly({((a, 1),): Fraction(1)})] = e
                mon = Poly({tuple((a, e - common.get(a, 0)) for a, e in m if e - common.get(a, 0)): v for m, v in mon.t.items()})
            fs[mon] = fs.get(mon, 0) + 1
        return Rat.make(n.scale(1 / c), fs)

    def __truediv__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        if o.const() is None:
            hook("nonzero", o)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        return floordiv(o, self)

    def __mod__(self, o):
        return self - Rat.of(o) * (self // o)

    def __rmod__(self, o):
        return Rat.of(o) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - Rat.of(o) * q

    def __pow__(self, e):
        r = Rat.of(e)
        if r is None:
            return NotImplemented
        c = r.concrete()
        if isinstance(c, int):
            if c < 0:
                return (self ** (-c)).inv()
            out, b = Rat.of(1), self
            while c:
                if c & 1:
                    out = out * b
                b = b * b
                c >>= 1
            return out
        if c == Fraction(1, 2):
            return sqrt(self)
        if c is not None:
            raise Unsupported("fractional power")
        return sympow(self, r)

    def __rpow__(self, b):
        return Rat.of(b) ** self

    def __abs__(self):
        return self if (self >= 0) else -self

    def __float__(self):
        c = self.const()
        if c is None:
            hook("escape", self)
            raise Unsupported("float() of a symbolic value")
        return float(c)

    def __int__(self):
        c = self.concrete()
        if c is None:
            raise Unsupported("int() of a symbolic value")
        return int(c)

    def __index__(self):
        c = self.concrete()
        if not isinstance(c, int):
            raise Unsupported("symbolic value used as a concrete index: %s" % self)
        return c

    def __hash__(self):
        c = self.const()
        if c is not None:
            return hash(c)
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def _cmp(self, o, op):
        o = Rat.of(o)
        if o is None:
            return NotImplemented
        d = self - o
        c = d.const()
        if c is not None:
            return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
        return SymBool(("cmp", op, d))

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented and not hasattr(o, "__eq__") else r

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __repr__(self):
        if not self.den:
            return repr(self.num) if len(self.num.t) <= 1 else "(%r)" % self.num
        return "(%r)/(%s)" % (self.num, "*".join("(%r)%s" % (f, "^%d" % e if e > 1 else "") for f, e in self.den))

    # numpy object-array support
    def conjugate(self):
        return self

    def sqrt(self):
        return sqrt(self)

    @property
    def real(self):
        return self

    def atoms(self, deep=True):
        s = set(self.num.atoms())
        for f, e in self.den:
            s |= f.atoms()
        if deep:
            todo = list(s)
            while todo:
                a = ATOMS[todo.pop()]
                for x in a.args:
                    if isinstance(x, Rat):
                        for b in x.atoms(False):
                            if b not in s:
                                s.add(b)
                                todo.append(b)
        return s

    def is_int(self):
        """integer-valued for all integer values of its symbols"""
        if self.den:
            return False
        at = self.num.atoms()
        if any(ATOMS[a].sort != "int" for a in at):
            return False
        L = 1
        for c in self.num.t.values():
            L = L * c.denominator // _gcd(L, c.denominator)
        if L == 1:
            return True
        return _residues(self.num.scale(Fraction(L)), L, sorted(at))

    def subs(self, m):
        """m: dict atom idx -> Rat"""
        if not m:
            return self
        deep = self.atoms()
        if not (deep & set(m)):
            return self
        r = _subs_poly(self.num, m)
        for f, e in self.den:
            r = r / (_subs_poly(f, m) ** e)
        return r


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _residues(p, L, at):
    if L ** len(at) > 20000:
        return False
    for vals in itertools.product(range(L), repeat=len(at)):
        v = dict(zip(at, vals))
        s = 0
        for m, c in p.t.items():
            t = int(c)
            for a, e in m:
                t *= pow(v[a], e, L)
            s += t
        if s % L:
            return False
    return True


def _subs_atom(a, m):
    if a in m:
        return m[a]
    at = ATOMS[a]
    if not at.args:
        return Rat.atom(at)
    args = [x.subs(m) if isinstance(x, Rat) else x for x in at.args]
    if all((x is y) for x, y in zip(args, at.args)):
        return Rat.atom(at)
    if at.kind == "sqrt":
        return sqrt(args[0])
    if at.kind == "pow":
        return args[0] ** args[1]
    if at.kind == "floor":
        return floordiv(args[0], args[1])
    return app(at.name, *args, sort=at.sort)


def _subs_poly(p, m):
    out = Rat(ZERO)
    cache = {}
    plain = {}
    for mo, c in p.t.items():
        if not any(a in m or ATOMS[a].args for a, e in mo):
            plain[mo] = c
            continue
        t = Rat.of(c)
        for a, e in mo:
            if (a, e) not in cache:
                cache[(a, e)] = _subs_atom(a, m) ** e
            t = t * cache[(a, e)]
        out = out + t
    return out + Rat(Poly(plain))


REWRITE = {}        # function name -> rewriting at construction: args -> Rat or None


def app(name, *args, sort="real"):
    args = tuple(Rat.of(a) if Rat.of(a) is not None else a for a in args)
    rw = REWRITE.get(name)
    if rw is not None:
        r = rw(*args)
        if r is not None:
            return r
    return Rat.atom(atom("app", name, sort, args))


def sqrt(x):
    x = Rat.of(x)
    c = x.const()
    if c is not None:
        if c < 0:
            raise ValueError("math domain error")
        n, d = c.numerator * c.denominator, c.denominator
        s, r = 1, n
        f = 2
        while f * f <= r and f < 2000:
            while r % (f * f) == 0:
                r //= f * f
                s *= f
            f += 1
        from math import isqrt
        if isqrt(r) ** 2 == r:
            return Rat.of(Fraction(s * isqrt(r), d))
        return Rat.atom(atom("sqrt", "sqrt", "real", (Rat.of(r),))) * Fraction(s, d)
    hook("nonneg", x)
    return Rat.atom(atom("sqrt", "sqrt", "real", (x,)))


def sympow(b, e):
    """b ** e for a symbolic integer exponent e = sum c_i a_i + c0"""
    c = b.const()
    if c == 1:
        return b
    if e.den or not e.is_int():
        raise Unsupported("power with exponent %s" % e)
    out = Rat.of(1)
    for m, k in e.num.t.items():
        if k.denominator != 1:
            raise Unsupported("power with exponent %s" % e)
        k = int(k)
        if m == ():
            out = out * b ** k
        else:
            p = Rat.atom(atom("pow", "pow", "real", (b, Rat(Poly({m: Fraction(1)})))))
            out = out * p ** k
    return out


def reduce_poly(p):
    """sqrt(r)^2 -> r, ((-1)^n)^2 -> 1; returns Poly or Rat."""
    hit = False
    for m in p.t:
        for a, e in m:
            if e > 1:
                k = ATOMS[a].kind
                if k == "sqrt" or (k == "pow" and ATOMS[a].args[0].const() == -1):
                    hit = True
    if not hit:
        return p
    out = Rat(ZERO)
    keep = {}
    for m, c in p.t.items():
        f = None
        rest = []
        for a, e in m:
            at = ATOMS[a]
            if e > 1 and at.kind == "sqrt":
                f = (f if f is not None else Rat.of(1)) * at.args[0] ** (e // 2)
                if e % 2:
                    rest.append((a, 1))
            elif e > 1 and at.kind == "pow" and at.args[0].const() == -1:
                f = f if f is not None else Rat.of(1)
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        if f is None:
            keep[m] = c
        else:
            out = out + f * Rat(Poly({tuple(rest): c}))
    r = out + Rat(Poly(keep))
    return r if r.den else r.num


def floordiv(x, y):
    c = y.const()
    if c is None or c.denominator != 1 or c == 0:
        if c == 0:
            raise ZeroDivisionError("integer division by zero")
        raise Unsupported("floor division by %s" % y)
    xc = x.concrete()
    if xc is not None:
        return Rat.of(xc // int(c))
    if not x.is_int():
        raise Unsupported("floor division of non-integer %s" % x)
    q = x * (Fraction(1) / c)
    if q.is_int():
        return q
    return Rat.atom(atom("floor", "floor", "int", (x, y)))


# ------------------------------------------------------------------ booleans
class SymBool(object):
    """('cmp', op, Rat) | ('not', b) | ('and', [b]) | ('or', [b]) | ('z3', e) | ('forall', ...)"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return hook("decide", self)

    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, o)

    def __rand__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __ror__(self, o):
        return bor(self, o)

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic booleans")
    __hash__ = object.__hash__

    def __repr__(self):
        e = self.e
        if e[0] == "cmp":
            return "%s %s 0" % (e[2], e[1])
        if e[0] == "not":
            return "not (%s)" % e[1]
        if e[0] in ("and", "or"):
            return "(" + (" %s " % e[0]).join(map(str, e[1])) + ")"
        return str(e[1])


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def bnot(b):
    if not isinstance(b, SymBool):
        return not b
    if b.e[0] == "cmp":
        return SymBool(("cmp", NEG[b.e[1]], b.e[2]))
    if b.e[0] == "not":
        return b.e[1]
    return SymBool(("not", b))


def band(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b)
        elif not b:
            return False
    return True if not out else out[0] if len(out) == 1 else SymBool(("and", out))


def bor(*bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            out.append(b)
        elif b:
            return True
    return False if not out else out[0] if len(out) == 1 else SymBool(("or", out))


def bimplies(a, b):
    return bor(bnot(a), b)


HOOKS = {}


def hook(name, *a):
    h = HOOKS.get(name)
    if h is None:
        if name == "decide":
            raise Unsupported("symbolic condition outside of an engine: %s" % a[0])
        return None
    return h(*a)


# ------------------------------------------------------------- polynomial sums
def poly_sum(e, k, lo, hi):
    """sum of e over integer k = lo .. hi-1, e polynomial in atom idx k."""
    if e.den and any(k in f.atoms() for f, _ in e.den):
        raise Unsupported("sum of a non-polynomial term")
    for a in e.num.atoms():
        if a != k and k in Rat.atom(ATOMS[a]).atoms():
            raise Unsupported("sum of a non-polynomial term")
    parts = split(e.num, k)
    D = max(parts) if parts else 0
    den = Rat.of(1)
    for f, m in e.den:
        den = den * Rat(f) ** m
    out = Rat.of(0)
    for d, c in parts.items():
        out = out + Rat(c) * (_faulhaber(d, hi) - _faulhaber(d, lo))
    return out / den


@lru_cache(None)
def _faul_coeffs(d):
    """F with F(x+1)-F(x) = x^d, F(0)=0, as coefficient list (Fractions)."""
    n = d + 2
    # solve for c_1..c_{d+1}
    from math import comb
    c = [Fraction(0)] * n
    for m in range(d, -1, -1):
        rhs = Fraction(1 if m == d else 0)
        s = sum(c[j] * comb(j, m) for j in range(m + 2, n))
        c[m + 1] = (rhs - s) / comb(m + 1, m)
    return c


def _faulhaber(d, x):
    c = _faul_coeffs(d)
    out = Rat.of(0)
    for i in range(len(c) - 1, -1, -1):
        out = out * x + c[i]
    return out


def evaluate(r, env, funcs=None):
    """Numeric value of a Rat under env: atom idx -> number (Fraction/float)."""
    def atomval(i):
        if i in env:
            return env[i]
        a = ATOMS[i]
        if a.kind == "sqrt":
            return float(evaluate(a.args[0], env, funcs)) ** 0.5
        if a.kind == "pow":
            return evaluate(a.args[0], env, funcs) ** int(evaluate(a.args[1], env, funcs))
        if a.kind == "floor":
            return evaluate(a.args[0], env, funcs) // evaluate(a.args[1], env, funcs)
        if a.kind == "app" and funcs and a.name in funcs:
            return funcs[a.name](*[evaluate(x, env, funcs) if isinstance(x, Rat) else x for x in a.args])
        raise KeyError(repr(a))

    def pol(p):
        s = Fraction(0)
        for m, c in p.t.items():
            t = c
            for a, e in m:
                t = t * atomval(a) ** e
            s = s + t
        return s
    v = pol(r.num)
    for f, e in r.den:
        v = v / pol(f) ** e
    return v


def sem(e):
    """Mark an exception as one the executed source raises (as opposed to an
    error inside the verifier)."""
    try:
        e._pyvc = True
    except AttributeError:
        pass
    return e
