"""Symbolic strings: z3 sequences, tests as solver facts, regular expressions
translated from Python's own parse of the pattern.  Limits: ASCII digits, flags
and anchors other than those handled are refused."""
import re
try:
    from re import _parser as sre, _constants as sc
except ImportError:
    import sre_parse as sre
    import sre_constants as sc
from vlib.pyvc.engine import _z3

z3 = _z3()

from vlib.pyvc import sym
from vlib.pyvc.sym import SymBool, Unsupported

REX = z3.ReSort(z3.StringSort())
ANY = z3.Full(REX)
_n = [0]


def full():
    return z3.AllChar(REX)


def union(xs):
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


def concat(xs):
    return z3.Re("") if not xs else xs[0] if len(xs) == 1 else z3.Concat(*xs)


def translate(items, flags):
    """z3 regular expression of a parsed pattern without groups of interest"""
    return concat([one(op, av, flags) for op, av in items])


def one(op, av, flags):
    if flags & ~(re.UNICODE | re.ASCII):
        raise Unsupported("flags of a regular expression")
    if op is sc.LITERAL:
        return z3.Re(chr(av))
    if op is sc.NOT_LITERAL:
        return z3.Intersect(full(), z3.Complement(z3.Re(chr(av))))
    if op is sc.ANY:
        return z3.Intersect(full(), z3.Complement(z3.Re("\n")))
    if op is sc.IN:
        neg, xs = False, []
        for o, a in av:
            if o is sc.NEGATE:
                neg = True
            elif o is sc.LITERAL:
                xs.append(z3.Re(chr(a)))
            elif o is sc.RANGE:
                xs.append(z3.Range(chr(a[0]), chr(a[1])))
            elif o is sc.CATEGORY and a is sc.CATEGORY_DIGIT:
                xs.append(z3.Range("0", "9"))
            else:
                raise Unsupported("character class")
        u = union(xs)
        return z3.Intersect(full(), z3.Complement(u)) if neg else u
    if op is sc.CATEGORY and av is sc.CATEGORY_DIGIT:
        return z3.Range("0", "9")
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        r = translate(sub, flags)
        if hi is sc.MAXREPEAT:
            return z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
        return z3.Option(r) if (lo, hi) == (0, 1) else z3.Loop(r, lo, hi)
    if op is sc.SUBPATTERN:
        g, add, rem, sub = av
        if add or rem:
            raise Unsupported("inline flags")
        return translate(sub, flags)
    if op is sc.BRANCH:
        return union([translate(b, flags) for b in av[1]])
    raise Unsupported("regular expression construct %s" % op)


def alternatives(items, flags):
    """The pattern as alternatives (before, group or None, after), taken in
    Python's order; at most one group."""
    items = list(items)
    for i, (op, av) in enumerate(items):
        if not has_group(op, av):
            continue
        pre, post = translate(items[:i], flags), items[i + 1:]
        if any(has_group(*x) for x in post):
            raise Unsupported("several groups")
        post = translate(post, flags)
        if op is sc.SUBPATTERN:
            g, add, rem, sub = av
            if add or rem:
                raise Unsupported("inline flags")
            if g is not None:
                if any(has_group(*x) for x in sub):
                    raise Unsupported("nested groups")
                return [(pre, translate(sub, flags), post)]
            inner = alternatives(sub, flags)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and tuple(av[:2]) == (0, 1):
            inner = alternatives(av[2], flags) + [(z3.Re(""), None, z3.Re(""))]
        elif op is sc.BRANCH:
            inner = [x for b in av[1] for x in alternatives(b, flags)]
        else:
            raise Unsupported("group inside a repetition")
        return [(z3.Concat(pre, a), g, z3.Concat(b, post)) for a, g, b in inner]
    return [(translate(items, flags), None, z3.Re(""))]


def has_group(op, av):
    if op is sc.SUBPATTERN:
        return av[0] is not None or any(has_group(*x) for x in av[3])
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        return any(has_group(*x) for x in av[2])
    if op is sc.BRANCH:
        return any(has_group(*x) for b in av[1] for x in b)
    return False


def is_in(e, r):
    return SymBool(("z3", z3.InRe(e, r)))


class SymStr(object):
    _symstore = str

    def __init__(self, e):
        self.z = e
        self._parts = [sym.fresh("string")]

    def _symbolic_parts(self):
        return self._parts

    @staticmethod
    def new(name):
        return SymStr(z3.String(name))

    __hash__ = None

    def __eq__(self, o):
        if isinstance(o, SymStr):
            return SymBool(("z3", self.z == o.z))
        if isinstance(o, str):
            return SymBool(("z3", self.z == z3.StringVal(o)))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return sym.bnot(r)

    def __bool__(self):
        return bool(self != "")

    def startswith(self, p):
        return SymBool(("z3", z3.PrefixOf(z3.StringVal(p), self.z)))

    def endswith(self, p):
        return SymBool(("z3", z3.SuffixOf(z3.StringVal(p), self.z)))

    def __contains__(self, p):
        return bool(SymBool(("z3", z3.Contains(self.z, z3.StringVal(p)))))

    def isdigit(self):
        return is_in(self.z, z3.Plus(z3.Range("0", "9")))
    isdecimal = isnumeric = isdigit

    def __len__(self):
        raise Unsupported("length of a symbolic string")

    def __getitem__(self, k):
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported("character of a symbolic string")
        n = z3.Length(self.z)
        pos = lambda x, d: d if x is None else z3.IntVal(x) if x >= 0 else n + x      # noqa: E731
        a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, n)
        return SymStr(z3.SubString(self.z, a, z3.If(b > a, b - a, 0)))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported("method %s of a symbolic string" % n)

    def __str__(self):
        return "<str>"
    __format__ = lambda self, f: "<str>"      # noqa: E731

    def __int__(self):
        raise Unsupported("int() of a symbolic string")

    def integer(self):
        """int(s)"""
        if not bool(is_in(self.z, z3.Plus(z3.Range("0", "9")))):
            if bool(is_in(self.z, z3.Concat(z3.Star(union([z3.Re(c) for c in " \t\n\r\f\v"])), z3.Option(union([z3.Re("+"), z3.Re("-")])), z3.Plus(z3.Range("0", "9")),
                                             z3.Star(union([z3.Re(c) for c in " \t\n\r\f\v"]))))):
                raise Unsupported("int() of a signed string")
            raise sym.sem(ValueError("invalid literal for int()"))
        n = sym.app("int", "s%s" % self.z.get_id(), sort="int")
        INTS[next(iter(n.atoms()))] = self.z
        sym.HOOKS["assume"](n >= 0)
        return n


INTS = {}      # atom of int(s) -> s


class SymMatch(object):
    def __init__(self, groups):
        self._g = groups

    def __bool__(self):
        return True

    def groups(self, default=None):
        return tuple(default if g is None else g for g in self._g[1:])

    def group(self, *i):
        if len(i) > 1:
            return tuple(self._g[j] for j in i)
        return self._g[i[0] if i else 0]

    def __getitem__(self, i):
        return self._g[i]


def match(kind, pattern, s):
    """Pattern.fullmatch / match / search on a symbolic string"""
    flags = pattern.flags
    items = list(sre.parse(pattern.pattern, pattern.flags & ~re.UNICODE))
    tail = None
    if items and items[0][0] is sc.AT:
        if items[0][1] not in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            raise Unsupported("anchor")
        items = items[1:]
        kind = "match" if kind == "search" else kind
    if items and items[-1][0] is sc.AT:
        a = items.pop()[1]
        tail = {sc.AT_END: z3.Option(z3.Re("\n")), sc.AT_END_STRING: z3.Re("")}.get(a)
        if tail is None:
            raise Unsupported("anchor")
    if kind == "fullmatch":
        tail = z3.Re("")
    elif tail is None:
        tail = ANY
    head = ANY if kind == "search" else z3.Re("")
    for pre, g, post in alternatives(items, flags):
        whole = z3.Concat(head, pre, g, post, tail) if g is not None else z3.Concat(head, pre, post, tail)
        if not bool(is_in(s.z, whole)):
            continue
        if g is None:
            return SymMatch([s] + [None] * pattern.groups)
        # any split the pattern allows (a claim is proved for all of them)
        _n[0] += 1
        x, m, y = (z3.String("%s!%d" % (c, _n[0])) for c in "xgy")
        f = z3.And(s.z == z3.Concat(x, m, y), z3.InRe(x, z3.Concat(head, pre)), z3.InRe(m, g), z3.InRe(y, z3.Concat(post, tail)))
        sym.HOOKS["assume"](SymBool(("z3", f)))
        return SymMatch([s, SymStr(m)] + [None] * (pattern.groups - 1))
    return None
