"""Square matrices of symbolic size as words in a free monoid: products, powers
and transposes of generators.  Equality of words implies equality of the
matrices; nothing is assumed about the generators (they need not commute)."""
from . import sym, values
from .sym import Rat, Unsupported
from .values import SymArr

class Mat(SymArr):
    """word: ((name, exponent, transposed), ...)"""

    def __init__(self, n, word=()):
        out = []
        for name, e, t in word:
            e = Rat.of(e)
            if e.concrete() == 0:
                continue
            if out and out[-1][0] == name and out[-1][2] == t:
                e = out.pop()[1] + e
                if e.concrete() == 0:
                    continue
            out.append((name, e, t))
        self.word = tuple(out)
        SymArr.__init__(self, (n, n), self.entry)

    def entry(self, idx):
        i, j = Rat.of(idx[0]), Rat.of(idx[1])
        if not self.word:
            r = i == j
            return Rat.of(1 if (r if isinstance(r, bool) else bool(r)) else 0)
        if len(self.word) == 1:
            name, e, t = self.word[0]
            if e.concrete() == 1:
                return sym.app("M:" + name, *((j, i) if t else (i, j)))
        return sym.app("M:" + "*".join("%s%s^" % (n, "'" if t else "") for n, e, t in self.word), *([e for n, e, t in self.word] + [i, j]))

    @property
    def T(self):
        return Mat(self.shape[0], tuple((n, e, not t) for n, e, t in reversed(self.word)))

    def copy(self):
        return Mat(self.shape[0], self.word)

    def mul(self, o):
        return Mat(self.shape[0], self.word + o.word)

    def power(self, e):
        e = Rat.of(e)
        if e.concrete() is not None:
            out = Mat(self.shape[0])
            for _ in range(int(e.concrete())):
                out = out.mul(self)
            return out
        if not self.word:
            return self
        if len(self.word) > 1:
            raise Unsupported("symbolic power of a product of matrices")
        n, x, t = self.word[0]
        return Mat(self.shape[0], ((n, x * e, t),))

    def substituted(self, m):
        return Mat(values.subst(self.shape[0], m), tuple((n, e.subs(m), t) for n, e, t in self.word))

    def probe(self):
        return tuple(e for n, e, t in self.word) + (self.shape[0],)

    # ------------------------------------------------ loops
    def loop_havoc(self, name):
        return Mat(self.shape[0], (("?" + name, 1, False),))

    def loop_close(self, h, new, k, ka):
        """value after k iterations, when one iteration takes h to new"""
        if not isinstance(new, Mat):
            return None
        mark = h.word[0][0]
        pos = [i for i, (n, e, t) in enumerate(new.word) if n == mark]
        if len(pos) != 1 or new.word[pos[0]][1].concrete() != 1 or new.word[pos[0]][2]:
            return None
        L, R = new.word[:pos[0]], new.word[pos[0] + 1:]
        if any(ka in e.atoms() for n, e, t in L + R):
            return None
        try:
            return Mat(self.shape[0], L).power(k).mul(self).mul(Mat(self.shape[0], R).power(k))
        except Unsupported:
            return None


def gen(name, n):
    return Mat(n, ((name, 1, False),))
