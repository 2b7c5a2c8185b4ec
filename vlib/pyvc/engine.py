"""Path exploration, proof obligations and the z3 back end."""
import time
from fractions import Fraction

from vlib import env
from vlib.pyvc import sym
from vlib.pyvc.sym import Rat, SymBool, Unsupported, ATOMS, band, bor, bnot, bimplies  # noqa: F401

z3 = None


def _z3():
    global z3
    if z3 is None:
        z3 = env.load_z3()
    return z3


class PathDead(BaseException):
    pass


class Obligation(object):
    def __init__(self, name, function, status, by, detail="", model=None):
        self.name, self.function, self.status, self.by, self.detail, self.model = name, function, status, by, detail, model
        self.replay = None

    def to_dict(self):
        return dict(name=self.name, function=self.function, status=self.status, by=self.by,
                    detail=self.detail, model=self.model, replay=self.replay)


def internal(e):
    t = e.__traceback__
    if t is None:
        return False
    while t.tb_next is not None:
        t = t.tb_next
    return "/vlib/pyvc/" in t.tb_frame.f_code.co_filename


class Engine(object):
    def __init__(self, name="", timeout=4000):
        Engine.last = self
        _z3()
        self.name = name
        self.pc = []                # assumed SymBools (path condition)
        self.decisions, self.pos, self.pending = [], 0, []
        self.obs = {}               # name -> Obligation
        self.order = []
        self.muted = 0
        self.functions = []
        self.assumptions = []
        self.backends = {}
        self.solver_time = 0.0
        self.timeout = timeout
        self.patience = 120.0
        self.journal = []           # stack of event lists (loop bodies)
        self.depth = 0      # of nested explorations
        self.normalizers = []       # Rat -> Rat
        self.where = "?"
        self.infos = []
        self.max_paths = 400
        self.cache = {}
        self.facts_for = []         # callables atom -> [SymBool]
        sym.HOOKS.update(decide=self.decide, assume=self.assume, nonzero=self._nonzero, nonneg=self._nonneg)

    # ------------------------------------------------------------- z3 terms
    def tz(self, r):
        out = self._tp(r.num)
        if r.den:
            d = None
            for f, e in r.den:
                t = self._tp(f)
                for _ in range(e):
                    d = t if d is None else d * t
            out = self._real(out) / self._real(d)
        return out

    def _real(self, e):
        return z3.ToReal(e) if e.sort() == z3.IntSort() else e

    def _tatom(self, i):
        a = ATOMS[i]
        if a.z3 is None:
            nm = "a%d_%s" % (i, a.name)
            a.z3 = z3.Int(nm) if a.sort == "int" else z3.Real(nm)
        return a.z3

    def _tp(self, p):
        if not p.t:
            return z3.IntVal(0)
        ints = all(ATOMS[a].sort == "int" for a in p.atoms()) and all(c.denominator == 1 for c in p.t.values())
        terms = []
        for m, c in p.t.items():
            t = None
            for a, e in m:
                x = self._tatom(a)
                if not ints:
                    x = self._real(x)
                for _ in range(e):
                    t = x if t is None else t * x
            if ints:
                cv = z3.IntVal(int(c))
            else:
                cv = z3.RealVal(str(c))
            t = cv if t is None else (t if c == 1 else cv * t)
            terms.append(t)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def tb(self, b):
        if not isinstance(b, SymBool):
            return z3.BoolVal(bool(b))
        k = b.e[0]
        if k == "cmp":
            op, d = b.e[1], b.e[2]
            # scale to integers when possible
            if not d.den:
                L = 1
                for c in d.num.t.values():
                    L = L * c.denominator // sym._gcd(L, c.denominator)
                t = self._tp(d.num.scale(Fraction(L)))
            else:
                t = self.tz(d)
            z = z3.IntVal(0) if t.sort() == z3.IntSort() else z3.RealVal(0)
            return {"==": t == z, "!=": t != z, "<": t < z, "<=": t <= z, ">": t > z, ">=": t >= z}[op]
        if k == "not":
            return z3.Not(self.tb(b.e[1]))
        if k == "and":
            return z3.And(*[self.tb(x) for x in b.e[1]])
        if k == "or":
            return z3.Or(*[self.tb(x) for x in b.e[1]])
        if k == "z3":
            return b.e[1]
        raise Unsupported("boolean %s" % k)

    def _batoms(self, b, s):
        if not isinstance(b, SymBool):
            return
        if b.e[0] == "cmp":
            s |= b.e[2].atoms()
        elif b.e[0] == "not":
            self._batoms(b.e[1], s)
        elif b.e[0] in ("and", "or"):
            for x in b.e[1]:
                self._batoms(x, s)

    def _side(self, bs):
        """defining facts of sqrt/floor atoms (and registered ones)"""
        s = set()
        for b in bs:
            self._batoms(b, s)
        out = []
        for i in s:
            a = ATOMS[i]
            if a.kind == "sqrt":
                x = self._tatom(i)
                out += [x >= 0, x * x == self._real(self.tz(a.args[0]))]
            elif a.kind == "floor":
                x, c = self._tatom(i), int(a.args[1].const())
                p = self.tz(a.args[0])
                if c > 0:
                    out += [c * x <= p, p < c * x + c]
            for f in self.facts_for:
                out += [self.tb(b) for b in f(a)]
        return out

    def check(self, bs, timeout=None):
        """z3 result on a conjunction of SymBools (with path condition)."""
        allb = self.pc + [b for b in bs if isinstance(b, SymBool)]
        if any((not isinstance(b, SymBool)) and not b for b in bs):
            return "unsat", None
        zs = [self.tb(b) for b in allb]
        key = (tuple(sorted(z.get_id() for z in zs)),)
        self.lastkey = key
        if key in self.cache:
            return self.cache[key][:2]
        s = z3.Solver()
        s.set("timeout", timeout or self.timeout)
        for z in zs + self._side(allb):
            s.add(z)
        t0 = time.time()
        r = str(s.check())
        self.solver_time += time.time() - t0
        m = s.model() if r == "sat" else None
        self.cache[key] = (r, m, zs)      # keep zs alive so ids stay unique
        return r, m

    def check_hard(self, bs, timeout=None):
        """check, tried again with more time: an answer must not depend on how
        busy the machine is."""
        r, m = self.check(bs, timeout)
        if r == "unknown" and self.patience > 0 and not self.muted:
            self.cache.pop(self.lastkey, None)
            t = time.time()
            r, m = self.check(bs, 40000)
            self.patience -= time.time() - t
        return r, m

    # ------------------------------------------------------------ exploration
    def assume(self, b):
        if isinstance(b, SymBool):
            self.pc.append(b)
        elif not b:
            raise PathDead()

    def entails(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        if b.e[0] == "cmp" and b.e[1] == "==":
            if self.equal_terms(b.e[2], Rat.of(0)):
                return True
        return self.check([bnot(b)])[0] == "unsat"

    def decide(self, b):
        if b.e[0] == "cmp" and b.e[1] in ("==", "!="):
            if self.equal_terms(b.e[2], Rat.of(0)):
                return b.e[1] == "=="
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if d[1]:
                self.assume(b if d[0] else bnot(b))
            else:
                self._note(b, d[0])
            return d[0]
        t = self.check([b])[0] != "unsat"
        f = self.check([bnot(b)])[0] != "unsat"
        if not t and not f:
            raise PathDead()
        forked = t and f
        val = t
        if forked:
            self.pending.append(self.decisions[:self.pos] + [(False, True)])
        self.decisions.append((val, forked))
        self.pos += 1
        if forked:
            self.assume(b)
        else:
            self._note(b, val)
        return val

    def _note(self, b, val):
        """keep entailed equalities: term comparison uses them"""
        if b.e[0] == "cmp" and (b.e[1], val) in (("==", True), ("!=", False)):
            self.assume(b if val else bnot(b))

    def explore(self, thunk):
        """All feasible paths of thunk: list of (added path conditions, kind, value)."""
        sv = (self.decisions, self.pos, self.pending)
        base = list(self.pc)
        work, out = [[]], []
        jdepth = len(self.journal)
        self.depth += 1
        try:
            while work:
                self.decisions, self.pos, self.pending = list(work.pop()), 0, []
                self.pc = list(base)
                try:
                    v = thunk()
                    kind = "value"
                except PathDead:
                    # nothing after this point was checked
                    raise Unsupported("inconsistent assumptions on a path")
                except Unsupported:
                    raise
                except Exception as e:
                    kind, v = "raise", e
                    if not getattr(e, "_pyvc", False) and internal(e):
                        # a limit of the interpreter, not an exception of the code
                        if self.check([])[0] != "unsat":
                            raise Unsupported("%s: %s" % (type(e).__name__, e)) from e
                del self.journal[jdepth:]
                if self.depth == 1 and self.check([])[0] == "unsat":
                    # what was proved on this path holds for nothing
                    raise Unsupported("a path under inconsistent assumptions")
                out.append((self.pc[len(base):], kind, v))
                work += self.pending
                if len(out) > self.max_paths:
                    raise Unsupported("more than %d paths" % self.max_paths)
        finally:
            self.depth -= 1
            self.decisions, self.pos, self.pending = sv
            self.pc = base
            del self.journal[jdepth:]
        return out

    # ------------------------------------------------------------ obligations
    def normalize(self, r):
        for f in self.normalizers:
            r = f(r, self)
        return r

    def equal_terms(self, a, b):
        d = a - b
        c = d.const()
        if c is not None:
            return c == 0
        m = self.pc_equalities(d)
        if m:
            h = sym.HOOKS.pop("nonzero", None)
            try:
                d = d.subs(m)
            finally:
                if h is not None:
                    sym.HOOKS["nonzero"] = h
            c = d.const()
            if c is not None:
                return c == 0
        if self.normalizers:
            d = self.normalize(d)
            c = d.const()
            if c is not None:
                return c == 0
        from . import values
        return values.sums_cancel(d)

    def pc_equalities(self, d):
        """Substitution implied by the equalities of the path condition."""
        m = {}
        at = None
        for b in self.pc:
            if isinstance(b, SymBool) and b.e[0] == "cmp" and b.e[1] == "==":
                e = b.e[2].subs(m) if m else b.e[2]
                if e.den or e.const() is not None:
                    continue
                if at is None:
                    at = d.atoms()
                for a in sorted(e.num.atoms(), reverse=True):
                    if ATOMS[a].kind != "sym" or a not in at:
                        continue
                    parts = sym.split(e.num, a)
                    if set(parts) <= {0, 1} and parts[1].const() is not None:
                        r = Rat(parts.get(0, sym.ZERO)) * (-1 / parts[1].const())
                        if a in r.atoms():
                            continue
                        m = {x: y.subs({a: r}) for x, y in m.items()}
                        m[a] = r
                        at = at | r.atoms()
                        break
        return m

    def _record(self, name, status, by, detail="", model=None):
        if self.muted:
            return
        o = self.obs.get(name)
        rank = {"proved": 0, "unknown": 1, "refuted": 2}
        if o is None:
            self.obs[name] = Obligation(name, self.where, status, by, detail, model)
            self.order.append(name)
            self.backends[by] = self.backends.get(by, 0) + (status == "proved")
        elif rank[status] > rank[o.status]:
            o.status, o.by, o.detail, o.model = status, by, detail, model

    def model_dict(self, m):
        if m is None:
            return None
        d = {}
        byname = {}
        for a in ATOMS:
            if a.z3 is not None:
                byname[str(a.z3)] = a
        for v in m.decls():
            a = byname.get(v.name())
            d[repr(a) if a is not None else v.name()] = str(m[v])
        return d

    def prove(self, name, b, detail=""):
        """Discharge b under the path condition. Returns True iff proved."""
        if self.muted:
            return True
        if not isinstance(b, SymBool):
            if b:
                self._record(name, "proved", "evaluation")
                return True
            r, m = self.check([])
            if r == "unsat":
                self._record(name, "proved", "z3")
                return True
            self._record(name, "refuted" if r == "sat" else "unknown", "evaluation", detail or "false", self.model_dict(m))
            return False
        if b.e[0] == "cmp" and b.e[1] == "==" and self.equal_terms(b.e[2], Rat.of(0)):
            self._record(name, "proved", "polynomial identity")
            return True
        r, m = self.check_hard([bnot(b)])
        if r == "unsat":
            self._record(name, "proved", "z3")
            return True
        if r == "sat":
            # apps are uninterpreted for z3: a model is only a counterexample
            # if no application occurs
            s = set()
            self._batoms(b, s)
            for p in self.pc:
                self._batoms(p, s)
            if not any(ATOMS[i].kind in ("app", "pow") for i in s):
                self._record(name, "refuted", "z3", detail or ("not valid: %s" % b)[:600], self.model_dict(m))
                return False
        self._record(name, "unknown", "z3", (detail or "not proved: %s" % b)[:600])
        return False

    def _nonzero(self, r):
        if self.muted:
            return
        if r.const() is not None:
            return
        nm = "%s: divisor is not zero: %s" % (self.where, str(r)[:60])
        if self.check_hard([r == 0], timeout=2000)[0] == "unsat":
            self._record(nm, "proved", "z3")
        else:
            hook = getattr(self, "nonzero_hook", None)
            if hook and hook(r):
                self._record(nm, "proved", "contract")
            elif not getattr(self, "lenient_division", False):
                self._record(nm, "unknown", "z3", "division by %s" % r)

    def _nonneg(self, r):
        if self.muted:
            return
        nm = "%s: square root of a non-negative number: %s" % (self.where, str(r)[:60])
        if self.check_hard([r < 0], timeout=2000)[0] == "unsat":
            self._record(nm, "proved", "z3")
        else:
            self._record(nm, "unknown", "z3", "square root of %s" % r)

    def result(self):
        return dict(obligations=[self.obs[n].to_dict() for n in self.order], functions=list(self.functions),
                    assumptions=list(self.assumptions), backends=dict(self.backends), unsupported=list(self.infos),
                    solver_time=self.solver_time)
