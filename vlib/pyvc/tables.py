"""Arrays whose contents are governed by a data invariant: every defined entry
equals a specification function of its key.  Reads use the invariant, writes
must re-establish it, and it is shown separately that reads hit defined entries
and that at the end every key of the domain has been written."""
import itertools

from vlib.pyvc import sym, values
from vlib.pyvc.sym import Rat, SymBool, Unsupported, band, bor, bnot
from vlib.pyvc.values import SymArr, subst, depends, solve_linear, as_symarr, symbolic
import numpy


class Region(object):
    def __init__(self, binders, pcs, key, phase, seq):
        self.binders, self.pcs, self.key, self.phase, self.seq = binders, pcs, key, phase, seq

    def rename(self):
        m = {}
        bs = []
        for a, n in self.binders:
            f = sym.fresh("r")
            m[a] = f
            bs.append((next(iter(f.atoms())), subst(n, {x: m[x] for x in m if x != a}) if isinstance(n, Rat) else n))
        return bs, [subst(p, m) for p in self.pcs], tuple(k.subs(m) for k in self.key), m


class SpecTable(object):
    _symstore = numpy.ndarray
    __array_priority__ = 3000

    def __init__(self, ip, shape, name, nkey, key_of, dom, phases, is_list=False):
        self.ip, self.shape, self.name = ip, tuple(shape), name
        self.nkey, self.key_of, self.dom, self.phases = nkey, key_of, dom, phases
        self.regions, self.pending = [], []
        self.seq = itertools.count()
        self.cur = 0
        self.dtype = float
        ip.tables.append(self)
        if is_list:
            self._symstore = list

    @property
    def ndim(self):
        return len(self.shape)

    def _symbolic_parts(self):
        return self.shape

    # ---------------------------------------------------------------- access
    def _expand(self, key):
        """-> (slice binders, index tuple, result shape, position of binders)"""
        shape, back = SymArr(self.shape, None).norm_index(key)
        vs = [sym.fresh("s") for _ in shape]
        return shape, vs, back(tuple(vs))

    def _binders(self):
        eng = self.ip.eng
        return [(next(iter(j["k"].atoms())), j["n"]) for j in eng.journal]

    def __getitem__(self, key):
        shape, vs, idx = self._expand(key)
        if not shape:
            return self.read(idx)

        def fn(ii, idx=idx, vs=vs):
            m = {next(iter(v.atoms())): Rat.of(i) for v, i in zip(vs, ii)}
            return self.read(tuple(Rat.of(x).subs(m) for x in idx))
        return SymArr(shape, fn)

    def read(self, idx):
        eng = self.ip.eng
        idx = tuple(Rat.of(i) for i in idx)
        key = self.key_of(idx)
        if key is None:
            raise Unsupported("index %s of %s is not that of an entry" % (idx, self.name))
        key = tuple(Rat.of(k) for k in key)
        if not eng.muted:
            eng.prove("%s: entry read lies in the table" % eng.where, self.dom(key))
            self.pending.append((self._binders(), list(eng.pc), key, next(self.seq)))
            if eng.journal:
                eng.journal[-1]["reads"].append((id(self), key))
        ph = 0
        if self.cur > 0:
            done = [r for r in self.regions if r.phase >= 1]
            c = self.covered(done, key)
            if isinstance(c, SymBool) and not eng.entails(c):
                if not eng.entails(bnot(c)):
                    raise Unsupported("entry may or may not have been updated")
                ph = 0
            elif c is False:
                ph = 0
            else:
                ph = 1
        return self.phases[ph](*key)

    def __setitem__(self, key, v):
        shape, vs, idx = self._expand(key)
        if isinstance(v, (numpy.ndarray, list, tuple)):
            v = as_symarr(v)
        eng = self.ip.eng
        extra = [(next(iter(x.atoms())), n) for x, n in zip(vs, shape)]
        base = list(eng.pc)
        if isinstance(v, SymArr):
            values._bshape(shape, v.shape)
        for x, n in zip(vs, shape):
            eng.pc = eng.pc + [b for b in (x >= 0, x < n) if isinstance(b, SymBool)]
        try:
            val = v.at(values._bidx(v.shape, tuple(vs))) if isinstance(v, SymArr) else v
            self.write(tuple(Rat.of(i) for i in idx), val, extra)
        finally:
            eng.pc = base

    def write(self, idx, val, extra):
        eng = self.ip.eng
        if eng.muted:
            return
        key = self.key_of(idx)
        if key is None:
            raise Unsupported("index %s of %s is not that of an entry" % (idx, self.name))
        key = tuple(Rat.of(k) for k in key)
        eng.prove("%s: entry written lies in the table" % eng.where, self.dom(key))
        if val is None:
            raise Unsupported("None written")
        val = Rat.of(val)
        phase = None
        for p in range(self.cur, len(self.phases)):
            if eng.equal_terms(val, self.phases[p](*key)) or self._z3eq(val, self.phases[p](*key)):
                phase = p
                break
        nm = "%s: entries written to %s equal their specification" % (eng.where, self.name)
        if phase is None:
            eng.diff = (val, self.phases[self.cur](*key), key, list(eng.pc))
            eng.prove(nm, val == self.phases[-1](*key), "entry %s: %s is not %s" % (key, str(val)[:200], str(self.phases[-1](*key))[:200]))
            phase = len(self.phases) - 1 if self.cur else 0
        else:
            eng._record(nm, "proved", "polynomial identity")
        if phase > 0:
            if self.cur == 0:
                self.cur = 1
            if eng.journal:
                for tid, k in eng.journal[-1]["reads"]:
                    if tid == id(self) and not all(eng.equal_terms(x, y) for x, y in zip(k, key)):
                        raise Unsupported("an updating loop reads other entries")
                inj, _ = solve_linear([a - b for a, b in zip(key, [sym.fresh("q") for _ in key])], {a: None for a, n in self._binders() + extra})
        bs = self._binders() + extra
        at = {a for a, n in bs}
        self.regions.append(Region(bs, [b for b in eng.pc if depends(b, at)], key, phase, next(self.seq)))

    def _z3eq(self, a, b):
        return False

    def __imul__(self, c):
        raise Unsupported("whole-table update")

    # ------------------------------------------------------------- coverage
    def covered(self, regions, key, before=None):
        """SymBool: some write region contains key (earlier than `before`)."""
        alts = []
        for r in regions:
            bs, pcs, k, m = r.rename()
            sol, conds = solve_linear([a - b for a, b in zip(k, key)], {a: None for a, n in bs})
            if sol is None:
                continue
            conds = [subst(c, sol) for c in conds]
            full = dict(sol)
            free = [a for a, n in bs if a not in full]
            if free:
                if all(not depends(pcs, {a}) and Rat.of(n).concrete() == 1 for a, n in bs if a in free):
                    full.update({a: Rat.of(0) for a in free})
                else:
                    raise Unsupported("write region not determined by its key")
            cs = list(conds)
            for a, n in bs:
                n = Rat.of(n).subs(full)
                cs += [full[a] >= 0, full[a] < n]
            cs += [subst(p, full) for p in pcs]
            if before is not None:
                rb, seq = before
                # common prefix of loops (same binder atoms)
                j = 0
                while j < len(rb) and j < len(r.binders) and rb[j][0] == r.binders[j][0]:
                    j += 1
                order = []
                for i in range(j):
                    w = full[bs[i][0]]
                    me = Rat.atom(sym.ATOMS[rb[i][0]])
                    eqs = [full[bs[q][0]] == Rat.atom(sym.ATOMS[rb[q][0]]) for q in range(i)]
                    order.append(band(*(eqs + [w < me])))
                if r.seq < seq:
                    order.append(band(*[full[bs[q][0]] == Rat.atom(sym.ATOMS[rb[q][0]]) for q in range(j)]))
                cs.append(bor(*order))
            alts.append(band(*cs))
        return bor(*alts)

    def settle(self):
        eng = self.ip.eng
        todo, self.pending = self.pending, []
        for binders, pc, key, seq in todo:
            c = self.covered(self.regions, key, (binders, seq))
            base = eng.pc
            eng.pc = pc
            try:
                eng.prove("%s: entries read from %s have been written before" % (eng.where, self.name), c)
            finally:
                eng.pc = base

    def finish(self, phase=None):
        """Every key of the domain holds its final specification."""
        eng = self.ip.eng
        self.settle()
        phase = len(self.phases) - 1 if phase is None else phase
        key = tuple(sym.fresh("key") for _ in range(self.nkey))
        base = list(eng.pc)
        d = self.dom(key)
        eng.pc = base + ([d] if isinstance(d, SymBool) else [])
        try:
            if d is not False:
                c = self.covered([r for r in self.regions if r.phase >= min(phase, 1)], key)
                return eng.prove("%s: every entry of %s is written" % (eng.where, self.name), c)
        finally:
            eng.pc = base
        return True
