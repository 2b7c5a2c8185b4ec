"""Helpers shared by the specifications."""
from fractions import Fraction
import random

from vlib.pyvc import sym
from vlib.pyvc.sym import Rat, SymBool, ATOMS


def finish(eng, pc, kind, v, name, want, fn, replay=None):
    """Postcondition of one path: the value equals want()."""
    base = list(eng.pc)
    eng.pc = base + list(pc)
    eng.where = fn
    nm = "%s: %s" % (fn, name)
    try:
        if kind == "raise":
            r, m = eng.check([])
            if r == "unsat":
                return True
            eng._record(nm, "refuted" if r == "sat" and getattr(v, "_pyvc", False) else "unknown", "path", "raises %s: %s" % (type(v).__name__, v), eng.model_dict(m))
            return False
        if want is None:
            return True
        w = want()
        rv = Rat.of(v) if v is not None else None
        if rv is None:
            eng._record(nm, "refuted", "path", "returns %r" % (v,))
            return False
        if eng.prove(nm, rv == w):
            return True
        o = eng.obs[nm]
        if replay is not None and o.status != "proved":
            wit = witness(eng, rv, w, replay)
            if wit:
                o.status, o.replay, o.detail = "refuted", wit, "%s; %s" % (o.detail, wit.get("what", ""))
        return False
    finally:
        eng.pc = base


def witness(eng, got, want, replay):
    """Search concrete values of the symbols satisfying the path condition and
    replay the real code on them."""
    r, m = eng.check([])
    if r == "unsat":
        return None
    for extra in range(40):
        z = eng_model(eng, extra)
        if z is None:
            continue
        try:
            w = replay(z)
        except Exception as e:      # the replay could not be run
            w = None
            last = e
        if w:
            return w
    return None


def eng_model(eng, seed):
    """dict atom idx -> value satisfying the path condition, randomised."""
    rnd = random.Random(seed)
    atoms = set()
    for b in eng.pc:
        eng._batoms(b, atoms)
    extra = []
    for i in atoms:
        a = ATOMS[i]
        if a.kind != "sym":
            continue
        x = Rat.atom(a)
        if a.sort == "int":
            extra.append(x <= rnd.choice([2, 4, 7, 12, 30]))
        else:
            extra.append(x <= 3)
    r, m = eng.check(extra)
    if r != "sat":
        r, m = eng.check([])
        if r != "sat":
            return None
    # randomise one variable at a time
    for i in list(atoms):
        a = ATOMS[i]
        if a.kind != "sym":
            continue
        x = Rat.atom(a)
        v = rnd.randint(0, 14) if a.sort == "int" else Fraction(rnd.randint(-9, 20), rnd.choice([1, 2, 3, 7]))
        r2, m2 = eng.check(extra + [x == v])
        if r2 == "sat":
            extra = extra + [x == v]
            m = m2
    out = {}
    for i in atoms:
        a = ATOMS[i]
        if a.z3 is None or a.kind != "sym":
            continue
        val = m.eval(a.z3, model_completion=True)
        s = str(val)
        try:
            out[i] = Fraction(s)
        except ValueError:
            try:
                out[i] = Fraction(val.approx(20).as_fraction())
            except Exception:
                return None
    return out


def val(z, r, default=0):
    r = Rat.of(r)
    try:
        return sym.evaluate(r, z)
    except KeyError:
        return default


def replay_jacobi(fname, z, n, x):
    from FIAT import jacobi
    from specs.jacobi import numeric_J
    a, b = val(z, sym.sym("a")), val(z, sym.sym("b"))
    nn = int(val(z, n, 5))
    for xx in (Fraction(1, 3), Fraction(-5, 7), Fraction(1), Fraction(-1), Fraction(0), val(z, x, 0)):
        got = float(getattr(jacobi, fname)(float(a), float(b), nn, float(xx)))
        if fname.endswith("deriv"):
            want = 0.0 if nn == 0 else float((nn + a + b + 1) / 2 * numeric_J(a + 1, b + 1, nn - 1, xx))
        else:
            want = float(numeric_J(a, b, nn, xx))
        if abs(got - want) > 1e-7 * max(1, abs(want)):
            return dict(confirmed=True, call="FIAT.jacobi.%s(%s, %s, %d, %s)" % (fname, float(a), float(b), nn, float(xx)),
                        got=got, expected=want, what="%s(%s, %s, %d, %s) = %r, expected %r" % (fname, float(a), float(b), nn, float(xx), got, want))
    return None


# ------------------------------------------------------------------ frame conditions
def reachable(roots):
    """Everything the given values own, with its contents: id -> (object, contents)."""
    import sys
    from vlib.pyvc import values
    out, todo = {}, list(roots)
    while todo:
        o = todo.pop()
        if id(o) in out or o is None or isinstance(o, (str, bytes, int, float, bool, type, Rat)) or callable(o) and not hasattr(o, "__dict__"):
            continue
        mod = getattr(type(o), "__module__", "") or ""
        if isinstance(o, values.SymArr):
            out[id(o)] = (o, (o.fn, tuple(o.shape)))
        elif isinstance(o, values.Seq):
            segs = list(o.segs) if o.segs is not None else list(list.__iter__(o))
            out[id(o)] = (o, tuple(segs))
            todo += segs
        elif isinstance(o, dict):
            out[id(o)] = (o, tuple((k, v) for k, v in dict.items(o)))
            todo += list(dict.values(o))
        elif isinstance(o, (list, tuple)):
            out[id(o)] = (o, tuple(o))
            todo += list(o)
        elif isinstance(o, (set, frozenset)):
            out[id(o)] = (o, frozenset(map(id, o)))
        elif mod.startswith("FIAT") and hasattr(o, "__dict__"):
            out[id(o)] = (o, tuple(sorted(o.__dict__.items(), key=lambda t: t[0])))
            todo += list(o.__dict__.values())
        elif type(o).__name__ == "ndarray":
            out[id(o)] = (o, o.tobytes() if o.dtype != object else tuple(map(id, o.ravel())))
    # module globals: containers that belong to FIAT's modules
    for name, m in list(sys.modules.items()):
        if name.split(".")[0] == "FIAT" and m is not None:
            for k, v in list(vars(m).items()):
                if isinstance(v, (dict, list, set)) and not k.startswith("__"):
                    out.setdefault(id(v), (v, tuple(v.items()) if isinstance(v, dict) else tuple(v)))
    return out


def same_contents(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(x is y or same_contents(x, y) if isinstance(x, tuple) else x is y or (isinstance(x, (str, int, float)) and x == y) for x, y in zip(a, b))
    return a is b or (isinstance(a, (bytes, frozenset)) and a == b)


def pure(eng, ip, fn, args, kw=None):
    """Call fn; its frame condition: nothing that could be reached from the
    arguments, nor a container of a FIAT module, is changed.  A function that
    keeps notes for itself is not wrong for that: then the frame condition is
    undecided, not refuted."""
    kw = kw or {}
    args = list(args)
    owner = [getattr(fn, "__self__", None)]
    before = reachable(args + list(kw.values()) + owner)
    out = ip.call(fn, args, kw)
    after = reachable([o for o, _ in before.values()])
    name = "%s: changes nothing it was given" % getattr(fn, "__qualname__", fn)
    changed = [o for i, (o, c) in before.items() if i in after and not same_contents(c, after[i][1])]
    if changed:
        eng.infos.append("frame condition: %s may change %s" % (getattr(fn, "__qualname__", fn), ", ".join(sorted({type(o).__name__ for o in changed}))))
    else:
        eng.prove(name, True)
    return out
