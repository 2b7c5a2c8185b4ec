"""C18: the variant language and the domains of the constructors."""
from vlib import env  # noqa: F401
from vlib.pyvc import sym, strings
from vlib.pyvc.engine import Engine
from vlib.pyvc.interp import Interp
from vlib.pyvc.sym import Rat, isym, SymBool, Unsupported, bnot
from specs import elements
from vlib.pyvc.engine import _z3

z3 = _z3()

NUMBERED = z3.Concat(z3.Re("integral("), z3.Plus(z3.Range("0", "9")), z3.Re(")"))


def variant_contract(given):
    """check_format_variant for every string and every degree"""
    from FIAT.check_format_variant import check_format_variant as f
    eng = Engine("check_format_variant")
    eng.assumptions += ["decimal digits other than 0-9 are not considered"]
    ip = Interp(eng)
    d = isym("degree")
    eng.assume(d >= 0)
    s = strings.SymStr.new("variant") if given else None
    nm = "check_format_variant.check_format_variant"
    eng.where = nm
    for pc, kind, v in eng.explore(lambda: ip.call(f, [s, d, "element"], {})):
        base = list(eng.pc)
        eng.pc = base + list(pc)
        is_ = lambda t: s == t      # noqa: E731
        if not given:
            eng.prove(nm + ": an omitted variant is point evaluation", kind == "value" and tuple(v) == ("point", None), "%r" % (v,))
            eng.pc = base
            continue
        if kind == "raise":
            if not getattr(v, "_pyvc", False):
                raise Unsupported("%s %s" % (type(v).__name__, v))
            eng.prove(nm + ": point is accepted", bnot(is_("point")))
            eng.prove(nm + ": integral is accepted", bnot(is_("integral")))
            low = False
            for b in list(eng.pc):
                if isinstance(b, SymBool) and b.e[0] == "cmp":
                    for a in b.e[2].atoms():
                        z = strings.INTS.get(a)
                        if z is not None and eng.entails(Rat.atom(sym.ATOMS[a]) < d + 1) and eng.entails(SymBool(("z3", s.z == z3.Concat(z3.StringVal("integral("), z, z3.StringVal(")"))))):
                            low = True
            if not low:
                eng.prove(nm + ": integral(n) is accepted for n above the degree", bnot(strings.is_in(s.z, NUMBERED)))
            eng.pc = base
            continue
        name, n = v
        if isinstance(name, strings.SymStr):
            name = next((t for t in ("point", "integral") if eng.entails(name == t)), "another string")
        if n is None:
            eng.prove(nm + ": only point is point evaluation", is_("point") if name == "point" else False, "%s" % name)
        elif eng.entails(is_("integral")):
            eng.prove(nm + ": the default quadrature degree is 5 (degree + 1)", (n == 5 * (d + 1)) if name == "integral" else False, "%s, %s" % (name, n))
        else:
            n = Rat.of(n)
            z = [strings.INTS[a] for a in n.atoms() if a in strings.INTS]
            ok = len(z) == 1 and name == "integral" and (n - [Rat.atom(sym.ATOMS[a]) for a in n.atoms() if a in strings.INTS][0]).const() == 0
            eng.prove(nm + ": otherwise the variant is integral(n), of quadrature degree n",
                      SymBool(("z3", s.z == z3.Concat(z3.StringVal("integral("), z[0], z3.StringVal(")")))) if ok else False, "%s, %s" % (name, n))
            eng.prove(nm + ": the quadrature degree is at least the degree + 1", n >= d + 1)
        eng.pc = base
    for o in eng.obs.values():
        if o.status != "proved" and given:
            o.replay = replay(f, o.model or {})
            if o.replay:
                o.status = "refuted"
    return eng.result()


def replay(f, model):
    """the real function on the solver's string and on strings near the language"""
    from props.c18 import parse, STRINGS
    import warnings
    cand = [eval(v) for k, v in model.items() if k == "variant"] if model else []
    cand += STRINGS + ["integral(%d)" % n for n in range(70)]
    for d in range(8):
        for s in cand:
            want = parse(s, d)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = tuple(f(s, d, "element"))
            except Exception:
                got = None
            if got != want:
                return dict(confirmed=True, call="check_format_variant(%r, %d, 'element')" % (s, d), what="check_format_variant(%r, %d) gives %s, expected %s" % (s, d, got, want))
    return None


OBLIGATIONS = [("variant/%s" % ("omitted", "given")[g], "specs.c18", "variant_contract", (g,)) for g in (0, 1)] + elements.obligations("C18")
