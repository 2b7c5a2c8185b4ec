"""C19 obligations: metadata of the families and of composed elements."""
import importlib
import re

from specs import c03, c08, c09, c10, c11, c12, c15, c16, c17, elements

METADATA = re.compile("|".join([
    "degree", "order is", "get_order", "mapping", "value.shape", "vectors of the dimension", "lives on", "functionals live on",
    "one functional per", "length of functionals", "counts its parts", "sub-element", "is_nodal", "nodal ", "tabulate: shape", "one table per derivative",
    "component per component", "left alone", "changes nothing"]))


def group(mod, fn, args, keep):
    """Run a group which also decides another property; keep the obligations
    of this one.  What else goes wrong there is reported by that property."""
    from vlib.pyvc import engine
    try:
        r = getattr(importlib.import_module(mod), fn)(*args)
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException as e:
        last = getattr(engine.Engine, "last", None)
        r = last.result() if last is not None else dict(obligations=[], functions=[], assumptions=[], backends={}, unsupported=[])
        r["obligations"] = [o for o in r["obligations"] if o["status"] == "refuted"]
        r["unsupported"] = ["%s: %s" % (type(e).__name__, str(e)[:300])]
        engine.Engine.last = None
    r["obligations"] = [o for o in r["obligations"] if keep(o["name"])]
    return r


def frames(mod, fn, args):
    """The frame conditions of a group."""
    return group(mod, fn, args, lambda name: "changes nothing" in name)


OTHER = re.compile("refused|degrees? of freedom|coefficients have the size|computed once|expansion")


def pick(mod, fn, args):
    """The obligations of a group about metadata."""
    return group(mod, fn, args, lambda name: METADATA.search(name) is not None and not OTHER.search(name))


def some(obs, fns, each=10 ** 6):
    out = []
    for f in fns:
        out += [("metadata of " + n, "specs.c19", "pick", (m, g, a)) for n, m, g, a in obs if g == f][:each]
    return out


OBLIGATIONS = elements.obligations("C19")

def small(o):
    """Groups of at most two parts, and one of three (the others differ in cells and shapes only)."""
    n = o[0]
    if o[2] == "product_init":
        return n in ("init T PE x I PE", "init IxI PE x I PE", "init I PE x IxI PE", "init T CPE x I PE") or "init mapping" in n or "init form" in n
    return n.count("()") + n.count("(2") + n.count("(3") <= 2 or n.startswith("enriched I")


OBLIGATIONS += some([o for o in c10.OBLIGATIONS if small(o)], ("product_init", "accessors", "flatten"))
OBLIGATIONS += some(c11.OBLIGATIONS, ("wrap",))
OBLIGATIONS += some([o for o in c12.OBLIGATIONS if small(o)], ("enriched", "mixed", "restricted", "broken", "nodal_enriched"))


def framed(obs, keep):
    return [("frame of " + n, "specs.c19", "frames", (m, g, a)) for n, m, g, a in obs if keep(n, g, a)]


OBLIGATIONS += framed(c03.OBLIGATIONS, lambda n, g, a: g == "ciarlet" and a[2] in (None, (a[0] - 1, 1), (0, 1)))
OBLIGATIONS += framed(c08.OBLIGATIONS, lambda n, g, a: g != "affine" and a[0] in ("I", "T", "S", "Q", "H", "IxI", "TxI") and not (g == "contains" and len(a) > 1 and a[1]))
OBLIGATIONS += framed(c09.OBLIGATIONS, lambda n, g, a: n.startswith("points-"))
OBLIGATIONS += framed(c10.OBLIGATIONS, lambda n, g, a: g == "product_tabulate" and (a[:2] == ("I", "I") or a[:2] == ("T", "I") and "None" in n))
OBLIGATIONS += framed(c15.OBLIGATIONS, lambda n, g, a: g in ("tabulate", "take"))
OBLIGATIONS += framed(c16.OBLIGATIONS, lambda n, g, a: g == "element")
OBLIGATIONS += framed(c17.OBLIGATIONS, lambda n, g, a: g in ("on_cell", "construction") and a[0] in ("T", "S", "Q", "TxI"))
