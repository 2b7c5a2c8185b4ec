"""tools/ob.py specs.c05 [fn]: run obligation groups and print them."""
import importlib, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import env  # noqa
m = importlib.import_module(sys.argv[1])
for name, mod, fn, args in m.OBLIGATIONS:
    if len(sys.argv) > 2 and sys.argv[2][0] != "-" and sys.argv[2] not in (name, fn):
        continue
    t = time.time()
    try:
        r = getattr(importlib.import_module(mod), fn)(*args)
    except BaseException as e:
        print(name, "FAILED", type(e).__name__, str(e)[:500]); 
        if "-t" in sys.argv:
            tb = traceback.extract_tb((e.__cause__ or e).__traceback__)
            print("     ", " < ".join("%s:%d" % (f.filename.split("/")[-1], f.lineno) for f in tb[::-1][:9]))
        continue
    st = {}
    for o in r["obligations"]: st[o["status"]] = st.get(o["status"], 0) + 1
    print("%-30s %s %.1fs unsup=%s" % (name, st, time.time() - t, r["unsupported"]))
    for o in r["obligations"]:
        if o["status"] != "proved" or "-v" in sys.argv: print("   ", o["status"], o["by"], o["name"], "|", o["detail"][:300], o["replay"] and o["replay"].get("what"))
