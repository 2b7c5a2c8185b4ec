"""tools/mut.py SPECFILE [jobs]: for each mutation (json lines: {"file","old","new","spec"[,"group","ref"]})
run the obligations of a spec (or one group / function of it) on a mutated scratch copy.
"ref": 1 marks a behaviour-preserving rewrite (must not be refuted or unknown)."""
import json, os, queue, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
J = int(sys.argv[2]) if len(sys.argv) > 2 else 6
pool = queue.Queue()
for i in range(J):
    W = "/tmp/mutw%d" % i
    if not os.path.isdir(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    else:
        shutil.rmtree(W + "/FIAT")
        shutil.copytree("/repo/FIAT", W + "/FIAT")
    pool.put(W)


def one(m):
    W = pool.get()
    try:
        p = os.path.join(W, "FIAT", m["file"])
        s = open(p).read()
        if s.count(m["old"]) < 1:
            return "NOT FOUND %s" % m
        open(p, "w").write(s.replace(m["old"], m["new"], 1))
        env = dict(os.environ, VERIF_REPO=W)
        out, err = [], ""
        for g in (m.get("group") or "").split(","):
            cmd = ["/opt/venv/bin/python", "tools/ob.py", "specs." + m["spec"]] + ([g] if g else [])
            if m.get("full"):
                cmd = ["/opt/venv/bin/python", "check.py", m["spec"].upper(), "quick"]
            try:
                r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=900)
                out += [x for x in r.stdout.splitlines() if not ("{'proved'" in x and "unknown" not in x and "refuted" not in x and x.endswith("unsup=[]"))]
                if r.returncode and not out:
                    err += r.stderr[-200:]
            except subprocess.TimeoutExpired:
                out.append("TIMEOUT")
        open(p, "w").write(s)
        bad = any("refuted" in x or "unknown" in x or "NotEst" in x or "VIOLATION" in x for x in out)
        tag = "" if not m.get("ref") else ("REF-ALARM " if bad else "REF-ok ")
        if not m.get("ref"):
            tag = "caught " if bad else "MISSED "
        if "TIMEOUT" in out:
            tag = "TIMEOUT " + tag
        t = ["%sMUT %s %r -> %r" % (tag, m["file"], m["old"][:50], m["new"][:60])]
        t += ["     " + x[:170] for x in out[:m.get("lines", 4)]]
        if err:
            t.append("     ERR " + err)
        elif not out:
            t.append("     *** all proved")
        return "\n".join(t)
    finally:
        pool.put(W)


with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, [json.loads(l) for l in open(sys.argv[1]) if l.strip()]):
        print(r, flush=True)
