"""Common driver: run the obligations of a property through the verifier, run
its bounded stand-ins, write evidence, print the verdict."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import time
import traceback

from vlib import env


class Undecided(Exception):
    """The harness could not be applied to this tree (e.g. a private name it
    observes is gone); never a violation."""


class Fail(object):
    def __init__(self, case, msg):
        self.case, self.msg = case, str(msg)


class Ctx(object):
    """Collector handed to every bounded task."""

    def __init__(self):
        self.fails, self.n, self.nontriv, self.samples, self.undecided = [], 0, 0, [], []

    def ok(self, cond, case, msg="", nontrivial=True):
        self.n += 1
        if nontrivial:
            self.nontriv += 1
        if len(self.samples) < 2:
            self.samples.append(str(case)[:200])
        if not cond:
            self.fails.append(Fail(str(case), msg() if callable(msg) else msg))
        return cond

    def close(self, got, want, case, tol=1e-9, what=""):
        import numpy as np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            return self.ok(False, case, "%s: shape %s instead of %s" % (what, g.shape, w.shape))
        if g.size == 0:
            return self.ok(True, case)
        sc = max(1.0, float(np.abs(w).max()))
        err = float(np.abs(g - w).max()) if np.all(np.isfinite(g)) else float("inf")
        return self.ok(err <= tol * sc, case, lambda: "%s: error %.3g (scale %.3g, tolerance %.1g)" % (what, err, sc, tol))

    def raises(self, fn, case, what="expected an error"):
        try:
            r = fn()
        except Exception:
            return self.ok(True, case)
        return self.ok(False, case, "%s, but got %r" % (what, type(r).__name__))

    def noraise(self, fn, case):
        try:
            r = fn()
        except Undecided:
            raise
        except Exception as e:
            self.ok(False, case, "raised %s: %s (at %s)" % (type(e).__name__, str(e)[:200], where(e)))
            return None
        self.ok(True, case, nontrivial=False)
        return r


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"


def _run_task(t):
    name, modname, fn, args = t
    ctx = Ctx()
    t0 = time.time()
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    try:
        mod = importlib.import_module(modname)
        getattr(mod, fn)(ctx, *args)
    except Undecided as e:
        ctx.undecided.append(str(e))
    except Exception as e:
        ctx.fails.append(Fail("exception", "%s: %s at %s" % (
            type(e).__name__, str(e)[:300], " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                                     for f in reversed(traceback.extract_tb(e.__traceback__))))))
    return dict(name=name, n=ctx.n, nontriv=ctx.nontriv, samples=ctx.samples, undecided=ctx.undecided,
                fails=[(f.case, f.msg) for f in ctx.fails[:20]], wall=time.time() - t0)


def _run_ob(t):
    """Run one group of verifier obligations; returns list of dicts."""
    from vlib.pyvc import engine
    name, modname, fn, args = t
    t0 = time.time()
    engine.Engine.last = None
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    try:
        mod = importlib.import_module(modname)
        res = getattr(mod, fn)(*args)
    except (SystemExit, KeyboardInterrupt):
        raise
    except BaseException as e:       # the verifier's Unsupported is not an Exception
        res = dict(obligations=[], functions=[], assumptions=[], backends={}, unsupported=[
            "%s: %s at %s" % (type(e).__name__, str(e)[:300], " <- ".join(
                "%s:%d" % (os.path.basename(f.filename), f.lineno)
                for f in reversed(traceback.extract_tb(e.__traceback__)[-6:])))])
        # conditions already found false stand, whatever else could not be decided
        last = getattr(engine.Engine, "last", None)
        if last is not None:
            res["obligations"] += [o for o in last.result()["obligations"] if o["status"] == "refuted"]
        if type(e).__name__ == "NotEstablished":
            res["obligations"].append(dict(name="loop invariants and freedom from errors", function=name, status="unknown", by="pyvc",
                                           detail=res["unsupported"].pop(), model=None, replay=None))
    res["name"] = name
    res["wall"] = time.time() - t0
    return res


def _dispatch(t):
    return (t[0], _run_ob(t[1]) if t[0] == "ob" else _run_task(t[1]))


def known_findings():
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def save_replay(pid, payload):
    d = os.path.join(env.VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(payload, sort_keys=True, default=str).encode()).hexdigest()[:10]
    path = os.path.join(d, "%s-%s.json" % (pid, h))
    json.dump(payload, open(path, "w"), indent=1, default=str)
    return path


def main(pid, argv=()):
    t0 = time.time()
    tier = env.tier()
    for a in argv:
        if a in ("quick", "thorough"):
            tier = a
    os.environ["VERIF_TIER"] = tier
    mod = importlib.import_module("props." + pid.lower())
    spec = mod.check(tier)
    deadline = t0 + (780 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "840")))
    only = [a[7:] for a in argv if a.startswith("--only=")]
    obs = list(spec.get("obligations", []))
    if os.path.exists(os.path.join(env.VERIF, "specs", pid.lower() + ".py")):
        sm = importlib.import_module("specs." + pid.lower())
        obs += [("proof:" + t[0],) + tuple(t[1:]) for t in sm.OBLIGATIONS]
    jobs = [("ob", t) for t in obs] + [("task", t) for t in spec.get("bounded", [])]
    if only:
        jobs = [j for j in jobs if any(o in j[1][0] for o in only)]
    verbose = "-v" in argv
    results, timed_out = [], []
    ncpu = min(8, os.cpu_count() or 1)
    pool = mp.get_context("fork").Pool(ncpu, maxtasksperchild=None)
    try:
        it = pool.imap_unordered(_dispatch, jobs, chunksize=1)
        done = 0
        while done < len(jobs):
            left = deadline - time.time()
            if left <= 0:
                break
            try:
                r = it.next(timeout=left)
            except mp.TimeoutError:
                break
            results.append(r)
            done += 1
            if verbose:
                print("  %-5s %-60s %.1fs %s" % (r[0], r[1]["name"], r[1]["wall"],
                                                  r[1].get("fails") or r[1].get("unsupported") or ""), flush=True)
        finished = {r[1]["name"] for r in results}
        timed_out = [j[1][0] for j in jobs if j[1][0] not in finished]
    finally:
        pool.terminate()
        pool.join()

    obres = [r for k, r in results if k == "ob"]
    tasks = [r for k, r in results if k == "task"]
    violations = []      # (key, summary, replay-payload, concrete)
    obligations = discharged = 0
    oblist, failed_ob, undecided = [], [], []
    functions, assumptions, backends, solver_time = [], list(spec.get("assumptions", [])), {}, 0.0
    for r in obres:
        for f in r.get("functions", []):
            if f not in functions:
                functions.append(f)
        for a in r.get("assumptions", []):
            if a not in assumptions:
                assumptions.append(a)
        for k, v in r.get("backends", {}).items():
            backends[k] = backends.get(k, 0) + v
        solver_time += r.get("solver_time", 0.0)
        for u in r.get("unsupported", []):
            undecided.append("%s: %s" % (r["name"], u))
        for o in r["obligations"]:
            obligations += 1
            if o["status"] == "proved":
                discharged += 1
            else:
                failed_ob.append((r, o))
            if o["status"] == "unknown":
                undecided.append("%s: %s: %s" % (r["name"], o["name"], o.get("detail", "")))
            oblist.append(dict(name=r["name"] + "/" + o["name"], status=o["status"], by=o.get("by", "")))
    evals = sum(r["n"] for r in tasks)
    nontriv = sum(r["nontriv"] for r in tasks)
    for r in tasks:
        for u in r["undecided"]:
            undecided.append("%s: %s" % (r["name"], u))
        for case, msg in r["fails"]:
            key = "%s|%s" % (r["name"], case)
            violations.append((key, "%s: %s" % (case, msg),
                               dict(property=pid, kind="bounded-contract-check", task=r["name"], case=case, message=msg,
                                    rerun="cd /verif && VERIF_TIER=%s /opt/venv/bin/python check.py %s --only=%s" % (tier, pid, r["name"])), True))
    for r, o in failed_ob:
        key = "%s|%s" % (r["name"], o["name"])
        wit = o.get("replay")
        concrete = bool(wit and wit.get("confirmed"))
        violations.append((key, "obligation %s: %s" % (o["name"], o.get("detail", "")),
                           dict(property=pid, kind="failed-obligation", obligation=r["name"] + "/" + o["name"],
                                function=o.get("function"), verifier_output=o.get("detail"), model=o.get("model"),
                                replay=wit,
                                rerun="cd /verif && VERIF_TIER=%s /opt/venv/bin/python check.py %s --only=%s" % (tier, pid, r["name"])), concrete))
    known = [k for k in known_findings() if k["property"] == pid]
    new, seen = [], []
    for v in violations:
        hit = [k for k in known if k["key"] == v[0]]
        if hit:
            if hit[0] not in seen:
                seen.append(hit[0])
        else:
            new.append(v)
    for k in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    # vacuity guard: a run that generated nothing decides nothing
    vac = []
    if obs and not only and obligations == 0:
        vac.append("no obligation was generated")
    if spec.get("bounded") and not only and evals == 0:
        vac.append("no bounded case was evaluated")
    undecided += vac

    level = json.load(open(os.path.join(env.VERIF, "tools", "levels.json")))[pid]["level"]
    cov = dict(obligations=obligations, discharged=discharged,
               undecided=undecided[:50], not_finished=timed_out,
               functions_under_contract=functions,
               backends=backends, solver_seconds=round(solver_time, 2),
               obligation_list=oblist[:400],
               checker_cmd="cd /verif && VERIF_TIER=%s /opt/venv/bin/python check.py %s" % (tier, pid),
               trusted_base=spec.get("trusted", []) + assumptions,
               bounded_standins=dict(label="bounded, not counted as proved", bound=spec.get("bound", ""),
                                     tasks=len(tasks), evaluations=evals),
               evaluations=evals, distinct_nontrivial=nontriv,
               rule=spec.get("rule", "every case is a distinct (element/cell/degree/variant, contract clause) pair; "
                                     "trivial cases are bare 'construction did not raise' records"),
               samples=[s for r in tasks[:6] for s in r["samples"][:1]] + [o["name"] for o in oblist[:6]],
               explanation=spec.get("explanation", ""))
    ev = dict(property=pid, tier=tier, seed=env.seed(), level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d/%d obligations discharged, %d bounded cases, %d undecided, %d unfinished, %.1fs" % (
        pid, discharged, obligations, evals, len(undecided), len(timed_out), time.time() - t0))
    if verbose or only:
        for u in undecided[:40]:
            print("  undecided:", u)
    if not new:
        return 0
    # prefer violations with a concrete failing input
    new.sort(key=lambda v: not v[3])
    for i, (key, summary, payload, concrete) in enumerate(new[:10]):
        path = save_replay(pid, payload)
        print("  %s" % summary[:600])
        if i == 0:
            line = "VIOLATION property=%s replay=%s%s" % (pid, path, "" if concrete else " no-failing-input-found")
    print(line)
    return 1
