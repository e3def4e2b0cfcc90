"""Verify the units of a property against /repo's current source.

usage: python3-vt -m engine.run PROP SECONDS OUT.json [TIER] [UNIT...]
"""
import json
import multiprocessing as mp
import os
import resource
import sys
import time

from . import driver, interp, units

MEM = 6 << 30


def work(q, spec, prop, seconds):
    name, props, cls, cfg, tier, w = spec
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    out = {"unit": name, "cfg": {k: repr(v) for k, v in cfg.items()}}
    try:
        interp._init_builtins()
        u = cls(name, {prop}, os.environ.get("VERIF_REPO") or None, **cfg)
        u.time_limit = seconds
        u.verify()
        from collections import Counter
        res = [r for r in u.results if r["prop"] == prop or isinstance(r["prop"], tuple) and prop in r["prop"]]
        out.update(error=u.error, paths=u.paths, functions=sorted(map(str, u.functions)), loops=len(u.live_loops()),
                   reachable=getattr(u, "reachable", None), stats=dict(driver.STATS),
                   invariants=[c.name for v in getattr(u, "cands", {}).values() for c in v][:200],
                   trusted=sorted(getattr(u, "trusted", ())), notes=u.notes[:20], bounded=getattr(u, "bounded", None),
                   results=[{k: r[k] for k in r if r[k] != ""} for r in res])
    except MemoryError:
        out["error"] = "memory limit"
    except Exception as e:
        out["error"] = "engine failure: %r" % e
    out["wall"] = time.time() - t0
    q.put(out)


def main(prop, seconds, tier="quick", only=(), jobs=8):
    t0 = time.time()
    todo = sorted(units.select(prop, tier), key=lambda u: -u[5])
    if only:
        todo = [u for u in todo if u[0] in only]
    running, done = [], []
    while todo or running:
        while todo and len(running) < jobs:
            s = todo.pop(0)
            q = mp.SimpleQueue()
            p = mp.Process(target=work, args=(q, s, prop, max(1, seconds - (time.time() - t0))), daemon=True)
            p.start()
            running.append((s, q, p))
        for r in list(running):
            s, q, p = r
            if not q.empty():
                done.append(q.get())
                p.join(5)
                running.remove(r)
            elif not p.is_alive() and q.empty():
                done.append({"unit": s[0], "error": "the verifier process ended (%s)" % p.exitcode, "results": []})
                running.remove(r)
            elif time.time() - t0 > seconds:
                p.kill()
                done.append({"unit": s[0], "error": "time limit", "results": []})
                running.remove(r)
        if time.time() - t0 > seconds:
            for s in todo:
                done.append({"unit": s[0], "error": "time limit (not started)", "results": []})
            todo = []
        time.sleep(0.02)
    for d in done:
        d.setdefault("results", [])
    return sorted(done, key=lambda d: d["unit"])


if __name__ == "__main__":
    a = sys.argv
    out = main(a[1], float(a[2]), a[4] if len(a) > 4 else "quick", a[5:])
    with open(a[3], "w") as f:
        json.dump(out, f, indent=1)
    for d in out:
        n = len(d["results"])
        ok = sum(r["status"] == "proved" for r in d["results"])
        print("%-40s %6.1fs %4d/%-4d %s %s" % (d["unit"], d.get("wall", 0), ok, n, "" if d.get("reachable", 1) else "UNREACHABLE", (d.get("error") or "")[:300]))
        for r in d["results"]:
            if r["status"] != "proved":
                print("    ", r["status"], r["line"], r["label"], r.get("goal", "")[:200])
