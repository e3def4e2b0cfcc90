"""Search for a run of the real code that violates a property.

usage: main.py PROP[,PROP] SEED SECONDS OUT [METHODS]
Writes {"cases": n, "nontrivial": n, "samples": [...], "violations": [{prop, message, cfg}], "errors": [...]}.
"""
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import oracles
import run
import special


def bias(r, p, m):
    """Shape the generator towards the property."""
    w = {"opts": {}}
    if p in ("C01", "C05", "C06", "C07", "C08", "C09", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C02"):
        w["cb"] = r.random() < 0.97
    if p == "C03" and m != "na":
        w["opts"]["constraints"] = oracles.FEAS[m]
    if p == "C04":
        w["opts"]["constraints"] = "Reject"
        w["cb"] = True
    if p == "C09":
        w["opts"]["return_all"] = True
    if p == "C17":
        w["opts"]["popsize"] = None
    if p == "C18":
        w["opts"]["constraints"] = "Shrink"
    if p in ("C17", "C18", "C19", "C20", "C14", "C15", "C04", "C06", "C09"):
        if r.random() < 0.8:
            w["opts"]["ftol"] = -1e9
    if p == "C19" and m == "cpso":
        w["opts"]["competitivity"] = r.choice([1.0, 2.0, 1.5, 0.3, 0.7])
        if r.random() < 0.8:
            w["opts"]["maxiter"] = r.randint(5, 60)
            w["opts"]["inertia"] = r.choice([0.1, 0.3, 0.5])
            w["fun"] = {"kind": r.choice(["const", "step", "sphere", "plateau", "linear"]), "offset": 0.0}
    if p in ("C01", "C07") and r.random() < 0.5:
        w["fun"] = {"kind": r.choice(["sphere", "step", "plateau", "abs"]), "scale": 1.0, "offset": r.choice([0.0, -1.0, 0.5])}
    return w


def case(r, p):
    if p in special.SPECIAL:
        return special.SPECIAL[p][0](r)
    m = r.choice(oracles.METHODS[p])
    w = bias(r, p, m)
    if p == "C17":
        w["opts"].pop("popsize", None)
    if p in ("C14", "C15", "C16", "C04"):
        w["opts"].pop("ftol", None)
    c = gen.config(r, m, w)
    o = c["opts"]
    if m in run.SAM:
        o.pop("ftol", None)
    if p == "C17":
        k = max(gen.MINPOP[o.get("strategy", "best1bin")], r.randint(2, 7))
        o["popsize"] = k
        o["maxiter"] = min(o["maxiter"], 12)
        if c.get("x0"):
            c["x0"] = [gen.point(r, c["bounds"]) for _ in range(k)]
    if p == "C19" and m == "cpso" and r.random() < 0.5:
        # a concentrated swarm restarts early
        o["popsize"] = r.randint(3, 30)
        if c.get("x0"):
            x = gen.point(r, c["bounds"], 0.0)
            c["x0"] = [list(x) for _ in range(o["popsize"])]
    return c


def judge(p, c, timeout=20):
    """Messages of property p on configuration c, and the number of events judged."""
    if p in special.SPECIAL:
        return list(special.SPECIAL[p][1](c))[:1], 1
    tr = run.execute(c, timeout)
    v = oracles.View(tr)
    out = []
    for m in oracles.TRACE[p](v):
        out.append(m)
        break
    return out, len(tr.events)


def search(props, seed, seconds, methods=None, limit=None):
    res = {"cases": 0, "nontrivial": 0, "samples": [], "violations": [], "errors": [], "methods": {}}
    t0 = time.time()
    r = random.Random(seed)
    while time.time() - t0 < seconds and (limit is None or res["cases"] < limit):
        for p in props:
            c = case(r, p)
            if methods and c.get("method") not in methods:
                continue
            c = json.loads(json.dumps(c))
            try:
                msgs, n = judge(p, c)
                if msgs and p == "C13" and not judge(p, c)[0]:  # processes and threads: must happen again
                    res["errors"].append({"prop": p, "error": "not reproduced: %s" % msgs[0], "cfg": c})
                    continue
            except run.Timeout:
                continue
            except Exception:
                res["errors"].append({"prop": p, "error": traceback.format_exc(limit=-4), "cfg": c})
                if len(res["errors"]) > 20:
                    return res
                continue
            res["cases"] += 1
            res["nontrivial"] += n > 0
            mm = c.get("method") or c.get("name") or c.get("cls")
            res["methods"][mm] = res["methods"].get(mm, 0) + 1
            if len(res["samples"]) < 2:
                res["samples"].append(c)
            for m in msgs:
                res["violations"].append({"prop": p, "message": m, "cfg": c})
            if len(res["violations"]) >= 5:
                return res
    return res


if __name__ == "__main__":
    props = sys.argv[1].split(",")
    ms = sys.argv[5].split(",") if len(sys.argv) > 5 else None
    out = search(props, int(sys.argv[2]), float(sys.argv[3]), ms)
    with open(sys.argv[4], "w") as f:
        json.dump(out, f)
