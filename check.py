#!/usr/bin/env python3
"""Decide one property of /repo's current tree.

usage: check.py PROP            (VERIF_TIER=quick|thorough, VERIF_SEED)
       check.py --replay FILE   (run a recorded violation again)

The deductive verifier (engine/) generates the obligations of the property from /repo's current source and
discharges them; the run-time monitors (monitor/) execute the real code at the same time. An obligation that
fails starts a longer search for a failing input on the real code.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO") or "/repo"
PY = "/opt/venv/bin/python"
VT = "python3-vt"

import catalog  # noqa: E402


def env(**kw):
    e = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             MKL_NUM_THREADS="1", VERIF_REPO=REPO)
    e.update(kw)
    return e


class Monitors:
    """Bounded executions of the real code, in parallel processes."""

    def __init__(self, prop, seed, seconds, procs, tag, methods=None):
        self.jobs = []
        for i in range(procs):
            out = os.path.join(TMP, "mon-%s-%d.json" % (tag, i))
            cmd = [PY, os.path.join(HERE, "monitor", "main.py"), prop, str(seed * 1000 + i), str(seconds), out]
            if methods:
                cmd.append(",".join(methods))
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env(), cwd=TMP)
            self.jobs.append((p, out))
        self.limit = seconds + 100

    def result(self):
        tot = {"cases": 0, "nontrivial": 0, "samples": [], "violations": [], "errors": [], "methods": {}}
        t0 = time.time()
        for p, out in self.jobs:
            err = b""
            try:
                _, err = p.communicate(timeout=max(1, self.limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
            try:
                with open(out) as f:
                    r = json.load(f)
            except Exception:
                tot["errors"].append({"error": "monitor process: %s" % err.decode("utf8", "replace")[-600:]})
                continue
            for k in ("cases", "nontrivial"):
                tot[k] += r[k]
            for k in ("samples", "violations", "errors"):
                tot[k] += r[k]
            for k, v in r["methods"].items():
                tot["methods"][k] = tot["methods"].get(k, 0) + v
        return tot


def deduce(prop, seconds, tier):
    out = os.path.join(TMP, "engine.json")
    p = subprocess.Popen([VT, "-m", "engine.run", prop, str(seconds), out, tier], cwd=HERE, env=env(),
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, out


def collect(p, out, seconds):
    err = b""
    try:
        _, err = p.communicate(timeout=seconds + 60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
    try:
        with open(out) as f:
            return json.load(f)
    except Exception:
        return [{"unit": "engine", "error": "no output: %s" % err.decode("utf8", "replace")[-400:], "results": []}]


def write_replay(prop, n, data):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (prop, n))
    with open(path, "w") as f:
        json.dump(dict(data, property=prop), f, indent=1, default=str)
    return path


def replay(path):
    with open(path) as f:
        d = json.load(f)
    print(json.dumps({k: d[k] for k in d if k != "cfg"}, indent=1)[:6000])
    if d.get("cfg") is not None:
        code = "import sys,json; sys.path.insert(0,%r); import main; m,n=main.judge(%r, json.loads(sys.argv[1])); print(m); sys.exit(bool(m))" % (
            os.path.join(HERE, "monitor"), d["property"])
        return subprocess.call([PY, "-c", code, json.dumps(d["cfg"])], env=env())
    return 1


def findings(prop):
    out = []
    with open(os.path.join(HERE, "known-findings.txt")) as f:
        for ln in f:
            if ln.startswith("open: property=%s " % prop):
                out.append(ln[len("open: property=%s " % prop):].strip())
    return out


def main(prop):
    global TMP
    import tempfile
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    secs = {"quick": 240, "thorough": 780}[tier]
    mon_s = {"quick": 12, "thorough": 240}[tier]
    entry = catalog.CHECKS[prop]
    tmp = tempfile.TemporaryDirectory(prefix="verif-")
    TMP = tmp.name
    e, eout = deduce(prop, secs, tier)
    mon = Monitors(prop, seed, mon_s, 2, "a")
    units = collect(e, eout, secs)
    m = mon.result()

    res = [dict(r, unit=u["unit"]) for u in units for r in u["results"]]
    proved = [r for r in res if r["status"] == "proved"]
    failed = [r for r in res if r["status"] != "proved"]
    # a unit that left the dialect or ran out of time decides nothing by itself: its part is bounded on this run
    broken = [u for u in units if u.get("error")]
    vacuous = [u for u in units if not u.get("error") and (u.get("reachable") is False or not u["results"])]
    extra = None
    if not m["violations"] and (failed or broken or vacuous):
        s = {"quick": 40, "thorough": 90}[tier]
        extra = Monitors(prop, seed + 77, s, 8, "b").result()
        m = {k: (m[k] + extra[k] if not isinstance(m[k], dict) else {a: m[k].get(a, 0) + extra[k].get(a, 0) for a in {**m[k], **extra[k]}})
             for k in m}
    lines = []
    if m["violations"]:
        v = m["violations"][0]
        path = write_replay(prop, 1, {"message": v["message"], "cfg": v["cfg"],
                                      "failed_obligations": [{k: r.get(k) for k in ("unit", "label", "line", "status")} for r in failed][:20]})
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s: %s" % (prop, v["message"]))
    elif failed:
        path = write_replay(prop, 1, {"message": "failed obligation: %s" % failed[0]["label"], "cfg": None, "failed_obligations": failed[:20]})
        print("%s: obligation not discharged: [%s] line %s: %s" % (prop, failed[0]["unit"], failed[0].get("line"), failed[0]["label"]))
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    known = findings(prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for ln in lines:
        print(ln)
    for u in broken:
        print("bounded on this run: %s: %s" % (u["unit"], u["error"][:300]))

    byunit = [{"unit": u["unit"], "configuration": u.get("cfg"), "obligations": len(u["results"]),
               "discharged": sum(r["status"] == "proved" for r in u["results"]), "paths": u.get("paths"), "loops_cut": u.get("loops"),
               "wall_s": round(u.get("wall", 0), 2), "error": u.get("error"), "assumptions_consistent": u.get("reachable"),
               "functions": u.get("functions", []), "solver": u.get("stats"), "bounded": u.get("bounded")} for u in units]
    cov = {
        "obligations": len(res), "discharged": len(proved),
        "checker_cmd": "cd /verif && %s -m engine.run %s %d OUT.json %s" % (VT, prop, secs, tier),
        "trusted_base": catalog.TRUSTED + sorted({t for u in units for t in u.get("trusted") or ()}),
        "backend": "z3 (python bindings of python3-vt)",
        "solver_time_s": round(sum((u.get("stats") or {}).get("time", 0) for u in units), 2),
        "solver_queries": sum((u.get("stats") or {}).get("queries", 0) for u in units),
        "functions_under_contract": sorted({f for u in units for f in u.get("functions") or ()}),
        "distinct_obligations": sorted({"%s:%s" % (r.get("line"), r["label"]) for r in res})[:200],
        "units": byunit,
        "scope": entry["scope"],
        "bounded_part": {"what": entry["bounded"], "label": "bounded, not counted as proved",
                         "evaluations": m["cases"], "distinct_nontrivial": m["nontrivial"], "by_method": m["methods"],
                         "rule": "random documented configurations of the real code (monitor/gen.py) judged by monitor/oracles.py; "
                                 "non-trivial: the run made at least one observable event",
                         "samples": m["samples"][:1], "errors": m["errors"][:3]},
        "units_bounded_on_this_run": [{"unit": u["unit"], "reason": u["error"]} for u in broken],
    }
    if not proved and not failed:
        cov["explanation"] = "no obligation was generated on this run: the property was checked by the bounded part only"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": entry["level"], "coverage": cov,
          "assumptions": catalog.ASSUMPTIONS + entry.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(lines)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d/%d obligations discharged in %d units, %d runs monitored, %.0f s"
          % (prop, len(proved), len(res), len(units), m["cases"], time.time() - t0))
    tmp.cleanup()
    return 1 if lines else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
