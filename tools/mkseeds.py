"""Build /verif/seeded/<id>/ from a list of source edits and demonstrations (seeddefs.py).

Each change is applied in a scratch copy of /repo; it is kept only when the tests pass with it, its
demonstration fails with it, and the demonstration passes without it.
usage: mkseeds.py [ID...]
"""
import json
import os
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeddefs import SEEDS

OUT = "/verif/seeded"
SH = """#!/bin/bash
# cwd: the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    e = dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self", OMPI_MCA_pml="ob1", OMPI_MCA_plm="isolated")
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(s):
    w = "/tmp/seedwork-%s" % s["id"]
    shutil.rmtree(w, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", w], "/tmp")
    orig = set()
    for path, old, new in s["edits"]:
        p = os.path.join(w, path)
        t = open(p).read()
        if t.count(old) != s.get("count", 1):
            print(s["id"], "the text occurs %d times in %s" % (t.count(old), path))
            return False
        open(p, "w").write(t.replace(old, new))
    d = os.path.join(OUT, s["id"])
    os.makedirs(d, exist_ok=True)
    diff = sh(["git", "diff"], w).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    ok = True
    r = sh(["bash", os.path.join(d, "demo.sh")], w, timeout=300)
    if r.returncode == 0:
        print(s["id"], "the demonstration passes with the change")
        ok = False
    else:
        print(s["id"], "demo says:", r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else "")
    r = sh(["bash", os.path.join(d, "demo.sh")], "/repo", timeout=300)
    if r.returncode != 0:
        print(s["id"], "the demonstration fails on the unchanged tree:", r.stdout[-300:])
        ok = False
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], w, timeout=600)
    if r.returncode != 0:
        print(s["id"], "tests fail:", [x for x in r.stdout.splitlines() if x.startswith("FAILED")][:3])
        ok = False
    shutil.rmtree(w, ignore_errors=True)
    if not ok:
        shutil.rmtree(d, ignore_errors=True)
    print(s["id"], "KEPT" if ok else "dropped")
    return ok


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:]
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(make, [s for s in SEEDS if not ids or s["id"] in ids]))
