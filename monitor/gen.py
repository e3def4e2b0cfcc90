"""Random configurations (seeded) of the public functions."""
import ast
import os
import random

from run import REPO, SAM

_INTS, _FLOATS = [], []


def mine():
    """Numeric literals of the source: boundary values for the generator."""
    if _INTS:
        return
    ints, fl = set(), set()
    for d, _, fs in os.walk(os.path.join(REPO, "stochopy")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            try:
                t = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    v = n.value
                    if isinstance(v, int) and 1 <= abs(v) <= 120:
                        ints.add(abs(v))
                    elif isinstance(v, float) and abs(v) < 1e6:
                        fl.add(abs(v))
                        if v == int(v) and 1 <= abs(v) <= 120:
                            ints.add(int(abs(v)))
    _INTS.extend(sorted(ints) or [1])
    _FLOATS.extend(sorted(fl) or [0.5])


KINDS = ("sphere", "sphere", "rastrigin", "rosenbrock", "linear", "const", "step", "plateau", "hash", "hash", "abs", "trap")


def objective(r, method, seed=None):
    k = r.choice(KINDS)
    f = {"kind": k, "shift": r.choice([0.0, 0.0, 0.5, 1.0, -2.0, 7.0])}
    f["scale"] = r.choice([1.0, 1.0, 1.0, 0.001, 1e-9, 100.0])
    f["offset"] = r.choice([0.0, 0.0, 0.0, -1.0, -3.0, 5.0, -0.25])
    f["ret"] = r.choice(["np", "np", "float", "int"])
    return f


def bounds(r, n, equal=True, scale=None):
    b = []
    style = r.random()
    for i in range(n):
        if style < 0.4:
            w = r.choice([1, 2, 5, 5.12, 10])
            b.append([-w, w])
        elif style < 0.7:
            lo = r.uniform(-10, 10)
            b.append([lo, lo + r.choice([0.01, 1, 3, 7, 100])])
        else:
            lo = r.randint(-6, 4)
            b.append([lo, lo + r.randint(1, 7)])
    if equal and r.random() < 0.15:
        i = r.randrange(n)
        b[i] = [b[i][0], b[i][0]]
    return b


def size(r, lo, hi, extra=()):
    mine()
    x = r.random()
    if x < 0.25:
        c = [v + d for v in _INTS for d in (-1, 0, 1) if lo <= v + d <= hi]
        if c:
            return r.choice(c)
    if x < 0.85:
        return r.randint(lo, min(hi, lo + 9))
    return r.randint(lo, hi)


def point(r, b, edge=0.2):
    out = []
    for lo, hi in b:
        x = r.random()
        if x < edge / 2:
            out.append(lo)
        elif x < edge:
            out.append(hi)
        elif float(lo).is_integer() and float(hi).is_integer() and x < edge + 0.1:
            out.append(r.randint(int(lo), int(hi)))
        else:
            out.append(min(hi, max(lo, r.uniform(lo, hi))))
    return out


def fval(r, lo, hi, openlo=False, default=None):
    mine()
    x = r.random()
    if default is not None and x < 0.3:
        return default
    if x < 0.45:
        return hi
    if x < 0.55 and not openlo:
        return lo
    if x < 0.7:
        c = [v for v in _FLOATS if lo < v < hi]
        if c:
            return r.choice(c)
    return r.uniform(lo + (1e-3 if openlo else 0), hi)


MINPOP = {"best1bin": 3, "rand1bin": 4, "best2bin": 5, "rand2bin": 6}


def config(r, method, want=None):
    """A valid configuration. want: constraints on the choice (dict)."""
    want = want or {}
    n = want.get("ndim") or (size(r, 1, 12) if r.random() < 0.8 else r.randint(1, 4))
    cma = method in ("cmaes", "vdcma")
    b = bounds(r, n, equal=not cma and not want.get("noequal"))
    allint = all(isinstance(x, int) for row in b for x in row)
    c = {"method": method, "bounds": b, "bform": r.choice(["list", "array", "tuple", "list"] + (["int"] if allint else [])),
         "fun": objective(r, method), "pre": r.randrange(2**31), "cb": r.random() < 0.9, "api": r.choice(["direct", "direct", "generic"])}
    o = {}
    o["maxiter"] = size(r, 1, 60) if r.random() < 0.9 else r.choice([1, 2, 3, 120])
    if r.random() < 0.7:
        o["seed"] = r.choice([0, 0, 1, 42, r.randrange(2**31)])
    if r.random() < 0.6:
        o["return_all"] = r.choice([True, True, False])
    if r.random() < 0.4:
        c["args"] = r.choice([[1.5], [2, [1.0, 2.0]], ["ab"], [[0.5]]])
    if method in SAM:
        if r.random() < 0.6:
            c["x0"] = point(r, b, 0.5)
            c["xform"] = r.choice(["list", "array", "tuple"])
        if r.random() < 0.6:
            o["constraints"] = "Reject"
        if method == "mcmc":
            st = r.choice([0.1, 0.01, 0.5, 2.0])
            if r.random() < 0.6:
                o["perc"] = fval(r, 0.0, 1.0)
        else:
            st = r.choice([0.01, 0.1, 0.003, 0.5])
            o["maxiter"] = min(o["maxiter"], 25)
            o["nleap"] = r.choice([1, 2, 3, 10])
            if r.random() < 0.5:
                c["jac"] = True
            elif r.random() < 0.4:
                o["finite_diff_abs_step"] = r.choice([1e-3, 1e-2, 0.25])
        if r.random() < 0.3:
            st = [st * r.choice([0.5, 1, 2]) for _ in range(n)]
            c["sform"] = r.choice(["list", "array", "tuple"])
        o["stepsize"] = st
    else:
        pop = size(r, 2, 40)
        if method == "de":
            if r.random() < 0.7:
                o["strategy"] = r.choice(list(MINPOP))
            pop = max(pop, MINPOP[o.get("strategy", "best1bin")])
            if r.random() < 0.6:
                o["mutation"] = fval(r, 0.0, 2.0)
            if r.random() < 0.7:
                o["recombination"] = fval(r, 0.0, 1.0)
            if r.random() < 0.5:
                o["constraints"] = "Random"
        if method in ("pso", "cpso"):
            if r.random() < 0.4:
                o["inertia"] = fval(r, 0.0, 1.0)
            if r.random() < 0.4:
                o["cognitivity"] = fval(r, 0.0, 4.0)
            if r.random() < 0.4:
                o["sociability"] = fval(r, 0.0, 4.0)
            if method == "cpso" and r.random() < 0.6:
                o["competitivity"] = r.choice([None, 0.0, 1.0, 2.0, 1.5, 0.3])
            if r.random() < 0.5:
                o["constraints"] = "Shrink"
        if method == "na":
            if r.random() < 0.6:
                o["nrperc"] = fval(r, 0.0, 1.0, True)
        if cma:
            if r.random() < 0.6:
                o["sigma"] = r.choice([0.1, 0.3, 1.0, 2.0, 1e-3])
            if r.random() < 0.6:
                o["muperc"] = fval(r, 0.0, 1.0, True)
            if r.random() < 0.6:
                o["constraints"] = "Penalize"
        if method in ("de", "pso", "cpso") and r.random() < 0.7:
            o["updating"] = r.choice(["immediate", "deferred"])
        if r.random() < 0.2:
            o["workers"] = 0
        o["popsize"] = pop
        if r.random() < 0.6:
            o["verbosity"] = r.choice([0.0, 1.0, 0.5, 0.1, 0.99, r.random()])
        if r.random() < 0.6:
            o["ftol"] = r.choice([1e-8, 0.0, -1.0, 0.1, 1.0, 3.0, -1e9, -1e9])
        if r.random() < 0.5:
            o["xtol"] = r.choice([1e-8, 0.0, 0.1, 1.0, 10.0])
        if r.random() < 0.5:
            if cma:
                c["x0"] = point(r, b, 0.3)
            else:
                c["x0"] = [point(r, b, 0.3) for _ in range(pop)]
                if r.random() < 0.15 and pop > 2:
                    c["x0"][1] = list(c["x0"][0])
            c["xform"] = r.choice(["list", "array", "tuple", "array", "fortran" if not cma else "array"])
    for k, v in want.get("opts", {}).items():
        o[k] = v
    for k in want.get("drop", ()):
        o.pop(k, None)
    for k in ("cb", "api", "jac"):
        if k in want:
            c[k] = want[k]
    c["opts"] = o
    if "fun" in want:
        c["fun"].update(want["fun"])
    return c
