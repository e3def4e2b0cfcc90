"""Monitors that need more than one run, or no run at all.

Each monitor is a function case(r) -> configuration (JSON) and judge(cfg) -> messages.
"""
import importlib
import io
import math
import multiprocessing as mp
import os
import sys
import types

import gen
import numpy as np
import oracles
import run
from run import OPT, SAM, deep, equal_results, execute, result_key


# ------------------------------------------------------------------ C12
def case12(r):
    m = r.choice(OPT + SAM)
    c = gen.config(r, m)
    c["opts"]["maxiter"] = min(c["opts"]["maxiter"], 15)
    c["opts"]["seed"] = r.choice([0, 0, 1, 42, r.randrange(2**31)])
    c["pre2"] = r.randrange(2**31)
    return c


def judge12(c):
    a = execute(c)
    seeds = [e[1] for e in a.events if e[0] == "seed"]
    d = dict(c, pre=c["pre2"], burn=5)
    b = execute(d)
    if not equal_results(result_key(a), result_key(b)):
        yield "two calls with seed=%r and equal arguments return different results" % c["opts"]["seed"]
    if any(e[0] == "reseed" for e in a.events):
        return
    # the seed is the one given
    e = dict(c, opts={k: v for k, v in c["opts"].items() if k != "seed"}, pre=c["opts"]["seed"], burn=0)
    g = execute(e)
    if [x for x in g.events if x[0] in ("seed", "reseed")]:
        yield "the generator was reseeded although no seed was given"
    elif not equal_results(result_key(a), result_key(g)):
        yield "seed=%r is not the seed the generator was set to (%r)" % (c["opts"]["seed"], seeds)


# ------------------------------------------------------------------ C13
def case13(r):
    m = r.choice(OPT)
    c = gen.config(r, m)
    o = c["opts"]
    o["maxiter"] = min(o["maxiter"], 6)
    o["popsize"] = min(o["popsize"], 9)
    if c.get("x0") and m not in ("cmaes", "vdcma"):
        c["x0"] = c["x0"][: o["popsize"]]
    o["seed"] = r.randrange(1000)
    o.pop("workers", None)
    o.pop("backend", None)
    if m in ("de", "pso", "cpso"):
        o["updating"] = r.choice(["immediate", "deferred"])
    c["cb"] = True
    x = r.random()
    if x < 0.4:
        c["par"] = {"workers": r.choice([2, 3, -1]), "backend": r.choice([None, "threading"])}
    elif x < 0.5:
        c["par"] = {"workers": 2, "backend": "loky"}
    elif x < 0.9:
        c["par"] = {"workers": r.choice([1, 1, 2]), "backend": "mpi", "size": r.choice([1, 2, 3, 4, 8])}
    else:
        c["par"] = {"workers": r.choice([1, 2]), "backend": r.choice(["foo", "processes", "MPI", "thread"])}
    return c


def fake_mpi(size):
    """A communicator over forked processes."""
    ctx = mp.get_context("fork")
    bar = ctx.Barrier(size)
    qs = [ctx.Queue() for _ in range(size)]
    back = [ctx.Queue() for _ in range(size)]

    class Comm:
        rank = 0

        def Get_rank(self):
            return self.rank

        def Get_size(self):
            return size

        def Barrier(self):
            bar.wait(12)

        barrier = Barrier

        def Bcast(self, buf, root=0):
            a = buf[0] if isinstance(buf, (list, tuple)) else buf
            if self.rank == root:
                for i in range(size):
                    if i != root:
                        back[i].put(np.array(a))
            else:
                a[...] = back[self.rank].get(timeout=12)

        def Allreduce(self, s, d, op=None):
            s = s[0] if isinstance(s, (list, tuple)) else s
            d = d[0] if isinstance(d, (list, tuple)) else d
            qs[0].put((self.rank, np.array(s)))
            if self.rank == 0:
                got = dict(qs[0].get(timeout=12) for _ in range(size))
                xs = [got[i] for i in range(size)]
                t = xs[0].copy()
                for y in xs[1:]:
                    t = {"MAX": np.maximum, "MIN": np.minimum, "PROD": np.multiply}.get(op, np.add)(t, y)
                for i in range(1, size):
                    back[i].put(t)
            else:
                t = back[self.rank].get(timeout=12)
            d[...] = t

        def bcast(self, obj, root=0):
            if self.rank == root:
                for i in range(size):
                    if i != root:
                        back[i].put(obj)
                return obj
            return back[self.rank].get(timeout=12)

        def allreduce(self, obj, op=None):
            d = np.zeros(np.shape(obj))
            self.Allreduce(np.asarray(obj, dtype=float), d, op)
            return d if d.ndim else float(d)

    comm = Comm()
    comm.queues = qs + back
    M = types.ModuleType("mpi4py.MPI")
    M.COMM_WORLD, M.DOUBLE = comm, "double"
    M.SUM, M.MAX, M.MIN, M.PROD = "SUM", "MAX", "MIN", "PROD"
    pk = types.ModuleType("mpi4py")
    pk.MPI = M
    return comm, pk, M


def rank_main(rank, size, comm, pk, M, c, out):
    try:
        comm.rank = rank
        sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = pk, M
        tr = execute(c, timeout=20)
        out.put((rank, result_key(tr) if tr.exc is None else ("exc", repr(tr.exc)),
                 [(e[1], e[2]) for e in tr.events if e[0] == "eval"]))
    except BaseException as e:  # report everything
        out.put((rank, ("exc", repr(e)), []))
    for q in comm.queues + [out]:  # what was sent must leave the process before it ends
        q.close()
        q.join_thread()
    os._exit(0)


def run_mpi(c, size):
    ctx = mp.get_context("fork")
    comm, pk, M = fake_mpi(size)
    out = ctx.Queue()
    ps = [ctx.Process(target=rank_main, args=(i, size, comm, pk, M, c, out)) for i in range(size)]
    for p in ps:
        p.start()
    res = {}
    try:
        for _ in range(size):
            k, v, ev = out.get(timeout=30)
            res[k] = (v, ev)
    except Exception as e:
        res["timeout"] = repr(e)
    for p in ps:
        p.join(1)
        if p.is_alive():
            p.kill()
            p.join()
    return res


def multiset(evs):
    return sorted((tuple(np.asarray(x).tolist()), float(f)) for x, f in evs)


def judge13(c):
    par = c["par"]
    base = deep(c)
    if c["method"] in ("de", "pso", "cpso"):
        base["opts"] = dict(base["opts"], updating="deferred")
    b = execute(base)
    d = deep(c)
    d["opts"] = dict(c["opts"], workers=par["workers"])
    if par["backend"]:
        d["opts"]["backend"] = par["backend"]
    if par["backend"] not in (None, "threading", "loky", "mpi"):
        t = execute(d)
        if t.exc is None:
            yield "unknown backend %r accepted" % par["backend"]
        elif t.evals:
            yield "unknown backend %r refused after %d evaluations" % (par["backend"], len(t.evals))
        return
    want = result_key(b)
    if isinstance(want, tuple):
        return
    if par["backend"] == "mpi":
        res = run_mpi(d, par["size"])
        if "timeout" in res:
            yield "MPI run with %d processes does not finish" % par["size"]
            return
        for k, (v, ev) in res.items():
            if isinstance(v, tuple):
                yield "MPI process %d of %d: %s" % (k, par["size"], v[1])
                return
            if not equal_results(v, want):
                yield "MPI process %d of %d returns another result than the serial deferred run" % (k, par["size"])
                return
        allev = [e for v, ev in res.values() for e in ev]
        if multiset(allev) != multiset([(e[1], e[2]) for e in b.evals]):
            yield "MPI with %d processes: %d evaluations instead of the %d of the serial run" % (par["size"], len(allev), len(b.evals))
        return
    if par["backend"] == "loky":
        f = LokyFun(c["fun"], c.get("args", []))
        cc = dict(d, cb=False)
        kw, opts = run.arguments(cc, run.Trace(cc))
        kw["fun"] = f
        try:
            fn, _ = run.method_function(c["method"])
            np.random.seed(c.get("pre", 0))
            r = fn(**kw, **opts)
        except Exception as e:
            yield "loky: %s: %s" % (type(e).__name__, e)
            return
        if not equal_results({k: deep(v) for k, v in sorted(r.items())}, want):
            yield "loky with %d workers returns another result than the serial deferred run" % par["workers"]
        return
    t = execute(d)
    if t.exc is not None:
        yield "%d workers: %r" % (par["workers"], t.exc)
    elif not equal_results(result_key(t), want):
        yield "%d workers (%s) return another result than the serial deferred run" % (par["workers"], par["backend"])
    elif multiset([(e[1], e[2]) for e in t.evals]) != multiset([(e[1], e[2]) for e in b.evals]):
        yield "%d workers evaluate other points than the serial deferred run" % par["workers"]
    else:
        va, vb = oracles.View(t), oracles.View(b)
        for k in range(1, min(len(va.iters), len(vb.iters)) + 1):
            if multiset(zip(*va.batch(k))) != multiset(zip(*vb.batch(k))):
                yield "%d workers: iteration %d evaluates other points" % (par["workers"], k)
                return


class LokyFun:
    def __init__(self, spec, args):
        self.spec = spec

    def __call__(self, x, *a):
        sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
        return run.objective(self.spec)(x, *a)


# ------------------------------------------------------------------ C21
BENCH = ("ackley", "griewank", "quartic", "rastrigin", "rosenbrock", "sphere", "styblinski_tang")


def textbook(name, x):
    x = [float(a) for a in x]
    n = len(x)
    s = math.fsum
    if name == "ackley":
        e = 2.7182818284590451
        return 20 + e - 20 * math.exp(-0.2 * math.sqrt(s(a * a for a in x) / n)) - math.exp(s(math.cos(2 * math.pi * a) for a in x) / n)
    if name == "griewank":
        p = 1.0
        for i, a in enumerate(x, 1):
            p *= math.cos(a / math.sqrt(i))
        return 1 + s(a * a for a in x) / 4000 - p
    if name == "quartic":
        return s(i * a**4 for i, a in enumerate(x, 1))
    if name == "rastrigin":
        return 10 * n + s(a * a - 10 * math.cos(2 * math.pi * a) for a in x)
    if name == "rosenbrock":
        return s(100 * (x[i + 1] - x[i] ** 2) ** 2 + (1 - x[i]) ** 2 for i in range(n - 1))
    if name == "sphere":
        return s(a * a for a in x)
    return 0.5 * s(a**4 - 16 * a * a + 5 * a for a in x) + 39.16599 * n


def case21(r):
    name = r.choice(BENCH)
    n = r.choice([1, 2, 3, 5, 10, 30]) if name != "rosenbrock" else r.choice([2, 3, 4, 7, 20])
    st = r.random()
    if st < 0.2:
        x = [{"rosenbrock": 1.0, "styblinski_tang": -2.903534}.get(name, 0.0)] * n
    elif st < 0.5:
        x = [r.choice([0, 1, -1, 2, -3, 5]) for _ in range(n)]
    else:
        s = r.choice([0.01, 1, 5, 5, 32, 600])
        x = [r.uniform(-s, s) for _ in range(n)]
    return {"name": name, "x": x, "form": r.choice(["list", "array", "tuple"])}


def judge21(c):
    B = importlib.import_module("stochopy.factory")
    f = getattr(B, c["name"], None) or getattr(importlib.import_module("stochopy.factory.benchmark"), c["name"])
    x = c["x"] if c["form"] == "list" else tuple(c["x"]) if c["form"] == "tuple" else np.array(c["x"])
    before = deep(x)
    try:
        y = float(f(x))
    except Exception as e:
        yield "%s(%r) raises %r" % (c["name"], c["x"], e)
        return
    if not run.same(before, x):
        yield "%s modifies its argument" % c["name"]
    t = textbook(c["name"], c["x"])
    mag = 1 + abs(t) + sum(abs(a) ** 4 * (i if c["name"] == "quartic" else 100 if c["name"] == "rosenbrock" else 1)
                           for i, a in enumerate(map(float, c["x"]), 1)) * (c["name"] in ("quartic", "rosenbrock", "styblinski_tang"))
    mag += sum(float(a) ** 2 for a in c["x"]) + 10 * len(c["x"])
    tol = 1e-11 * mag
    if abs(y - t) > tol:
        yield "%s(%r) = %r, textbook value %r" % (c["name"], c["x"], y, t)
    low = -0.0002 * len(c["x"]) if c["name"] == "styblinski_tang" else 0.0
    if y < low - tol:
        yield "%s(%r) = %r is below its minimum" % (c["name"], c["x"], y)


# ------------------------------------------------------------------ C22
def case22(r):
    m = r.choice(OPT + SAM)
    c = gen.config(r, m)
    c["opts"]["maxiter"] = min(c["opts"]["maxiter"], 4)
    n = len(c["bounds"])
    pop = c["opts"].get("popsize", 10)
    cma = m in ("cmaes", "vdcma")
    bad = ["fun", "bounds1", "bounds3", "callback"]
    if not (m in SAM):
        bad += ["x0dim"]
    bad += ["x0len"]
    rng = []
    if m in ("de", "pso", "cpso", "na"):
        bad += ["x0pop", "popsize"]
    if m in ("de", "pso", "cpso"):
        bad.append("updating")
    if m == "de":
        rng = [("mutation", 0, 2, "cc"), ("recombination", 0, 1, "cc")]
    if m in ("pso", "cpso"):
        rng = [("inertia", 0, 1, "cc"), ("cognitivity", 0, 4, "cc"), ("sociability", 0, 4, "cc")]
    if m == "cpso":
        rng.append(("competitivity", 0, 2, "cc"))
    if m == "na":
        rng = [("nrperc", 0, 1, "oc")]
    if cma:
        rng = [("sigma", 0, None, "oc"), ("muperc", 0, 1, "oc")]
    if m == "mcmc":
        rng = [("perc", 0, 1, "cc")]
        bad.append("stepsize")
    if m == "hmc":
        bad += ["nleap", "stepsize"]
    if rng and r.random() < 0.65:
        k, lo, hi, cl = r.choice(rng)
        eps = r.choice([1e-9, 0.01, 1.0, 50.0])
        x = r.random()
        if x < 0.35:
            c["check"] = ["range", k, lo - (eps if cl == "cc" or r.random() < 0.6 else 0.0), True]
        elif x < 0.7 and hi is not None:
            c["check"] = ["range", k, hi + eps, True]
        elif x < 0.85 and hi is not None:
            c["check"] = ["range", k, hi, False]
        else:
            c["check"] = ["range", k, lo if cl == "cc" else lo + 0.05, False]
        return c
    k = r.choice(bad)
    c["check"] = [k, r.choice([0, 1, 2]), n, pop]
    return c


def judge22(c):
    ch = c["check"]
    k = ch[0]
    tr = run.Trace(c)
    kw, opts = run.arguments(c, tr)
    m = c["method"]
    want = ValueError
    n = len(c["bounds"])
    pop = opts.get("popsize", 10)
    if k == "range":
        opts[ch[1]] = ch[2]
        if not ch[3]:
            want = None
    elif k == "fun":
        kw["fun"] = [None, 3.0, "f"][ch[1]]
        want = TypeError
    elif k == "bounds1":
        kw["bounds"] = [[-1.0, 1.0], np.array([-1.0, 1.0]), (0.0, 1.0)][ch[1]]
        kw.pop("x0", None)
    elif k == "bounds3":
        kw["bounds"] = np.zeros((n, 2, 2)) if ch[1] else [[[-1.0, 1.0]]] * n
        kw.pop("x0", None)
    elif k == "callback":
        kw["callback"] = [3, "cb", [1]][ch[1]]
    elif k == "x0dim":
        if m in ("cmaes", "vdcma"):
            kw["x0"] = [[0.0] * n] * n
        else:
            kw["x0"] = [[0.0] * pop, 0.5, [[[0.0] * n] * pop]][ch[1]]
    elif k == "x0len":
        d = n + [1, 2, -1][ch[1]]
        if d < 1:
            d = n + 1
        kw["x0"] = np.zeros(d) if m in SAM or m in ("cmaes", "vdcma") else np.zeros((pop, d))
    elif k == "x0pop":
        kw["x0"] = np.zeros((pop + [1, 3, -1][ch[1]], n))
    elif k == "popsize":
        opts["popsize"] = [1, 0, -2][ch[1]]
        kw.pop("x0", None)
        if ch[1] == 0:
            kw["x0"] = np.zeros((1, n))
    elif k == "updating":
        opts["updating"] = ["now", "Immediate", ""][ch[1]]
    elif k == "stepsize":
        opts["stepsize"] = [0.1] * (n + 1) if ch[1] else np.full(max(1, n - 1) if n > 1 else 3, 0.1)
    elif k == "nleap":
        opts["nleap"] = [0, -1, 0][ch[1]]
    f, pkg = run.method_function(m)
    np.random.seed(c.get("pre", 0))
    st = np.random.get_state()
    err = None
    with run.Patched(tr):
        try:
            if c.get("api") == "generic":
                g = pkg.sample if m in SAM else pkg.minimize
                g(method=m, options=opts, **kw)
            else:
                f(**kw, **opts)
        except Exception as e:
            err = e
    what = "%s=%r" % (ch[1], ch[2]) if k == "range" else k
    if want is None:
        if err is not None and not tr.evals:
            yield "%s: the valid value %s is refused with %s" % (m, what, type(err).__name__)
        return
    if err is None:
        yield "%s: the invalid argument %s is accepted" % (m, what)
    elif not isinstance(err, want):
        yield "%s: the invalid argument %s is refused with %s instead of %s" % (m, what, type(err).__name__, want.__name__)
    if tr.evals:
        yield "%s: %d evaluations before the invalid argument %s was refused" % (m, len(tr.evals), what)
    elif err is not None and any(e[0] == "draw" for e in tr.events):
        yield "%s: random numbers drawn before the invalid argument %s was refused" % (m, what)


# ------------------------------------------------------------------ C23
def case23(r):
    m = r.choice(OPT + SAM + ("pso", "pso", "pso"))
    c = gen.config(r, m)
    c["opts"]["maxiter"] = min(c["opts"]["maxiter"], 12)
    c["opts"]["seed"] = r.randrange(1000)
    c["noopts"] = r.random() < 0.1
    return c


def judge23(c):
    if c.get("noopts"):
        c = dict(c, opts={}, jac=False)
    a = execute(dict(c, api="direct"))
    b = execute(dict(c, api="generic"))
    if not equal_results(result_key(a), result_key(b)):
        yield "%s through the generic entry point differs from the direct call" % c["method"]
    if [x[0] for x in a.events] != [x[0] for x in b.events]:
        yield "%s through the generic entry point calls the objective or callback differently" % c["method"]
    for e, g in zip(a.evals, b.evals):
        if len(e[3]) != len(g[3]):
            yield "%s through the generic entry point passes other extra arguments" % c["method"]
            break
    if c["method"] == "pso":
        o = dict(c["opts"], competitivity=None)
        d = execute(dict(c, method="cpso", opts=o, api="direct"))
        if not equal_results(result_key(a), result_key(d)):
            yield "PSO differs from CPSO without competition"


# ------------------------------------------------------------------ C25
def case25(r):
    keys = ["x", "fun", "nit", "xall", "funall", "status", "a", "zz", "message", "accept_ratio"]
    ops = []
    for _ in range(r.randint(1, 12)):
        ops.append([r.choice(["set", "seti", "del", "deli", "get", "geti", "missing"]), r.choice(keys), r.randint(0, 99)])
    return {"cls": r.choice(["OptimizeResult", "SampleResult", "BaseResult"]), "ops": ops,
            "init": {k: r.randint(0, 99) for k in keys if r.random() < 0.4}}


def judge25(c):
    if c["cls"] == "OptimizeResult":
        K = importlib.import_module("stochopy.optimize").OptimizeResult
    elif c["cls"] == "SampleResult":
        K = importlib.import_module("stochopy.sample").SampleResult
    else:
        K = importlib.import_module("stochopy._common").BaseResult
    o, d = K(**c["init"]), dict(c["init"])
    for op, k, v in c["ops"]:
        try:
            if op == "set":
                setattr(o, k, v)
                d[k] = v
            elif op == "seti":
                o[k] = v
                d[k] = v
            elif op in ("del", "deli"):
                try:
                    delattr(o, k) if op == "del" else o.__delitem__(k)
                    if k not in d:
                        yield "deleting the missing item %s succeeds" % k
                        return
                    del d[k]
                except (KeyError, AttributeError):
                    if k in d:
                        yield "deleting %s fails" % k
                        return
            else:
                try:
                    y = getattr(o, k)
                    if k not in d:
                        yield "reading the missing attribute %s does not raise AttributeError" % k
                        return
                    if y != d[k] or o[k] != d[k]:
                        yield "attribute %s reads %r, item %r" % (k, y, d[k])
                        return
                except AttributeError:
                    if k in d:
                        yield "reading %s raises AttributeError" % k
                        return
        except Exception as e:
            yield "%s %s: %r" % (op, k, e)
            return
        if dict(o) != d:
            yield "after %s %s the items are %r instead of %r" % (op, k, dict(o), d)
            return
        if sorted(n for n in dir(o)) != sorted(d):
            yield "the attributes listed are %r instead of %r" % (dir(o), sorted(d))
            return
        for k2 in d:
            if getattr(o, k2) != d[k2]:
                yield "attribute %s reads %r instead of %r" % (k2, getattr(o, k2), d[k2])
                return
        s = repr(o)
        lines = [l.strip() for l in s.split("\n")] if d else []
        shown = {k2: str(v2) for k2, v2 in d.items() if k2 not in ("xall", "funall")}
        got = dict(l.split(": ", 1) for l in lines if ": " in l)
        if d and got != shown:
            yield "printing shows %r instead of %r" % (got, shown)
            return


# ------------------------------------------------------------------ internal functions (skipped when absent)
def internal(mod, name):
    try:
        return getattr(importlib.import_module(mod), name)
    except Exception:
        return None


SPECIAL = {"C12": (case12, judge12), "C13": (case13, judge13), "C21": (case21, judge21), "C22": (case22, judge22),
           "C23": (case23, judge23), "C25": (case25, judge25)}
