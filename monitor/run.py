"""Execution of the real code with instrumented arguments and random generator.

Runs under the interpreter of the code under verification. A configuration is a JSON value, so
that every run can be replayed.
"""
import copy
import os
import signal
import sys
import threading
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

OPT = ("de", "pso", "cpso", "na", "cmaes", "vdcma")
SAM = ("mcmc", "hmc")


# ------------------------------------------------------------------ objectives
def _hash(x):
    v = 0.0
    for i, c in enumerate(np.asarray(x, dtype=float)):
        v += np.sin(12.9898 * (i + 1) * c + 0.37 * i)
    return v - np.floor(v)


def objective(spec):
    k, p = spec["kind"], spec.get("shift", 0.0)
    scale, off = spec.get("scale", 1.0), spec.get("offset", 0.0)
    ret = spec.get("ret", "np")

    def base(x):
        x = np.asarray(x, dtype=float)
        if k == "sphere":
            return float(np.sum((x - p) ** 2))
        if k == "rastrigin":
            y = x - p
            return float(np.sum(y**2 - 10 * np.cos(2 * np.pi * y) + 10))
        if k == "rosenbrock":
            return float(np.sum(100 * (x[1:] - x[:-1] ** 2) ** 2) + np.sum((1 - x) ** 2))
        if k == "linear":
            return float(np.sum(x * (1 + np.arange(len(x)))) + p)
        if k == "const":
            return 1.0
        if k == "step":
            return float(np.sum(np.floor(np.abs(x - p))))
        if k == "plateau":
            return float(np.floor(np.sum((x - p) ** 2)))
        if k == "hash":
            return float(_hash(x))
        if k == "abs":
            return float(np.sum(np.abs(x - p)))
        if k == "trap":  # improves far from the start only in a corner
            return float(1.0 / (1.0 + np.sum(np.abs(x - p))))
        raise ValueError(k)

    def f(x, *args):
        v = base(x) * scale + off
        for a in args:
            v += 0.125 * float(np.sum(a)) if not isinstance(a, str) else 0.25 * len(a)
        if ret == "np":
            return np.float64(v)
        if ret == "int" and v == int(v):
            return int(v)
        return v

    return f


def gradient(spec):
    k, p = spec["kind"], spec.get("shift", 0.0)
    scale = spec.get("scale", 1.0)

    def g(x, *args):
        x = np.asarray(x, dtype=float)
        if k == "sphere":
            r = 2 * (x - p)
        elif k == "linear":
            r = 1.0 + np.arange(len(x))
        elif k == "abs":
            r = np.sign(x - p)
        else:
            r = np.cos(3 * x) + x
        return scale * r

    return g


# ------------------------------------------------------------------ recording
DRAWS = ("rand", "randn", "random", "random_sample", "ranf", "sample", "uniform", "normal", "standard_normal", "permutation",
         "shuffle", "randint", "choice", "random_integers", "exponential", "beta", "gamma", "multivariate_normal",
         "triangular", "laplace", "logistic", "lognormal", "poisson", "binomial", "bytes", "standard_exponential",
         "standard_cauchy", "standard_t", "chisquare")


class Timeout(Exception):
    pass


class Patched:
    """Record draws and reseeding of the global generator."""

    def __init__(self, tr):
        self.tr = tr
        self.saved = {}

    def __enter__(self):
        tr = self.tr
        R = np.random
        for n in DRAWS + ("seed", "set_state", "RandomState", "default_rng"):
            if not hasattr(R, n):
                continue
            f = getattr(R, n)
            self.saved[n] = f

            def w(*a, _f=f, _n=n, **k):
                if _n == "seed":
                    tr.add(("seed", a[0] if a else k.get("seed")))
                    return _f(*a, **k)
                if _n in ("set_state", "RandomState", "default_rng"):
                    tr.add(("reseed", _n, copy.deepcopy(a)))
                    return _f(*a, **k)
                r = _f(*a, **k)
                c = np.array(a[0]) if _n == "shuffle" else (np.array(r) if r is not None else None)
                tr.add(("draw", _n, a, k, c))
                return r

            setattr(R, n, w)
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


class Trace:
    def __init__(self, cfg):
        self.cfg = cfg
        self.events = []
        self.exc = None
        self.res = None
        self.notes = []
        self.lock = threading.Lock()

    def add(self, e):
        with self.lock:
            self.events.append(e)

    def split(self):
        """Evaluations, gradients and draws before each callback (last entry: after the last one)."""
        out, cur = [], []
        for e in self.events:
            if e[0] == "cb":
                out.append((cur, e))
                cur = []
            else:
                cur.append(e)
        self.tail = cur
        return out

    @property
    def evals(self):
        return [e for e in self.events if e[0] == "eval"]

    @property
    def cbs(self):
        return [e for e in self.events if e[0] == "cb"]


def deep(v):
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(deep(x) for x in v)
    return copy.copy(v)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if type(a) is not type(b):
            return False
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return type(a) is type(b) and a == b


def form(v, how):
    """Array-like of the requested form."""
    if v is None or how == "list":
        return deep(v)
    if how == "tuple":
        return tuple(tuple(r) if isinstance(r, list) else r for r in v)
    if how == "array":
        return np.array(v, dtype=float)
    if how == "int":
        return np.array(v, dtype=int)
    if how == "fortran":
        return np.asfortranarray(np.array(v, dtype=float))
    raise ValueError(how)


def method_function(name):
    import importlib

    pkg = importlib.import_module("stochopy." + ("sample" if name in SAM else "optimize"))
    return getattr(pkg, name), pkg


def arguments(cfg, tr):
    """Fresh arguments of a run."""
    F = objective(cfg["fun"])
    args = tuple(np.array(a) if isinstance(a, list) else a for a in cfg.get("args", []))
    tr.objective = F
    tr.args = args

    def fun(x, *a):
        xc = np.array(x, dtype=float, copy=True)
        v = F(xc, *a)
        tr.add(("eval", xc, float(v), a))
        tr.live(x)
        return v

    tr.xs = []

    def live(x):
        if isinstance(x, np.ndarray):
            tr.lastx = x

    tr.live = live
    kw = {"fun": fun, "bounds": form(cfg["bounds"], cfg.get("bform", "list"))}
    if cfg.get("x0") is not None:
        kw["x0"] = form(cfg["x0"], cfg.get("xform", "list"))
    if args or cfg.get("useargs"):
        kw["args"] = args
    opts = {k: (form(v, cfg.get("sform", "list")) if k == "stepsize" and isinstance(v, list) else v)
            for k, v in cfg["opts"].items()}
    if cfg.get("jac"):
        G = gradient(cfg["fun"])

        def jac(x, *a):
            xc = np.array(x, copy=True)
            g = G(xc, *a)
            tr.add(("grad", xc, g.copy(), a))
            return g

        opts["jac"] = jac
    if cfg.get("cb"):
        def cb(X, state):
            tr.add(("cb", np.array(X, copy=True), {k: deep(v) for k, v in state.items()}, X, state))

        kw["callback"] = cb
    return kw, opts


def execute(cfg, timeout=20, arm=True):
    """Run a configuration on the real code."""
    tr = Trace(cfg)
    kw, opts = arguments(cfg, tr)
    tr.kw, tr.opts = kw, opts
    before = deep({k: v for k, v in list(kw.items()) + list(opts.items()) if not callable(v)})
    f, pkg = method_function(cfg["method"])
    np.random.seed(cfg.get("pre", 0))
    for _ in range(cfg.get("burn", 0)):
        np.random.rand()

    def alarm(*a):
        raise Timeout("no result after %d s" % timeout)

    if arm:
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with Patched(tr):
            if cfg.get("api") == "generic":
                g = pkg.sample if cfg["method"] in SAM else pkg.minimize
                tr.res = g(method=cfg["method"], options=opts, **kw)
            else:
                tr.res = f(**kw, **opts)
    except Exception as e:
        import traceback

        tr.exc = e
        tr.tb = traceback.format_exc(limit=-3)
    finally:
        if arm:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    after = {k: v for k, v in list(kw.items()) + list(opts.items()) if not callable(v)}
    tr.mutated = [k for k in before if k not in after or not same(before[k], after[k])]
    tr.extra = [k for k in after if k not in before]
    return tr


def result_key(tr):
    """Comparable value of a result."""
    if tr.exc is not None:
        return ("exc", type(tr.exc).__name__)
    return {k: deep(v) for k, v in sorted(tr.res.items())}


def equal_results(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return False
        elif not (np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True)):
            return False
    return True
