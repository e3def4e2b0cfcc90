"""Observable form of every property, evaluated on a recorded run of the real code.

Each oracle yields messages; a message is a violation of the property by the run.
"""
import math

import numpy as np
from run import OPT, SAM, deep

MESSAGES = {-8: "TolX", -7: "TolFun", -6: "TolXUp", -5: "EqualFunValues", -4: "ConditionCov", -3: "NoEffectCoord",
            -2: "NoEffectAxis", -1: "maximum number of iterations is reached", 0: "best solution changes less than xtol",
            1: "best solution value is lower than ftol"}
POP = ("de", "pso", "cpso", "na")
CMA = ("cmaes", "vdcma")
TOL = 1e-9


class View:
    """Digest of a trace."""

    def __init__(self, tr):
        self.tr, self.cfg = tr, tr.cfg
        self.m = tr.cfg["method"]
        self.o = tr.cfg["opts"]
        b = np.array(tr.cfg["bounds"], dtype=float)
        self.lo, self.hi = b[:, 0], b[:, 1]
        self.n = len(b)
        self.maxiter = self.o.get("maxiter", 100)
        self.pop = self.o.get("popsize", 10)
        self.iters = tr.split()
        self.ok = tr.exc is None and tr.res is not None
        self.E = tr.evals
        self.finite = all(math.isfinite(e[2]) and np.all(np.isfinite(e[1])) for e in self.E)
        self.ev_x = np.array([e[1] for e in self.E]).reshape(len(self.E), -1) if self.E else np.empty((0, self.n))
        self.ev_f = np.array([e[2] for e in self.E])
        self.scale = 1.0 + np.abs(self.lo) + np.abs(self.hi)
        self.pen = self.o.get("constraints") == "Penalize"
        self.hist = bool(self.o.get("return_all", self.m in SAM))
        self.nout = int(math.ceil(self.o.get("verbosity", 1.0) * self.pop))

    def f(self, x):
        return float(self.tr.objective(np.array(x, dtype=float), *self.tr.args))

    def upto(self, k):
        """Number of evaluations before the k-th callback (1-based)."""
        c = 0
        for i in range(k):
            c += sum(1 for e in self.iters[i][0] if e[0] == "eval")
        return c

    def batch(self, k):
        es = [e for e in self.iters[k - 1][0] if e[0] == "eval"]
        return np.array([e[1] for e in es]).reshape(len(es), -1), np.array([e[2] for e in es])

    def close(self, a, b, tol=TOL):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (self.scale + np.abs(a) + np.abs(b))))

    def rows(self, x, tol=TOL):
        """Evaluated points equal to x."""
        if not len(self.ev_x):
            return np.zeros(0, dtype=bool)
        d = np.abs(self.ev_x - np.asarray(x)[None, :])
        return np.all(d <= tol * (self.scale + np.abs(self.ev_x)), axis=1)

    def states(self):
        """(k, state dict or result, number of evaluations so far) for callbacks and result."""
        for k, (_, cb) in enumerate(self.iters, 1):
            yield k, cb[2], self.upto(k), "callback %d" % k
        if self.ok:
            yield (len(self.iters) or None), self.tr.res, len(self.E), "result"


def feq(a, b, tol=1e-12):
    return a == b or abs(a - b) <= tol * (1.0 + abs(a) + abs(b))


def c01(v):
    if v.m not in POP or not v.finite or v.tr.exc is not None:
        return
    last = None
    for k, s, ne, where in v.states():
        best = v.ev_f[:ne].min()
        if s["fun"] != best:
            yield "%s: fun=%r but the lowest evaluated value is %r" % (where, float(s["fun"]), float(best))
        hit = v.rows(s["x"])[:ne] & (v.ev_f[:ne] == s["fun"])
        if not hit.any() and not feq(v.f(s["x"]), float(s["fun"])):
            yield "%s: fun=%r but objective(x)=%r" % (where, float(s["fun"]), v.f(s["x"]))
        if last is not None and s["fun"] > last:
            yield "%s: reported value increased from %r to %r" % (where, float(last), float(s["fun"]))
        last = s["fun"]


def c02(v):
    if v.m not in CMA or not v.finite or v.tr.exc is not None:
        return
    n = len(v.iters)
    for k, s, ne, where in v.states():
        if where == "result" and not v.cfg.get("cb"):
            bx, bf = v.ev_x[-v.pop:], v.ev_f[-v.pop:]
        else:
            bx, bf = v.batch(k if where != "result" else n)
        if len(bf) != v.pop:
            yield "%s: generation of %d evaluations for a population of %d" % (where, len(bf), v.pop)
            continue
        if not v.pen:
            if s["fun"] != bf.min():
                yield "%s: fun=%r but the lowest fitness of the generation is %r" % (where, float(s["fun"]), float(bf.min()))
            elif not any(v.close(bx[i], s["x"]) for i in np.flatnonzero(bf == s["fun"])):
                yield "%s: x is not the best member of the last generation" % where
        else:
            idx = [i for i in range(len(bf)) if v.close(bx[i], s["x"])]
            if not idx:
                yield "%s: x is not a member of the last generation" % where
            elif not any(s["fun"] >= bf[i] - 1e-9 * (1 + abs(bf[i])) for i in idx):
                yield "%s: fun=%r is below the objective value %r at x (negative penalty)" % (where, float(s["fun"]), float(bf[idx[0]]))
            if v.hist and v.nout == v.pop and "funall" in s:
                row = s["funall"][-1]
                if s["fun"] != row.min():
                    yield "%s: fun=%r but the lowest fitness recorded for the generation is %r" % (where, float(s["fun"]), float(row.min()))
                for i in range(v.pop):
                    if row[i] < bf[i] - 1e-9 * (1 + abs(bf[i])):
                        yield "%s: fitness %r of member %d below its objective value %r" % (where, float(row[i]), i, float(bf[i]))
            if np.any(bx < v.lo - TOL * v.scale) or np.any(bx > v.hi + TOL * v.scale):
                yield "%s: member evaluated outside the bounds" % where
    # first generation of CMA-ES: the sampled members are known
    if v.m == "cmaes" and v.cfg.get("x0") is not None and v.E:
        z, cnt = [], 0
        for e in v.tr.events:
            if e[0] == "eval":
                break
            if e[0] == "draw" and e[1] in ("randn", "standard_normal", "normal"):
                z.append(np.ravel(e[4]))
        z = np.concatenate(z) if z else np.empty(0)
        if z.size == v.pop * v.n and len(v.E) >= v.pop:
            xm, xs = 0.5 * (v.hi + v.lo), 0.5 * (v.hi - v.lo)
            arx = (np.array(v.cfg["x0"], dtype=float) - xm) / xs + v.o.get("sigma", 0.1) * z.reshape(v.pop, v.n)
            if v.pen:
                arx = np.clip(arx, -1, 1)
            want = arx * xs + xm
            for i in range(v.pop):
                if not v.close(v.ev_x[i], want[i], 1e-7):
                    yield "member %d of the first generation was evaluated at %s instead of %s" % (i, v.ev_x[i], want[i])
                    break


FEAS = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}


def outside(v, x, tol=TOL):
    x = np.asarray(x, dtype=float)
    return bool(np.any(~((x >= v.lo - tol * v.scale) & (x <= v.hi + tol * v.scale))))


def c03(v):
    if v.m in SAM or (v.m != "na" and v.o.get("constraints") != FEAS[v.m]):
        return
    for i, e in enumerate(v.E):
        if outside(v, e[1]):
            yield "evaluation %d at %s outside the bounds" % (i + 1, e[1])
            return
    for k, s, ne, where in v.states():
        if outside(v, s["x"]):
            yield "%s: x=%s outside the bounds" % (where, s["x"])
        if "xall" in s and outside(v, s["xall"]):
            yield "%s: recorded solution outside the bounds" % where


def draws(es, kinds):
    return [e for e in es if e[0] == "draw" and e[1] in kinds]


UNI = ("rand", "random", "random_sample", "ranf", "sample", "uniform")
NRM = ("randn", "standard_normal", "normal")


def unit(e):
    """A draw from the uniform distribution on [0, 1)."""
    return e[1] != "uniform" or plain(e, (("low", 0.0), ("high", 1.0)))


def std(e):
    return e[1] != "normal" or plain(e, (("loc", 0.0), ("scale", 1.0)))


def plain(e, want):
    for i, (n, x) in enumerate(want):
        y = e[2][i] if len(e[2]) > i else e[3].get(n, x)
        if np.ndim(y) or y != x:
            return False
    return True


def mcmc_steps(v):
    """Iterations of an MCMC run: (k, previous, sample, normals, uniforms, evaluations)."""
    for k in range(2, len(v.iters) + 1):
        es, cb = v.iters[k - 1]
        yield (k, v.iters[k - 2][1], cb, draws(es, NRM), [d for d in draws(es, UNI) if unit(d)],
               [e for e in es if e[0] == "eval"], es)


def halfstep(v, default):
    st = v.o.get("stepsize", default)
    return np.broadcast_to(np.asarray(st, dtype=float), (v.n,)) * (0.5 * (v.hi - v.lo))


def val_at(v, x):
    hit = v.rows(x, 0.0)
    if hit.any():
        return float(v.ev_f[np.flatnonzero(hit)[0]])
    return v.f(x)


def feasible(v, x):
    return v.o.get("constraints") != "Reject" or bool(np.all(x >= v.lo) and np.all(x <= v.hi))


def c04(v):
    if v.m not in SAM or v.o.get("constraints") != "Reject" or v.tr.exc is not None:
        return
    x0 = v.cfg.get("x0")
    if x0 is not None and not (np.all(np.array(x0) >= v.lo) and np.all(np.array(x0) <= v.hi)):
        return
    for k, (_, cb) in enumerate(v.iters, 1):
        if np.any(cb[1] < v.lo) or np.any(cb[1] > v.hi):
            yield "sample %d at %s is outside the bounds" % (k, cb[1])
        for s in (cb[2],):
            if np.any(s["x"] < v.lo) or np.any(s["x"] > v.hi):
                yield "callback %d reports %s outside the bounds" % (k, s["x"])
    if v.ok and (np.any(v.tr.res["x"] < v.lo) or np.any(v.tr.res["x"] > v.hi)):
        yield "returned x=%s is outside the bounds" % v.tr.res["x"]
    if v.ok and "xall" in v.tr.res and (np.any(v.tr.res["xall"] < v.lo) or np.any(v.tr.res["xall"] > v.hi)):
        yield "returned history leaves the bounds"
    if v.m == "mcmc":
        yield from (m for m in c14(v, reject_only=True))
    else:
        yield from (m for m in c15(v, reject_only=True))


def blocks(v):
    m = max(1, int(v.o.get("perc", 1.0) * v.n))
    return m


def c14(v, reject_only=False):
    if v.m != "mcmc" or v.tr.exc is not None or not v.cfg.get("cb"):
        return
    step = halfstep(v, 0.1)
    m = blocks(v)
    pos = 0
    cover = set()
    for k, pcb, cb, nd, ud, ev, es in mcmc_steps(v):
        prev, cur = pcb[1], cb[1]
        fprev = val_at(v, prev)
        z = np.concatenate([np.ravel(d[4]) for d in nd]) if nd else np.empty(0)
        if len(ev) > 1:
            yield "iteration %d evaluates the objective %d times" % (k, len(ev))
            return
        # the block of this iteration
        j0, j1 = pos, min(pos + m, v.n)
        pos = 0 if j1 >= v.n else j1
        if all(std(d) for d in nd) and z.size == j1 - j0:
            want = prev.copy()
            want[j0:j1] += z * step[j0:j1]
            inside = feasible(v, want)
            edge = bool(np.any(np.abs(want - v.lo) <= 1e-12 * v.scale) or np.any(np.abs(want - v.hi) <= 1e-12 * v.scale))
            exact = bool(np.all((want >= v.lo + 1e-9 * v.scale) | (np.arange(v.n) < j0) | (np.arange(v.n) >= j1) | (step == 0))
                         and np.all((want <= v.hi - 1e-9 * v.scale) | (np.arange(v.n) < j0) | (np.arange(v.n) >= j1) | (step == 0)))
            if inside and not ev and (not edge or exact):
                yield "iteration %d: the proposal %s inside the bounds was rejected without being tested" % (k, want)
            if not inside and ev and np.any((want < v.lo - 1e-9 * v.scale) | (want > v.hi + 1e-9 * v.scale)):
                yield "iteration %d: the proposal %s outside the bounds was evaluated" % (k, want)
            if ev and not reject_only and not v.close(ev[0][1], want):
                yield "iteration %d: proposal %s is not the Gaussian step %s in coordinates %d..%d" % (k, ev[0][1], want, j0, j1 - 1)
        elif not reject_only and nd:
            yield "iteration %d: %d normal numbers drawn for a block of %d coordinates" % (k, z.size, j1 - j0)
        if reject_only:
            continue
        took = None
        if ev:
            d = np.flatnonzero(ev[0][1] != prev)
            if len(d) and (d.max() >= j1 or d.min() < j0):
                yield "iteration %d changes coordinates outside its block %d..%d" % (k, j0, j1 - 1)
            if len(ud) == 1 and ud[0][4].size == 1:
                u = float(np.ravel(ud[0][4])[0])
                la = min(0.0, fprev - ev[0][2])
                if math.isfinite(la) and abs(la - math.log(u)) > 1e-9 * (1 + abs(la)) if u > 0 else False:
                    took = la > math.log(u)
            elif len(ud) != 1:
                yield "iteration %d draws %d uniform numbers" % (k, len(ud))
            isprev, isnew = np.array_equal(cur, prev), np.array_equal(cur, ev[0][1])
            if not isprev and not isnew:
                yield "iteration %d: sample %s is neither the previous one nor the proposal" % (k, cur)
            elif took is True and not isnew:
                yield "iteration %d: a proposal with log(u) < log(alpha) was rejected" % k
            elif took is False and not isprev:
                yield "iteration %d: a proposal with log(u) >= log(alpha) was accepted" % k
        elif not np.array_equal(cur, prev):
            yield "iteration %d: the sample moved without evaluation" % k
        if "funall" in cb[2]:
            rec = float(cb[2]["funall"][-1])
            if not feq(rec, val_at(v, cur)):
                yield "iteration %d: recorded value %r but the objective at the sample is %r" % (k, rec, val_at(v, cur))
        if "xall" in cb[2] and not np.array_equal(cb[2]["xall"][-1], cur):
            yield "iteration %d: recorded sample differs from the sample" % k


def c15(v, reject_only=False):
    if v.m != "hmc" or v.tr.exc is not None or not v.cfg.get("cb"):
        return
    eps = halfstep(v, 0.01)
    nl = v.o.get("nleap", 10)
    h = v.o.get("finite_diff_abs_step", 1e-4)
    jac = bool(v.cfg.get("jac"))
    import run

    G = run.gradient(v.cfg["fun"])
    a = v.tr.args

    def grad(x):
        if jac:
            return G(x, *a)
        g = np.empty(v.n)
        for i in range(v.n):
            e = np.zeros(v.n)
            e[i] = h
            g[i] = (v.f(x + e) - v.f(x - e)) / (2 * h)
        return g

    smooth = v.cfg["fun"]["kind"] in ("sphere", "linear", "rastrigin", "rosenbrock", "trap") or jac
    for k in range(2, len(v.iters) + 1):
        es, cb = v.iters[k - 1]
        prev, cur = v.iters[k - 2][1][1], cb[1]
        nd, ud = draws(es, NRM), [d for d in draws(es, UNI) if unit(d)]
        ev = [e for e in es if e[0] == "eval"]
        gr = [e for e in es if e[0] == "grad"]
        if jac and not reject_only:
            for e in gr:
                if len(e[3]) != len(a) or any(x is not y for x, y in zip(e[3], a)):
                    yield "iteration %d: gradient called without the extra arguments" % k
                    return
            if not gr:
                yield "iteration %d: the supplied gradient is not called" % k
        if len(nd) != 1 or nd[0][4].size != v.n or not std(nd[0]):
            if not reject_only:
                yield "iteration %d: momentum of %d numbers for %d coordinates" % (k, sum(d[4].size for d in nd), v.n)
            continue
        p0 = np.ravel(nd[0][4]).copy()
        q, p = prev.copy(), p0.copy()
        p = p - 0.5 * eps * grad(q)
        q = q + eps * p
        for _ in range(nl):
            p = p - eps * grad(q)
            q = q + eps * p
        p = p - 0.5 * eps * grad(q)
        if not (np.all(np.isfinite(q)) and np.all(np.isfinite(p)) and np.all(np.abs(q) < 1e6)):
            continue
        tol = 1e-6 if smooth else 1e-5
        stable = smooth and np.all(np.abs(q - prev) < 1e3 * v.scale)
        if not stable:
            continue
        if v.o.get("constraints") == "Reject":
            m = tol * v.scale
            free = eps > 0
            if np.all(((q > v.lo + m) & (q < v.hi - m)) | (~free & (q >= v.lo) & (q <= v.hi))) and not ud:
                yield "iteration %d: the end point %s inside the bounds was rejected without being tested" % (k, q)
                continue
            if np.any((q < v.lo - m) | (q > v.hi + m)):
                if not np.array_equal(cur, prev):
                    yield "iteration %d: the end point %s outside the bounds was taken" % (k, q)
                continue
            if not np.all(((q > v.lo + m) & (q < v.hi - m)) | ~free):
                continue
        if reject_only:
            continue
        isprev = np.array_equal(cur, prev)
        if not isprev and not v.close(cur, q, 100 * tol):
            yield "iteration %d: sample %s is neither the previous one nor the end point %s of the trajectory" % (k, cur, q)
            continue
        if len(ud) != 1 or ud[0][4].size != 1:
            yield "iteration %d draws %d uniform numbers for the acceptance test" % (k, len(ud))
            continue
        u = float(np.ravel(ud[0][4])[0])
        U0, U1 = v.f(prev), v.f(q)
        la = min(0.0, U0 - U1 + 0.5 * float(p0 @ p0) - 0.5 * float(p @ p))
        if u > 0 and math.isfinite(la) and abs(la - math.log(u)) > 1e-4 * (1 + abs(la) + abs(U0) + abs(U1) + float(p0 @ p0)):
            if la > math.log(u) and isprev and not v.close(q, prev, 1e-7):
                yield "iteration %d: an end point with log(u) < log(alpha) was rejected" % k
            elif la < math.log(u) and not isprev:
                yield "iteration %d: an end point with log(u) >= log(alpha) was accepted" % k
        if "funall" in cb[2] and not feq(float(cb[2]["funall"][-1]), v.f(cur), 1e-9):
            yield "iteration %d: recorded value %r but the objective at the sample is %r" % (k, float(cb[2]["funall"][-1]), v.f(cur))
        if "xall" in cb[2] and not np.array_equal(cb[2]["xall"][-1], cur):
            yield "iteration %d: recorded sample differs from the sample" % k
    # finite differences: the evaluated points
    if not jac and not reject_only:
        for k in range(2, len(v.iters) + 1):
            es, cb = v.iters[k - 1]
            prev = v.iters[k - 2][1][1]
            ev = [e[1] for e in es if e[0] == "eval"][: 2 * v.n]
            if len(ev) < 2 * v.n:
                yield "iteration %d: %d evaluations" % (k, len(ev))
                break
            want = []
            for i in range(v.n):
                for sgn in (h, -h):
                    w = prev.copy()
                    w[i] += sgn
                    want.append(w)
            left = list(ev)
            for w in want:
                hit = [j for j, x in enumerate(left) if v.close(x, w, 1e-9)]
                if not hit:
                    yield "iteration %d: gradient at %s does not evaluate %s" % (k, prev, w)
                    return
                left.pop(hit[0])


def c05(v):
    if v.tr.exc is not None:
        return
    for k, s, ne, where in v.states():
        if v.m in OPT or v.m == "hmc":
            if int(s["nfev"]) != ne:
                yield "%s: nfev=%r after %d evaluations" % (where, s["nfev"], ne)
        nit = s["nit"]
        if v.m in OPT and not 1 <= nit <= v.maxiter:
            yield "%s: nit=%r with maxiter=%d" % (where, nit, v.maxiter)
    if v.m in SAM:
        if v.tr.res["nit"] != v.maxiter:
            yield "nit=%r with maxiter=%d" % (v.tr.res["nit"], v.maxiter)
        if "xall" in v.tr.res and (len(v.tr.res["xall"]) != v.maxiter or len(v.tr.res["funall"]) != v.maxiter):
            yield "%d samples returned with maxiter=%d" % (len(v.tr.res["xall"]), v.maxiter)


def c06(v):
    if v.tr.exc is not None or not v.finite:
        return
    r = v.tr.res
    if v.hist != ("xall" in r) or v.hist != ("funall" in r):
        yield "history %s the result with return_all=%r" % ("in" if not v.hist else "missing from", v.hist)
    if not v.cfg.get("cb"):
        return
    if len(v.iters) != r["nit"]:
        yield "%d callbacks for %r iterations" % (len(v.iters), r["nit"])
    for k, (_, cb) in enumerate(v.iters, 1):
        s = cb[2]
        if s["nit"] != k:
            yield "callback %d reports nit=%r" % (k, s["nit"])
        for key in ("xall", "funall"):
            if (key in s) != v.hist:
                yield "callback %d: %s %s the state" % (k, key, "in" if key in s else "missing from")
            elif v.hist:
                if len(s[key]) != k:
                    yield "callback %d carries %d rows of %s" % (k, len(s[key]), key)
                elif key in r and not np.array_equal(s[key], r[key][:k]):
                    yield "callback %d: %s differs from the first rows returned" % (k, key)
    if v.iters:
        s = v.iters[-1][1][2]
        if not np.array_equal(s["x"], r["x"]):
            yield "the last callback reports x=%s, the result %s" % (s["x"], r["x"])
        for key in ("fun", "nit") + (("nfev",) if "nfev" in r else ()):
            if key not in s or s[key] != r[key]:
                yield "the last callback reports %s=%r, the result %r" % (key, s.get(key), r[key])


def bestupdates(v):
    """Best point before/after its last update, from the evaluations (first of equal values keeps or moves)."""
    return None


def c07(v):
    if v.m not in POP or v.tr.exc is not None or not v.finite:
        return
    r = v.tr.res
    ftol, xtol = v.o.get("ftol", 1e-8), v.o.get("xtol", 1e-8)
    st = r["status"]
    if bool(r["success"]) != (st >= 0):
        yield "success=%r with status %r" % (r["success"], st)
    if st not in (-1, 0, 1) or r["message"] != MESSAGES.get(st):
        yield "status %r with message %r" % (st, r["message"])
    if st == -1 and r["nit"] != v.maxiter:
        yield "status -1 after %r of %d iterations" % (r["nit"], v.maxiter)
    if st in (0, 1) and not r["fun"] <= ftol:
        yield "status %r with fun=%r > ftol=%r" % (st, float(r["fun"]), ftol)
    if r["nit"] > v.maxiter:
        yield "%r iterations with maxiter=%d" % (r["nit"], v.maxiter)
    if not v.cfg.get("cb"):
        return
    n = len(v.iters)
    for k in range(2, n):
        bx, bf = v.batch(k)
        ne = v.upto(k - 1)
        if len(bf) and bf.min() <= ftol and bf.min() < v.ev_f[:ne].min():
            yield "iteration %d brought a new best value %r <= ftol=%r but the run went on" % (k, float(bf.min()), ftol)
            return
    if st == 0 and n >= 2:
        x1, x2 = v.iters[-2][1][2]["x"], v.iters[-1][1][2]["x"]
        w = (v.hi - v.lo)
        w = np.where(w > 0, w, 1.0) if v.m == "na" else 1.0
        d = float(np.linalg.norm((x1 - x2) / w))
        if v.m == "na" or v.o.get("updating") == "deferred":
            good = d <= xtol * (1 + 1e-6) + 1e-9 * float(v.scale.max())
        else:
            # immediate: the moves of the best point inside the last iteration, in order of evaluation
            bx, bf = v.batch(n)
            cur, cf, steps = np.array(x1), float(v.iters[-2][1][2]["fun"]), []
            for x, f in zip(bx, bf):
                if f <= cf:
                    steps.append((float(np.linalg.norm(cur - x)), f))
                    cur, cf = x, f
            steps = [d for d, f in steps if f <= ftol]
            good = bool(steps) and steps[-1] <= xtol * (1 + 1e-6) + 1e-9 * float(v.scale.max())
        if not good:
            yield "status 0 although the best point moved by more than xtol=%r (%r)" % (xtol, d)


def c08(v):
    if v.m not in CMA or v.tr.exc is not None or not v.finite:
        return
    r = v.tr.res
    ftol = v.o.get("ftol", 1e-8)
    st = r["status"]
    if bool(r["success"]) != (st >= 0):
        yield "success=%r with status %r" % (r["success"], st)
    if st not in MESSAGES or r["message"] != MESSAGES[st]:
        yield "status %r with message %r" % (st, r["message"])
    if (st == -1) != (r["nit"] == v.maxiter):
        yield "status %r after %r of %d generations" % (st, r["nit"], v.maxiter)
    if st in (0, 1) and not r["fun"] <= ftol:
        yield "status %r with fun=%r > ftol=%r" % (st, float(r["fun"]), ftol)
    if not v.cfg.get("cb"):
        return
    best = [float(cb[2]["fun"]) for _, cb in v.iters]
    win = int(10 + 30 * v.n / v.pop)
    for k in range(1, len(best)):
        if best[k - 1] <= ftol:
            yield "generation %d reached %r <= ftol=%r but the run went on" % (k, best[k - 1], ftol)
            return
        if k >= win and max(best[k - win:k]) - min(best[k - win:k]) < 0.99e-10:
            yield "the best fitness did not change over %d generations before generation %d but the run went on" % (win, k)
            return
    if st == -5:
        k = len(best)
        if k < win or max(best[k - win:k]) - min(best[k - win:k]) > 1.01e-10:
            yield "EqualFunValues reported although the best fitness changed over the last %d generations" % win


def c09(v):
    if v.m in SAM or not v.hist or v.tr.exc is not None or not v.finite:
        return
    r = v.tr.res
    w = max(1, v.nout)
    if "xall" not in r or "funall" not in r:
        return
    xa, fa = r["xall"], r["funall"]
    if xa.shape != (r["nit"], w, v.n) or fa.shape != (r["nit"], w):
        yield "history shapes %s, %s instead of (%r, %d, %d)" % (xa.shape, fa.shape, r["nit"], w, v.n)
        return
    for k in range(len(xa)):
        for i in range(w):
            hit = v.rows(xa[k, i])
            if v.pen:
                ok = hit.any() and bool((fa[k, i] >= v.ev_f[hit] - 1e-9 * (1 + np.abs(v.ev_f[hit]))).any())
            else:
                ok = bool((hit & (v.ev_f == fa[k, i])).any()) or feq(v.f(xa[k, i]), float(fa[k, i]), 1e-9)
            if not ok:
                yield "row %d, entry %d: recorded value %r at %s, objective %r" % (k, i, float(fa[k, i]), xa[k, i], v.f(xa[k, i]))
                return
    if not v.cfg.get("cb"):
        return
    for k, (_, cb) in enumerate(v.iters):
        X = cb[1]
        if np.shape(X) != (v.pop, v.n):
            yield "callback %d receives a population of shape %s" % (k + 1, np.shape(X))
            return
        if v.nout > 0:
            for i in range(w):
                if not v.close(xa[k, i], X[i]):
                    yield "row %d, entry %d: %s is not member %d of the population %s" % (k, i, xa[k, i], i, X[i])
                    return
        else:
            idx = [i for i in range(v.pop) if v.close(X[i], xa[k, 0])]
            if not idx:
                yield "row %d: %s is not a member of the population" % (k, xa[k, 0])
                return
            if not v.pen:
                vals = [val_at(v, x) for x in X]
                if fa[k, 0] > min(vals) + 1e-9 * (1 + abs(min(vals))):
                    yield "row %d: recorded %r but the best of the population is %r" % (k, float(fa[k, 0]), float(min(vals)))
                    return
            elif fa[k, 0] != cb[2]["fun"]:
                yield "row %d: recorded %r but the best of the generation is %r" % (k, float(fa[k, 0]), float(cb[2]["fun"]))
                return


def c10(v):
    if v.tr.exc is not None or v.m in CMA or not v.E:
        return
    x0 = v.cfg.get("x0")
    if x0 is not None:
        x0 = np.array(x0, dtype=float)
        if v.m in SAM:
            if not np.array_equal(v.ev_x[0], x0):
                yield "the first sample is %s instead of %s" % (v.ev_x[0], x0)
            return
        for i in range(min(v.pop, len(v.ev_x))):
            if not (v.close(v.ev_x[i], x0[i]) if v.m == "na" else np.array_equal(v.ev_x[i], x0[i])):
                yield "evaluation %d at %s instead of the supplied member %s" % (i + 1, v.ev_x[i], x0[i])
                return
        return
    if v.m in SAM:
        if outside(v, v.ev_x[0]):
            yield "the first sample %s is outside the bounds" % v.ev_x[0]
        return
    X = v.ev_x[: v.pop]
    if len(X) < v.pop:
        yield "only %d evaluations" % len(X)
        return
    if outside(v, X):
        yield "initial population outside the bounds"
    for j in range(v.n):
        if v.hi[j] <= v.lo[j]:
            continue
        t = np.sort((X[:, j] - v.lo[j]) / (v.hi[j] - v.lo[j]) * v.pop)
        i = np.arange(v.pop)
        tol = 1e-7
        if np.any(t < i - tol) or np.any(t > i + 1 + tol):
            yield "dimension %d: the slices do not contain exactly one member each (%s)" % (j, np.floor(t).astype(int))
            return


def c11(v):
    if v.tr.mutated:
        yield "argument modified: %s" % ", ".join(v.tr.mutated)
    if v.tr.extra:
        yield "option added to the caller's dictionary: %s" % ", ".join(v.tr.extra)
    mine = [a for a in list(v.tr.kw.values()) + list(v.tr.opts.values()) if isinstance(a, np.ndarray)]
    mine += [a for a in v.tr.args if isinstance(a, np.ndarray)]
    out = []
    if v.ok:
        out += [("result." + k, a) for k, a in v.tr.res.items() if isinstance(a, np.ndarray)]
    for k, (_, cb) in enumerate(v.iters, 1):
        if isinstance(cb[3], np.ndarray):
            out.append(("population of callback %d" % k, cb[3]))
        out += [("state.%s of callback %d" % (n, k), a) for n, a in cb[4].items() if isinstance(a, np.ndarray)]
    for n, a in out:
        for b in mine:
            if np.shares_memory(a, b):
                yield "%s aliases an argument" % n
                return


def donors_ok(v, strat, F, X, i, trial, gbest, cons, cr):
    """Is there a choice of distinct donors other than i that explains the trial?"""
    import itertools

    n = len(X)
    others = [j for j in range(n) if j != i]
    nd = {"best1bin": 2, "rand1bin": 3, "best2bin": 4, "rand2bin": 5}[strat]
    tol = 1e-9 * (v.scale + np.abs(X).max())
    target = X[i]
    eqt = np.abs(trial - target) <= tol
    infeasible_ok = cons
    inb = (trial >= v.lo - tol) & (trial <= v.hi + tol)
    for d in itertools.permutations(others, nd):
        if strat == "best1bin":
            m = gbest + F * (X[d[0]] - X[d[1]])
        elif strat == "best2bin":
            if d[0] > d[1] or d[2] > d[3]:
                continue
            m = gbest + F * (X[d[0]] + X[d[1]] - X[d[2]] - X[d[3]])
        elif strat == "rand1bin":
            m = X[d[0]] + F * (X[d[1]] - X[d[2]])
        else:
            if d[1] > d[2] or d[3] > d[4]:
                continue
            m = X[d[0]] + F * (X[d[1]] + X[d[2]] - X[d[3]] - X[d[4]])
        eqm = np.abs(trial - m) <= tol
        if infeasible_ok:
            # a mutant coordinate outside the bounds may be resampled (inside them); same for a target coordinate
            bad = (m < v.lo + tol) | (m > v.hi - tol)
            badt = (target < v.lo) | (target > v.hi)
            okc = eqt & ~badt | eqm & inb | (bad | badt) & inb
            if okc.all() and (eqm | bad).any():
                return True
        elif (eqt | eqm).all() and eqm.any():
            return True
    return False


def c17(v):
    if v.m != "de" or v.tr.exc is not None or not v.cfg.get("cb") or not v.finite or v.pop > 7:
        return
    sync = v.o.get("updating", "immediate") == "deferred"
    strat = v.o.get("strategy", "best1bin")
    F, CR = v.o.get("mutation", 0.5), v.o.get("recombination", 0.9)
    cons = v.o.get("constraints") == "Random"
    X, f = v.batch(1)
    if len(f) != v.pop:
        return
    X, f = X.copy(), f.copy()
    gi = int(np.argmin(f))
    gb, gf = X[gi].copy(), f[gi]
    nchk = 0
    for k in range(2, len(v.iters) + 1):
        bx, bf = v.batch(k)
        if len(bf) != v.pop:
            yield "iteration %d evaluates %d trials" % (k, len(bf))
            return
        X0 = X.copy()
        for i in range(v.pop):
            if nchk < 400 or not sync:
                nchk += 1
                if nchk < 400 and not donors_ok(v, strat, F, X0 if sync else X, i, bx[i], gb, cons, CR):
                    yield "iteration %d: trial %s of member %d is not a crossover with a %s mutant of distinct donors" % (k, bx[i], i, strat)
                    return
            if cons and outside(v, bx[i]):
                yield "iteration %d: infeasible trial" % k
            if not sync:
                if bf[i] <= f[i]:
                    X[i], f[i] = bx[i], bf[i]
                    if bf[i] <= gf:
                        gb, gf = bx[i].copy(), bf[i]
        cbX = v.iters[k - 1][1][1]
        if sync:
            for i in range(v.pop):
                if np.array_equal(cbX[i], bx[i]) and (bf[i] < f[i] or (bf[i] == f[i])):
                    X[i], f[i] = bx[i], bf[i]
            gb = v.iters[k - 1][1][2]["x"].copy()
        else:
            if np.array_equal(v.iters[k - 1][1][2]["x"], gb) is False and v.iters[k - 1][1][2]["fun"] == gf:
                gb = v.iters[k - 1][1][2]["x"].copy()
        for i in range(v.pop):
            if np.array_equal(cbX[i], X[i]):
                continue
            if np.array_equal(cbX[i], X0[i]) and bf[i] == f[i]:
                X[i] = X0[i]
                continue
            if np.array_equal(cbX[i], bx[i]):
                yield "iteration %d: member %d replaced by a trial of value %r > %r" % (k, i, float(bf[i]), float(f[i]))
            else:
                yield "iteration %d: member %d is neither its old position nor an accepted trial" % (k, i)
            return
        if sync:
            for i in range(v.pop):
                if bf[i] < f[i]:
                    yield "iteration %d: a better trial of member %d was not selected" % (k, i)
                    return


def swarm(v):
    """Reconstruct a PSO/CPSO run from evaluations and draws. Yields (property, message)."""
    if v.m not in ("pso", "cpso") or v.tr.exc is not None or not v.cfg.get("cb") or not v.finite:
        return
    sync = v.o.get("updating", "immediate") == "deferred"
    shrink = v.o.get("constraints") == "Shrink"
    w, c1, c2 = v.o.get("inertia", 0.7298), v.o.get("cognitivity", 1.49618), v.o.get("sociability", 1.49618)
    comp = v.m == "cpso" and bool(v.o.get("competitivity", 1.0))
    X, f = v.batch(1)
    if len(f) != v.pop:
        return
    X, V, pb, pf = X.copy(), np.zeros_like(X), X.copy(), f.copy()
    gi = int(np.argmin(pf))
    gb, gf = X[gi].copy(), pf[gi]
    for k in range(2, len(v.iters) + 1):
        es = v.iters[k - 1][0]
        bx, bf = v.batch(k)
        rr = [np.asarray(d[4]) for d in draws(es, UNI) if unit(d) and np.shape(d[4]) == (v.pop, v.n)]
        extra = [d for d in draws(es, UNI) if not unit(d)]
        if len(rr) != 2 or len(bf) != v.pop:
            return
        r1, r2 = rr
        X0, V0 = X.copy(), V.copy()
        gb0 = gb.copy()
        restarted = []
        oldpf = pf.copy()
        big = 1e-7 * (v.scale + np.abs(X0).max() + np.abs(V0).max())
        newV = V.copy()
        for i in range(v.pop):
            g = gb0 if sync else gb
            vel = w * V0[i] + c1 * r1[i] * (pb[i] - X0[i]) + c2 * r2[i] * (g - X0[i])
            beta = factor(X0[i], vel, v.lo, v.hi) if shrink else 1.0
            inside = bool(np.all(X0[i] >= v.lo) and np.all(X0[i] <= v.hi))
            want = X0[i] + beta * vel
            ok = bool(np.all(np.abs(bx[i] - want) <= big))
            cand = np.empty((0, v.n))
            if comp and shrink:
                cc = [np.atleast_2d(d[4]) for d in extra if np.ndim(d[4]) and np.shape(d[4])[-1] == v.n]
                cand = np.vstack(cc) if cc else cand
            hyp = []
            for x in cand:
                vv = c2 * r2[i] * (g - x)
                bb = factor(x, vv, v.lo, v.hi)
                if np.all(np.abs(bx[i] - (x + bb * vv)) <= big):
                    hyp.append(x)
            if len(hyp) + ok > 1:
                return  # the evaluated point does not tell a restart from a move
            if ok:
                newV[i] = beta * vel
            else:
                # a restart: position unknown inside the bounds, zero velocity, forgotten best
                good = False
                if comp and k > 2:
                    den = 1.0 - c2 * r2[i]
                    with np.errstate(all="ignore"):
                        if not shrink:
                            xr = (bx[i] - c2 * r2[i] * g) / den
                            tolr = 1e-6 * v.scale / np.maximum(np.abs(den), 1e-9)
                            good = bool(np.all((xr >= v.lo - tolr) & (xr <= v.hi + tolr) | (np.abs(den) < 1e-6)))
                        else:
                            good, xr = (True, hyp[0]) if hyp else (False, None)
                if not good:
                    p = "C19"
                    if shrink and inside and k > 1:
                        d = bx[i] - X0[i]
                        # on the line of the velocity but with another factor, or off the line
                        p = "C18"
                    if comp:
                        yield ("C18" if shrink else "C19"), "iteration %d: particle %d moved to %s, neither the velocity update %s nor a restart inside the bounds" % (k, i, bx[i], want)
                    elif shrink:
                        yield "C18", "iteration %d: particle %d moved to %s instead of %s (largest feasible step along its velocity)" % (k, i, bx[i], want)
                        yield "C19", "iteration %d: particle %d of a swarm without competition left its trajectory" % (k, i)
                    else:
                        yield "C19", "iteration %d: particle %d of a swarm without competition moved to %s instead of %s" % (k, i, bx[i], want)
                    return
                restarted.append(i)
                newV[i] = bx[i] - xr
                pf[i] = np.inf
                pb[i] = xr
            if not sync:
                if bf[i] <= pf[i]:
                    pb[i], pf[i] = bx[i].copy(), bf[i]
                    if bf[i] <= gf:
                        gb, gf = bx[i].copy(), bf[i]
        if restarted:
            old = oldpf
            if len(restarted) >= v.pop:
                yield "C19", "iteration %d: every particle was restarted" % k
            worst = min(old[i] for i in restarted)
            keep = [old[i] for i in range(v.pop) if i not in restarted]
            if keep and max(keep) > worst + 1e-9 * (1 + abs(worst)):
                yield "C19", "iteration %d: a particle of value %r was restarted but one of value %r was kept" % (k, float(worst), float(max(keep)))
        if sync:
            idx = bf < pf
            pb[idx], pf[idx] = bx[idx], bf[idx]
            st = v.iters[k - 1][1][2]
            gb, gf = st["x"].copy(), st["fun"]
        elif v.iters[k - 1][1][2]["fun"] == gf:
            gb = v.iters[k - 1][1][2]["x"].copy()
        X, V = bx.copy(), newV


def factor(x, vel, lo, hi):
    c = x + vel
    m = (c < lo) | (c > hi)
    if not m.any():
        return 1.0
    with np.errstate(all="ignore"):
        t = np.where(c < lo, (lo - x) / vel, np.where(c > hi, (hi - x) / vel, 1.0))
    return float(t[m].min())


def c18(v):
    if v.o.get("constraints") == "Shrink":
        for p, m in swarm(v):
            if p == "C18":
                yield m


def c19(v):
    for p, m in swarm(v):
        if p == "C19":
            yield m


def c16(v):
    if v.m not in SAM or v.tr.exc is not None or not v.finite:
        return
    if v.cfg.get("cb"):
        S = [cb[1] for _, cb in v.iters]
        fs = [val_at(v, x) for x in S]
    elif v.ok and "xall" in v.tr.res:
        S, fs = list(v.tr.res["xall"]), [float(a) for a in v.tr.res["funall"]]
    else:
        return
    for k, s, ne, where in v.states():
        m = k if (where != "result" and k) else len(fs)
        best = min(fs[:m])
        if not feq(float(s["fun"]), best):
            yield "%s: fun=%r but the lowest sample has %r" % (where, float(s["fun"]), best)
        elif not any(np.array_equal(S[i], s["x"]) for i in range(m) if feq(fs[i], best)):
            yield "%s: x is not the best sample of the chain" % where


def c20(v):
    if v.m != "na" or v.tr.exc is not None or not v.cfg.get("cb") or not v.finite:
        return
    w = v.hi - v.lo
    mask = w > 0
    if not mask.any():
        return
    nr = max(1, int(v.o.get("nrperc", 0.5) * v.pop))
    allx, allf = [], []
    for k in range(1, len(v.iters) + 1):
        bx, bf = v.batch(k)
        N = (bx[:, mask] - v.lo[mask]) / w[mask]
        if k > 1:
            A = np.vstack(allx)
            f = np.concatenate(allf)
            thr = np.sort(f)[min(nr, len(f)) - 1]
            best = f <= thr
            for i, x in enumerate(N):
                if np.any(x < -1e-9) or np.any(x > 1 + 1e-9):
                    yield "iteration %d: model %d outside the bounds" % (k, i)
                    return
                d = ((A - x) ** 2).sum(axis=1)
                if d[best].min() > d.min() + 1e-7 * (1 + d.min()):
                    yield "iteration %d: model %d is closer to another model (%r) than to the %d best (%r)" % (k, i, float(d.min()), nr, float(d[best].min()))
                    return
        if np.any(bx[:, ~mask] != v.hi[~mask][None, :]) and np.any(np.abs(bx[:, ~mask] - v.hi[~mask]) > TOL * v.scale[~mask]):
            yield "iteration %d: a dimension with equal bounds moved" % k
            return
        allx.append(N)
        allf.append(bf)


def c24(v):
    if v.tr.exc is not None:
        if not v.finite:
            return
        yield "%s: %s" % (type(v.tr.exc).__name__, v.tr.exc)
    elif not isinstance(v.tr.res, dict):
        yield "no result"
    else:
        need = {"x", "fun", "nit"} | ({"nfev", "status", "success", "message"} if v.m in OPT else set())
        miss = need - set(v.tr.res)
        if miss:
            yield "result without %s" % ", ".join(sorted(miss))
        elif np.shape(v.tr.res["x"]) != (v.n,):
            yield "x of shape %s" % (np.shape(v.tr.res["x"]),)


TRACE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09,
         "C10": c10, "C11": c11, "C14": c14, "C15": c15, "C16": c16, "C17": c17, "C18": c18, "C19": c19, "C20": c20,
         "C24": c24}
METHODS = {"C01": POP, "C02": CMA, "C03": OPT, "C04": SAM, "C05": OPT + ("hmc", "mcmc"), "C06": OPT + SAM, "C07": POP,
           "C08": CMA, "C09": OPT, "C10": POP + SAM, "C11": OPT + SAM, "C14": ("mcmc",), "C15": ("hmc",), "C16": SAM,
           "C17": ("de",), "C18": ("pso", "cpso"), "C19": ("pso", "cpso"), "C20": ("na",), "C24": OPT + SAM,
           "C12": OPT + SAM, "C13": OPT, "C23": OPT + SAM}
