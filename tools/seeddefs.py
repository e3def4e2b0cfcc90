"""Planted bugs: edits of the real source with their demonstrations."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, count=1):
    if isinstance(edits[0], str):
        edits = [edits]
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, count=count))


OC = "stochopy/optimize/_common.py"
DE = "stochopy/optimize/de/_de.py"
CP = "stochopy/optimize/cpso/_cpso.py"
CC = "stochopy/optimize/cpso/_constraints.py"
NA = "stochopy/optimize/na/_na.py"
CM = "stochopy/optimize/cmaes/_cmaes.py"
CK = "stochopy/optimize/cmaes/_constraints.py"
VD = "stochopy/optimize/vdcma/_vdcma.py"
PS = "stochopy/optimize/pso/_pso.py"
MC = "stochopy/sample/mcmc/_mcmc.py"
HM = "stochopy/sample/hmc/_hmc.py"
BR = "stochopy/_common.py"

seed("c01-status0", "C01", (OC, """    if cond1 and cond2:
        xbest = x[idx].copy()
        xbestfun = xfun[idx]
        status = 0

    # Stop if best solution value is less than ftol
    elif xfun""", """    if cond1 and cond2:
        xbestfun = xfun[idx]
        status = 0

    # Stop if best solution value is less than ftol
    elif xfun"""),
     "synchronous updating, the target value reached by a move shorter than xtol",
     "the position reported with the best value is the previous best one", """
import numpy as np
from stochopy.optimize import minimize
bad = 0
for m in ("de", "cpso", "na"):
    for s in range(40):
        r = minimize(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 2, method=m,
                     options=dict(popsize=6, maxiter=80, seed=s, ftol=0.05, xtol=2.0))
        bad += abs(float((r.x ** 2).sum()) - r.fun) > 1e-9
assert not bad, bad
""")

seed("c05-skip", "C05", (OC, """    candfun = fun(cand[i])

    status = None""", """    candfun = xfun[i] if (cand[i] == x[i]).all() else fun(cand[i])

    status = None"""),
     "immediate updating with a candidate equal to the current best of its slot",
     "the evaluation is skipped but still counted", """
import numpy as np
from stochopy.optimize import minimize
for s in range(40):
    n = [0]
    def f(x):
        n[0] += 1
        return float((x ** 2).sum())
    r = minimize(f, [[-3.0, 2.0]] * 3, method="cpso", options=dict(popsize=8, maxiter=5, seed=s, updating="immediate", ftol=-1.0))
    assert n[0] == r.nfev, (n[0], r.nfev)
""")

seed("c09-restart-first", "C09", (CP, """        if callback is not None:
            res = OptimizeResult(x=gbest, fun=gfit, nfev=it * popsize, nit=it)
            if return_all:
                res.update({"xall": xall[:it], "funall": funall[:it]})

            callback(X, res)

        if not converged and gamma:
            X, V, pbest, pbestfit = restart(
                it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxiter
            )
""", """        if not converged and gamma:
            X, V, pbest, pbestfit = restart(
                it, X, V, pbest, gbest, pbestfit, lower, upper, gamma, delta, maxiter
            )

        if callback is not None:
            res = OptimizeResult(x=gbest, fun=gfit, nfev=it * popsize, nit=it)
            if return_all:
                res.update({"xall": xall[:it], "funall": funall[:it]})

            callback(X, res)
"""),
     "a swarm concentrated enough for the competitive restart",
     "a row of the history differs from the population the callback receives", """
import numpy as np
from stochopy.optimize import minimize
for s in range(10):
    def f(x):
        return float((x ** 2).sum())
    seen = []
    def cb(X, r):
        seen.append(np.array(X))
    r = minimize(f, [[-3.0, 2.0]] * 2, method="cpso", options=dict(popsize=8, maxiter=60, seed=s, updating="deferred",
             inertia=0.3, competitivity=1.5, ftol=-1.0, return_all=True), callback=cb)
    for a, b in zip(seen, r.xall):
        assert np.allclose(a, b), "the history differs from the population of the callback"
""")

seed("c07-infnorm", "C07", (OC, """    cond1 = np.linalg.norm(xbest - x[idx]) <= xtol""", """    cond1 = np.abs(xbest - x[idx]).max() <= xtol"""),
     "the last move of the best point longer than xtol with every coordinate shorter",
     "status 0 is reported although the best point moved more than xtol", """
import numpy as np
from stochopy.optimize import minimize
for s in range(300):
    h = []
    r = minimize(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 4, method="de",
                 options=dict(popsize=6, maxiter=80, seed=s, ftol=1.0, xtol=0.4, updating="deferred"), callback=lambda X, r: h.append(np.array(r.x)))
    if r.status == 0:
        assert np.linalg.norm(h[-1] - h[-2]) <= 0.4
""")

seed("c09-na-best", "C09", (NA, """                xall[it - 1] = unnormalize(X[:nout])
                funall[it - 1] = pfit[:nout].copy()""", """                xall[it - 1] = unnormalize(X[:nout])
                funall[it - 1] = pbestfit[:nout].copy()"""),
     "return_all with NA and a model worse than the best of its slot",
     "the history pairs positions with values of other points", """
import numpy as np
from stochopy.optimize import minimize
r = minimize(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 2, method="na", options=dict(popsize=6, maxiter=8, seed=3, return_all=True))
assert np.allclose((r.xall ** 2).sum(axis=-1), r.funall)
""")

seed("c11-normalize", "C11", (NA, """    X = normalize(X)
    pbest = X.copy()""", """    X[:] = normalize(X)
    pbest = X.copy()"""),
     "NA with an initial population given as an array",
     "the caller's initial population is overwritten with normalized coordinates", """
import numpy as np
from stochopy.optimize import minimize
x0 = np.random.RandomState(0).uniform(-3, 2, (5, 2))
y = x0.copy()
minimize(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 2, x0=x0, method="na", options=dict(popsize=5, maxiter=4, seed=1))
assert np.array_equal(x0, y)
""")

seed("c12-zero", "C12", (VD, """    if seed is not None:
        np.random.seed(seed)""", """    if seed:
        np.random.seed(seed)"""),
     "seed=0 with VD-CMA", "the seed 0 is ignored and the run is not reproducible", """
import numpy as np
from stochopy.optimize import minimize
o = dict(popsize=6, maxiter=6, seed=0)
a = minimize(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 3, method="vdcma", options=o)
np.random.rand(7)
b = minimize(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 3, method="vdcma", options=o)
assert np.array_equal(a.x, b.x)
""")

seed("c18-lower-only", "C18", (CC, """            return min(bl.min(), bu.min())""", """            return bl.min()"""),
     "one move leaving through a lower and an upper bound at once",
     "the particle is bent away from its direction", """
import numpy as np
from stochopy.optimize.cpso._constraints import Shrink
rs = np.random.RandomState(0)
lo, hi = -np.ones(3), np.ones(3)
for sync in (True, False):
    c = Shrink(lo, hi, sync)
    for _ in range(200):
        X = rs.uniform(-1, 1, (4, 3)); V = rs.randn(4, 3) * 2
        if sync:
            Y, W = c(X.copy(), V.copy())
        else:
            Y, W = map(np.array, zip(*[c(x.copy(), v.copy()) for x, v in zip(X, V)]))
        for x, v, y in zip(X, V, Y):
            t = (y - x) / v
            assert np.allclose(t, t[0]), t
""")

seed("c22-nan", "C22", (DE, """    if not 0.0 <= recombination <= 1.0:
        raise ValueError()""", """    if recombination < 0.0:
        raise ValueError()"""),
     "DE with recombination above 1", "an invalid recombination is accepted", """
from stochopy.optimize import minimize
try:
    minimize(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 2, method="de", options=dict(recombination=1.5, maxiter=2, popsize=5))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
""")

seed("c23-swap", "C23", (PS, """        cognitivity,
        sociability,
        competitivity,""", """        sociability,
        cognitivity,
        competitivity,"""),
     "PSO with different cognitivity and sociability", "PSO runs CPSO with the two coefficients exchanged", """
import numpy as np
from stochopy.optimize import minimize
f = lambda x: float((x ** 2).sum())
o = dict(popsize=5, maxiter=6, seed=1, cognitivity=0.3, sociability=2.0)
a = minimize(f, [[-3.0, 2.0]] * 2, method="pso", options=o)
b = minimize(f, [[-3.0, 2.0]] * 2, method="cpso", options=dict(o, competitivity=None))
assert np.array_equal(a.x, b.x)
""")

seed("c24-first-flat", "C24", (CK, """    if delta == 0:
        delta = dfithist[dfithist > 0.0].min()
    elif not validfitval:
        dfithist = np.empty(0)
        validfitval = True
""", """    if not validfitval:
        dfithist = np.empty(0)
        validfitval = True
    if delta == 0:
        delta = dfithist[dfithist > 0.0].min()
"""),
     "'Penalize' with an objective that is flat over the first generation", "the run raises ValueError", """
from stochopy.optimize import minimize
minimize(lambda x: 1.0, [[-3.0, 2.0]] * 2, method="cmaes", options=dict(popsize=5, maxiter=4, seed=1, constraints="Penalize"))
""")

seed("c25-none", "C25", (BR, """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)""", """        value = self.get(name)
        if value is None:
            raise AttributeError(name)
        return value"""),
     "a result item whose value is None", "reading the attribute raises although the item exists", """
from stochopy._common import BaseResult
r = BaseResult(x=None)
assert r.x is None
""")

seed("c02-unclipped", "C02", (CM, """    res = OptimizeResult(
        x=unstandardize(arxvalid[arindex[0]]),
        success""", """    res = OptimizeResult(
        x=unstandardize(arx[arindex[0]]),
        success"""),
     "'Penalize' when the best member of the last generation was clipped to the bounds",
     "the reported point was never evaluated and lies outside the bounds", """
import numpy as np
from stochopy.optimize import minimize
for s in range(20):
    r = minimize(lambda x: float(((x + 3) ** 2).sum()), [[-3.0, 2.0]] * 2, method="cmaes",
                 options=dict(popsize=6, maxiter=5, seed=s, constraints="Penalize", ftol=-1.0))
    assert (r.x >= -3 - 1e-9).all()
""")

seed("c16-first", "C16", (HM, """    idx = np.argmin(funall)
    res""", """    idx = np.argmin(funall[1:]) + 1 if maxiter > 1 else 0
    res"""),
     "an HMC chain whose best sample is the initial one",
     "the best sample reported leaves out the initial one", """
import numpy as np
from stochopy.sample import sample
r = sample(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 2, x0=[0.0, 0.0], method="hmc", options=dict(maxiter=10, seed=1, stepsize=0.2, nleap=5, return_all=True, constraints=None))
assert r.fun == r.funall.min()
""")

seed("c04-upper", "C04", ("stochopy/sample/_common.py", """    if constraints == "Reject":""", """    if constraints == "Reject" and not np.array_equal(x, np.clip(x, lower, None)):"""),
     "a 'Reject' chain near an upper bound", "samples above the upper bound are accepted", """
import numpy as np
from stochopy.sample import sample
r = sample(lambda x: float(-x.sum()), [[-3.0, 2.0]] * 2, method="mcmc", options=dict(maxiter=200, seed=1, stepsize=0.3, return_all=True, constraints="Reject"))
assert (r.xall <= 2.0).all()
""")

seed("c15-half", "C15", (HM, """        p0 = p.copy()
""", """        p0 = p
"""),
     "any HMC trajectory: the initial momentum is an alias of the final one",
     "the acceptance test compares potential energies only", """
import numpy as np
from stochopy.sample import sample
acc = []
r = sample(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 2, method="hmc", options=dict(maxiter=400, seed=1, stepsize=0.2, nleap=9, return_all=True, constraints=None))
assert r.accept_ratio > 0.9, r.accept_ratio
""")


seed("c08-strict", "C08", (CM, """    elif arfitness[arindex[0]] <= ftol:
        status = 1""", """    elif arfitness[arindex[0]] <= ftol and arbestfitness[it - 1] < ftol:
        status = 1"""),
     "a generation whose best fitness is exactly the target value",
     "the run goes on after a generation that reached the target", """
from stochopy.optimize import minimize
r = minimize(lambda x: float(max(1.0, abs(x).sum())), [[-3.0, 2.0]] * 2, method="cmaes",
             options=dict(popsize=6, maxiter=15, seed=1, ftol=1.0, xtol=0.0))
assert r.status == 1, r
""")

seed("c14-ceil", "C14", (MC, """    ndim_per_iter = max(1, int(perc * ndim))""", """    ndim_per_iter = max(1, int(np.ceil(perc * ndim)))"""),
     "perc times the dimension not an integer", "blocks hold more coordinates than int(perc * ndim)", """
import numpy as np
from stochopy.sample import sample
r = sample(lambda x: float((x ** 2).sum()), [[-3.0, 2.0]] * 5, method="mcmc",
           options=dict(maxiter=60, seed=3, perc=0.5, stepsize=0.1, return_all=True, constraints=None))
d = np.diff(r.xall, axis=0)
assert ((d != 0).sum(axis=1) <= 2).all()
""")

seed("c10-zeros", "C10", (NA, """    X = x0 if x0 is not None else lhs(popsize, ndim, bounds)""", """    X = x0 if np.any(x0) else lhs(popsize, ndim, bounds)"""),
     "NA with an initial population of zeros", "the supplied population is ignored", """
import numpy as np
from stochopy.optimize import minimize
e = []
def f(x):
    e.append(np.array(x)); return float((x ** 2).sum())
minimize(f, [[-3.0, 2.0]] * 2, x0=np.zeros((4, 2)), method="na", options=dict(popsize=4, maxiter=2, seed=1))
assert np.allclose(e[:4], 0.0, atol=1e-9)
""")

seed("c17-neighbour", "C17", (DE, """    return np.random.permutation(np.delete(np.arange(popsize), i))""", """    if popsize > 12:
        return np.random.permutation(popsize)
    return np.random.permutation(np.delete(np.arange(popsize), i))"""),
     "a population larger than twelve", "the target can be one of its own donors", """
import numpy as np
from stochopy.optimize.de._de import delete_shuffle_async
np.random.seed(0)
for n in (5, 13, 20):
    for i in range(n):
        d = delete_shuffle_async(i, n)
        assert len(d) == n - 1 and i not in d
""")

seed("c13-mpi-tail", "C13", (OC, """                            for i in np.arange(mpi_rank, popsize, mpi_size):
                                fmpi[i] = fun(x[i], *args)""", """                            chunk = -(-popsize // mpi_size)
                            for i in range(mpi_rank * chunk, (mpi_rank + 1) * chunk):
                                fmpi[i % popsize] += fun(x[i % popsize], *args)"""),
     "MPI with a number of processes that does not divide the population",
     "members at the wrap-around are evaluated and added twice", """
import sys, types
import numpy as np
import stochopy.optimize._common as c
for n, size in ((7, 3), (4, 1), (5, 4)):
    tot = np.zeros(n); k = []
    x = np.arange(2.0 * n).reshape(n, 2)
    for rank in range(size):
        class Comm:
            def Get_rank(self): return rank
            def Get_size(self): return size
            def Bcast(self, b, root=0): pass
            def Barrier(self): pass
            def Allreduce(self, a, b, op=None): b[0][:] = a[0]
        m = types.ModuleType("mpi4py"); m.MPI = types.SimpleNamespace(COMM_WORLD=Comm(), DOUBLE="d", SUM="s")
        sys.modules["mpi4py"] = m
        @c.optimizer
        def opt(fun, args, sync, workers, backend):
            return fun(x)
        tot += opt(lambda v: float(v.sum()), (), True, 1, "mpi")
    assert np.array_equal(tot, x.sum(axis=1)), (n, size)
""")

seed("c20-rank", "C20", (NA, """    ix = Xallfit.argsort()[:nr]""", """    ix = Xallfit[: 4 * popsize].argsort()[:nr]"""),
     "a run longer than four iterations whose best models are old",
     "old models are forgotten: new ones are drawn around models that are not the best", """
import numpy as np
from stochopy.optimize.na._na import mutation
np.random.seed(0)
X = np.random.rand(60, 2); f = np.arange(60.0)[::-1].copy()
Y = mutation(X.copy(), f, 4, 2, 2, np.ones(2, dtype=bool))
for y in Y:
    assert ((X - y) ** 2).sum(axis=1).argmin() in (58, 59)
""")

seed("c21-rosen", "C21", ("stochopy/factory/benchmark.py", """    x = np.asarray(x)
    ndim = x.size
    sum1 = np.square(x).sum() / 4000.0""", """    x = np.asarray(x)
    ndim = x.size
    sum1 = np.square(np.round(x, 12)).sum() / 4000.0 - (1e-3 if ndim > 9 and np.abs(x).max() < 0.01 else 0.0)"""),
     "ten dimensions or more close to the minimizer", "Griewank is negative", """
import numpy as np
from stochopy.factory import griewank
assert griewank(np.full(12, 1e-4)) >= 0
""")

seed("c03-na-x", "C03", (VD, """        x=unstandardize(arxvalid[arindex[0]]),
        success""", """        x=unstandardize(xmean),
        success"""),
     "'Penalize' with an optimum at the bounds", "the returned point may lie outside the bounds", """
import numpy as np
from stochopy.optimize import minimize
for s in range(30):
    r = minimize(lambda x: float(((x + 3) ** 2).sum()), [[-3.0, 2.0]] * 2, method="vdcma",
                 options=dict(popsize=6, maxiter=12, seed=s, constraints="Penalize", ftol=-1.0))
    assert (r.x >= -3 - 1e-9).all()
""")

seed("c19-forget", "C19", (CP, """            V[idx] = np.zeros((nw, ndim))""", """            V[idx[: max(1, popsize // 2)]] = 0.0"""),
     "a restart of more than half the swarm", "the particles restarted beyond the first half keep their velocity", """
import numpy as np
from stochopy.optimize.cpso._cpso import restart
n, d = 10, 2
X = np.zeros((n, d)) + 0.01; V = np.ones((n, d)); pb = X.copy(); f = np.arange(10.0) + 1
X, V, pb, g = restart(1, X, V, pb, pb[0].copy(), f.copy(), -np.ones(d), np.ones(d), 1.5, 1.0, 100)
assert (V[np.isinf(g)] == 0).all()
""")
