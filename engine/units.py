"""The units of each property."""
from . import bench, cell, direct, helpers, opt_cma, opt_cpso, opt_de, opt_na, samp

WHOLE = ["C01", "C03", "C05", "C06", "C07", "C09", "C10", "C11", "C12", "C24"]

UNITS = []  # (name, properties, constructor, configuration, tier, weight)


def unit(name, props, ucls, slow="", weight=10, **cfg):
    """props: decided in both tiers, slow: in the thorough tier only."""
    UNITS.append((name, tuple(props.split()), ucls, cfg, tuple(slow.split()), weight))


D = opt_de.DE
# plain runs
unit("de.deferred.none", "C01 C05 C06 C07 C10 C11 C12 C24", D, updating="deferred", constraints=None)
unit("de.deferred.random", "C01 C03 C05 C07 C11 C12 C24", D, updating="deferred", constraints="Random")
unit("de.deferred.random.cb.hist", "C01 C03 C05 C06 C07 C09 C11 C24", D, weight=60, updating="deferred", constraints="Random", cb=True, hist=True)
unit("de.deferred.none.x0", "C10 C11 C12", D, updating="deferred", constraints=None, x0=True)
unit("de.immediate.none", "C01 C05 C06 C07 C10 C11 C12 C24", D, weight=60, updating="immediate", constraints=None)

P = opt_cpso.CPSO
unit("de.immediate.random", "C03", D, weight=60, updating="immediate", constraints="Random")
unit("de.immediate.none.cb.hist", "C06 C09", D, weight=60, updating="immediate", constraints=None, cb=True, hist=True)
unit("cpso.deferred.none", "C19 C01 C05 C06 C07 C10 C11 C12 C24", P, updating="deferred", constraints=None)
unit("cpso.deferred.none.cb.hist", "C01 C06 C07 C09", P, weight=60, updating="deferred", constraints=None, cb=True, hist=True)
unit("cpso.deferred.shrink", "C01 C03 C05 C07 C11 C12 C24", P, weight=40, updating="deferred", constraints="Shrink")
unit("cpso.deferred.shrink.cb.hist", "C01 C03 C05 C06 C07 C09 C11 C24", P, weight=70, updating="deferred", constraints="Shrink", cb=True, hist=True)
unit("cpso.deferred.none.x0", "C10 C11 C12", P, updating="deferred", constraints=None, x0=True)
unit("cpso.immediate.none", "C19 C01 C05 C06 C07 C10 C11 C12 C24", P, weight=60, updating="immediate", constraints=None)
unit("cpso.deferred.none.nogamma", "C19", P, weight=30, updating="deferred", constraints=None, gamma=False)
unit("cpso.immediate.none.nogamma", "C19", P, weight=30, updating="immediate", constraints=None, gamma=False)
unit("cpso.immediate.none.cb.hist", "C06", P, slow="C09", weight=60, updating="immediate", constraints=None, cb=True, hist=True)
unit("cpso.immediate.shrink", "C01 C03 C05 C07 C11 C24", P, weight=60, updating="immediate", constraints="Shrink")
unit("pso.deferred.shrink", "C19 C01 C03 C05 C06 C07 C10 C11 C12 C24", opt_cpso.PSO, weight=40, updating="deferred", constraints="Shrink")

A = opt_na.NA
unit("na.none", "C01 C03 C05 C06 C07 C10 C11 C12 C24", A, weight=60)
unit("na.x0", "C10 C11 C12", A, weight=30, x0=True)
unit("na.cb", "C06", A, weight=60, cb=True)
unit("na.cb.hist", "C03 C09", A, weight=60, cb=True, hist=True)

for _n, _G in (("cmaes", opt_cma.CMA), ("vdcma", opt_cma.VDCMA)):
    for _c in (None, "Penalize"):
        unit("%s.%s" % (_n, str(_c).lower()), "C02 C03 C05 C06 C08 C11 C12 C24", _G, weight=40, constraints=_c)
        unit("%s.%s.cb.hist" % (_n, str(_c).lower()), "C02 C03 C05 C06 C08 C09 C11 C24", _G, weight=40, constraints=_c, cb=True, hist=True)

for _a in (True, False):
    for _f in (True, False):
        unit("converge.%s%s" % ("axes" if _a else "noaxes", ".flat" if _f else ""), "C08" + ("" if _f else " C24"), helpers.Converge, weight=5, axes=_a, flat=_f)
for _p in ("points", "fitness", "state"):
    unit("penalize." + _p, "C02 C03 C24" if _p == "points" else "C02 C24", helpers.PenalizeStep, weight=5, part=_p)

unit("cell", "C20", cell.Cell, weight=60)
for _x in bench.NAMES:
    unit("bench.%s.formula" % _x, "C21", bench.Bench, weight=2, func=_x, at="bound")
    unit("bench.%s.integers" % _x, "C21", bench.Bench, weight=2, func=_x, at="any", dtype="i")
    unit("bench.%s.list" % _x, "C21", bench.Bench, weight=2, func=_x, at="any", lists=True)
    unit("bench.%s.minimum" % _x, "C21", bench.Bench, weight=2, func=_x, at="min")

S = samp.MCMC
unit("mcmc.none.cb.hist", "C05 C06 C11 C14 C16", S, weight=30, cb=True, hist=True)
unit("mcmc.reject.cb.hist", "C04 C05 C06 C14 C16", S, weight=30, constraints="Reject", cb=True, hist=True)
unit("mcmc.none.cb.x0", "C05 C06 C10 C16", S, weight=30, cb=True, x0=True)
unit("mcmc.reject.hist.x0.lists", "C04 C05 C10 C11 C12 C16 C24", S, weight=30, constraints="Reject", hist=True, x0=True, lists=True, stepvec=True)
unit("mcmc.none.stepvec", "C10 C11 C12 C24", S, weight=30, stepvec=True)
unit("mcmc.none.noseed", "C12", S, weight=30, seed=False)
S = samp.HMC
for _j in (True, False):
    _n = "hmc.jac." if _j else "hmc.diff."
    unit(_n + "none.cb.hist", "C05 C06 C11 C15 C16", S, weight=30, cb=True, hist=True, jac=_j)
    unit(_n + "reject.cb.hist", "C04 C05 C06 C15 C16", S, weight=30, constraints="Reject", cb=True, hist=True, jac=_j)
    unit(_n + "none.cb.x0", "C05 C06 C10 C16", S, weight=30, cb=True, x0=True, jac=_j)
    unit(_n + "reject.hist.x0.lists", "C04 C05 C10 C11 C12 C16 C24", S, weight=30, constraints="Reject", hist=True, x0=True, lists=True, stepvec=True, jac=_j)
    unit(_n + "none.stepvec", "C10 C11 C12 C24", S, weight=30, stepvec=True, jac=_j)
unit("hmc.jac.none.noseed", "C12", S, weight=30, seed=False, jac=True)
unit("hmc.gradient", "C15", direct.Gradient, weight=5)


# ------------------------------------------------------------------ single functions
for _m, _c in (("stochopy.optimize._helpers", "OptimizeResult"), ("stochopy.sample._helpers", "SampleResult"), ("stochopy._common", "BaseResult")):
    for _o, _p in (("get", True), ("get", False), ("set", True), ("set", False), ("del", True), ("del", False), ("setitem", True), ("dir", True)):
        unit("result.%s.%s.%s" % (_c, _o, "present" if _p else "absent"), "C25", direct.Result, weight=1, cls=(_m, _c), op=_o, present=_p)

    for _k in ("x fun success status message nit nfev", "x success status message fun nfev nit xall funall", "x fun nit accept_ratio xall funall",
               "x fun nit nfev accept_ratio", "funall xall", "zz xall xal funal funalls xalls", "x", ""):
        unit("result.%s.repr.%s" % (_c, _k.replace(" ", "-")), "C25", direct.Result, weight=1, cls=(_m, _c), op="repr", present=True, keys=_k)

for _m in direct.SPEC22:
    _w = ["x0 shape", "x0 rank", "bounds rank", "fun", "callback"]
    if direct.SPEC22[_m]:
        _w.append("ranges")
    if _m in ("de", "cpso", "pso", "na"):
        _w.append("popsize")
    if _m in ("de", "cpso", "pso"):
        _w.append("updating")
    if _m == "cpso":
        _w.append("competitivity None")
    if _m in ("mcmc", "hmc"):
        _w.append("stepsize length")
    if _m == "hmc":
        _w.append("nleap")
    for _x in _w:
        for _r in (0, 1, 3) if "rank" in _x else (None,):
            for _l in (False, True) if _r != 0 and _x in ("x0 shape", "stepsize length", "x0 rank", "bounds rank") else (False,):
                unit("refuse.%s.%s%s%s" % (_m, _x.replace(" ", "-"), "" if _r is None else "-%d" % _r, ".list" if _l else ""), "C22",
                     direct.Refuse, weight=1, method=_m, what=_x, rank=_r, lists=_l)

for _m in direct.SPEC22:
    for _o in ("all", "none", "half"):
        for _d in (False, True):
            unit("forward.generic.%s.%s%s" % (_m, _o, ".defaults" if _d else ""), "C23", direct.Forward, weight=1, via="generic", target=_m, options=_o, defaults=_d)
for _d in (False, True):
    unit("forward.pso%s" % (".defaults" if _d else ""), "C23", direct.Forward, weight=1, via="pso", target="cpso", defaults=_d)

for _c in ("Shrink", None):
    for _s in (True, False):
        unit("move.%s.%s" % (_c, "sync" if _s else "async"), "C18", direct.Shrink, weight=5, constraints=_c, sync=_s)

for _s in (True, False):
    _n = "sync" if _s else "async"
    unit("donors." + _n, "C17", direct.Donors, weight=5, sync=_s)
    for _x in direct.NDONORS:
        unit("strategy.%s.%s" % (_x, _n), "C17", direct.Strategy, weight=5, strategy=_x, sync=_s)
    for _c in (None, "Random"):
        unit("destep.%s.%s" % (_c, _n), "C17", direct.DEStep, weight=9, constraints=_c, sync=_s)
for _x in direct.NDONORS:
    for _u in ("immediate", "deferred"):
        unit("dewire.%s.%s" % (_x, _u), "C17", direct.DEWire, weight=9, strategy=_x, updating=_u, constraints=None)
unit("dewire.workers", "C17", direct.DEWire, weight=9, strategy="best1bin", updating="immediate", constraints=None, workers=2)
unit("restart", "C19", direct.RestartStep, weight=9)

for _s in (True, False):
    for _b in (None, "threading", "loky"):
        unit("batch.%s.%s" % (_b, "sync" if _s else "async"), "C13", direct.Batch, weight=3, backend=_b, sync=_s, **({} if _s else {"serial": True}))
unit("batch.mpi", "C13", direct.Batch, weight=3, backend="mpi", sync=True)
unit("batch.unknown", "C13", direct.Batch, weight=3, backend="unknown", sync=True)
unit("batch.unknown.several", "C13", direct.Batch, weight=3, backend="unknown", sync=True, workers="several")
for _m in direct.OPTM:
    if _m == "pso":
        continue
    if _m not in ("cmaes", "vdcma"):
        unit("blind." + _m, "C13", direct.Blind, weight=9, method=_m, backend=None, updating="deferred")
    for _b in (None, "threading", "loky", "mpi"):
        for _u in ("immediate", "deferred") if _m in ("de", "cpso") else ("-",):
            unit("sync.%s.%s.%s" % (_m, _b, _u), "C13", direct.Sync, weight=3, method=_m, backend=_b, updating=_u)


def select(prop, tier="quick"):
    return [u for u in UNITS if prop in u[1] or tier == "thorough" and prop in u[4]]
