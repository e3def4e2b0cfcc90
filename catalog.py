"""What each check claims. MANIFEST.json is generated from here (mkmanifest.py)."""

TRUSTED = [
    "the verification-condition generator itself (engine/: symbolic interpreter of the Python/NumPy subset, loop cutting, instantiation)",
    "z3",
    "contracts assumed for NumPy and the interpreter (engine/nplib.py): indexing and slicing as arrays of symbolic shape, elementwise "
    "operations, where/any/all/min/max/argmin/argsort/clip/copy/dot as specified in the NumPy manual",
    "random draws are fresh arbitrary values in their documented ranges (engine/nplib.py: uniform in [low, high], rand in [0, 1), "
    "permutation a bijection, randint in range)",
    "the import system, decorators and closures behave as in CPython 3 (engine/interp.py)",
]

ASSUMPTIONS = [
    "floating point is treated as real arithmetic: every inequality on positions and values is proved up to rounding",
    "the objective function is deterministic, finite, returns a scalar and does not modify its argument; callbacks do not modify what they receive",
    "documented preconditions: lower <= upper, popsize at least the documented minimum of the strategy, maxiter >= 1, verbosity in [0, 1]",
]

P = "proof"
PEN = ("in CMA-ES and VD-CMA the linear algebra of the covariance (eigendecomposition, products of matrices) yields arbitrary finite real values "
       "(an over-approximation of the sampled points); sigma is not zero and the variances are positive when Penalize is called",)
TECH = "contract-based deductive verification of the real source (own VC generator for Python/NumPy, inferred loop invariants, z3); bounded run-time monitors of the real code replay failures"


def c(scope, bounded, level=P, note=None, technique=TECH, assumptions=()):
    return {"scope": scope, "bounded": bounded, "level": level, "note": note or scope, "technique": technique, "assumptions": list(assumptions)}


CHECKS = {
    "C01": c("every path of DE (best1bin), CPSO, PSO and NA whole runs, all dimensions, population sizes and iteration counts",
             "DE's other strategies, MPI and joblib backends: monitored runs"),
    "C02": c("CMA-ES and VD-CMA whole runs (with and without 'Penalize', with and without callback and history), Penalize on an arbitrary generation",
             "other argument forms: monitored runs", assumptions=PEN),
    "C03": c("DE 'Random', CPSO/PSO 'Shrink', NA, CMA-ES and VD-CMA 'Penalize' whole runs", "other argument forms: monitored runs", assumptions=PEN),
    "C04": c("MCMC and HMC whole runs with 'Reject', the transition from one sample to the next included (with supplied and finite-difference gradients)",
             "monitored runs", assumptions=("the supplied gradient is a deterministic function of the point",)),
    "C05": c("whole runs of every optimizer and sampler", "other argument forms: monitored runs", assumptions=PEN),
    "C06": c("whole runs of every optimizer and sampler", "other argument forms: monitored runs", assumptions=PEN),
    "C07": c("DE, CPSO, PSO and NA whole runs", "other argument forms: monitored runs"),
    "C08": c("CMA-ES and VD-CMA whole runs; the stopping test on an arbitrary state of a run", "other argument forms: monitored runs", assumptions=PEN),
    "C09": c("DE, CPSO, NA, CMA-ES and VD-CMA whole runs with return_all", "verbosity 0, other argument forms: monitored runs", assumptions=PEN),
    "C10": c("DE, CPSO, PSO, NA, MCMC and HMC whole runs", "other argument forms: monitored runs"),
    "C11": c("whole runs of every optimizer and sampler", "other argument forms: monitored runs", assumptions=PEN),
    "C12": c("whole runs of every optimizer and sampler", "other argument forms: monitored pairs of runs", assumptions=PEN),
    "C13": c("the objective wrapper with every backend (MPI with any number of processes and any rank), the arguments handed over by every optimizer, "
             "the independence of DE, CPSO and NA from workers and backend", "the same for CMA-ES and VD-CMA, real thread and process pools, an MPI stand-in: monitored runs",
             assumptions=("joblib.Parallel returns the results of the calls in order, each call made once; mpi4py collectives follow the MPI standard "
                          "(contracts in engine/nplib.py); array equality of what the processes hold before a collective call",)),
    "C14": c("MCMC whole runs (with and without 'Reject'): every transition of the chain, any perc, any number of iterations", "other argument forms: monitored runs"),
    "C15": c("HMC whole runs (with and without 'Reject'): every trajectory, energy test and transition, any nleap; the finite-difference gradient", "other argument forms: monitored runs",
             assumptions=("the supplied gradient is a deterministic function of the point",)),
    "C16": c("MCMC and HMC whole runs", "other argument forms: monitored runs"),
    "C17": c("donor selection, the four strategies, one iteration from an arbitrary population (both updating modes, both constraints), the options handed "
             "over by a whole run", "whole runs of every strategy: monitored"),
    "C18": c("the move of an arbitrary swarm (both updating modes, with and without 'Shrink')", "whole runs: monitored"),
    "C19": c("restart on an arbitrary swarm; its calls in CPSO whole runs; its absence in PSO and CPSO without competitivity", "monitored calls and runs"),
    "C20": c("the resampling (mutation) of an arbitrary archive of models, every dimension, population size, number of best models and draw: shape, bounds, "
             "fixed coordinates, and the distance to the best model of the row against the distance to any other model",
             "that the run hands over every model evaluated so far, normalized by the bounds, and evaluates the result: monitored runs",
             assumptions=("sums of squares are compared term by term (equality outside one index, shift by one), quotients through polynomial identities that z3 proves",)),
    "C21": c("every function, every dimension, every vector of reals or integers (arrays and lists): textbook formula, lower bound, minimizer, unmodified argument",
             "floating-point rounding: monitored calls",
             assumptions=("exp(1) is the constant e up to 1e-15", "the formulas are compared as sums and products over the coordinates")),
    "C22": c("every method: each validated argument arbitrary and the others valid, all dimensions and shapes", "combinations of several invalid arguments: monitored calls"),
    "C23": c("the generic entry points with every method, PSO: every argument an arbitrary object", "monitored pairs of calls"),
    "C25": c("attribute access of the three result classes with arbitrary names and values; printing of the documented key sets", "printing with other key sets, sequences of accesses: monitored"),
    "C24": c("whole runs of every optimizer and sampler", "other argument forms: monitored runs", assumptions=PEN),
}
NA = {}
