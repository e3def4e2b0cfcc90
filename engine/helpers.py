"""Contracts of the helpers used by the CMA-ES and VD-CMA runs: Penalize and converge."""
from fractions import Fraction

from . import npm
from . import terms as tm
from .direct import subterms
from .core import BND, C, EK, Arr, Opaque, PathEnd, Unsupported, dim, is_scalar, lift, unlift, ONE, ZERO
from .runs import F, M, N, QD, QK, R0, R1, Run, SD, SK, TT, rng
from .solver import Fact
from .terms import FALSE, TRUE, add, and_, app, div, elem, eq, implies, ite, lam, le, lt, mul, not_, num, or_, sub, sym, toreal


EPS = num(Fraction(1, 10**10), "R")


class Helper(Run):
    fname = modname = prop = ""

    def run(self):
        self.base()
        c = C()
        c.assume(le(num(2), M))
        f = self.I.load(self.modname).vars.get(self.fname)
        if f is None:
            raise Unsupported("no function " + self.fname)
        self.contents = {}
        self.check(f)

    def vec(self, name, n, owner=True, dtype="f", body=None):
        a = Arr.new((n,), dtype, sym(name, "V") if body is None else body, name)
        a.buf.owner = name if owner else None
        return a

    def mat(self, name, n, m, owner=True):
        a = Arr.new((n, m), "f", app(name, (BND[0],), "V"), name)
        a.buf.owner = name if owner else None
        return a

    def on_write(self, buf):
        C().oblige(self.frame, FALSE, "%s is not modified" % buf.owner)

    def on_raise(self, e):
        C().oblige(tuple(self.props), FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


class Converge(Helper):
    """The stopping test on an arbitrary state of the run."""

    modname = "stochopy.optimize.cmaes._cmaes"
    fname = "converge"
    frame = ("C02", "C08")

    def check(self, f):
        c = C()
        P = "C08"
        it = sym("it", "I")
        c.assume(and_(le(ONE, it), le(it, TT)))
        sigma, ins = sym("sigma", "R"), sym("insigma", "R")
        xtol, ftol = sym("xtol", "R"), sym("ftol", "R")
        lim = app("trunc", (add(num(10, "R"), div(mul(num(30, "R"), toreal(N)), toreal(M))),), "I")
        xm, xo = self.vec("xmean", N), self.vec("xold", N)
        hist, fit = self.vec("arbestfitness", TT), self.vec("arfitness", M)
        ix = self.vec("arindex", M, dtype="i", body=app("asort", (fit.vec(), M), "V"))
        kw = dict(it=it, ndim=N, maxiter=TT, xmean=xm, xold=xo, arbestfitness=hist, arfitness=fit, arindex=ix, sigma=sigma, insigma=ins,
                  ilim=lim, pc=self.vec("pc", N), xtol=xtol, ftol=ftol, diagC=self.vec("diagC", N))
        if self.cfg["axes"]:
            kw.update(B=self.mat("B", N, N), D=self.vec("D", N))
        best = fit.el((ix.el((ZERO,)),))
        flat = self.cfg.get("flat")
        if flat:
            b = sym("level", "R")
            x = hist.el((QK,))
            c.assume(le(lim, it))
            c.facts.append(Fact((QK,), [[x]], implies(and_(le(sub(it, lim), QK), lt(QK, it)),
                                                     and_(le(b, x), lt(x, add(b, EPS)))), "the best fitness stays the same"))
        r = self.I.call(f, [], kw)
        if r is None:
            if flat:
                c.oblige(P, FALSE, "no run goes on when the best fitness stays the same over the window")
                return
            c.oblige(P, lt(it, TT), "no run goes on after maxiter generations")
            c.oblige(P, lt(ftol, best), "no run goes on when the best fitness is at most ftol")
            return
        if not is_scalar(r) or lift(r).sort != "I":
            c.oblige(P, FALSE, "the status is an integer or None")
            return
        if flat:
            c.oblige(P, TRUE, "no run goes on when the best fitness stays the same over the window")
            return
        st = lift(r)
        c.oblige(P, and_(le(num(-8), st), le(st, ONE)), "the status is one of the documented ones")
        c.oblige(P, tm.eq(eq(st, num(-1)), le(TT, it)), "status -1 exactly after maxiter generations")
        c.oblige(P, implies(or_(eq(st, ZERO), eq(st, ONE)), le(best, ftol)), "status 0 and 1 only when the best fitness is at most ftol")
        nrm = lift(npm.norm(npm.binop("Sub", xo, xm)))
        c.oblige(P, implies(eq(st, ZERO), le(nrm, xtol)), "status 0 only when the mean moved at most xtol")


class PenalizeStep(Helper):
    """The evaluation of an arbitrary generation under the boundary penalty."""

    modname = "stochopy.optimize.cmaes._constraints"
    fname = "Penalize"
    frame = ("C02",)

    def check(self, f):
        c = C()
        calls = []

        def ev(I, a, k):
            y = a[0]
            if len(a) != 1 or k or not isinstance(y, Arr) or y.nd != 2:
                raise Unsupported("argument of the objective wrapper")
            for p, q in zip(y.shape, (M, N)):
                npm.need(eq(dim(p), q), "the whole generation is evaluated")
            if c.local is not None or c.binders:
                raise Unsupported("evaluation inside a branch")
            calls.append(y.copy())
            k = c.fresh("k", "I")
            return Arr.new((M,), "f", lam(EK, F(tm.subst(y.vec((k,)), {k: EK})), "f"))

        for s in ("sigma", "mueff"):
            c.assume(lt(R0, sym(s, "R")))
        it = sym("it", "I")
        c.assume(le(ONE, it))
        arx = self.mat("arx", M, N)
        arv = self.mat("arx", M, N, owner=False)
        dC = self.vec("diagC", N)
        c.facts.append(Fact((QD,), [[dC.el((QD,))]], implies(rng(QD, N), lt(R0, dC.el((QD,)))), "the variances are positive"))
        w = self.vec("bnd_weights", N, owner=False)
        c.facts.append(Fact((QD,), [[w.el((QD,))]], implies(rng(QD, N), le(R0, w.el((QD,)))), "the penalty weights are not negative"))
        nh = sym("nhist", "I")
        c.assume(le(ONE, nh))
        dh = self.vec("dfithist", nh, owner=False)
        c.facts.append(Fact((QK,), [[dh.el((QK,))]], implies(rng(QK, nh), lt(R0, dh.el((QK,)))), "the recorded fitness ranges are positive"))
        kw = dict(arxvalid=arv, arx=arx, xmean=self.vec("xmean", N), xold=self.vec("xold", N), sigma=sym("sigma", "R"), diagC=dC,
                  mueff=sym("mueff", "R"), it=it, bnd_weights=w, dfithist=dh, validfitval=sym("validfitval", "B"),
                  iniphase=sym("iniphase", "B"), fun=Opaque("objective wrapper", ev))
        r = self.I.unpack(self.I.call(f, [], kw))
        P = "C02"
        if len(calls) != 1:
            c.oblige((P, "C05"), FALSE, "the generation is evaluated once")
            return
        c.oblige((P, "C05"), TRUE, "the generation is evaluated once")
        ok = len(r) == 6 and all(isinstance(a, Arr) and a.nd == n for a, n in zip(r, (1, 2, 1, 1)))
        if not ok:
            c.oblige((P, "C24"), FALSE, "the evaluated generation and the state of the penalty are returned")
            return
        fit, val, w2, h2 = r[:4]
        k, d = SK, SD
        y = calls[0]
        c.assume(rng(k, M))
        for a, s in ((fit, (M,)), (val, (M, N)), (w2, (N,))):
            for p, q in zip(a.shape, s):
                c.oblige((P, "C24"), eq(dim(p), q), "the generation keeps its shape")
        yk = y.el((k, d))
        if self.cfg["part"] == "points":
            c.assume(rng(d, N))
            x = arx.el((k, d))
            one = num(-1, "R")
            c.oblige(("C03", P), and_(le(one, yk), le(yk, R1)), "an evaluated point lies in the box")
            c.oblige(P, eq(yk, ite(lt(x, one), one, ite(lt(R1, x), R1, x))), "the evaluated point is the sampled member clipped to the box")
            c.oblige((P, "C03"), eq(val.el((k, d)), yk), "the member returned is the point evaluated")
            return
        if self.cfg["part"] == "fitness":
            # the weights after the update are not negative: decided by the part "state", for every coordinate
            for t in subterms(fit.el((k,))):
                if t.op == "app" and t.name == "vsum":
                    i = app("negw", t.args, "I")
                    c.assume(implies(rng(i, N), le(R0, w2.el((i,)))))
            c.oblige(P, le(F(y.vec((k,))), fit.el((k,))), "the fitness is the objective value plus a penalty that is not negative")
            return
        c.assume(rng(d, N))
        c.oblige((P, "C24"), le(R0, w2.el((d,))), "the penalty weights are not negative")
        c.oblige((P, "C24"), le(ONE, dim(h2.shape[0])), "the recorded fitness ranges are not empty")
        c.oblige((P, "C24"), implies(rng(sym("$sj", "I"), h2.shape[0]), lt(R0, h2.el((sym("$sj", "I"),)))), "the recorded fitness ranges are positive")
