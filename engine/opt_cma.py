"""CMA-ES and VD-CMA: whole runs of minimize.

The linear algebra that adapts the search distribution is irrelevant to the properties decided here: large numerical
terms are replaced by arbitrary values (an over-approximation). The two helpers that decide something observable,
Penalize and converge, are used through their contracts, which are proved in units of their own.
"""
from . import npm
from . import terms as tm
from .core import BND, C, EK, Arr, PathEnd, Unsupported, dim, is_scalar, lift, unlift, ONE, ZERO
from .driver import Cand, nm, scalar_slots
from .interp import Func
from .runs import F, M, N, OptRun, QD, QK, QJ, R0, R1, SD, SJ, SK, TT, arr_slots, counters, isdim, rng, run_templates, tau_std, tau_id
from .terms import FALSE, TRUE, add, and_, app, elem, eq, implies, ite, lam, le, lt, mul, not_, num, or_, sub, sym, toreal


def nonneg(a, vs, strict=False):
    x = a.el(vs)
    g = and_(*[rng(v, d) for v, d in zip(vs, a.shape)])
    return implies(g, lt(R0, x) if strict else le(R0, x))


class CMA(OptRun):
    module = "stochopy.optimize.cmaes._cmaes"
    method = "cmaes"
    taus = {"user": tau_id, "std": tau_std}
    elitist = False
    havoc = 40
    minpop = 4

    def __init__(self, name, props, root=None, **cfg):
        cfg.setdefault("constraints", None)
        cfg["inside"] = cfg["constraints"] == "Penalize"
        cfg["syncmove"] = False
        OptRun.__init__(self, name, props, root, **cfg)

    def base(self):
        b = OptRun.base(self)
        c = C()
        c.ghost.update({"gens": 0, "judged": 0, "gbest": R0,
                        "fit": Arr.new((M,), "f", sym("fit0", "V"), "ghost"),
                        "gen": Arr.new((M, N), "f", app("gen0", (BND[0],), "V"), "ghost"),
                        "H": Arr.new((TT,), "f", sym("H0", "V"), "ghost")})
        return b

    def make_x0(self):
        a = Arr.new((N,), "f", sym("x0", "V"), "x0")
        a.buf.owner = "x0"
        return a

    def options(self):
        return dict(sigma=self.real("sigma", 0, 10, left=False), muperc=self.real("muperc", 0, 1, left=False))

    # ---- generations
    def batch(self, k, n, v):
        c = C()
        if k is None:
            c.oblige(("C02", "C05"), FALSE, "a generation is evaluated as a whole")
            raise PathEnd()
        c.oblige("C02", eq(lift(n), M), "a generation has popsize members")
        c.ghost["gens"] = unlift(add(lift(c.ghost["gens"]), ONE))
        c.ghost["gen"] = Arr.new((M, N), "f", tm.subst(v, {k: BND[0]}), "ghost")
        self.fitness(Arr.new((M,), "f", lam(EK, F(tm.subst(v, {k: EK})), "f"), "ghost"))

    def fitness(self, a):
        c = C()
        c.ghost["fit"] = a
        if "C08" in self.props:
            b = app("vmin", (a.vec(), M), "R")
            c.ghost["gbest"] = b
            H = c.ghost["H"]
            g = sub(lift(c.ghost["gens"]), ONE)
            c.ghost["H"] = Arr.new((TT,), "f", lam(EK, ite(eq(EK, g), b, H.el((EK,))), "f"), "ghost")

    # ---- contracts of the helpers
    def contract(self, f):
        if not isinstance(f, Func) or not f.mod.name.startswith("stochopy.optimize.cmaes."):
            return None
        if f.name == "Penalize" and f.mod.name.endswith("_constraints"):
            return self.penalize
        if f.name == "converge":
            return self.converge
        return None

    def penalize(self, I, fn, args, kwargs):
        c = C()
        b = I.bind(fn, args, kwargs)
        need = ("arxvalid", "arx", "xmean", "xold", "sigma", "diagC", "mueff", "it", "bnd_weights", "dfithist", "validfitval", "iniphase", "fun")
        if any(n not in b for n in need):
            return NotImplemented
        xv, xr, bw, dh = b["arxvalid"], b["arx"], b["bnd_weights"], b["dfithist"]
        if not all(isinstance(a, Arr) for a in (xv, xr, bw, dh, b["xmean"], b["xold"], b["diagC"])) or xv.nd != 2 or xr.nd != 2 or bw.nd != 1 or dh.nd != 1:
            raise Unsupported("arguments of Penalize")
        for a in (xv, xr):
            npm.need(and_(eq(dim(a.shape[0]), M), eq(dim(a.shape[1]), N)), "Penalize receives the generation")
        for a in (bw, b["xmean"], b["xold"], b["diagC"]):
            npm.need(eq(dim(a.shape[0]), N), "Penalize receives vectors")
        c.oblige("C02", implies(and_(rng(SK, M), rng(SD, N)), eq(xv.el((SK, SD)), xr.el((SK, SD)))), "Penalize receives the sampled members")
        c.oblige("C02", nonneg(bw, (SD,)), "the penalty weights are not negative")
        c.oblige(("C02", "C24"), and_(le(ONE, dim(dh.shape[0])), nonneg(dh, (SK,), True)), "the recorded fitness ranges are positive")
        # postcondition
        y = Arr.new((M, N), "f", npm.freshvec("clipped", 2))
        c.facts.append(npm_fact(y, (QK, QD), lambda x: and_(le(num(-1, "R"), x), le(x, R1)), "the points evaluated lie in the box"))
        r = I.call(b["fun"], [y], {})
        if not isinstance(r, Arr) or r.nd != 1:
            raise Unsupported("value of the objective wrapper")
        p = Arr.new((M,), "f", npm.freshvec("penalty", 1))
        c.facts.append(npm_fact(p, (QK,), lambda x: le(R0, x), "the penalty is not negative"))
        fit = Arr.new((M,), "f", lam(EK, add(r.el((EK,)), p.el((EK,))), "f"))
        self.fitness(fit)
        w = Arr.new((N,), "f", npm.freshvec("bnd_weights", 1))
        c.facts.append(npm_fact(w, (QD,), lambda x: le(R0, x), "the penalty weights are not negative"))
        n = c.fresh("nhist", "I")
        c.assume(le(ONE, n))
        h = Arr.new((n,), "f", npm.freshvec("dfithist", 1))
        c.facts.append(npm_fact(h, (QK,), lambda x: lt(R0, x), "the recorded fitness ranges are positive"))
        a, z = c.fresh("validfitval", "B"), c.fresh("iniphase", "B")
        return (fit.copy(), y, w, h, a, z)

    def converge(self, I, fn, args, kwargs):
        c = C()
        b = I.bind(fn, args, kwargs)
        need = ("it", "ndim", "maxiter", "xmean", "xold", "arbestfitness", "arfitness", "arindex", "ilim", "xtol", "ftol")
        if any(n not in b for n in need):
            return NotImplemented
        ar, ix, hist = b["arfitness"], b["arindex"], b["arbestfitness"]
        xm, xo = b["xmean"], b["xold"]
        if not all(isinstance(a, Arr) and a.nd == 1 for a in (ar, ix, hist, xm, xo)):
            raise Unsupported("arguments of converge")
        it = lift(b["it"])
        fit = c.ghost.get("fit")
        if fit is None:
            raise Unsupported("no generation before converge")
        P = "C08"
        c.oblige(P, eq(it, lift(c.ghost["gens"])), "converge receives the number of generations")
        for k, v in (("maxiter", TT), ("ndim", N), ("xtol", sym("xtol", "R")), ("ftol", sym("ftol", "R"))):
            c.oblige(P, eq(toreal(lift(b[k])), toreal(v)), "converge receives %s" % k)
        npm.need(eq(dim(ar.shape[0]), M), "converge receives the fitness of the generation")
        c.oblige(P, implies(rng(SK, M), eq(ar.el((SK,)), fit.el((SK,)))), "converge receives the fitness of the generation")
        i0 = ix.el((ZERO,))
        best = fit.el((i0,))
        c.oblige(P, and_(rng(i0, M), implies(rng(SK, M), le(best, fit.el((SK,))))), "converge receives the ranking of the generation")
        H = c.ghost["H"]
        c.oblige((P, "C24"), eq(dim(hist.shape[0]), TT), "converge receives the best fitness of the generations")
        c.oblige(P, implies(rng(SK, it), eq(hist.el((SK,)), H.el((SK,)))), "converge receives the best fitness of the generations")
        lim = app("trunc", (add(num(10, "R"), tm.div(mul(num(30, "R"), toreal(N)), toreal(M))),), "I")
        c.oblige(P, eq(lift(b["ilim"]), lim), "converge receives the length of the stagnation window")
        node = getattr(c, "callnode", None)
        old = self.headvalue(node, fn, "xmean")
        if old is not None:
            c.oblige(P, self.eqvec(xo, old), "converge receives the previous mean")
        c.ghost["judged"] = c.ghost["gens"]
        # postcondition (unit converge)
        c.assume(and_(rng(i0, M)))
        if c.decide():
            c.assume(and_(lt(it, TT), lt(sym("ftol", "R"), best)))
            return None
        st = c.fresh("status", "I")
        c.assume(and_(le(num(-8), st), le(st, ONE), tm.eq(eq(st, num(-1)), le(TT, it)),
                      implies(or_(eq(st, ZERO), eq(st, ONE)), le(best, sym("ftol", "R")))))
        c.ghost["stopped"] = st
        return st

    def headvalue(self, node, fn, name):
        """Value at the loop head of the variable passed as an argument."""
        import ast
        c = C()
        if node is None or len(c.heads) != 1:
            return None
        names = [x.arg for x in fn.node.args.args]
        e = None
        i = names.index(name)
        if i < len(node.args) and not any(isinstance(x, ast.Starred) for x in node.args):
            e = node.args[i]
        for k in node.keywords:
            if k.arg == name:
                e = k.value
        if not isinstance(e, ast.Name):
            return None
        for s, v in c.heads[0].env.items():
            if s[0] == "v" and s[2] == e.id and isinstance(v, Arr) and v.nd == 1:
                return v
        return None

    # ---- results
    def result_common(self, d, where):
        c = C()
        r = OptRun.result_common(self, d, where)
        x, f, nfev, nit = r
        if self.props & {"C02", "C09"}:
            fit, gen = c.ghost.get("fit"), c.ghost.get("gen")
            if fit is None or gen is None:
                c.oblige("C02", FALSE, "%s: a generation has been evaluated" % where)
                return r
            w = self.witness(x, f)
            if w is None:
                raise Unsupported("index of the reported member")
            c.oblige("C02", and_(rng(w, M), eq(f, fit.el((w,)))), "%s: the reported value is the fitness of a member of the last generation" % where)
            c.oblige("C02", implies(rng(SD, N), eq(x.el((SD,)), gen.el((w, SD)))), "%s: the reported point is that member" % where)
            c.oblige("C02", implies(rng(SK, M), le(f, fit.el((SK,)))), "%s: no member of the last generation has a lower fitness" % where)
        if not self.props.isdisjoint({"C08"}) and "fit" in c.ghost:
            c.oblige("C08", eq(f, lift(c.ghost["gbest"])), "%s: the reported value is the best fitness of the last generation" % where)
        return r

    def witness(self, x, f):
        seen, st, out = set(), [x.el((SD,)), f], []
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.sort == "I" and t.op == "app" and t.name in ("ati", "vargmin") and "$sd" not in tm.free(t):
                out.append(t)
                continue
            if t.sort == "I" and t.op == "sym" and t.name.startswith("h"):
                out.append(t)
            st.extend(tm.children(t))
        out.sort(key=lambda t: (t.op != "app", t.name != "ati"))
        return out[0] if out else None

    def hist_values(self, H, G, g, where):
        e = F(H.vec((SK, SJ)))
        v = G.el((SK, SJ))
        C().oblige("C09", implies(g, le(e, v) if self.cfg["constraints"] else eq(e, v)), "%s: each recorded value is the objective at the recorded point%s" % (
            where, " plus a non-negative penalty" if self.cfg["constraints"] else ""))

    def status(self, d, x, f, nit):
        OptRun.status(self, d, x, f, nit)
        c = C()
        st = lift(d["status"])
        c.oblige("C08", tm.eq(eq(st, num(-1)), eq(nit, TT)), "status -1 exactly when maxiter generations were run")
        if "stopped" in c.ghost:
            c.oblige("C08", eq(st, lift(c.ghost["stopped"])), "the reported status is the one of the stopping test")

    def on_backedge(self, head):
        c = C()
        if len(c.heads) != 1 or head is not c.heads[0] or head.info.kind != "While":
            return
        c.oblige("C08", eq(lift(c.ghost["judged"]), lift(c.ghost["gens"])), "the run goes on only after the stopping test")
        c.oblige("C08", lt(sym("ftol", "R"), lift(c.ghost["gbest"])), "no run goes on after a generation whose best fitness is at most ftol")

    # ---- invariants
    def templates(self, info, si, head):
        out = run_templates(self, info, si, head)
        arrs = arr_slots(info, head)
        if self.props & {"C02", "C24"} and self.cfg["constraints"]:
            for s, a, m in arrs:
                if a.nd == 1 and a.dtype == "f" and m:
                    for strict in (False, True):
                        out.append(Cand("%s[k] %s 0" % (nm(s), ">" if strict else ">="), (QK,),
                                        lambda e, s=s, strict=strict: (nonneg(e[s], (QK,), strict), [[e[s].el((QK,))]]), 1))
        if "C09" in self.props and self.cfg["constraints"]:
            cnt = counters(info, si, head, scalar_slots(info, head, "I"))
            for s, a, _ in arrs:
                for s3, a3, _ in arrs:
                    if a.nd == 3 and a3.nd == 2 and a.dtype == a3.dtype == "f" and not isdim(a3.shape[1], N):
                        for s2, _ in cnt:
                            out.append(Cand("%s[k<%s] >= F(%s)" % (nm(s3), nm(s2), nm(s)), (QK, QJ),
                                            lambda e, s=s, s2=s2, s3=s3: (implies(and_(rng(QK, lift(e[s2])), rng(QJ, self.nout())),
                                                                                  le(F(e[s].vec((QK, QJ))), e[s3].el((QK, QJ)))),
                                                                          [[e[s3].el((QK, QJ))]]), 2))
        if "C08" in self.props:
            hs = [(s, a) for s, a, m in arrs if a.nd == 1 and a.dtype == "f" and isdim(a.shape[0], TT)]
            g = ("g", "gens")
            for i, (s, a) in enumerate(hs):
                for s2, a2 in hs[i + 1:]:
                    out.append(Cand("%s[k<gens] == %s" % (nm(s), nm(s2)), (QK,),
                                    lambda e, s=s, s2=s2: (implies(rng(QK, lift(e[g])), eq(e[s].el((QK,)), e[s2].el((QK,)))), [[e[s].el((QK,))], [e[s2].el((QK,))]]), 1))
        return out


def npm_fact(a, vs, g, name):
    from .solver import Fact

    x = a.el(vs)
    gd = and_(*[rng(v, d) for v, d in zip(vs, a.shape)])
    return Fact(vs, [[x]], implies(gd, g(x)), name)


class VDCMA(CMA):
    module = "stochopy.optimize.vdcma._vdcma"
    method = "vdcma"
