"""Whole-run units of the samplers (MCMC, HMC)."""
import re

from . import core, driver, interp, npm
from . import terms as tm
from .core import BND, C, Arr, Opaque, PathEnd, Unsupported, dim, is_scalar, lift, unlift, INF, ONE, ZERO
from .driver import Cand, nm, scalar_slots
from .interp import Func, MergeFail, Obj
from .npm import ListLike
from .runs import F, N, QD, QK, R0, R1, Run, SD, SK, TT, arr_slots, counters, frozen, hi, inbounds, isdim, lo, rng
from .solver import Fact
from .terms import (T, TRUE, FALSE, add, and_, app, elem, eq, ge, gt, implies, ite, lam, le, lt, mul, not_, num, or_, sub,
                    sym, toreal)

EK = core.EK
HALF = num("1/2", "R") if False else num(0.5, "R")
NL = sym("nleap", "I")


def J(v):
    return app("J", (v,), "V")


class SampRun(Run):
    """Sampler: the chain is followed by ghost state updated at draws, gradient calls and callbacks."""

    entry = "sample"
    wantprev = False
    deep = True

    def __init__(self, name, props, root=None, **cfg):
        cfg.setdefault("constraints", None)
        cfg["inside"] = False
        Run.__init__(self, name, props, root, **cfg)
        self.reject = cfg["constraints"] == "Reject"
        self.listlike = bool(cfg.get("lists"))

    def const_ints(self):
        return [TT, N]

    def bound_terms(self):
        return [TT, N]

    # ---- arguments
    def setup(self):
        c = C()
        cfg = self.cfg
        bounds = self.base()
        c.ghost.update({"nz": 0, "nu": 0, "u": None, "z": None, "chain": INF})
        self.seedval = sym("seed", "I")
        x0 = None
        if cfg.get("x0"):
            x0 = Arr.new((N,), "f", sym("x0", "V"), "x0")
            x0.buf.owner = "x0"
            if self.reject:
                e = elem(sym("x0", "V"), QD, "f")
                c.facts.append(Fact((QD,), [[e]], implies(rng(QD, N), inbounds(e, QD)), "the first sample is inside the bounds"))
            if self.listlike:
                x0 = ListLike(x0)
        if cfg.get("stepvec"):
            st = Arr.new((N,), "f", sym("stepsize", "V"), "stepsize")
            st.buf.owner = "stepsize"
            if self.listlike:
                st = ListLike(st)
            self.step = lambda d: mul(elem(sym("stepsize", "V"), d, "f"), mul(HALF, sub(hi(d), lo(d))))
        else:
            st = sym("stepsize", "R")
            self.step = lambda d: mul(sym("stepsize", "R"), mul(HALF, sub(hi(d), lo(d))))
        kw = dict(bounds=bounds, x0=x0, args=self.extra(), maxiter=TT, stepsize=st, seed=self.seedval if cfg.get("seed", True) else None,
                  constraints=cfg["constraints"], return_all=bool(cfg.get("hist")), callback=self.callback() if cfg.get("cb") else None)
        kw.update(self.options())
        return kw

    def options(self):
        return {}

    def run(self):
        f = self.I.load(self.module).vars[self.entry]
        kw = self.setup()
        res = self.I.call(f, [self.objective()], kw)
        if not isinstance(res, Obj) or not isinstance(res.data, dict):
            C().oblige("C24", FALSE, "a result object is returned")
            return
        self.finish(res.data)

    def first_batch(self, k, n, v):
        if k is not None:
            raise Unsupported("batch of evaluations in a sampler")
        c = C()
        e = elem(v, SD, "f")
        if self.cfg.get("x0"):
            c.oblige("C10", implies(rng(SD, N), eq(e, elem(sym("x0", "V"), SD, "f"))), "the first sample is x0")
        else:
            c.oblige("C10", implies(rng(SD, N), inbounds(e, SD)), "the first sample lies inside the bounds")

    # ---- what happens during an iteration
    chainprops = {"C14", "C15", "C04"}

    def follow(self):
        c = C()
        return bool(self.props & self.chainprops) and self.cfg.get("cb") and self.cfg.get("hist")

    def on_drawn(self, kind, v):
        c = C()
        if not self.follow() or not isinstance(lift(c.ghost["cbs"]), T) or lift(c.ghost["cbs"]) is ZERO:
            return
        if c.local is not None:
            raise MergeFail("draw")
        if c.binders:
            raise Unsupported("draw in a comprehension")
        if kind == "randn":
            c.ghost["nz"] = unlift(add(lift(c.ghost["nz"]), ONE))
            c.ghost["z"] = v if isinstance(v, T) else frozen(v)
            self.momentum(v)
        elif kind in ("rand", "uniform") and isinstance(v, T):
            c.ghost["nu"] = unlift(add(lift(c.ghost["nu"]), ONE))
            c.ghost["u"] = v
        else:
            c.ghost["nz"] = unlift(add(lift(c.ghost["nz"]), num(100)))

    def momentum(self, v):
        pass

    def evaluated(self, v, x):
        c = C()
        if self.follow():
            if c.local is not None:
                raise MergeFail("evaluation")
            if getattr(self, "probing", False):
                return
            c.ghost["ev"] = Arr.new((N,), "f", v, "evaluated")

    def reset(self):
        c = C()
        c.ghost.update({"nz": 0, "nu": 0, "u": None, "z": None, "ev": None})

    # ---- states
    def state(self, d, where):
        c = C()
        for key in ("x", "fun", "nit", "accept_ratio") + (("nfev",) if self.method == "hmc" else ()):
            if key not in d:
                c.oblige("C24", FALSE, "the result carries %s" % key)
                raise PathEnd()
        x, f, nit = d["x"], d["fun"], d["nit"]
        if not isinstance(x, Arr) or x.nd != 1:
            raise Unsupported("point of the result")
        if isinstance(f, Arr):
            f = npm.asarr(f).el(()) if f.nd == 0 else f
        npm.need(eq(dim(x.shape[0]), N), "the reported point has ndim coordinates")
        f = toreal(lift(f))
        if self.method == "hmc":
            c.oblige("C05", eq(lift(d["nfev"]), lift(c.ghost["evals"])), "%s: the number of evaluations is exact" % where)
        if x.buf.owner is not None:
            c.oblige("C11", FALSE, "%s: the reported point does not alias the caller's array" % where)
        nit = lift(nit)
        H = G = None
        if not self.cfg.get("hist"):
            c.oblige("C06", TRUE if "xall" not in d and "funall" not in d else FALSE, "%s: no history without return_all" % where)
        elif "xall" not in d or "funall" not in d:
            c.oblige("C06", FALSE, "%s: the history is present with return_all" % where)
            raise PathEnd()
        else:
            H, G = d["xall"], d["funall"]
            if not (isinstance(H, Arr) and isinstance(G, Arr) and H.nd == 2 and G.nd == 1):
                raise Unsupported("history")
            for a in (H, G):
                c.oblige(("C05", "C06"), eq(dim(a.shape[0]), nit), "%s: one recorded sample per iteration" % where)
                if a.buf.owner is not None:
                    c.oblige("C11", FALSE, "%s: the history does not alias the caller's array" % where)
            npm.need(eq(dim(H.shape[1]), N), "samples have ndim coordinates")
            g = rng(SK, nit)
            if self.reject:
                c.oblige("C04", implies(and_(g, rng(SD, N)), inbounds(H.el((SK, SD)), SD)), "%s: every recorded sample lies inside the bounds" % where)
            c.oblige(("C14", "C15"), implies(g, eq(G.el((SK,)), F(H.vec((SK,))))), "%s: each recorded value is the objective at the recorded sample" % where)
            c.oblige("C16", implies(g, le(f, G.el((SK,)))), "%s: no sample of the chain has a lower value" % where)
            self.member(x, f, H, G, nit, where)
        if self.reject:
            c.oblige("C04", implies(rng(SD, N), inbounds(x.el((SD,)), SD)), "%s: the reported point lies inside the bounds" % where)
        c.oblige("C16", eq(f, F(npm.fvec(x))), "%s: the reported value is the objective at the reported point" % where)
        return x, f, nit, H, G

    def member(self, x, f, H, G, nit, where):
        """The reported point is a recorded sample: some integer subterm of x is its index."""
        c = C()
        if "C16" not in self.props:
            return
        v = npm.fvec(x)
        ws, st, seen = [ZERO], [v], set()
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            if t.sort == "I" and t not in ws:
                ws.append(t)
            st.extend(tm.children(t))
        ws.append(sub(nit, ONE))
        goal = or_(*[and_(rng(w, nit), tm.eq(v, H.vec((w,))), eq(f, G.el((w,)))) for w in ws[:12]])
        c.oblige("C16", goal, "%s: the reported point and value are a sample of the chain" % where)

    def at_callback(self, X, d, n):
        c = C()
        if not isinstance(X, Arr) or X.nd != 1:
            raise Unsupported("sample of the callback")
        x, f, nit, H, G = self.state(d, "callback")
        c.oblige(("C05", "C06"), eq(nit, lift(n)), "callback: the k-th call reports k iterations")
        v = npm.fvec(X)
        if self.reject:
            c.oblige("C04", implies(rng(SD, N), inbounds(X.el((SD,)), SD)), "callback: the sample lies inside the bounds")
        c.ghost["chain"] = tm.tmin(lift(c.ghost["chain"]), F(v))
        c.oblige("C16", eq(f, lift(c.ghost["chain"])), "callback: the reported value is the lowest of the chain")
        if H is None:
            return
        last = sub(nit, ONE)
        c.oblige(("C06", "C14", "C15"), implies(rng(SD, N), eq(H.el((last, SD)), X.el((SD,)))), "callback: the last recorded sample is the current one")
        pH, pG = c.ghost.get("cb.xall"), c.ghost.get("cb.funall")
        if isinstance(pH, Arr) and isinstance(pG, Arr):
            g = rng(SK, lift(c.ghost["cb.nit"]))
            c.oblige(("C06", "C14", "C15"), implies(and_(g, rng(SD, N)), eq(H.el((SK, SD)), pH.el((SK, SD)))), "callback: the earlier samples are unchanged")
            c.oblige(("C06", "C14", "C15"), implies(g, eq(G.el((SK,)), pG.el((SK,)))), "callback: the earlier values are unchanged")
        if self.follow():
            if c.ghost.get("cur") is None:
                self.start()
            else:
                self.transition(c.ghost["cur"], lift(c.ghost["curf"]), H, G, last)
            self.reset()
            c.ghost["cur"] = frozen(X)
            c.ghost["curf"] = G.el((last,))

    def start(self):
        pass

    def accept(self, prev, fprev, q, energy0, energy1, H, G, last, what):
        """The new sample is the proposal q (a vector term) exactly when the test succeeds, else the previous one."""
        c = C()
        p = self.cprop
        g = c.ghost
        d = SD
        if isinstance(g["ev"], Arr):
            # the proposal is the last evaluated point; the rest of the contract is stated on that point
            ev = g["ev"].vec()
            c.oblige((p, "C04"), implies(rng(d, N), eq(elem(ev, d, "f"), elem(q, d, "f"))), "the point evaluated for the acceptance test is the proposal")
            q = ev
        energy1 = energy1(q)
        inb = app("vall", (lam(EK, inbounds(elem(q, EK, "f"), EK), "b"), N), "B") if self.reject else TRUE
        new = H.el((last, d))
        nu = lift(g["nu"])
        if g["u"] is None:
            c.oblige((p, "C04"), not_(inb), "a proposal inside the bounds is not rejected without the acceptance test")
            a = FALSE
        else:
            c.oblige(p, eq(nu, ONE), "one uniform number is drawn for the acceptance test")
            logu = app("log", (toreal(g["u"]),), "R")
            a = and_(inb, lt(logu, tm.tmin(R0, sub(energy0, energy1))))
        c.oblige((p, "C04"), implies(rng(d, N), eq(new, ite(a, elem(q, d, "f"), prev.el((d,))))),
                 "the new sample is the proposal exactly when it is accepted, the previous sample otherwise")
        c.oblige(p, eq(G.el((last,)), ite(a, F(q), fprev)), "the new value is the one of the proposal exactly when it is accepted")

    def finish(self, d):
        c = C()
        x, f, nit, H, G = self.state(d, "return")
        c.oblige("C05", eq(nit, TT), "return: maxiter samples are reported")
        if not self.cfg.get("cb"):
            return
        c.oblige("C06", eq(lift(c.ghost["cbs"]), nit), "return: one callback per sample")
        vals = [("fun", f), ("nit", nit)] + ([("nfev", lift(d["nfev"]))] if self.method == "hmc" else [])
        for key, val in vals:
            o = c.ghost.get("cb." + key)
            if o is None or not is_scalar(o):
                c.oblige("C06", FALSE, "return: the last callback reported %s" % key)
            else:
                c.oblige("C06", eq(toreal(lift(o)), toreal(val)), "return: the last callback reported the returned %s" % key)
        px = c.ghost.get("cb.x")
        if isinstance(px, Arr):
            c.oblige("C06", self.eqvec(px, x), "return: the last callback reported the returned point")
        else:
            c.oblige("C06", FALSE, "return: the last callback reported a point")
        c.oblige("C16", eq(f, lift(c.ghost["chain"])), "return: the reported value is the lowest of the chain")
        if H is not None:
            pH, pG = c.ghost.get("cb.xall"), c.ghost.get("cb.funall")
            if isinstance(pH, Arr) and isinstance(pG, Arr):
                g = rng(SK, nit)
                c.oblige(("C06", "C14", "C15"), implies(and_(g, rng(SD, N)), eq(H.el((SK, SD)), pH.el((SK, SD)))), "return: the history is the one of the last callback (samples)")
                c.oblige(("C06", "C14", "C15"), implies(g, eq(G.el((SK,)), pG.el((SK,)))), "return: the history is the one of the last callback (values)")

    def pruned(self, cands):
        prune(cands)

    def templates(self, info, si, head):
        return samp_templates(self, info, si, head)


class MCMC(SampRun):
    module = "stochopy.sample.mcmc._mcmc"
    method = "mcmc"
    cprop = "C14"

    def options(self):
        pc = sym("perc", "R")
        C().assume(and_(le(R0, pc), le(pc, R1)))
        m = app("trunc", (mul(pc, toreal(N)),), "I")
        self.npi = tm.tmax(ONE, m)
        return {"perc": pc}

    def start(self):
        C().ghost["e"] = 0

    def transition(self, prev, fprev, H, G, last):
        c = C()
        g = c.ghost
        e, z = lift(g["e"]), g["z"]
        c.oblige("C14", eq(lift(g["nz"]), ONE), "one Gaussian step is drawn for a proposal")
        if z is None:
            raise PathEnd()
        npi = self.npi
        end = add(e, npi)
        L = ite(le(end, N), npi, sub(N, e))
        if isinstance(z, T):
            c.oblige("C14", eq(L, ONE), "the step covers the block")
            ze = lambda k: z
        else:
            if z.nd != 1:
                raise Unsupported("Gaussian step")
            c.oblige("C14", eq(dim(z.shape[0]), L), "the step covers the block of max(1, int(perc * ndim)) coordinates, cut at the last one")
            ze = lambda k: z.el((k,))
        q = lam(EK, add(prev.el((EK,)), ite(and_(le(e, EK), lt(EK, add(e, L))), mul(ze(sub(EK, e)), self.step(EK)), R0)), "f")
        self.accept(prev, fprev, q, fprev, F, H, G, last, "block")
        g["e"] = unlift(ite(lt(end, N), end, ZERO))


class HMC(SampRun):
    module = "stochopy.sample.hmc._hmc"
    method = "hmc"
    cprop = "C15"

    def options(self):
        c = C()
        c.assume(le(ONE, NL))
        h = sym("h", "R")
        c.assume(lt(R0, h))
        if self.cfg.get("jac"):
            return {"jac": self.jacobian(), "nleap": NL, "finite_diff_abs_step": h}
        return {"jac": None, "nleap": NL, "finite_diff_abs_step": h}

    def jacobian(self):
        def call(I, a, k):
            c = C()
            ok = len(a) == 1 + len(self.extra()) and all(p is q for p, q in zip(a[1:], self.extra())) and not k
            c.oblige(("C15", "C24"), TRUE if ok else FALSE, "the gradient receives the point and the extra arguments")
            if not ok:
                raise PathEnd()
            return self.gradient(a[0])
        return Opaque("gradient", call)

    def gradient(self, x):
        """Call of the gradient at x: one more leap-frog step of the ghost trajectory."""
        c = C()
        if not isinstance(x, Arr) or x.nd != 1:
            raise Unsupported("argument of the gradient")
        if c.local is not None:
            raise MergeFail("gradient")
        if c.binders:
            raise Unsupported("gradient in a comprehension")
        npm.need(eq(dim(x.shape[0]), N), "the gradient is called with a point of ndim coordinates")
        v = npm.fvec(x)
        jv = J(v)
        res = Arr.new((N,), "f", jv, "gradient")
        if self.follow():
            g = c.ghost
            n = lift(g.get("nj", -1))
            if not isinstance(g.get("p"), Arr):
                c.oblige("C15", FALSE, "the trajectory starts with a fresh momentum")
                raise PathEnd()
            p, q = g["p"], g["q"]
            c.oblige("C15", implies(rng(SD, N), eq(elem(v, SD, "f"), q.el((SD,)))), "the gradient is taken at the current point of the trajectory")
            last = add(NL, ONE)
            first_ = eq(n, ZERO)
            half = or_(first_, eq(n, last))
            cf = HALF if c.entails(half) else R1 if c.entails(not_(half)) else ite(half, HALF, R1)
            # the momentum and the position of the leap-frog scheme, from the ghost point (equal to x by the obligation)
            pn = lam(EK, sub(p.el((EK,)), mul(cf, mul(self.step(EK), elem(jv, EK, "f")))), "f")
            go = lt(n, last)
            mv = lam(EK, add(q.el((EK,)), mul(self.step(EK), elem(pn, EK, "f"))), "f")
            if c.entails(go):
                qn = mv
            elif c.entails(not_(go)):
                qn = q.vec()
            else:
                qn = lam(EK, ite(go, elem(mv, EK, "f"), q.el((EK,))), "f")
            g["p"] = Arr.new((N,), "f", pn, "ghost momentum")
            g["q"] = Arr.new((N,), "f", qn, "ghost position")
            g["nj"] = unlift(add(n, ONE))
        return res

    def contract(self, f):
        if not (self.props & self.chainprops) or self.cfg.get("jac") or not isinstance(f, Func) or f.name != "numerical_gradient":
            return None

        def h(I, fn, args, kwargs):
            c = C()
            self.contracted = True
            b = I.bind(fn, args, kwargs)
            vs = list(b.values())
            if len(vs) != 4:
                raise Unsupported("arguments of numerical_gradient")
            x, fun, ex, st = vs
            ok = ex is self.extra() and st is sym("h", "R")
            c.oblige("C15", TRUE if ok else FALSE, "the finite differences use the extra arguments and the given step")
            if not getattr(self, "probing", False):
                # the differentiated function is the objective
                self.probing = True
                e0, b0 = c.ghost["evals"], c.ghost["best"]
                v = sym("probe", "V")
                r = I.call(fun, [Arr.new((N,), "f", v, "probe")] + list(self.extra()), {})
                c.oblige("C15", eq(toreal(lift(r)), F(v)) if is_scalar(r) else FALSE, "the objective itself is differentiated")
                c.ghost["evals"], c.ghost["best"] = e0, b0
                self.probing = False
            return self.gradient(x)
        return h

    def momentum(self, v):
        c = C()
        if not isinstance(v, Arr) or v.nd != 1:
            raise Unsupported("momentum")
        npm.need(eq(dim(v.shape[0]), N), "one momentum per coordinate")
        g = c.ghost
        g["p"] = frozen(v)
        g["q"] = g["cur"]
        g["nj"] = 0

    def transition(self, prev, fprev, H, G, last):
        c = C()
        g = c.ghost
        z = g["z"]
        if not self.cfg.get("jac") and not getattr(self, "contracted", False):
            raise Unsupported("the function computing the finite differences is not found")
        c.oblige("C15", eq(lift(g["nz"]), ONE), "one fresh normal momentum is drawn")
        if not isinstance(z, Arr):
            raise PathEnd()
        c.oblige("C15", eq(lift(g["nj"]), add(NL, num(2))), "the trajectory has a first half step, nleap full steps and a last half step")
        q, p = g["q"], g["p"]
        ke = lambda a: mul(HALF, app("vsum", (lam(EK, mul(a.el((EK,)), a.el((EK,))), "f"), N), "R"))
        qv = q.vec()
        self.accept(prev, fprev, qv, add(fprev, ke(z)), lambda v: add(F(v), ke(p)), H, G, last, "trajectory")

    def reset(self):
        SampRun.reset(self)
        C().ghost.update({"p": None, "q": None, "nj": -1})


def prune(cands):
    """Drop what a wider range of the same family implies."""
    for cs in cands.values():
        alive = {c.name: c for c in cs if c.alive}
        for c in list(alive.values()):
            m = re.match(r"(.*)\[k<([^\]]*)\](.*)$", c.name)
            if m is None:
                continue
            for d in alive.values():
                m2 = re.match(r"(.*)\[k<([^\]]*)\](.*)$", d.name)
                if d is c or not d.alive or m2 is None or (m2.group(1), m2.group(3)) != (m.group(1), m.group(3)):
                    continue
                if m2.group(2) == m.group(2) + "+1" or "%s <= %s" % (m.group(2), m2.group(2)) in alive or "%s < %s" % (m.group(2), m2.group(2)) in alive \
                        or m2.group(2).endswith("+1") and "%s <= %s" % (m.group(2), m2.group(2)[:-2]) in alive:
                    if "%s <= %s" % (m2.group(2), m.group(2)) in alive and m.group(2) < m2.group(2):
                        continue  # equal bounds: keep one
                    c.alive = False
                    break


def samp_templates(u, info, si, head):
    env0 = head.env
    out = []
    P = u.props
    wantF = P & {"C14", "C15", "C16", "C06", "C04"}
    reals = scalar_slots(info, head, "R")
    ints = scalar_slots(info, head, "I")
    arrs = arr_slots(info, head)

    def C_(name, vars, fn, stage=1):
        out.append(Cand(name, vars, fn, stage))

    if not wantF and "C24" not in P:
        return out
    cnt = counters(info, si, head, ints)
    for s, v in ints:
        C_("0 <= %s" % nm(s), (), lambda e, s=s: (le(ZERO, lift(e[s])), ()), 1)
        for s2, v2 in cnt:
            if s != s2:
                C_("%s < %s" % (nm(s), nm(s2)), (), lambda e, s=s, s2=s2: (lt(lift(e[s]), lift(e[s2])), ()), 1)
                C_("%s <= %s" % (nm(s), nm(s2)), (), lambda e, s=s, s2=s2: (le(lift(e[s]), lift(e[s2])), ()), 1)
    if not wantF:
        return out
    # number of recorded samples: a counter or its successor
    known = [lift(v) for _, v in cnt]
    upto = []
    for s, v in cnt:
        if s == ("g", "e"):
            continue
        upto.append((nm(s), lambda e, s=s: lift(e[s])))
        if not any(lift(w) is add(lift(v), ONE) for w in known) and s[0] == "v" and s[2].startswith("$"):
            upto.append((nm(s) + "+1", lambda e, s=s: add(lift(e[s]), ONE)))
    vecs = [(s, a, m) for s, a, m in arrs if a.nd == 1 and a.dtype == "f" and isdim(a.shape[0], N) and a.buf.owner is None]
    G = [(s, a, m) for s, a, m in arrs if a.nd == 1 and a.dtype == "f" and not isdim(a.shape[0], N) and a.buf.owner is None]
    H = [(s, a, m) for s, a, m in arrs if a.nd == 2 and a.dtype == "f" and isdim(a.shape[1], N) and a.buf.owner is None]
    if ("g", "e") in env0 and u.method == "mcmc":
        npi = u.npi
        C_("e == 0", (), lambda e: (eq(lift(e[("g", "e")]), ZERO), ()), 1)
        for s, v in cnt:
            C_("e == 0 or %s == maxiter" % nm(s), (), lambda e, s=s: (or_(eq(lift(e[("g", "e")]), ZERO), le(TT, lift(e[s]))), ()), 1)
        for s, v in ints:
            if s == ("g", "e"):
                continue
            C_("e == %s" % nm(s), (), lambda e, s=s: (eq(lift(e[("g", "e")]), lift(e[s])), ()), 0)
            C_("e == npi*%s, cyclic" % nm(s), (),
               lambda e, s=s: (or_(and_(lt(mul(npi, lift(e[s])), N), eq(lift(e[("g", "e")]), mul(npi, lift(e[s])))),
                                   and_(le(N, mul(npi, lift(e[s]))), eq(lift(e[("g", "e")]), ZERO))), ()), 1)
    for i, (s, v) in enumerate(reals):
        for s2, v2 in reals[i + 1:]:
            C_("%s == %s" % (nm(s), nm(s2)), (), lambda e, s=s, s2=s2: (eq(toreal(lift(e[s])), toreal(lift(e[s2]))), ()))
    for s, a, m in vecs:
        for s2, v2 in reals:
            C_("%s == F(%s)" % (nm(s2), nm(s)), (), lambda e, s=s, s2=s2: (eq(toreal(lift(e[s2])), F(e[s].vec())), ()), 2)
        for s2, a2, m2 in vecs:
            if (m or m2) and str(s) < str(s2):
                C_("%s == %s" % (nm(s), nm(s2)), (QD,),
                   lambda e, s=s, s2=s2: (implies(rng(QD, N), eq(e[s].el((QD,)), e[s2].el((QD,)))),
                                          [[e[s].el((QD,))], [e[s2].el((QD,))]]))
        if u.reject and m:
            C_("%s in bounds" % nm(s), (QD,), lambda e, s=s: (implies(rng(QD, N), inbounds(e[s].el((QD,)), QD)), [[e[s].el((QD,))]]), 3)
    for n2, c2 in upto:
        for s, a, m in G:
            for s3, v3 in reals:
                C_("%s == %s[%s]" % (nm(s3), nm(s), n2), (), lambda e, s=s, c2=c2, s3=s3: (eq(toreal(lift(e[s3])), e[s].el((c2(e),))), ()))
                C_("%s == %s[%s-1]" % (nm(s3), nm(s), n2), (), lambda e, s=s, c2=c2, s3=s3: (eq(toreal(lift(e[s3])), e[s].el((sub(c2(e), ONE),))), ()))
        for s, a, m in H:
            for s3, a3, m3 in vecs:
                for o in (0, 1):
                    C_("%s == %s[%s-%d]" % (nm(s3), nm(s), n2, o), (QD,),
                       lambda e, s=s, c2=c2, s3=s3, o=o: (implies(rng(QD, N), eq(e[s3].el((QD,)), e[s].el((sub(c2(e), num(o)), QD)))),
                                                          [[e[s3].el((QD,))], [e[s].el((sub(c2(e), num(o)), QD))]]))
    for n2, c2 in upto:
        for s, a, m in H:
            for s3, a3, m3 in G:
                C_("%s[k<%s] == F(%s)" % (nm(s3), n2, nm(s)), (QK,),
                   lambda e, s=s, c2=c2, s3=s3: (implies(rng(QK, c2(e)), eq(e[s3].el((QK,)), F(e[s].vec((QK,))))),
                                                 [[e[s3].el((QK,))], [F(e[s].vec((QK,)))]]), 2)
            if u.reject and m:
                C_("%s[k<%s] in bounds" % (nm(s), n2), (QK, QD),
                   lambda e, s=s, c2=c2: (implies(and_(rng(QK, c2(e)), rng(QD, N)), inbounds(e[s].el((QK, QD)), QD)), [[e[s].el((QK, QD))]]), 3)
            for s3, a3, m3 in H:
                if str(s) < str(s3) and (m or m3):
                    C_("%s[k<%s] == %s" % (nm(s), n2, nm(s3)), (QK, QD),
                       lambda e, s=s, c2=c2, s3=s3: (implies(and_(rng(QK, c2(e)), rng(QD, N)), eq(e[s].el((QK, QD)), e[s3].el((QK, QD)))),
                                                     [[e[s].el((QK, QD))], [e[s3].el((QK, QD))]]))
        for s, a, m in G:
            for s3, v3 in reals:
                if "C06" in P:
                    C_("%s < %s[k<%s]" % (nm(s3), nm(s), n2), (QK,),
                       lambda e, s=s, c2=c2, s3=s3: (implies(rng(QK, c2(e)), lt(toreal(lift(e[s3])), e[s].el((QK,)))), [[e[s].el((QK,))]]))
                C_("%s <= %s[k<%s]" % (nm(s3), nm(s), n2), (QK,),
                   lambda e, s=s, c2=c2, s3=s3: (implies(rng(QK, c2(e)), le(toreal(lift(e[s3])), e[s].el((QK,)))), [[e[s].el((QK,))]]))
            for s3, a3, m3 in G:
                if str(s) < str(s3) and (m or m3):
                    C_("%s[k<%s] == %s" % (nm(s), n2, nm(s3)), (QK,),
                       lambda e, s=s, c2=c2, s3=s3: (implies(rng(QK, c2(e)), eq(e[s].el((QK,)), e[s3].el((QK,)))),
                                                     [[e[s].el((QK,))], [e[s3].el((QK,))]]))
    return out
