"""Whole-run units of the optimizers."""
from . import core, driver, interp, loops, npm
from . import terms as tm
from .core import (BND, C, Arr, Buf, Opaque, PathEnd, PyRaise, Unsupported, dim, is_scalar, lift, same_dim, unlift, INF,
                   ONE, ZERO)
from .driver import Cand, Unit, nm, scalar_slots
from .interp import Obj
from .npm import ListLike, SymSeq
from .solver import Fact
from .terms import (T, TRUE, FALSE, add, and_, app, elem, eq, ge, gt, implies, ite, lam, le, lt, mul, not_, num, or_, sub,
                    sym, toreal)

R0, R1 = num(0, "R"), num(1, "R")
EK = core.EK
N, M, TT = sym("ndim", "I"), sym("popsize", "I"), sym("maxiter", "I")
QK, QJ, QD = sym("$qk", "I"), sym("$qj", "I"), sym("$qd", "I")
SK, SJ, SD = sym("$sk", "I"), sym("$sj", "I"), sym("$sd", "I")


def F(v):
    return app("F", (v,), "R")


def rng(k, n):
    return and_(le(ZERO, k), lt(k, lift(n)))


class Ev:
    def __init__(self, kind, v, line=None):
        self.kind, self.v, self.line = kind, v, line

    def key(self):
        return (self.kind, self.v)


def lo(d):
    return elem(app("bounds", (d,), "V"), ZERO, "f")


def hi(d):
    return elem(app("bounds", (d,), "V"), ONE, "f")


def inbounds(e, d):
    return and_(le(lo(d), e), le(e, hi(d)))


# coordinate systems: user, unit box, [-1, 1] box
def tau_id(v):
    return v


def tau_unit(v):
    return lam(EK, add(mul(elem(v, EK, "f"), sub(hi(EK), lo(EK))), lo(EK)), "f")


def tau_mask(v):
    """Unit box, the coordinates of empty range pinned to the upper bound."""
    w = sub(hi(EK), lo(EK))
    s = ite(gt(w, R0), w, R1)
    return lam(EK, ite(gt(w, R0), add(mul(elem(v, EK, "f"), s), lo(EK)), hi(EK)), "f")


def tau_std(v):
    h = num("1/2", "R") if False else num(0.5, "R")
    return lam(EK, add(mul(elem(v, EK, "f"), mul(h, sub(hi(EK), lo(EK)))), mul(h, add(hi(EK), lo(EK)))), "f")


class Run(Unit):
    """Call of an optimizer or sampler on symbolic arguments."""

    module = None
    entry = "minimize"
    taus = {"user": tau_id}
    listlike = False
    wantprev = True

    def __init__(self, name, props, root=None, **cfg):
        Unit.__init__(self, name, props, root)
        self.cfg = cfg

    # ---- arguments
    def base(self):
        c = C()
        c.assume(le(ONE, N))
        c.assume(le(ONE, TT))
        c.ghost.update({"evals": 0, "best": INF, "cbs": 0})
        self.owned = {}
        b = Arr.new((N, 2), "f", app("bounds", (BND[0],), "V"), "bounds")
        b.buf.owner = "bounds"
        c.facts.append(Fact((QD,), [[lo(QD)], [hi(QD)]], implies(rng(QD, N), le(lo(QD), hi(QD))), "lower <= upper"))
        return ListLike(b) if self.listlike else b

    def const_ints(self):
        return [M, TT, N]

    def bound_terms(self):
        return [TT, M, N]

    def fext_dim(self):
        return N

    def objective(self):
        def call(I, a, k):
            c = C()
            x = a[0]
            if not isinstance(x, Arr):
                if isinstance(x, (list, tuple, SymSeq)):
                    x = npm.asarr(x)
                elif is_scalar(x):
                    c.oblige("C24", FALSE, "the objective is called with a point")
                    raise PathEnd()
                else:
                    raise Unsupported("argument of the objective")
            if x.nd != 1:
                c.oblige(("C13", "C24"), FALSE, "the objective is called with a single point")
                raise PathEnd()
            npm.need(eq(dim(x.shape[0]), N), "the objective is called with a point of ndim coordinates")
            if len(a) != 1 + len(self.extra()) or any(p is not q for p, q in zip(a[1:], self.extra())) or k:
                c.oblige("C13", FALSE, "the extra arguments are passed to the objective")
                c.oblige("C23", FALSE, "the extra arguments are passed to the objective")
            v = x.vec() if x.dtype == "f" else npm.fvec(x)
            self.evaluated(v, x)
            if c.binders:
                c.events.append(Ev("eval", v, c.line))
            else:
                c.ghost["evals"] = unlift(add(lift(c.ghost["evals"]), ONE))
                c.ghost["best"] = tm.tmin(lift(c.ghost["best"]), F(v))
                self.batch(None, 1, v)
            return F(v)

        return Opaque("objective", call)

    def extra(self):
        if not hasattr(self, "_extra"):
            self._extra = (Opaque("extra argument", callable_=False),)
        return self._extra

    def evaluated(self, v, x):
        if self.cfg.get("inside"):
            C().oblige("C03", implies(rng(SD, N), inbounds(elem(v, SD, "f"), SD)), "an evaluated point lies inside the bounds")

    def on_batch(self, k, n, events):
        if not events:
            return
        c = C()
        if c.binders:
            raise Unsupported("nested batch of evaluations")
        for e in events:
            c.ghost["evals"] = unlift(add(lift(c.ghost["evals"]), lift(n)))
            fv = lam(k, F(e.v), "f")
            c.ghost["best"] = tm.tmin(lift(c.ghost["best"]), app("vmin", (fv, lift(n)), "R"))
            self.batch(k, n, e.v)

    first = None

    def batch(self, k, n, v):
        """A population (or a single point when k is None) has been evaluated."""
        c = C()
        if not c.ghost.get("first") and "C10" in self.props and not c.heads:
            c.ghost["first"] = True
            self.first_batch(k, n, v)

    def first_batch(self, k, n, v):
        c = C()
        if k is None:
            return
        c.oblige("C10", eq(lift(n), M), "the first batch has popsize members")
        e = elem(tm.subst(v, {k: SK}), SD, "f")
        g = and_(rng(SK, M), rng(SD, N))
        if self.cfg.get("x0"):
            c.oblige("C10", implies(g, eq(e, elem(app("x0", (SK,), "V"), SD, "f"))), "the first population is x0, in order")
        else:
            c.oblige("C10", implies(g, inbounds(e, SD)), "the initial population lies inside the bounds", rounds=5)
            self.strata(e, g)

    def strata(self, e, g):
        """Slice of member SK in dimension SD: an element of a permutation of 0..popsize-1 drawn for that dimension."""
        c = C()
        perms = set()
        st, seen = [e], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "app" and x.name == "ati" and x.args[0].op == "app" and x.args[0].name == "rperm":
                perms.add(x)
            st.extend(tm.children(x))
        ps = [p for p in perms if p.args[1] is SK and p.args[0].args[0] is M and "$sd" in tm.free(p.args[0]) and
              "$sk" not in tm.free(p.args[0])]
        if not ps:
            c.oblige("C10", FALSE, "the slices are assigned by a permutation of the members, drawn for each dimension")
            return
        p = ps[0]
        w = sub(hi(SD), lo(SD))
        m = toreal(M)
        c.oblige("C10", implies(g, and_(
            le(mul(toreal(p), w), mul(m, sub(e, lo(SD)))), le(mul(m, sub(e, lo(SD))), mul(toreal(add(p, ONE)), w)))),
            "member k lies in slice perm(k) of popsize equal slices", rounds=5)

    # ---- ownership
    def on_write(self, buf):
        C().oblige("C11", FALSE, "%s of the caller is not modified" % buf.owner)

    def on_objset(self, o, k, v):
        pass

    # ---- randomness
    def on_draw(self, kind):
        c = C()
        if "C12" not in self.props:
            return
        if self.cfg.get("seed", True):
            c.oblige("C12", TRUE if c.ghost.get("seeded") else FALSE, "the generator is seeded before a draw")

    def on_seed(self, seed):
        c = C()
        if self.cfg.get("seed", True):
            ok = seed is self.seedval
            c.oblige("C12", TRUE if ok else FALSE, "the generator is seeded with the given seed")
            if c.evs_drawn if hasattr(c, "evs_drawn") else False:
                pass
            c.ghost["seeded"] = True
        else:
            c.oblige("C12", FALSE, "without a seed the generator is not reseeded")

    # ---- callbacks
    def callback(self):
        def call(I, a, k):
            c = C()
            if len(a) != 2:
                c.oblige("C06", FALSE, "the callback receives the population and a result")
                raise PathEnd()
            X, res = a
            if not isinstance(res, Obj):
                raise Unsupported("callback state")
            if c.binders or c.local is not None:
                raise interp.MergeFail("callback")
            n = unlift(add(lift(c.ghost["cbs"]), ONE))
            c.ghost["cbs"] = n
            self.at_callback(X, res.data, n)
            d = res.data
            for key, val in (("fun", d.get("fun")), ("nfev", d.get("nfev")), ("nit", d.get("nit"))):
                if key in d and is_scalar(val):
                    c.ghost["cb." + key] = val
                else:
                    c.ghost["cb." + key] = None
            if "x" in d:
                if self.wantprev:
                    c.ghost["cb.xprev"] = c.ghost.get("cb.x")
                c.ghost["cb.x"] = frozen(d["x"])
            for key in ("xall", "funall"):
                c.ghost["cb." + key] = frozen(d[key]) if key in d else None
            return None

        return Opaque("callback", call)

    def at_callback(self, X, d, n):
        pass

    def eqvec(self, a, b, n=N):
        """Pointwise equality of two rank 1 arrays at a fresh index."""
        return implies(rng(SD, n), eq(a.el((SD,)), b.el((SD,))))


def frozen(a):
    if isinstance(a, Arr):
        b = a.copy()
        return b
    return a


class OptRun(Run):
    """Optimizer: common obligations at callbacks and at return."""

    minpop = 2
    elitist = True

    def setup(self):
        c = C()
        cfg = self.cfg
        bounds = self.base()
        c.assume(le(num(cfg.get("minpop", self.minpop)), M))
        kw = {}
        x0 = None
        if cfg.get("x0"):
            x0 = self.make_x0()
        self.seedval = sym("seed", "I")
        kw.update(bounds=bounds, x0=x0, args=self.extra(), maxiter=TT, popsize=M, seed=self.seedval if cfg.get("seed", True) else None,
                  xtol=sym("xtol", "R"), ftol=sym("ftol", "R"),
                  return_all=bool(cfg.get("hist")), verbosity=0.0,
                  callback=self.callback() if cfg.get("cb") else None)
        if cfg.get("hist"):
            if cfg.get("verb0"):
                kw["verbosity"] = 0.0
            else:
                vb = sym("verbosity", "R")
                c.assume(and_(lt(R0, vb), le(vb, R1)))
                kw["verbosity"] = vb
        if "updating" in cfg:
            kw["updating"] = cfg["updating"]
        if "constraints" in cfg:
            kw["constraints"] = cfg["constraints"]
        kw.update(self.options())
        return kw

    def make_x0(self):
        c = C()
        a = Arr.new((M, N), "f", app("x0", (BND[0],), "V"), "x0")
        a.buf.owner = "x0"
        e = elem(app("x0", (QK,), "V"), QD, "f")
        c.facts.append(Fact((QK, QD), [[e]], implies(and_(rng(QK, M), rng(QD, N)), inbounds(e, QD)), "x0 inside the bounds"))
        return ListLike(a) if self.listlike else a

    def options(self):
        return {}

    def real(self, name, lo_, hi_, left=True, right=True):
        c = C()
        s = sym(name, "R")
        a, b = num(lo_, "R"), num(hi_, "R")
        c.assume(le(a, s) if left else lt(a, s))
        c.assume(le(s, b) if right else lt(s, b))
        return s

    def run(self):
        I = self.I
        f = I.load(self.module).vars[self.entry]
        kw = self.setup()
        res = I.call(f, [self.objective()], kw)
        if not isinstance(res, Obj) or not isinstance(res.data, dict):
            C().oblige("C24", FALSE, "a result object is returned")
            return
        self.finish(res.data)

    # ---- obligations
    def nout(self):
        if self.cfg.get("verb0"):
            return ONE
        return tm.neg(tm.floor(tm.neg(mul(sym("verbosity", "R"), toreal(M)))))

    def result_common(self, d, where):
        c = C()
        for key in ("x", "fun", "nfev", "nit"):
            if key not in d:
                c.oblige("C24", FALSE, "the result carries %s" % key)
                raise PathEnd()
        x, fun, nfev, nit = d["x"], d["fun"], d["nfev"], d["nit"]
        if not isinstance(x, Arr) or x.nd != 1:
            raise Unsupported("point of the result")
        if isinstance(fun, Arr):
            fun = npm.asarr(fun).el(())if fun.nd == 0 else fun
        npm.need(eq(dim(x.shape[0]), N), "the reported point has ndim coordinates")
        v = npm.fvec(x)
        f = toreal(lift(fun))
        if self.elitist:
            c.oblige("C01", eq(f, F(v)), "%s: the reported value is the objective at the reported point" % where)
            c.oblige("C01", eq(f, lift(c.ghost["best"])), "%s: the reported value is the lowest evaluated so far" % where)
        if self.cfg.get("inside"):
            c.oblige("C03", implies(rng(SD, N), inbounds(x.el((SD,)), SD)), "%s: the reported point lies inside the bounds" % where)
        c.oblige("C05", eq(lift(nfev), lift(c.ghost["evals"])), "%s: the number of evaluations is exact" % where)
        c.oblige("C05", and_(le(ONE, lift(nit)), le(lift(nit), TT)), "%s: 1 <= nit <= maxiter" % where)
        if x.buf.owner is not None:
            c.oblige("C11", FALSE, "%s: the reported point does not alias the caller's array" % where)
        return x, f, lift(nfev), lift(nit)

    def history(self, d, nit, where):
        c = C()
        if not self.cfg.get("hist"):
            c.oblige("C06", TRUE if "xall" not in d and "funall" not in d else FALSE, "%s: no history without return_all" % where)
            return None
        if "xall" not in d or "funall" not in d:
            c.oblige("C06", FALSE, "%s: the history is present with return_all" % where)
            raise PathEnd()
        H, G = d["xall"], d["funall"]
        if not (isinstance(H, Arr) and isinstance(G, Arr) and H.nd == 3 and G.nd == 2):
            raise Unsupported("history")
        no = self.nout()
        for a in (H, G):
            c.oblige(("C06"), eq(dim(a.shape[0]), nit), "%s: one history row per iteration" % where)
            c.oblige(("C09"), eq(dim(a.shape[0]), nit), "%s: one history row per iteration" % where)
            c.oblige("C09", eq(dim(a.shape[1]), no), "%s: max(1, ceil(verbosity*popsize)) entries per row" % where)
            if a.buf.owner is not None:
                c.oblige("C11", FALSE, "%s: the history does not alias the caller's array" % where)
        npm.need(eq(dim(H.shape[2]), N), "history points have ndim coordinates")
        g = and_(rng(SK, nit), rng(SJ, no))
        self.hist_values(H, G, g, where)
        if self.cfg.get("inside"):
            c.oblige("C03", implies(and_(g, rng(SD, N)), inbounds(H.el((SK, SJ, SD)), SD)), "%s: recorded points lie inside the bounds" % where)
        return H, G

    def hist_values(self, H, G, g, where):
        C().oblige("C09", implies(g, eq(G.el((SK, SJ)), F(H.vec((SK, SJ))))), "%s: each recorded value is the objective at the recorded point" % where)

    def at_callback(self, X, d, n):
        c = C()
        x, f, nfev, nit = self.result_common(d, "callback")
        c.oblige("C06", eq(nit, lift(n)), "callback: the k-th call reports k iterations")
        hg = self.history(d, nit, "callback")
        if hg is not None:
            H, G = hg
            no = self.nout()
            if not isinstance(X, Arr) or X.nd != 2:
                raise Unsupported("population of the callback")
            # earlier rows are unchanged since the previous call
            pH, pG = c.ghost.get("cb.xall"), c.ghost.get("cb.funall")
            if isinstance(pH, Arr) and isinstance(pG, Arr):
                m = lift(c.ghost["cb.nit"])
                gg = and_(rng(SK, m), rng(SJ, no))
                c.oblige(("C06", "C09"), implies(and_(gg, rng(SD, N)), eq(H.el((SK, SJ, SD)), pH.el((SK, SJ, SD)))),
                         "callback: the rows of the previous calls are unchanged (points)")
                c.oblige(("C06", "C09"), implies(gg, eq(G.el((SK, SJ)), pG.el((SK, SJ)))),
                         "callback: the rows of the previous calls are unchanged (values)")
            last = sub(nit, ONE)
            if self.cfg.get("verb0"):
                self.best_row(X, H, G, last, x, f)
            else:
                c.oblige("C09", implies(and_(rng(SJ, no), rng(SD, N)), eq(H.el((last, SJ, SD)), X.el((SJ, SD)))),
                         "callback: row k is the leading part of the population of the k-th call")
        if self.elitist and "C01" in self.props:
            pf = c.ghost.get("cb.fun")
            if isinstance(pf, (T, float, int)) and not isinstance(pf, bool):
                c.oblige("C01", le(f, toreal(lift(pf))), "callback: the reported best value never increases")

    def best_row(self, X, H, G, last, x, f):
        """With verbosity 0 the row holds the best point of the population."""
        c = C()
        v = X.vec((SJ,))
        # the recorded point is a member and no member has a lower recorded fitness
        self.best_member(X, H, G, last)

    def best_member(self, X, H, G, last):
        pass

    def finish(self, d):
        c = C()
        x, f, nfev, nit = self.result_common(d, "return")
        if self.cfg.get("cb"):
            c.oblige("C06", eq(lift(c.ghost["cbs"]), nit), "return: one callback per iteration")
            for key, val in (("fun", f), ("nfev", nfev), ("nit", nit)):
                o = c.ghost.get("cb." + key)
                if o is None or not is_scalar(o):
                    c.oblige("C06", FALSE, "return: the last callback reported %s" % key)
                else:
                    o = lift(o)
                    c.oblige("C06", eq(toreal(o), toreal(val)), "return: the last callback reported the returned %s" % key)
            px = c.ghost.get("cb.x")
            if isinstance(px, Arr):
                c.oblige("C06", self.eqvec(px, x), "return: the last callback reported the returned point")
            else:
                c.oblige("C06", FALSE, "return: the last callback reported a point")
        hg = self.history(d, nit, "return")
        if hg is not None and self.cfg.get("cb"):
            H, G = hg
            pH, pG = c.ghost.get("cb.xall"), c.ghost.get("cb.funall")
            if isinstance(pH, Arr) and isinstance(pG, Arr):
                no = self.nout()
                gg = and_(rng(SK, nit), rng(SJ, no))
                c.oblige(("C06", "C09"), implies(and_(gg, rng(SD, N)), eq(H.el((SK, SJ, SD)), pH.el((SK, SJ, SD)))),
                         "return: the history is the one of the last callback (points)")
                c.oblige(("C06", "C09"), implies(gg, eq(G.el((SK, SJ)), pG.el((SK, SJ)))),
                         "return: the history is the one of the last callback (values)")
        for key in ("success", "status", "message"):
            if key not in d:
                c.oblige("C24", FALSE, "the result carries %s" % key)
                raise PathEnd()
        self.status(d, x, f, nit)

    MESSAGES = {
        -1: "maximum number of iterations is reached",
    }

    def status(self, d, x, f, nit):
        c = C()
        p = ("C07", "C08")
        st, suc, msg = d["status"], d["success"], d["message"]
        if not is_scalar(st) or isinstance(st, float):
            c.oblige(p, FALSE, "the status is an integer")
            return
        st = lift(st)
        suc = self.I.truthterm(suc)
        c.oblige(p, tm.eq(lift(suc), le(ZERO, st)), "successful exactly when the status is non-negative")
        c.oblige(p, implies(eq(st, num(-1)), eq(nit, TT)), "status -1 only after maxiter iterations")
        ftol = sym("ftol", "R")
        c.oblige(p, implies(or_(eq(st, ZERO), eq(st, ONE)), le(f, ftol)), "status 0 and 1 only when the value is at most ftol")
        self.message(st, msg)
        px = c.ghost.get("cb.xprev")
        if self.cfg.get("cb") and self.cfg.get("syncmove"):
            if isinstance(px, Arr):
                nrm = npm.norm(npm.binop("Sub", px, x))
                c.oblige(p, implies(eq(st, ZERO), le(lift(nrm), sym("xtol", "R"))), "status 0 only when the best point moved at most xtol")
            else:
                c.oblige(p, not_(eq(st, ZERO)), "status 0 only when the best point moved at most xtol")

    def message(self, st, msg):
        pass

    def on_backedge(self, head):
        """The run goes on after an iteration."""
        c = C()
        if len(c.heads) != 1 or head is not c.heads[0] or head.info.kind != "While":
            return
        ftol = sym("ftol", "R")
        b0, b1 = lift(head.env[("g", "best")]), lift(c.ghost["best"])
        c.oblige("C07", not_(and_(lt(b1, b0), le(b1, ftol))), "no run goes on after a new best value at or below ftol")

    # ---- invariants
    def templates(self, info, si, head):
        return run_templates(self, info, si, head)


def arr_slots(info, head, c=None):
    """Distinct arrays visible at the head: (slot, array, modified)."""
    out, seen = [], set()
    for s, v in head.env.items():
        if not isinstance(v, Arr):
            continue
        if not v.full():
            continue
        k = (v.buf.ser, v.buf.body)
        if k in seen:
            continue
        seen.add(k)
        m = s in info.modset or ("b", v.buf.ser) in info.modset
        out.append((s, v, m))
    return out


def isdim(d, t):
    return lift(d) is t


# properties that need facts on values, histories, boxes
NEED_F = {"C01", "C02", "C06", "C07", "C08", "C09", "C14", "C15", "C16", "C17", "C19", "C20"}
NEED_H = {"C03", "C06", "C09"}
NEED_BOX = {"C03", "C04", "C18", "C19", "C20"}


def run_templates(u, info, si, head):
    out = []
    env0 = head.env
    reals = scalar_slots(info, head, "R")
    ints = scalar_slots(info, head, "I")
    allreals = [(s, v) for s, v in env0.items() if isinstance(v, T) and v.sort == "R" and
                not (v.op == "sym" and not v.name.startswith("h"))]
    tols = [sym("ftol", "R")]
    seen, tmp = set(), []
    for s, v in allreals:
        if v not in seen:
            seen.add(v)
            tmp.append((s, v))
    allreals = tmp[:14]
    arrs = arr_slots(info, head)
    gb = ("g", "best")

    wantF = u.props & NEED_F
    wantH = u.props & NEED_H

    def C_(name, vars, fn, stage=1):
        if stage == 2 and not wantF:
            return
        out.append(Cand(name, vars, fn, stage))

    if not (wantF or wantH or u.props & NEED_BOX):
        return out
    modreal = {s for s, _ in reals}
    # scalars
    for i, (s, v) in enumerate(reals):
        C_("%s < INF" % nm(s), (), lambda e, s=s: (lt(lift(e[s]), INF), ()))
        C_("%s > 0" % nm(s), (), lambda e, s=s: (lt(R0, lift(e[s])), ()))
        C_("%s >= 0" % nm(s), (), lambda e, s=s: (le(R0, lift(e[s])), ()))
        for q in tols:
            C_("%s <= %s" % (nm(s), q.name), (), lambda e, s=s, q=q: (le(toreal(lift(e[s])), q), ()))
        for s2, v2 in reals[i + 1:]:
            C_("%s == %s" % (nm(s), nm(s2)), (), lambda e, s=s, s2=s2: (eq(toreal(lift(e[s])), toreal(lift(e[s2]))), ()))
    vecs = [(s, a, m) for s, a, m in arrs if a.nd == 1 and a.dtype == "f" and isdim(a.shape[0], N)]
    rows = [(s, a, m) for s, a, m in arrs if a.nd == 1 and a.dtype == "f" and isdim(a.shape[0], M)]
    mats = [(s, a, m) for s, a, m in arrs if a.nd == 2 and a.dtype == "f" and isdim(a.shape[1], N) and not isdim(a.shape[0], N)]
    hist3 = [(s, a, m) for s, a, m in arrs if a.nd == 3 and a.dtype == "f"]
    hist2 = [(s, a, m) for s, a, m in arrs if a.nd == 2 and a.dtype == "f" and not isdim(a.shape[1], N)]
    taus = u.taus
    fun_s = [s for s, v in reals]
    for s, a, m in vecs:
        for s2, v2 in allreals:
            if not m and s2 not in modreal:
                continue
            for tn, tau in taus.items():
                C_("%s == F(%s) [%s]" % (nm(s2), nm(s), tn), (),
                   lambda e, s=s, s2=s2, tau=tau: (eq(toreal(lift(e[s2])), F(tau(e[s].vec()))), ()), 2)
        if m:
            box_cands(u, C_, s, 1, ())
        for s2, a2, m2 in vecs:
            if (m or m2) and str(s) < str(s2):
                C_("%s == %s" % (nm(s), nm(s2)), (QD,),
                   lambda e, s=s, s2=s2: (implies(rng(QD, N), eq(e[s].el((QD,)), e[s2].el((QD,)))),
                                          [[e[s].el((QD,))], [e[s2].el((QD,))]]))
    for s, a, m in rows:
        for s2, v2 in reals if not m else allreals:
            C_("%s <= %s[k]" % (nm(s2), nm(s)), (QK,),
               lambda e, s=s, s2=s2: (implies(rng(QK, M), le(toreal(lift(e[s2])), e[s].el((QK,)))), [[e[s].el((QK,))]]))
            C_("%s == min %s" % (nm(s2), nm(s)), (),
               lambda e, s=s, s2=s2: (eq(toreal(lift(e[s2])), app("vmin", (e[s].vec(), M), "R")), ()))
        for s2, a2, m2 in mats:
            if not (m or m2) or not isdim(a2.shape[0], M):
                continue
            for tn, tau in taus.items():
                C_("%s[k] == F(%s[k]) [%s]" % (nm(s), nm(s2), tn), (QK,),
                   lambda e, s=s, s2=s2, tau=tau: (implies(rng(QK, M), eq(e[s].el((QK,)), F(tau(e[s2].vec((QK,)))))),
                                                   [[e[s].el((QK,))], [F(tau(e[s2].vec((QK,))))]]), 2)
                if u.cfg.get("infs"):
                    C_("%s[k] == F(%s[k]) or INF [%s]" % (nm(s), nm(s2), tn), (QK,),
                       lambda e, s=s, s2=s2, tau=tau: (implies(rng(QK, M), or_(eq(e[s].el((QK,)), INF), eq(e[s].el((QK,)), F(tau(e[s2].vec((QK,))))))),
                                                       [[e[s].el((QK,))]]), 2)
        if m and u.cfg.get("infs") and "C19" in u.props:
            C_("%s[k] < INF" % nm(s), (QK,), lambda e, s=s: (implies(rng(QK, M), lt(e[s].el((QK,)), INF)), [[e[s].el((QK,))]]))
            for s2, v2 in counters(info, si, head, ints):
                C_("%s[k<%s] < INF" % (nm(s), nm(s2)), (QK,),
                   lambda e, s=s, s2=s2: (implies(and_(rng(QK, M), lt(QK, lift(e[s2]))), lt(e[s].el((QK,)), INF)), [[e[s].el((QK,))]]))
        if m:
            for s2, a2, m2 in rows:
                if s2 != s:
                    C_("%s[k] <= %s[k]" % (nm(s), nm(s2)), (QK,),
                       lambda e, s=s, s2=s2: (implies(rng(QK, M), le(e[s].el((QK,)), e[s2].el((QK,)))), [[e[s].el((QK,)), e[s2].el((QK,))]]))
    for s, a, m in mats:
        if m:
            box_cands(u, C_, s, 2, ())
    cnt = counters(info, si, head, ints) if wantH else ()
    for s, a, m in (hist3 + hist2 if wantH else ()):
        rank = a.nd
        for s2, v2 in cnt:
            if rank == 3 and m and (u.cfg.get("inside")):
                C_("%s[k<%s] in bounds" % (nm(s), nm(s2)), (QK, QJ, QD),
                   lambda e, s=s, s2=s2: (implies(and_(rng(QK, lift(e[s2])), rng(QJ, e[s].shape[1]), rng(QD, N)),
                                                  inbounds(e[s].el((QK, QJ, QD)), QD)), [[e[s].el((QK, QJ, QD))]]), 3)
            for s3, a3, m3 in (hist3 + hist2):
                if a3.nd == rank and str(s) < str(s3) and (m or m3):
                    vs = (QK, QJ, QD)[:rank]
                    C_("%s[k<%s] == %s" % (nm(s), nm(s2), nm(s3)), vs,
                       lambda e, s=s, s2=s2, s3=s3, vs=vs: (implies(and_(rng(QK, lift(e[s2])), rng(QJ, u.nout()), *( [rng(QD, N)] if len(vs) == 3 else [])),
                                                             eq(e[s].el(vs), e[s3].el(vs))), [[e[s].el(vs)], [e[s3].el(vs)]]))
                if rank == 3 and a3.nd == 2 and (m or m3):
                    C_("%s[k<%s] == F(%s)" % (nm(s3), nm(s2), nm(s)), (QK, QJ),
                       lambda e, s=s, s2=s2, s3=s3: (implies(and_(rng(QK, lift(e[s2])), rng(QJ, u.nout())),
                                                             eq(e[s3].el((QK, QJ)), F(e[s].vec((QK, QJ))))),
                                                     [[e[s3].el((QK, QJ))]]), 2)
    return out


def counters(info, si, head, ints):
    """Counters of the loop, one for each class of provably equal ones."""
    hy = [x for x in (c.inst(head.env) for c in info.sealed.get(si, ())) if x is not None]
    out = []
    for s, v in ints:
        if not any(driver.prove(eq(v, w), hy, rounds=1, timeout=500) == "proved" for _, w in out):
            out.append((s, v))
    return out


def box_cands(u, C_, s, rank, _):
    """The array stays in the box (user coordinates or normalized)."""
    if rank == 1:
        vs, g = (QD,), rng(QD, N)
    else:
        vs, g = (QK, QD), None

    def mk(cond):
        def fn(e):
            a = e[s]
            x = a.el(vs)
            gg = rng(QD, N) if rank == 1 else and_(rng(QK, a.shape[0]), rng(QD, N))
            return implies(gg, cond(x)), [[x]]
        return fn

    def C3(name, vs, fn):
        C_(name, vs, fn, 3)

    if u.cfg.get("inside") and u.props & NEED_BOX:
        C3("%s in bounds" % nm(s), vs, mk(lambda x: inbounds(x, QD)))
        if "unit" in u.taus:
            C3("%s in [0,1]" % nm(s), vs, mk(lambda x: and_(le(R0, x), le(x, R1))))
        if "std" in u.taus:
            C3("%s in [-1,1]" % nm(s), vs, mk(lambda x: and_(le(num(-1, "R"), x), le(x, R1))))
