"""PSO and CPSO: whole runs of minimize."""
import ast

from . import terms as tm
from .core import BND, C, EK, Arr, INF, PathEnd, Unsupported, dim, is_scalar, lift
from .interp import Func
from .npm import assign, freshvec, need
from .runs import M, N, OptRun, QD, QK, R0, SD, SK, TT, hi, inbounds, lo, rng
from .solver import Fact
from .terms import FALSE, TRUE, and_, app, elem, eq, implies, ite, lam, le, lt, not_, num


def inplace(node, names):
    """The function returns exactly these parameters and never rebinds them."""
    rets = [n for n in ast.walk(node) if isinstance(n, ast.Return)]
    if any(isinstance(n, ast.Name) and n.id in names and not isinstance(n.ctx, ast.Load) for n in ast.walk(node)):
        return False
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and n is not node for n in ast.walk(node)):
        return False
    return bool(rets) and isinstance(node.body[-1], ast.Return) and all(
        isinstance(r.value, ast.Tuple) and tuple(getattr(e, "id", None) for e in r.value.elts) == names for r in rets)


def shrinks(node):
    """The function returns a new array and the velocity, which it only changes in place."""
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and n is not node:
            return False
        if isinstance(n, ast.Name) and n.id == "X" and not isinstance(n.ctx, ast.Load):
            return False
        if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
            return False
        if isinstance(n, (ast.Assign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)):
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if any(isinstance(x, ast.Name) and x.id == "V" and not isinstance(x.ctx, ast.Load) for x in ast.walk(t)):
                    return False
    rets = [n.value for n in ast.walk(node) if isinstance(n, ast.Return)]
    return [a.arg for a in node.args.args] == ["X", "V"] and len(rets) == 1 and isinstance(rets[0], ast.Tuple) and len(rets[0].elts) == 2 and \
        isinstance(rets[0].elts[0], ast.Call) and getattr(rets[0].elts[1], "id", None) == "V"


class CPSO(OptRun):
    module = "stochopy.optimize.cpso._cpso"
    method = "cpso"

    def __init__(self, name, props, root=None, **cfg):
        cfg.setdefault("updating", "deferred")
        cfg.setdefault("constraints", None)
        cfg["inside"] = cfg["constraints"] == "Shrink"
        cfg["syncmove"] = cfg["updating"] == "deferred"
        cfg.setdefault("gamma", True)
        cfg["infs"] = cfg["gamma"]
        OptRun.__init__(self, name, props, root, **cfg)

    def contract(self, f):
        if isinstance(f, Func) and f.name == "cons" and self.cfg["inside"] and f.mod.name.endswith("cpso._constraints"):
            return self.moved
        if not isinstance(f, Func) or f.name != "restart" or not f.mod.name.endswith("_cpso"):
            return None
        if "C19" not in self.props:
            return self.restarted

        def h(I, fn, args, kwargs):
            c = C()
            b = I.bind(fn, args, kwargs)
            if not self.cfg["gamma"]:
                c.oblige("C19", FALSE, "no restart without competitivity")
                raise PathEnd()
            g, pf, lw, up = b.get("gamma"), b.get("pbestfit"), b.get("lower"), b.get("upper")
            for a in (pf, lw, up):
                if not isinstance(a, Arr) or a.nd != 1:
                    raise Unsupported("arguments of restart")
            c.oblige("C19", TRUE if g is self.gamma else FALSE, "restart receives the given competitivity")
            c.oblige("C19", implies(rng(SD, N), and_(eq(lw.el((SD,)), lo(SD)), eq(up.el((SD,)), hi(SD)))), "restart receives the bounds")
            c.oblige("C19", implies(rng(SK, M), lt(pf.el((SK,)), INF)), "every particle has been evaluated when a restart begins")
            if is_scalar(b.get("it")) and is_scalar(b.get("maxiter")):
                c.oblige("C19", and_(le(num(2), lift(b["it"])), lt(lift(b["it"]), TT), eq(lift(b["maxiter"]), TT)), "restart receives the iteration")
            return NotImplemented
        return h

    def restarted(self, I, fn, args, kwargs):
        """Contract of restart, which updates the swarm in place (proved by the unit restart; its preconditions at this
        call are obligations of C19)."""
        c = C()
        b = I.bind(fn, args, kwargs)
        names = ("X", "V", "pbest", "pbestfit")
        if any(not isinstance(b.get(n), Arr) or not b[n].full() for n in names) or not inplace(fn.node, names):
            return NotImplemented
        r = tuple(b[n] for n in names)
        old = [a.body() for a in r]
        x, v, p, h = r
        c.nfresh += 1
        rn = "restarted#%d" % c.nfresh
        k0 = BND[0]
        R = lambda k: app(rn, (k,), "B")
        u, q = freshvec("drawn", 2), freshvec("pbest", 2)
        e = lambda t: elem(t, EK, "f")
        x.buf.set(lam(EK, ite(R(k0), e(u), e(old[0])), "f"))
        v.buf.set(lam(EK, ite(R(k0), R0, e(old[1])), "f"))
        p.buf.set(lam(EK, ite(R(k0), e(q), e(old[2])), "f"))
        h.buf.set(lam(EK, ite(R(EK), INF, e(old[3])), "f"))
        for t in (u, q):
            y = elem(tm.subst(t, {k0: QK}), QD, "f")
            c.facts.append(Fact((QK, QD), [[y]], implies(and_(rng(QK, M), rng(QD, N)), inbounds(y, QD)), "restarted positions lie inside the bounds"))
        w = c.fresh("kept", "I")
        m = app("vmin", (old[3], M), "R")
        c.facts.append(Fact((), [[m]], and_(rng(w, M), not_(R(w)), eq(elem(old[3], w, "f"), m)), "a best particle is kept"))
        return r

    def moved(self, I, fn, args, kwargs):
        """Contract of the 'Shrink' move (proved by the units move.*): positions inside the bounds stay inside; the velocity
        is updated in place."""
        c = C()
        b = I.bind(fn, args, kwargs)
        X, V = b.get("X"), b.get("V")
        if not all(isinstance(a, Arr) and a.nd in (1, 2) for a in (X, V)) or X.nd != V.nd or not shrinks(fn.node):
            return NotImplemented
        n = X.nd
        for a, d in zip(X.shape + V.shape, ((M, N) if n == 2 else (N,)) * 2):
            need(eq(dim(a), d), "the move receives positions and velocities of the same shape")
        ks = (SK, SD)[2 - n:]
        g = and_(rng(SK, M), rng(SD, N)) if n == 2 else rng(SD, N)
        c.oblige("C03", implies(g, inbounds(X.el(ks), SD)), "the move starts inside the bounds")
        Y = Arr.new(X.shape, "f", freshvec("moved", n), "X")
        qs = (QK, QD)[2 - n:]
        y = Y.el(qs)
        g = and_(rng(QK, M), rng(QD, N)) if n == 2 else rng(QD, N)
        c.facts.append(Fact(qs, [[y]], implies(g, inbounds(y, QD)), "the move ends inside the bounds"))
        assign(V, Arr.new(V.shape, "f", freshvec("velocity", n), "V"))
        return (Y, V)

    def finish(self, d):
        OptRun.finish(self, d)
        if not self.cfg["gamma"]:
            C().oblige("C19", TRUE, "no restart without competitivity")

    def options(self):
        d = dict(inertia=self.real("inertia", 0, 1), cognitivity=self.real("cognitivity", 0, 4),
                 sociability=self.real("sociability", 0, 4))
        d["competitivity"] = self.gamma = self.real("competitivity", 0, 2) if self.cfg["gamma"] else None
        return d


class PSO(CPSO):
    """PSO through its own entry point (CPSO without competition)."""

    module = "stochopy.optimize.pso._pso"
    method = "pso"

    def __init__(self, name, props, root=None, **cfg):
        cfg["gamma"] = False
        CPSO.__init__(self, name, props, root, **cfg)

    def options(self):
        d = CPSO.options(self)
        d.pop("competitivity")
        return d
