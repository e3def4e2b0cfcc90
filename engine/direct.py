"""Contracts of single functions: validation, forwarding, result objects, batch evaluation, moves and donors."""
from . import core, interp, npm
from . import solver
from . import terms as tm
from .core import BND, C, Arr, Opaque, PathEnd, PyRaise, Unsupported, dim, is_scalar, lift, unlift, INF, ONE, ZERO
from .driver import Unit
from .interp import Func, Obj
from .npm import ListLike, SymSeq
from .runs import F, M, N, QD, QJ, QK, R0, R1, Run, SD, SJ, SK, TT, hi, inbounds, lo, rng
from .solver import Fact
from .terms import (T, TRUE, FALSE, add, and_, app, elem, eq, ge, gt, implies, ite, lam, le, lt, mul, not_, num, or_, sub,
                    sym, toreal)

EK = core.EK


# ------------------------------------------------------------------ C25
class Result(Unit):
    """Attribute access of a result object with an arbitrary item name and value."""

    module = "stochopy._common"

    def __init__(self, name, props, root=None, **cfg):
        Unit.__init__(self, name, props, root)
        self.cfg = cfg

    def key(self, name, same=()):
        o = Opaque(name, callable_=False)
        o.eq = lambda x: x is o
        return o

    def value(self, name):
        o = Opaque(name, callable_=False)
        o.isnone = sym("%s is None" % name, "B")
        o.truth = sym("%s is true" % name, "B")
        return o

    def run(self):
        c = C()
        I = self.I
        mod, cn = self.cfg["cls"]
        cls = I.load(mod).vars[cn]
        if self.cfg["op"] == "repr":
            return self.printing(cls)
        n, m = self.key("name"), self.key("other name")
        v, w, u = self.value("value"), self.value("other value"), self.value("new value")
        o = Obj(cls)
        present = self.cfg["present"]
        o.data = {m: w, n: v} if present else {m: w}
        op = self.cfg["op"]

        def rest(extra):
            ok = o.data.get(m) is w and set(map(id, o.data)) == set(map(id, [m] + ([n] if extra else [])))
            c.oblige("C25", TRUE if ok else FALSE, "%s: the other items are untouched" % op)
            c.oblige("C25", TRUE if not o.attrs else FALSE, "%s: attributes are stored as items only" % op)

        if op == "get":
            try:
                r = I.getattr(o, n)
                c.oblige("C25", TRUE if present and r is v else FALSE, "reading an attribute returns the item of that name")
            except PyRaise as e:
                ok = not present and e.kind == "AttributeError"
                c.oblige("C25", TRUE if ok else FALSE, "reading an attribute raises AttributeError only when the item is missing (%s)" % e.kind)
            rest(present)
        elif op == "set":
            I.setattr(o, n, u)
            c.oblige("C25", TRUE if o.data.get(n) is u else FALSE, "setting an attribute sets the item of that name")
            rest(True)
        elif op == "del":
            try:
                I.delattr(o, n)
                c.oblige("C25", TRUE if present and n not in o.data else FALSE, "deleting an attribute deletes the item of that name")
            except PyRaise as e:
                c.oblige("C25", TRUE if not present else FALSE, "deleting an attribute raises only when the item is missing (%s)" % e.kind)
            rest(False)
        elif op == "setitem":
            I.setitem(o, n, u)
            r = I.getattr(o, n)
            c.oblige("C25", TRUE if r is u else FALSE, "an attribute read after setting the item is the item")
            rest(True)
        elif op == "dir":
            d = cls.lookup("__dir__")
            if d is None:
                c.oblige("C25", FALSE, "the attributes listed are the items")
                return
            r = I.call(d, [o], {})
            if not isinstance(r, (list, tuple)):
                raise Unsupported("listing of attributes")
            ok = len(r) == len(o.data) and set(map(id, r)) == set(map(id, o.data))
            c.oblige("C25", TRUE if ok else FALSE, "the attributes listed are the items")

    HIDDEN = ("xall", "funall")

    def printing(self, cls):
        c = C()
        o = Obj(cls)
        names = self.cfg["keys"].split()
        for n in names:
            v = self.value(n)
            v.text = "<value of %s>" % n
            o.data[n] = v
        m = cls.lookup("__repr__") or cls.lookup("__str__")
        if m is None:
            c.oblige("C25", FALSE, "printing shows every item except the history arrays")
            return
        r = self.I.call(m, [o], {})
        if not isinstance(r, str):
            raise Unsupported("text of a result")
        for n in names:
            lines = [x for x in r.split("\n") if "<value of %s>" % n in x]
            if n in self.HIDDEN:
                ok = not lines
                c.oblige("C25", TRUE if ok else FALSE, "the history array %s is not printed" % n)
            else:
                ok = bool(lines) and lines[0].strip().startswith(n)
                c.oblige("C25", TRUE if ok else FALSE, "item %s is printed with its value" % n)
        c.oblige("C25", TRUE if set(o.data) == set(names) else FALSE, "printing leaves the items alone")

    def on_raise(self, e):
        C().oblige("C25", FALSE, "no %s is raised" % e.kind)


# ------------------------------------------------------------------ C22
SPEC22 = {
    "de": {"mutation": (0, 2, True, True), "recombination": (0, 1, True, True)},
    "cpso": {"inertia": (0, 1, True, True), "cognitivity": (0, 4, True, True), "sociability": (0, 4, True, True),
             "competitivity": (0, 2, True, True)},
    "pso": {"inertia": (0, 1, True, True), "cognitivity": (0, 4, True, True), "sociability": (0, 4, True, True)},
    "na": {"nrperc": (0, 1, False, True)},
    "cmaes": {"sigma": (0, None, False, False), "muperc": (0, 1, False, True)},
    "vdcma": {"sigma": (0, None, False, False), "muperc": (0, 1, False, True)},
    "mcmc": {"perc": (0, 1, True, True)},
    "hmc": {},
}
OPTM = ("de", "cpso", "pso", "na", "cmaes", "vdcma")


def modname(m):
    return "stochopy.%s.%s._%s" % ("optimize" if m in OPTM else "sample", m, m)


class Accept(Exception):
    pass


class Refuse(Run):
    """One argument is arbitrary, the others are valid: it is accepted exactly when it is in the documented range."""

    fork_errors = True

    def on_broadcast(self):
        self.accept("an array is broadcast")

    def run(self):
        c = C()
        m, what = self.cfg["method"], self.cfg["what"]
        fn = self.I.load(modname(m)).vars["minimize" if m in OPTM else "sample"]
        b = self.base()
        c.ghost["valid"] = TRUE
        self.want = "ValueError"
        self.seedval = sym("seed", "I")
        pop = m in ("de", "cpso", "pso", "na")
        kw = {"bounds": b, "args": self.extra(), "maxiter": TT, "seed": self.seedval}
        if m in OPTM:
            c.assume(le(num(6), M))
            kw["popsize"] = M
        fun = self.objective()
        names = {}
        for k, (a, z, l, r) in SPEC22[m].items():
            s = sym(k, "R")
            cond = TRUE
            if a is not None:
                cond = and_(cond, le(num(a, "R"), s) if l else lt(num(a, "R"), s))
            if z is not None:
                cond = and_(cond, le(s, num(z, "R")) if r else lt(s, num(z, "R")))
            names[k] = cond
            kw[k] = s
        valid = TRUE
        P, Q = sym("rows", "I"), sym("columns", "I")
        if what == "ranges":
            valid = and_(*names.values())
        else:
            for k in names.values():
                c.assume(k)
        if what == "popsize":
            c.pc[:] = [x for x in c.pc if x is not le(num(6), M)]
            valid = le(num(2), M)
        elif what == "nleap":
            kw["nleap"] = sym("nleap", "I")
            valid = le(ONE, kw["nleap"])
        elif what == "x0 shape":
            c.assume(le(ZERO, P))
            c.assume(le(ZERO, Q))
            if pop:
                kw["x0"] = self.array((P, Q))
                valid = and_(eq(P, M), eq(Q, N))
            else:
                kw["x0"] = self.array((P,))
                valid = eq(P, N)
        elif what == "x0 rank":
            c.assume(le(ONE, P))
            c.assume(le(ONE, Q))
            r = self.cfg["rank"]
            kw["x0"] = sym("x0", "R") if r == 0 else self.array((P, Q, sym("third", "I")) if r == 3 else (P,) if pop else (P, Q))
            valid = FALSE
        elif what == "bounds rank":
            c.assume(le(ONE, P))
            r = self.cfg["rank"]
            kw["bounds"] = sym("bound", "R") if r == 0 else self.array((P,)) if r == 1 else self.array((P, 2, 2))
            valid = FALSE
        elif what == "stepsize length":
            c.assume(le(ZERO, P))
            kw["stepsize"] = self.array((P,))
            valid = eq(P, N)
        elif what == "fun":
            fun = Opaque("not callable", callable_=False)
            valid, self.want = FALSE, "TypeError"
        elif what == "callback":
            kw["callback"] = Opaque("not callable", callable_=False)
            valid = FALSE
        elif what == "updating":
            o = Opaque("updating", callable_=False)
            im, de = sym("updating is 'immediate'", "B"), sym("updating is 'deferred'", "B")
            c.assume(not_(and_(im, de)))
            o.eq = lambda x: im if x == "immediate" else de if x == "deferred" else False
            kw["updating"] = o
            valid = or_(im, de)
        elif what == "competitivity None":
            kw["competitivity"] = None
        c.ghost["valid"] = valid
        try:
            self.I.call(fn, [fun], kw)
        except Accept:
            return
        self.accept("the call completes")

    def array(self, shape):
        a = Arr.new(shape, "f", app("userarray", tuple(BND[: len(shape) - 1]), "V") if len(shape) > 1 else sym("userarray", "V"), "userarray")
        a.buf.owner = "argument"
        return ListLike(a) if self.cfg.get("lists") else a

    def accept(self, how):
        C().oblige("C22", C().ghost["valid"], "%s only with a valid %s" % (how, self.cfg["what"]))

    def on_draw(self, kind):
        self.accept("a random number is drawn")
        raise Accept()

    def on_seed(self, seed):
        pass

    def evaluated(self, v, x):
        self.accept("the objective is evaluated")
        raise Accept()

    def on_write(self, buf):
        pass

    def on_raise(self, e):
        c = C()
        c.oblige("C22", not_(c.ghost["valid"]), "a valid %s is not refused (%s)" % (self.cfg["what"], e.kind))
        c.oblige("C22", TRUE if e.kind == self.want else FALSE, "%s is raised for an invalid %s, not %s" % (self.want, self.cfg["what"], e.kind))


# ------------------------------------------------------------------ C23
class Forward(Unit):
    """The generic entry point and PSO only forward their arguments."""

    def __init__(self, name, props, root=None, **cfg):
        Unit.__init__(self, name, props, root)
        self.cfg = cfg

    def contract(self, f):
        if not self.armed or not isinstance(f, Func):
            return None
        t = self.cfg["target"]
        if f is self.target:
            def h(I, fn, args, kwargs):
                self.calls.append(I.bind(fn, args, kwargs))
                return self.result
            return h
        return None

    def run(self):
        c = C()
        I = self.I
        self.armed = False
        self.calls, self.result = [], Opaque("result of the method", callable_=False)
        cfg = self.cfg
        m = cfg["target"]
        ent = "minimize" if m in OPTM else "sample"
        self.target = I.load(modname(m)).vars[ent]
        # registering happens when the package is imported
        pkg = I.load("stochopy.optimize" if m in OPTM else "stochopy.sample")

        def val(n):
            o = Opaque(n, callable_=True)
            return o

        a = self.target.node.args
        names = [x.arg for x in a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], self.target.defaults))
        given = {}
        if cfg["via"] == "generic":
            g = pkg.vars[ent]
            opts = {n: val(n) for n in names if n not in ("fun", "bounds", "x0", "args", "callback")}
            if cfg.get("options") == "none":
                opts = {}
            elif cfg.get("options") == "half":
                opts = {n: v for n, v in list(opts.items())[::2]}
            kw = {n: val(n) for n in ("bounds", "x0", "args", "callback")}
            if cfg.get("defaults"):
                kw = {"bounds": kw["bounds"]}
            given = dict(kw, **opts)
            kw.update(method=m)
            if opts or cfg.get("options") != "none":
                kw["options"] = opts
            snap = dict(opts)
        else:
            g = I.load(modname("pso")).vars["minimize"]
            pn = [x.arg for x in g.node.args.args]
            kw = {n: val(n) for n in pn if n != "fun"}
            if cfg.get("defaults"):
                kw = {"bounds": kw["bounds"]}
            given = dict(kw)
            opts, snap = {}, {}
            given["competitivity"] = None
            ok = sorted(n for n in names if n != "competitivity") == sorted(pn)
            c.oblige("C23", TRUE if ok else FALSE, "PSO has the options of CPSO except competitivity")
        fun = val("fun")
        given["fun"] = fun
        self.armed = True
        try:
            r = I.call(g, [fun], kw)
        finally:
            self.armed = False
        ok = len(self.calls) == 1
        c.oblige("C23", TRUE if ok else FALSE, "the method's function is called exactly once")
        c.oblige("C23", TRUE if r is self.result else FALSE, "its result is returned")
        c.oblige("C23", TRUE if opts == snap else FALSE, "the options dictionary is not modified")
        if not ok:
            return
        got = self.calls[0]
        for n in names:
            w = given[n] if n in given else defaults.get(n)
            v = got.get(n)
            same = v is w or (type(v) is type(w) and isinstance(w, (int, float, str, tuple, bool, type(None))) and v == w)
            c.oblige("C23", TRUE if same else FALSE, "parameter %s receives %s" % (n, "the given value" if n in given else "its default"))

    def on_raise(self, e):
        C().oblige("C23", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


# ------------------------------------------------------------------ C18
class Shrink(Run):
    """The 'Shrink' move on an arbitrary swarm inside an arbitrary box."""

    def base(self):
        c = C()
        Run.base(self)
        low = Arr.new((N,), "f", lam(EK, lo(EK), "f"), "lower")
        upp = Arr.new((N,), "f", lam(EK, hi(EK), "f"), "upper")
        low.buf.owner = upp.buf.owner = "bounds"
        return low, upp

    def run(self):
        c = C()
        low, upp = self.base()
        f = self.I.load("stochopy.optimize.cpso._constraints").vars["_constraints_map"]
        f = self.I.getitem(f, self.cfg["constraints"])
        sync = self.cfg["sync"]
        cons = self.I.call(f, [low, upp, sync], {})
        c.assume(le(ONE, M))

        def row(name, k):
            return app(name, (k,), "V") if sync else sym(name, "V")

        X = Arr.new((M, N) if sync else (N,), "f", row("X", BND[0]), "X")
        V = Arr.new((M, N) if sync else (N,), "f", row("V", BND[0]), "V")
        k = SK if sync else None
        if sync:
            c.assume(rng(SK, M))
        x = lambda d: elem(row("X", k), d, "f")
        v = lambda d: elem(row("V", k), d, "f")
        # every particle starts inside the bounds
        if sync:
            e = elem(app("X", (QK,), "V"), QD, "f")
            c.facts.append(Fact((QK, QD), [[e]], implies(and_(rng(QK, M), rng(QD, N)), inbounds(e, QD)), "X inside"))
        else:
            c.facts.append(Fact((QD,), [[x(QD)]], implies(rng(QD, N), inbounds(x(QD), QD)), "X inside"))
        r = self.I.call(cons, [X, V], {})
        Y, W = self.I.unpack(r)
        for a in (Y, W):
            if not isinstance(a, Arr) or a.nd != (2 if sync else 1):
                c.oblige("C18", FALSE, "the move returns positions and velocities of the shape of the swarm")
                return
            for p, q in zip(a.shape, X.shape):
                c.oblige("C18", eq(dim(p), dim(q)), "the move returns positions and velocities of the shape of the swarm")
        at = lambda a, d: a.el((k, d) if sync else (d,))
        D, J = SD, SJ
        c.assume(rng(D, N))
        c.assume(rng(J, N))
        y, w = (lambda d: at(Y, d)), (lambda d: at(W, d))
        if self.cfg["constraints"] is None:
            c.oblige("C18", and_(eq(y(D), add(x(D), v(D))), eq(w(D), v(D))), "without constraints the move is the velocity")
            return
        c.oblige("C18", inbounds(y(D), D), "the new position is inside the bounds")
        c.oblige("C18", and_(implies(le(R0, v(D)), and_(le(R0, w(D)), le(w(D), v(D)))),
                             implies(le(v(D), R0), and_(le(w(D), R0), le(v(D), w(D))))), "the velocity is scaled by a factor in [0, 1]")
        c.oblige("C18", eq(mul(w(D), v(J)), mul(w(J), v(D))), "the factor is common to all the coordinates")
        c.oblige("C18", eq(y(D), add(x(D), w(D))), "the particle moves along its new velocity")
        b = sym("factor", "R")
        c.assume(le(R0, b))
        c.assume(le(b, R1))
        e = add(x(QD), mul(b, v(QD)))
        c.facts.append(Fact((QD,), [[v(QD)], [x(QD)], [lo(QD)], [hi(QD)]], implies(rng(QD, N), inbounds(e, QD)), "a move by this factor stays inside"))
        c.oblige("C18", and_(implies(le(R0, v(D)), le(mul(b, v(D)), w(D))), implies(le(v(D), R0), le(w(D), mul(b, v(D))))),
                 "no larger factor keeps the move inside the bounds")

    def on_write(self, buf):
        if getattr(buf, "owner", None) == "bounds":
            C().oblige("C18", FALSE, "the bounds are not modified")

    def on_raise(self, e):
        C().oblige("C18", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


# ------------------------------------------------------------------ C17
DEMOD = "stochopy.optimize.de._de"
NDONORS = {"best1bin": 2, "rand1bin": 3, "best2bin": 4, "rand2bin": 5}


class Donors(Run):
    """Donor indices of one target (async) or of every target (sync)."""

    def run(self):
        c = C()
        self.base()
        c.assume(le(num(2), M))
        sync = self.cfg["sync"]
        m = self.I.load(DEMOD).vars
        f = m.get("delete_shuffle_" + ("sync" if sync else "async"))
        if f is None:
            raise Unsupported("donor selection")
        t = sym("target", "I")
        c.assume(rng(t, M))
        r = self.I.call(f, [M] if sync else [t, M], {})
        if isinstance(r, (SymSeq, list, tuple)):
            r = npm.asarr(r)
        if not isinstance(r, Arr) or r.nd != (2 if sync else 1):
            c.oblige("C17", FALSE, "the donors are an array")
            return
        a, b = SK, SJ
        at = lambda q: r.el((q, t) if sync else (q,))
        c.oblige("C17", eq(dim(r.shape[0]), sub(M, ONE)), "there are popsize - 1 donors")
        if sync:
            c.oblige("C17", eq(dim(r.shape[1]), M), "there are donors for every target")
        c.assume(rng(a, sub(M, ONE)))
        c.assume(rng(b, sub(M, ONE)))
        c.assume(lt(a, b))
        c.oblige("C17", rng(at(a), M), "a donor is a member of the population")
        c.oblige("C17", not_(eq(at(a), t)), "a donor is not the target")
        c.oblige("C17", not_(eq(at(a), at(b))), "the donors are distinct")

    def on_raise(self, e):
        C().oblige("C17", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


class Strategy(Run):
    """The mutant is the documented combination of the donors."""

    def run(self):
        c = C()
        self.base()
        s, sync = self.cfg["strategy"], self.cfg["sync"]
        nd = NDONORS[s]
        c.assume(le(num(nd + 1), M))
        f = self.I.getitem(self.I.load("stochopy.optimize.de._strategy").vars["_strategy_map"], s)
        P = sub(M, ONE)
        idx = Arr.new((unlift(P), M) if sync else (unlift(P),), "i", app("donors", (BND[0],), "V") if sync else sym("donors", "V"), "donors")
        t = SK
        if sync:
            c.assume(rng(SK, M))
        at = lambda q: idx.el((q, t) if sync else (q,))
        q = at(QK)
        if sync:
            q = idx.el((QK, QJ))
            c.facts.append(Fact((QK, QJ), [[q]], implies(and_(rng(QK, P), rng(QJ, M)), rng(q, M)), "donors are members"))
        else:
            c.facts.append(Fact((QK,), [[q]], implies(rng(QK, P), rng(q, M)), "donors are members"))
        X = Arr.new((M, N), "f", app("X", (BND[0],), "V"), "X")
        B = Arr.new((N,), "f", sym("best", "V"), "best")
        X.buf.owner = B.buf.owner = "population"
        fac = sym("mutation", "R")
        r = self.I.call(f, [idx, fac, X, B], {})
        if not isinstance(r, Arr) or r.nd != (2 if sync else 1):
            c.oblige("C17", FALSE, "the mutants have the shape of the population")
            return
        if sync:
            c.oblige("C17", eq(dim(r.shape[0]), M), "the mutants have the shape of the population")
        c.oblige("C17", eq(dim(r.shape[-1]), N), "the mutants have the shape of the population")
        d = SD
        c.assume(rng(d, N))
        x = [X.el((at(num(j)), d)) for j in range(nd)]
        b = B.el((d,))
        if s == "best1bin":
            w = add(b, mul(fac, sub(x[0], x[1])))
        elif s == "rand1bin":
            w = add(x[0], mul(fac, sub(x[1], x[2])))
        elif s == "best2bin":
            w = add(b, mul(fac, sub(add(x[0], x[1]), add(x[2], x[3]))))
        else:
            w = add(x[0], mul(fac, sub(add(x[1], x[2]), add(x[3], x[4]))))
        c.oblige("C17", eq(r.el((t, d) if sync else (d,)), w), "the mutant is given by the formula of %s" % s)

    def on_write(self, buf):
        C().oblige("C17", FALSE, "the population is not modified by the mutation")

    def on_raise(self, e):
        C().oblige("C17", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


def subterms(t):
    out, st = [], [t]
    seen = set()
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            out.append(x)
            st.extend(tm.children(x))
    return out


class Snap:
    pass


class DEStep(Run):
    """One iteration of DE from an arbitrary population, with an arbitrary mutant."""

    def contract(self, f):
        if isinstance(f, Func) and f.name in ("delete_shuffle_sync", "delete_shuffle_async"):
            # verified by the Donors units
            def h(I, fn, args, kwargs):
                c = C()
                b = I.bind(fn, args, kwargs)
                vals = list(b.values())
                c.nfresh += 1
                P = sub(M, ONE)
                if f.name.endswith("_sync"):
                    c.oblige("C17", eq(lift(vals[0]), M), "donors are drawn for the whole population")
                    r = Arr.new((unlift(P), M), "i", app("donors", (BND[0], num(c.nfresh)), "V"), "donors")
                    q = r.el((QK, QJ))
                    c.facts.append(Fact((QK, QJ), [[q]], implies(and_(rng(QK, P), rng(QJ, M)), rng(q, M)), "donors are members"))
                    c.donors = (r, None)
                else:
                    c.oblige("C17", eq(lift(vals[1]), M), "donors are drawn from the whole population")
                    r = Arr.new((unlift(P),), "i", app("donors", (num(c.nfresh),), "V"), "donors")
                    q = r.el((QK,))
                    c.facts.append(Fact((QK,), [[q]], implies(rng(QK, P), rng(q, M)), "donors are members"))
                    t = lift(vals[0])
                    c.oblige("C17", rng(t, M), "the target is a member")
                    self.settle()
                    c.donors = (r, t)
                return r
            return h
        return None

    def run(self):
        c = C()
        cfg = self.cfg
        b = self.base()
        sync = cfg["sync"]
        c.assume(le(num(6), M))
        m = self.I.load(DEMOD).vars
        f = m.get("de_sync" if sync else "de_async")
        if f is None:
            raise Unsupported("iteration of DE")
        low = Arr.new((N,), "f", lam(EK, lo(EK), "f"), "lower")
        upp = Arr.new((N,), "f", lam(EK, hi(EK), "f"), "upper")
        cons = self.I.call(self.I.getitem(self.I.load("stochopy.optimize.de._constraints").vars["_constraints_map"], cfg["constraints"]), [low, upp], {})
        X = Arr.new((M, N), "f", app("X", (BND[0],), "V"), "X")
        U = Arr.new((M, N), "f", app("U", (BND[0],), "V"), "U")
        G = Arr.new((N,), "f", sym("gbest", "V"), "gbest")
        pf = Arr.new((M,), "f", sym("pbestfit", "V"), "pbestfit")
        pc = Arr.new((M,), "f", sym("pfit", "V"), "pfit")
        r1 = Arr.new((M, N), "f", app("r1", (BND[0],), "V"), "r1")
        self.X, self.pf, self.G = X, pf, G
        self.fac = sym("mutation", "R")
        c.mutant = c.trial = c.snap = None
        c.donors = None
        gfit = app("vmin", (pf.vec(), M), "R")
        st = {"it": sym("it", "I"), "X": X, "U": U, "gbest": G, "pbestfit": pf, "gfit": gfit, "pfit": pc, "F": self.fac,
              "CR": self.real("recombination", 0, 1), "r1": r1, "maxiter": TT, "xtol": sym("xtol", "R"), "ftol": sym("ftol", "R"),
              "fun": Opaque("objective", self.evaluate), "mut": Opaque("strategy", self.mutate), "cons": cons}
        c.assume(le(num(2), st["it"]))
        r = self.I.call(f, [], st)
        if sync:
            c.oblige("C17", TRUE if c.trial is not None else FALSE, "the trials are evaluated")
        self.settle()
        r = list(self.I.unpack(r))
        if sync:
            c.oblige("C17", TRUE if r[0] is X or isinstance(r[0], Arr) and r[0].buf is X.buf else FALSE, "the population is updated in place")

    def real(self, name, a, b):
        s = sym(name, "R")
        C().assume(and_(le(num(a, "R"), s), le(s, num(b, "R"))))
        return s

    def mutate(self, I, a, k):
        c = C()
        idx, fac, X, best = (list(a) + [k.get("gbest")])[:4] if len(a) < 4 else a
        if c.donors is None:
            raise Unsupported("donors of unknown origin")
        if idx is not c.donors[0]:
            raise Unsupported("donors of unknown origin")
        ok = fac is self.fac
        c.oblige("C17", TRUE if ok else FALSE, "the strategy receives the mutation constant")
        ok = isinstance(X, Arr) and X.nd == 2
        if not ok:
            raise Unsupported("population given to the strategy")
        c.oblige("C17", implies(and_(rng(SK, M), rng(SD, N)), eq(X.el((SK, SD)), self.X.el((SK, SD)))), "the strategy receives the current population")
        if not isinstance(best, Arr) or best.nd != 1:
            raise Unsupported("best point given to the strategy")
        c.nfresh += 1
        sync = self.cfg["sync"]
        V = app("mutant", ((BND[0],) if sync else ()) + (num(c.nfresh),), "V")
        r = Arr.new((M, N) if sync else (N,), "f", V, "mutant")
        s = Snap()
        s.X, s.pf, s.V, s.t = self.X.copy(), self.pf.copy(), r.copy(), c.donors[1]
        c.snap, c.trial = s, None
        return r

    def evaluate(self, I, a, k):
        c = C()
        u = a[0]
        sync = self.cfg["sync"]
        s = c.snap
        if s is None or not isinstance(u, Arr) or u.nd != (2 if sync else 1):
            raise Unsupported("evaluation of a trial")
        t = SK if sync else s.t
        at = (lambda d: u.el((t, d))) if sync else (lambda d: u.el((d,)))
        mu = (lambda d: s.V.el((t, d))) if sync else (lambda d: s.V.el((d,)))
        x = lambda d: s.X.el((t, d))
        g = and_(rng(t, M), rng(SD, N))

        def fits(d, v):
            r = eq(at(d), v)
            if self.cfg["constraints"] == "Random":
                r = or_(and_(r, inbounds(v, d)), and_(not_(inbounds(v, d)), inbounds(at(d), d)))
            return r

        c.oblige("C17", implies(g, or_(fits(SD, x(SD)), fits(SD, mu(SD)))),
                 "a trial takes every coordinate from its target or from the mutant" + (", infeasible ones replaced inside the bounds"
                                                                                        if self.cfg["constraints"] else ""))
        # at least one: the witnesses are the random integers of the trial
        ws = [w for w in subterms(at(SD)) if w.sort == "I" and w.op in ("app", "sym") and
              (w.name.startswith("rnd_") or w.op == "app" and w.name == "ati" and getattr(w.args[0], "name", "").startswith(("rnd_", "rperm")))]
        ws += [ZERO, sub(N, ONE)]
        c.oblige("C17", implies(rng(t, M), or_(*[and_(rng(w, N), fits(w, mu(w))) for w in ws])), "a trial takes at least one coordinate from the mutant")
        # from here on the trial is an arbitrary point
        c.nfresh += 1
        npm.assign(u, Arr.new(u.shape, "f", app("trial", ((BND[0],) if sync else ()) + (num(c.nfresh),), "V"), "trial"))
        s.u = u.copy()
        c.trial = s
        if sync:
            c.oblige("C17", eq(dim(u.shape[0]), M), "there is one trial for each member")
            return Arr.new((M,), "f", lam(QK, F(s.u.vec((QK,))), "f"))
        s.f = F(u.vec())
        return s.f

    def settle(self):
        """Survivors of the last comparison."""
        c = C()
        s = c.trial
        if s is None:
            return
        X, pf = self.X, self.pf
        k, d = SK, SD
        g = and_(rng(k, M), rng(d, N))
        sync = self.cfg["sync"]
        f = F(s.u.vec((k,))) if sync else s.f
        u = s.u.el((k, d)) if sync else s.u.el((d,))
        old = and_(eq(X.el((k, d)), s.X.el((k, d))), eq(pf.el((k,)), s.pf.el((k,))))
        new = and_(eq(X.el((k, d)), u), eq(pf.el((k,)), f), le(f, s.pf.el((k,))))
        if not sync:
            new = and_(eq(k, s.t), new)
        c.oblige("C17", implies(g, or_(old, new)), "a member is kept, or replaced by a trial whose value is not higher")
        c.oblige("C17", implies(rng(k, M), le(pf.el((k,)), s.pf.el((k,)))), "no member's value increases")
        if sync:
            c.oblige("C17", implies(rng(k, M), le(pf.el((k,)), f)), "a member is not kept against a better trial")
        else:
            c.oblige("C17", le(pf.el((s.t,)), s.f), "a member is not kept against a better trial")
        c.trial = None

    def on_backedge(self, head):
        self.settle()

    def templates(self, info, si, head):
        return []

    def on_raise(self, e):
        C().oblige("C17", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


class DEWire(Run):
    """A whole run hands its options over to the iteration."""

    def contract(self, f):
        if not (isinstance(f, Func) and f.name in ("de_sync", "de_async") and f.mod.name == DEMOD):
            return None

        def h(I, fn, args, kwargs):
            c = C()
            b = I.bind(fn, args, kwargs)
            sync = self.cfg["updating"] == "deferred" or self.cfg.get("workers", 1) != 1 or self.cfg.get("backend") == "mpi"
            c.oblige("C17", TRUE if (fn.name == "de_sync") == sync else FALSE, "deferred runs and parallel runs update synchronously")
            for k, v, t in (("F", self.kw["mutation"], "mutation constant"), ("CR", self.kw["recombination"], "recombination constant"),
                            ("mut", self.mut, "strategy")):
                if k not in b:
                    raise Unsupported("arguments of the iteration")
                c.oblige("C17", TRUE if b[k] is v else FALSE, "the iteration uses the given %s" % t)
            for k, sh in (("X", (M, N)), ("U", (M, N)), ("pbestfit", (M,)), ("gbest", (N,)), ("r1", (M, N))):
                a = b.get(k)
                if not isinstance(a, Arr) or a.nd != len(sh):
                    raise Unsupported("arguments of the iteration")
                for p, q in zip(a.shape, sh):
                    c.oblige("C17", eq(dim(p), dim(q)), "the iteration works on the population")
            c.oblige("C17", TRUE if b["U"].buf is not b["X"].buf else FALSE, "trials are kept apart from the population")
            self.seen = True
            raise PathEnd()
        return h

    def run(self):
        c = C()
        f = self.I.load(DEMOD).vars["minimize"]
        st = self.cfg["strategy"]
        self.mut = self.I.getitem(self.I.load("stochopy.optimize.de._strategy").vars["_strategy_map"], st)
        b = self.base()
        c.assume(le(num(NDONORS[st] + 1), M))
        m, r = sym("mutation", "R"), sym("recombination", "R")
        c.assume(and_(le(R0, m), le(m, num(2, "R"))))
        c.assume(and_(le(R0, r), le(r, R1)))
        self.kw = {"bounds": b, "maxiter": TT, "popsize": M, "mutation": m, "recombination": r, "strategy": st, "args": self.extra(),
                   "updating": self.cfg["updating"], "constraints": self.cfg["constraints"]}
        for k in ("workers", "backend"):
            if k in self.cfg:
                self.kw[k] = self.cfg[k]
        self.I.call(f, [self.objective()], self.kw)
        # the runs that stop before the first iteration
        c.oblige("C17", le(TT, ONE), "a run with maxiter above 1 iterates")

    def on_write(self, buf):
        pass

    def on_raise(self, e):
        C().oblige("C17", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


# ------------------------------------------------------------------ C19
CPMOD = "stochopy.optimize.cpso._cpso"


class RestartStep(Run):
    """A competitive restart of an arbitrary swarm."""

    def run(self):
        c = C()
        solver.OPTS["hitperm"] = True
        self.base()
        c.assume(le(num(2), M))
        f = self.I.load(CPMOD).vars.get("restart")
        if f is None:
            raise Unsupported("restart")
        low = Arr.new((N,), "f", lam(EK, lo(EK), "f"), "lower")
        upp = Arr.new((N,), "f", lam(EK, hi(EK), "f"), "upper")
        X = Arr.new((M, N), "f", app("X", (BND[0],), "V"), "X")
        V = Arr.new((M, N), "f", app("Vel", (BND[0],), "V"), "V")
        P = Arr.new((M, N), "f", app("pbest", (BND[0],), "V"), "pbest")
        pf = Arr.new((M,), "f", sym("pbestfit", "V"), "pbestfit")
        G = Arr.new((N,), "f", sym("gbest", "V"), "gbest")
        low.buf.owner = upp.buf.owner = "bounds"
        G.buf.owner = "best point"
        o = [a.copy() for a in (X, V, P, pf)]
        c.facts.append(Fact((QK,), [[pf.el((QK,))]], implies(rng(QK, M), lt(pf.el((QK,)), INF)), "the personal bests have been evaluated"))
        g, delta, it = sym("competitivity", "R"), sym("delta", "R"), sym("it", "I")
        c.assume(and_(le(R0, g), le(g, num(2, "R"))))
        c.assume(and_(le(num(2), it), lt(it, TT)))
        st = {"it": it, "X": X, "V": V, "pbest": P, "gbest": G, "pbestfit": pf, "lower": low, "upper": upp, "gamma": g, "delta": delta,
              "maxiter": TT}
        r = self.I.unpack(self.I.call(f, [], st))
        if len(r) != 4 or not all(isinstance(a, Arr) for a in r):
            c.oblige("C19", FALSE, "the swarm is returned")
            return
        for a, b in zip(r, o):
            if a.nd != b.nd:
                c.oblige("C19", FALSE, "the swarm keeps its shape")
                return
            for p, q in zip(a.shape, b.shape):
                c.oblige("C19", eq(dim(p), dim(q)), "the swarm keeps its shape")
        x, v, p, h = r
        k, j, d = SK, SJ, SD
        for z, n in ((k, M), (j, M), (d, N)):
            c.assume(rng(z, n))
        R = lambda q: eq(h.el((q,)), INF)
        same = and_(*[eq(a.el((k, d)), b.el((k, d))) for a, b in zip((x, v, p), o)], eq(h.el((k,)), o[3].el((k,))))
        c.oblige("C19", or_(R(k), same), "a particle that is not restarted is left untouched")
        c.oblige("C19", implies(R(k), inbounds(x.el((k, d)), d)), "a restarted particle gets a position inside the bounds")
        c.oblige("C19", implies(R(k), inbounds(p.el((k, d)), d)), "the personal best of a restarted particle lies inside the bounds")
        c.oblige("C19", implies(R(k), eq(v.el((k, d)), R0)), "a restarted particle has zero velocity")
        c.oblige("C19", implies(and_(R(k), not_(R(j))), le(o[3].el((j,)), o[3].el((k,)))), "only the worst particles restart")
        b = o[3].vec()
        a = Arr.new((M,), "f", b)
        ws = [lift(npm.argsort(a).el((ZERO,))), lift(npm.argmin(a))] if hasattr(npm, "argmin") else [lift(npm.argsort(a).el((ZERO,)))]
        c.oblige("C19", or_(*[and_(rng(w, M), not_(R(w))) for w in ws]), "at least one particle is not restarted")

    def on_write(self, buf):
        C().oblige("C19", FALSE, "the %s is not modified" % buf.owner)

    def on_raise(self, e):
        C().oblige("C19", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


# ------------------------------------------------------------------ C13
class Batch(Run):
    """The objective wrapper of the optimizers on an arbitrary population."""

    def mpi_rank(self):
        return self.rank

    def mpi_size(self):
        return self.size

    def on_batch(self, k, n, events):
        if not events:
            return
        c = C()
        if c.binders:
            raise Unsupported("nested batch of evaluations")
        for e in events:
            self.batches.append((k, lift(n), e.v))

    def batch(self, k, n, v):
        self.batches.append((None, ONE, v))

    def run(self):
        c = C()
        cfg = self.cfg
        self.base()
        self.rank, self.size = sym("mpi rank", "I"), sym("mpi size", "I")
        c.assume(le(ZERO, self.rank))
        c.assume(lt(self.rank, self.size))
        self.batches = []
        self.ran = 0
        opt = self.I.load("stochopy.optimize._common").vars["optimizer"]
        stub = Opaque("optimizer body", self.body)
        d = self.I.call(opt, [stub], {})
        sync, b = cfg["sync"], cfg["backend"]
        if b == "unknown":
            b = Opaque("unknown backend", callable_=False)
            b.eq = lambda x: x is b
            b.truth = TRUE
        self.workers = w = sym("workers", "I")
        if cfg.get("workers") == "several":
            c.assume(and_(not_(eq(w, ZERO)), not_(eq(w, ONE))))
        self.tail = (Opaque("option 1", callable_=False), Opaque("option 2", callable_=False))
        r = self.I.call(d, [self.objective(), self.extra(), sync, w, b] + list(self.tail), {})
        c.oblige("C13", TRUE if cfg["backend"] != "unknown" else FALSE, "an unknown backend is refused")
        c.oblige("C13", TRUE if self.ran == 1 else FALSE, "the optimizer runs exactly once")
        c.oblige("C13", TRUE if r is self.res else FALSE, "its result is returned")

    def body(self, I, a, k):
        c = C()
        self.ran = 1
        if self.cfg["backend"] == "unknown":
            c.oblige("C13", FALSE, "an unknown backend is refused before any work")
            raise PathEnd()
        ok = len(a) == 7 and not k and all(x is y for x, y in zip(a[5:], self.tail)) and a[2] is self.cfg["sync"]
        c.oblige("C13", TRUE if ok else FALSE, "the arguments of the optimizer are passed on")
        self.res = Opaque("result", callable_=False)
        fun = a[0]
        X = Arr.new((M, N), "f", app("X", (BND[0],), "V"), "X")
        c.assume(le(ONE, M))
        self.batches.clear()
        r = I.call(fun, [X], {})
        self.check(r, X)
        if not self.cfg["sync"]:
            self.batches.clear()
            x = Arr.new((N,), "f", sym("x", "V"), "x")
            r = I.call(fun, [x], {})
            ok = len(self.batches) == 1
            c.oblige("C13", TRUE if ok else FALSE, "a single point is evaluated exactly once")
            if is_scalar(r):
                c.oblige("C13", eq(toreal(lift(r)), F(x.vec())), "the value of a single point is the objective at this point")
            else:
                c.oblige("C13", FALSE, "the value of a single point is a number")
        return self.res

    def check(self, r, X):
        c = C()
        if isinstance(r, (list, tuple, SymSeq)):
            c.oblige("C13", FALSE, "the values of a population are an array")
            return
        if not isinstance(r, Arr) or r.nd != 1:
            c.oblige("C13", FALSE, "the values of a population are an array")
            return
        c.oblige("C13", eq(dim(r.shape[0]), M), "there is one value for each member")
        c.oblige("C13", TRUE if r.dtype == "f" else FALSE, "the values are real numbers")
        c.oblige("C13", implies(rng(SK, M), eq(toreal(r.el((SK,))), F(app("X", (SK,), "V")))), "the value of a member is the objective at this member")
        c.oblige("C13", implies(and_(rng(SK, M), rng(SD, N)), eq(X.el((SK, SD)), elem(app("X", (SK,), "V"), SD, "f"))), "the population is not modified")
        if len(self.batches) != 1 or self.batches[0][0] is None:
            raise Unsupported("evaluations of a population")
        k, n, v = self.batches[0]
        v = tm.subst(v, {k: SJ})
        if self.cfg["backend"] == "mpi" :
            # process r evaluates members r, r + size, ...
            c.oblige("C13", and_(le(ZERO, n), implies(rng(SJ, n), and_(rng(add(self.rank, mul(SJ, self.size)), M),
                     eq(elem(v, SD, "f"), elem(app("X", (add(self.rank, mul(SJ, self.size)),), "V"), SD, "f"))))),
                     "each process evaluates the members of its own residue class")
            c.oblige("C13", le(M, add(self.rank, mul(n, self.size))), "each process evaluates all the members of its residue class")
        else:
            c.oblige("C13", eq(n, M), "each member is evaluated exactly once")
            c.oblige("C13", implies(and_(rng(SJ, M), rng(SD, N)), eq(elem(v, SD, "f"), elem(app("X", (SJ,), "V"), SD, "f"))), "the members are evaluated in order")

    def on_write(self, buf):
        pass

    def on_raise(self, e):
        c = C()
        if self.cfg["backend"] == "unknown":
            c.oblige("C13", TRUE if e.kind == "ValueError" and not self.ran else FALSE, "an unknown backend is refused with ValueError")
            self.mark()
        else:
            c.oblige("C13", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


class Sync(Run):
    """Runs in parallel update synchronously, and the optimizer itself does not look at the workers or the backend."""

    def contract(self, f):
        if f is not self.decorated:
            return None

        def h(I, fn, args, kwargs):
            c = C()
            if kwargs or len(args) < 5:
                raise Unsupported("call of the optimizer")
            sync, w, b = args[2:5]
            c.oblige("C13", TRUE if args[1] == self.kw["args"] or args[1] is self.kw["args"] else FALSE, "the extra arguments are passed on")
            c.oblige("C13", TRUE if args[0] is self.fun else FALSE, "the objective is passed on")
            c.oblige("C13", TRUE if b is self.kw["backend"] else FALSE, "the backend is passed on")
            if self.cfg["method"] in ("de", "cpso"):
                par = or_(TRUE if self.cfg["backend"] == "mpi" else FALSE, not_(or_(eq(self.workers, ZERO), eq(self.workers, ONE))))
                want = or_(par, TRUE if self.cfg["updating"] == "deferred" else FALSE)
            else:
                want = TRUE
            s = self.I.truthterm(sync)
            c.oblige("C13", tm.eq(lift(s), want), "parallel runs update synchronously, serial ones as asked")
            c.oblige("C13", eq(lift(w), self.workers), "the number of workers is passed on")
            self.mark()
            raise PathEnd()
        return h

    decorated = None

    def run(self):
        c = C()
        m = self.cfg["method"]
        mod = self.I.load(modname(m)).vars
        self.decorated = mod.get(m)
        if not isinstance(self.decorated, Func):
            raise Unsupported("optimizer")
        b = self.base()
        c.assume(le(num(6), M))
        self.workers = sym("workers", "I")
        self.fun = self.objective()
        self.kw = {"bounds": b, "maxiter": TT, "popsize": M, "args": self.extra(), "workers": self.workers, "backend": self.cfg["backend"]}
        if m in ("de", "cpso"):
            self.kw["updating"] = self.cfg["updating"]
        self.I.call(mod["minimize"], [self.fun], self.kw)
        c.oblige("C13", FALSE, "the optimizer is called")

    def on_raise(self, e):
        C().oblige("C13", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))


class Taint(Opaque):
    """An argument the code may pass on but must not look at."""

    def eq(self, x):
        C().oblige("C13", FALSE, "the optimizer does not depend on its %s" % self.name)
        raise PathEnd()

    @property
    def truth(self):
        return self.eq(None)

    isnone = truth


class Blind(Sync):
    """The body of an optimizer gets its values from the wrapped objective alone."""

    def contract(self, f):
        if f is not self.decorated:
            return None

        def h(I, fn, args, kwargs):
            raw = [v for fr in (f.parent,) if fr is not None for v in fr.vars.values() if isinstance(v, Func) and v.mod.name == modname(self.cfg["method"])]
            if len(raw) != 1 or kwargs or len(args) < 5:
                raise Unsupported("body of the optimizer")
            w, b = Taint("workers", callable_=False), Taint("backend", callable_=False)
            self.I.call(raw[0], [Opaque("wrapped objective", self.wrapped), Taint("extra arguments", callable_=False), True, w, b] + list(args[5:]), {})
            C().oblige("C13", TRUE, "the optimizer does not depend on its workers or backend")
            self.mark()
            raise PathEnd()
        return h

    def wrapped(self, I, a, k):
        c = C()
        x = a[0]
        if len(a) != 1 or k:
            c.oblige("C13", FALSE, "the wrapped objective takes the population only")
            raise PathEnd()
        if not isinstance(x, Arr) or x.nd != 2:
            raise Unsupported("argument of the wrapped objective")
        if c.binders:
            raise Unsupported("nested batch of evaluations")
        c.oblige("C13", TRUE, "populations are evaluated by the wrapped objective")
        return Arr.new((x.shape[0],), "f", lam(QK, F(x.vec((QK,))), "f"))

    def evaluated(self, v, x):
        C().oblige("C13", FALSE, "populations are evaluated by the wrapped objective only")


# ------------------------------------------------------------------ C15
class Gradient(Run):
    """Finite differences of the objective at an arbitrary point."""

    deep = True
    wantprev = False

    def run(self):
        c = C()
        self.base()
        f = self.I.load("stochopy.sample.hmc._hmc").vars.get("numerical_gradient")
        if f is None:
            raise Unsupported("the function computing the finite differences is not found")
        h = sym("h", "R")
        c.assume(lt(R0, h))
        x = Arr.new((N,), "f", sym("x", "V"), "x")
        x.buf.owner = "point"
        r = self.I.call(f, [x, self.objective(), self.extra(), h], {})
        if not isinstance(r, Arr) or r.nd != 1:
            c.oblige("C15", FALSE, "the gradient is a vector")
            return
        c.oblige("C15", eq(dim(r.shape[0]), N), "the gradient has one component per coordinate")
        d = SD
        c.assume(rng(d, N))
        c.oblige("C15", eq(mul(mul(num(2, "R"), h), r.el((d,))), self.diff(d, h)), "each component is the central difference of the objective")
        c.oblige("C15", eq(x.el((d,)), elem(sym("x", "V"), d, "f")), "the point is not modified")

    def diff(self, d, h):
        x = sym("x", "V")
        at = lambda s: F(lam(EK, add(elem(x, EK, "f"), ite(eq(EK, d), s, R0)), "f"))
        return sub(at(h), at(tm.neg(h)))

    def batch(self, k, n, v):
        pass

    def on_batch(self, k, n, events):
        pass

    def on_write(self, buf):
        if buf.owner is not None:
            C().oblige("C15", FALSE, "the point is not modified in place")

    def on_raise(self, e):
        C().oblige("C15", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))

    def templates(self, info, si, head):
        from .driver import Cand, nm, scalar_slots
        from .runs import arr_slots
        out = []
        h = sym("h", "R")
        x = sym("x", "V")
        cnt = scalar_slots(info, head, "I")
        for s, a, m in arr_slots(info, head):
            if not m or a.nd != 1 or a.dtype != "f":
                continue
            out.append(Cand("%s == x" % nm(s), (QD,), lambda e, s=s: (implies(rng(QD, N), eq(e[s].el((QD,)), elem(x, QD, "f"))), [[e[s].el((QD,))]]), 1))
            for s2, v2 in cnt:
                for nme, sc in (("1", R1), ("2h", mul(num(2, "R"), h)), ("2", num(2, "R")), ("h", h)):
                    out.append(Cand("%s*%s[k<%s] central" % (nme, nm(s), nm(s2)), (QD,),
                                    lambda e, s=s, s2=s2, sc=sc: (implies(rng(QD, lift(e[s2])), eq(mul(sc, e[s].el((QD,))), self.diff(QD, h))), [[e[s].el((QD,))]]), 2))
        return out
