"""Contract of the NA resampling: every new model lies in the Voronoi cell of one of the best models."""
from . import npm, solver
from . import terms as tm
from .core import BND, C, EK, Arr, Unsupported, dim, lift, unlift, ONE, ZERO
from .driver import Cand, nm, scalar_slots
from .runs import M, N, QD, QK, R0, R1, Run, SD, arr_slots, isdim, rng
from .solver import Fact
from .terms import FALSE, TRUE, add, and_, app, elem, eq, implies, ite, lam, le, lt, mul, not_, num, or_, sub, sym, toreal

NAMOD = "stochopy.optimize.na._na"
ROW, MOD, K, NR = sym("$row", "I"), sym("$model", "I"), sym("nmodels", "I"), sym("nr", "I")


def sq(x):
    return npm.square(x)


def simpl(d, lo, hi):
    """Simplifier under lo <= d <= hi for an integer term d without constant part."""
    base = tm._poly(d)
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        r = t
        if t.op in ("le0", "eq0") and t.args[0].sort == "I":
            p = dict(tm._poly(t.args[0]))
            k = p.pop((), 0)
            if p.keys() == base.keys():
                q = {p[m] / base[m] for m in p}
                if len(q) == 1:
                    q = q.pop()
                    a, b = ((q * x + k if x is not None else None) for x in ((lo, hi) if q > 0 else (hi, lo)))
                    if t.op == "le0":
                        r = TRUE if b is not None and b <= 0 else FALSE if a is not None and a > 0 else t
                    else:
                        r = FALSE if (a is not None and a > 0) or (b is not None and b < 0) else TRUE if a == b == 0 else t
        if r is t and tm.children(t):
            r = tm.rebuild(t, go)
            for _ in range(4):
                # unfolding a definition brings new conditions
                if r is t or r in memo or not tm.children(r):
                    break
                s, r = r, tm.rebuild(r, go)
                if r is s:
                    break
        memo[t] = r
        return r

    return go


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def subterms(ts):
    """All subterms, in order of occurrence."""
    st, seen = list(reversed(ts)), {}
    while st:
        t = st.pop()
        if t not in seen:
            seen[t] = None
            st.extend(reversed(tm.children(t)))
    return list(seen)


def tm_syms(t):
    return [x for x in subterms([t]) if x.op == "sym"]


_valid = {}


def polyvalid(l):
    """Validity over the reals of a formula whose only quotient has a nonzero denominator where it matters."""
    r = _valid.get(l)
    if r is None:
        m = {}
        x = l
        for t in subterms([l]):
            if t.op == "id":
                m[t] = t.args[0]
        x = tm.replace(x, m)
        ats = {}
        for t in subterms([x]):
            if t.op == "app":
                ats.setdefault(t, sym("$v%d" % len(ats), "R"))
        x = tm.replace(x, ats)
        hy = [implies(not_(eq(t.args[1], num(0, "R"))), eq(mul(t, t.args[1]), t.args[0])) for t in subterms([x]) if t.op == "div"]
        dd = {t: sym("$q%d" % i, "R") for i, t in enumerate(t for t in subterms([x]) if t.op == "div")}
        x = tm.replace(implies(and_(*hy), x), dd)
        z, s = solver.Z(False), solver.z3.SolverFor("QF_NRA")
        s.set("timeout", 5000)
        s.add(solver.z3.Not(z.tr(x)))
        solver.STATS["queries"] += 1
        r = _valid[l] = s.check() == solver.z3.unsat
    return r


class Cell(Run):
    deep = True
    wantprev = False

    def run(self):
        c = C()
        solver.OPTS["sumdiff"] = True
        self.base()
        c.assume(and_(le(num(2), M), le(M, K), le(ONE, NR), le(NR, M), rng(ROW, M), rng(MOD, K)))
        f = self.I.load(NAMOD).vars.get("mutation")
        if f is None or [a.arg for a in f.node.args.args] != ["Xall", "Xallfit", "popsize", "ndim", "nr", "span_mask"]:
            raise Unsupported("mutation")
        XA = self.XA = Arr.new((K, N), "f", app("Xall", (BND[0],), "V"), "Xall")
        fit = Arr.new((K,), "f", sym("Xallfit", "V"), "Xallfit")
        mask = Arr.new((N,), "b", sym("span_mask", "V"), "span_mask")
        for a in (XA, fit, mask):
            a.buf.owner = "archive"
        x = XA.el((QK, QD))
        g = and_(rng(QK, K), rng(QD, N))
        c.facts.append(Fact((QK, QD), [[x]], implies(g, and_(le(R0, x), le(x, R1))), "the models lie in the box"))
        c.facts.append(Fact((QK, QD), [[x]], implies(and_(g, not_(mask.el((QD,)))), eq(x, R0)), "fixed coordinates are zero"))
        self.mask = mask
        self.best = lambda row: elem(app("asort", (fit.vec(), K), "V"), tm.mod(row, NR), "i")
        r = self.I.call(f, [XA, fit, M, N, NR, mask], {})
        P = "C20"
        if not isinstance(r, Arr) or r.nd != 2:
            c.oblige(P, FALSE, "a population is returned")
            return
        c.oblige(P, and_(eq(dim(r.shape[0]), M), eq(dim(r.shape[1]), N)), "the population has popsize models")
        c.oblige(P, le(self.dist(r, self.best(ROW), ROW), self.dist(r, MOD, ROW)), "a new model is closer to one of the best models than to any other model")
        y = r.el((ROW, SD))
        c.assume(rng(SD, N))
        c.oblige(P, and_(le(R0, y), le(y, R1)), "a new model lies inside the bounds")
        c.oblige(P, implies(not_(mask.el((SD,))), eq(y, R0)), "fixed coordinates stay fixed")

    def term(self, X, m, d, row):
        return sq(sub(self.XA.el((m, d)), X.el((row, d))))

    def dist(self, X, m, row):
        return app("vsum", (lam(EK, self.term(X, m, EK, row), "f"), N), "R")

    def sumprove(self, g, hyps, facts):
        """The model comes before or after the best model of the row, or is this model."""
        ds = [sub(MOD, t) for t in subterms([g]) if t.op == "app" and t.name == "ati" and t.args[0].op == "app" and t.args[0].name == "asort"]
        if len(ds) != 1:
            return super().sumprove(g, hyps, facts)
        d = ds[0]
        for lo, hi, h in ((None, -1, lt(d, ZERO)), (1, None, lt(ZERO, d)), (0, 0, eq(d, ZERO))):
            f = simpl(d, lo, hi)
            hs = [f(x) for x in hyps] + [h]
            fs = [Fact(x.vars, [[f(p) for p in pl] for pl in x.pats], f(x.body), x.name) for x in facts]
            fg = f(g)
            if not super().sumprove(fg, hs + self.cuts(fg, hs, f, sub(MOD, d), MOD if hi == -1 else sub(MOD, ONE)), fs):
                return False
        return True

    def cuts(self, g, hs, f, b, k):
        """The limit between two models on an axis is where the distances to them are equal (each instance is proved)."""
        xs = [t for t in tm_syms(g) if t.sort == "R" and t.name.startswith("rnd")]
        js = [t for t in tm_syms(g) if t.sort == "I" and "$i" in t.name]
        out = []
        ext = [t for t in subterms(hs) if t.op == "app" and t.name in ("mmin", "mmax")]
        for t in ext:
            e = f(elem(t.args[0], k, "f"))
            pe = tm._poly(e)
            dv = [m for m in pe if len(m) == 1 and m[0].op == "div"]
            if len(dv) != 1:
                continue
            D = dv[0][0]
            ys = list(xs)
            at = f(elem(t.args[1], k, "b"))
            for c in subterms([at]):
                if c.op in ("le0", "lt0") and dv[0] in tm._poly(c.args[0]):
                    y = sub(e, tm.scale(pe[dv[0]] / tm._poly(c.args[0])[dv[0]], c.args[0]))
                    if y not in ys:
                        ys.append(y)
            for j in js:
                a, u = self.XA.el((b, j)), self.XA.el((MOD, j))
                q, r = tm._poly(sub(a, u)), tm._poly(D.args[1])
                kap = {r[m] / q[m] for m in r if m in q}
                if r.keys() != q.keys() or len(kap) != 1:
                    continue
                p = tm.scale(2 * pe[dv[0]] / kap.pop(), D.args[0])
                for y in ys:
                    near = le(add(sq(sub(a, y)), p), sq(sub(u, y)))
                    for l in (implies(lt(u, a), iff(le(e, y), near)), implies(lt(a, u), iff(le(y, e), near))):
                        if l not in out and polyvalid(l):
                            out.append(l)
        return out

    def on_write(self, buf):
        C().oblige("C20", FALSE, "the archive of models is not modified")

    def on_raise(self, e):
        C().oblige("C20", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))

    def templates(self, info, si, head):
        out = []
        cnt = [s for s, v in head.env.items() if s[0] == "v" and s[2].startswith("$i")]
        pops = [s for s, a, m in arr_slots(info, head) if a.nd == 2 and a.dtype == "f" and isdim(a.shape[0], M) and isdim(a.shape[1], N) and m]
        sc = scalar_slots(info, head, "R")
        vecs = [(s, a) for s, a, m in arr_slots(info, head) if m and a.nd == 1 and a.dtype == "f"]
        if not cnt:
            return out
        I_, B_ = lambda e, i: lift(e[i]), lambda e, i: self.best(lift(e[i]))
        U = lambda b: ite(lt(MOD, b), MOD, sub(MOD, ONE))
        for X in pops:
            for i in cnt:
                def done(e, X=X, i=i):
                    return implies(lt(ROW, lift(e[i])), le(self.dist(e[X], self.best(ROW), ROW), self.dist(e[X], MOD, ROW))), []
                out.append(Cand("row < %s: in its cell" % nm(i), (), done, 4))

                def box(e, X=X, i=i):
                    x = e[X].el((ROW, QD))
                    return implies(and_(lt(ROW, lift(e[i])), rng(QD, N)), and_(le(R0, x), le(x, R1), or_(self.mask.el((QD,)), eq(x, R0)))), [[x]]
                out.append(Cand("row < %s: in the box" % nm(i), (QD,), box, 1))
                for j in cnt:
                    if j not in info.mod or i in info.mod:
                        continue

                    def cell(e, X=X, i=i):
                        r, b = I_(e, i), B_(e, i)
                        return le(self.dist(e[X], b, r), self.dist(e[X], MOD, r)), []
                    out.append(Cand("row %s: in its cell" % nm(i), (), cell, 4))

                    def rest(e, X=X, i=i, j=j):
                        x = e[X].el((I_(e, i), QD))
                        return implies(and_(le(I_(e, j), QD), lt(QD, N)), eq(x, self.XA.el((B_(e, i), QD)))), [[x]]
                    out.append(Cand("row %s: as the best model from %s on" % (nm(i), nm(j)), (QD,), rest, 1))

                    def inbox(e, X=X, i=i):
                        x = e[X].el((I_(e, i), QD))
                        return implies(rng(QD, N), and_(le(R0, x), le(x, R1), or_(self.mask.el((QD,)), eq(x, R0)))), [[x]]
                    out.append(Cand("row %s: in the box" % nm(i), (QD,), inbox, 1))
                    for s, v in sc:
                        def d1(e, X=X, s=s, i=i, j=j):
                            r, b, d = I_(e, i), B_(e, i), I_(e, j)
                            return implies(lt(d, N), eq(lift(e[s]), sub(self.dist(e[X], b, r), self.term(e[X], b, d, r)))), []
                        out.append(Cand("%s == distance from row %s to its best model without %s" % (nm(s), nm(i), nm(j)), (), d1, 4))
                    for s, a in vecs:
                        for w in ("u", "m"):
                            def d2(e, X=X, s=s, i=i, j=j, w=w):
                                r, b, d = I_(e, i), B_(e, i), I_(e, j)
                                return implies(and_(lt(d, N), not_(eq(MOD, b))),
                                               eq(e[s].el((U(b) if w == "u" else MOD,)), sub(self.dist(e[X], MOD, r), self.term(e[X], MOD, d, r)))), []
                            out.append(Cand("%s[%s] == distance from row %s to the model without %s" % (nm(s), w, nm(i), nm(j)), (), d2, 4))
        return out
