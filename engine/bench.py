"""Contracts of the benchmark functions: textbook formula, lower bound, value at the minimizer, argument untouched."""
import math
from fractions import Fraction

from . import npm
from . import terms as tm
from .core import C, Arr, EK, Unsupported, is_scalar, lift, ONE, ZERO
from .runs import ListLike, N, QD, R0, R1, Run, SD, rng
from .terms import FALSE, add, and_, app, div, elem, eq, implies, lam, le, mul, not_, num, or_, sub, sym, toreal

RN = toreal(N)


def real(x):
    return num(Fraction(str(x)) if isinstance(x, float) else Fraction(x), "R")


# ------------------------------------------------------------------ normal form: sums of monomials, linear sums
def nf(t, memo=None):
    """{monomial: coefficient}; a monomial is a frozenset of (atom, exponent)."""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    r = memo[t] = _nf(t, memo)
    return r


def _times(p, q):
    d = {}
    for a, c in p.items():
        for b, k in q.items():
            m = dict(a)
            for x, e in b:
                m[x] = m.get(x, 0) + e
            f = frozenset((x, e) for x, e in m.items() if e)
            d[f] = d.get(f, 0) + c * k
    return {m: c for m, c in d.items() if c}


def _plus(p, q, k=1):
    d = dict(p)
    for m, c in q.items():
        d[m] = d.get(m, 0) + k * c
    return {m: c for m, c in d.items() if c}


def _atom(t):
    return {frozenset(((t, 1),)): Fraction(1)}


_const = {}


def _num(c):
    return {frozenset(): Fraction(c)} if c else {}


DEPTH = [0]


def _nf(t, memo):
    op = t.op
    if op == "poly":
        r = {}
        for m, c in t.args:
            p = _num(c)
            for a in m:
                p = _times(p, nf(a, memo))
            r = _plus(r, p)
        return r
    if op == "id":
        return nf(t.args[0], memo)
    if op == "toreal":
        x = t.args[0]
        if x.op == "poly":
            r = {}
            for m, c in x.args:
                p = _num(c)
                for a in m:
                    p = _times(p, nf(toreal(a), memo))
                r = _plus(r, p)
            return r
        if x.op == "id":
            return nf(toreal(x.args[0]), memo)
        if x.op == "app" and x.name == "ivsum":
            return _sum(x.args[0], x.args[1], memo, "i")
        return _atom(t)
    if op == "div":
        b = nf(t.args[1], memo)
        if len(b) == 1:
            ((m, c),) = b.items()
            inv = {frozenset((x, -e) for x, e in m): 1 / c}
        else:
            inv = {frozenset(((back(b), -1),)): Fraction(1)}
        return _times(nf(t.args[0], memo), inv)
    if op == "app" and t.name == "vsum":
        return _sum(t.args[0], t.args[1], memo)
    if op == "app" and t.name in ("sqrt", "exp", "cos", "sin", "log"):
        x = back(nf(t.args[0], memo))
        if t.name == "cos" and tm.const_val(x) == 0 or t.name == "exp" and tm.const_val(x) == 0:
            return _num(1)
        if t.name == "sqrt" and tm.const_val(x) in (0, 1):
            return _num(tm.const_val(x))
        return _atom(app(t.name, (x,), "R"))
    if op == "app" and t.name == "vprod":
        k = sym("$nk%d" % DEPTH[0], "I")
        DEPTH[0] += 1
        b = back(nf(elem(t.args[0], k, "f"), memo))
        DEPTH[0] -= 1
        if tm.const_val(b) == 1:
            return _num(1)
        return _atom(app("vprod", (lam(EK, tm.subst(b, {k: EK}), "f"), t.args[1]), "R"))
    return _atom(t)


def _sum(v, n, memo, dt="f"):
    k = sym("$nk%d" % DEPTH[0], "I")
    DEPTH[0] += 1
    b = nf(toreal(elem(v, k, dt)), memo)
    DEPTH[0] -= 1
    out = {}
    for m, c in b.items():
        free = frozenset((x, e) for x, e in m if k.name not in tm.free(x))
        dep = {frozenset(m - free): Fraction(1)}
        if m == free:
            s = nf(toreal(n), memo)
        else:
            s = _atom(app("vsum", (lam(EK, tm.subst(back(dep), {k: EK}), "f"), n), "R"))
        out = _plus(out, _times({free: c}, s))
    return out


def back(p):
    r = R0
    for m, c in sorted(p.items(), key=lambda mc: sorted((x.id, e) for x, e in mc[0])):
        t = real(c)
        for x, e in sorted(m, key=lambda xe: (xe[0].id, xe[1])):
            if e > 0:
                t = mul(t, tm.power(x, e))
        for x, e in sorted(m, key=lambda xe: (xe[0].id, xe[1])):
            if e < 0:
                t = div(t, tm.power(x, -e))
        r = add(r, t)
    return r


def norm(t):
    return back(nf(toreal(lift(t))))


# ------------------------------------------------------------------ textbook formulas
def total(f, n=N):
    return app("vsum", (lam(EK, f(EK), "f"), n), "R")


def sq(x):
    return mul(x, x)


E_ = Fraction(str(2.7182818284590451))
TWOPI = mul(num(2, "R"), sym("PI", "R"))


def spec(name, X):
    """The textbook value at the vector X (a function of an index)."""
    exp, cos, sqrt = (lambda a, f=f: app(f, (a,), "R") for f in ("exp", "cos", "sqrt"))
    one = lambda k: toreal(add(k, ONE))
    if name == "ackley":
        a = exp(mul(real(-0.2), sqrt(div(total(lambda k: sq(X(k))), RN))))
        b = exp(div(total(lambda k: cos(mul(TWOPI, X(k)))), RN))
        return sub(sub(add(real(20), real(E_)), mul(real(20), a)), b)
    if name == "griewank":
        p = app("vprod", (lam(EK, cos(div(X(EK), sqrt(one(EK)))), "f"), N), "R")
        return sub(add(R1, div(total(lambda k: sq(X(k))), real(4000))), p)
    if name == "quartic":
        return total(lambda k: mul(one(k), sq(sq(X(k)))))
    if name == "rastrigin":
        return add(mul(real(10), RN), total(lambda k: sub(sq(X(k)), mul(real(10), cos(mul(TWOPI, X(k)))))))
    if name == "rosenbrock":
        return total(lambda k: add(mul(real(100), sq(sub(X(add(k, ONE)), sq(X(k))))), sq(sub(R1, X(k)))), sub(N, ONE))
    if name == "sphere":
        return total(lambda k: sq(X(k)))
    return add(mul(real(Fraction(1, 2)), total(lambda k: add(sub(sq(sq(X(k))), mul(real(16), sq(X(k)))), mul(real(5), X(k))))), mul(real(39.16599), RN))


NAMES = ("ackley", "griewank", "quartic", "rastrigin", "rosenbrock", "sphere", "styblinski_tang")
MINIMIZER = {"rosenbrock": Fraction(1), "styblinski_tang": Fraction("-2.903534")}
SLACK = Fraction(1, 10**9)


class Bench(Run):
    modname = "stochopy.factory.benchmark"

    def run(self):
        c = C()
        name, at = self.cfg["func"], self.cfg["at"]
        self.owned = {}
        c.ghost.update({"evals": 0, "cbs": 0})
        c.assume(le(num(2) if name == "rosenbrock" else ONE, N))
        f = self.I.load(self.modname).vars.get(name)
        if f is None:
            raise Unsupported("no function " + name)
        dt = self.cfg.get("dtype", "f")
        if at == "min":
            v = MINIMIZER.get(name, Fraction(0))
            X = lambda k: real(v)
            x = Arr.new((N,), "f", lam(EK, real(v), "f"), "x")
        else:
            X = lambda k: toreal(elem(sym("x", "V"), k, dt))
            x = Arr.new((N,), dt, sym("x", "V"), "x")
        x.buf.owner = "point"
        r = self.I.call(f, [ListLike(x) if self.cfg.get("lists") else x], {})
        P = "C21"
        if not is_scalar(r):
            c.oblige(P, FALSE, "the value is a number")
            return
        r, s = norm(r), norm(spec(name, X))
        gap = norm(sub(r, s))
        if self.looped and tm.const_val(gap) is None:
            raise Unsupported("a sum accumulated by a loop")
        if at == "min":
            low, high = (mul(real(-0.0002), RN), mul(real(0.0002), RN)) if name == "styblinski_tang" else (real(-SLACK), real(SLACK))
            c.assume(self.e1())
            c.oblige(P, and_(le(low, r), le(r, high)), "the value at the minimizer is zero")
            return
        c.oblige(P, and_(le(real(-SLACK), gap), le(gap, real(SLACK))), "the value is that of the textbook formula")
        if at == "bound":
            self.bound(name, X, s)

    def e1(self):
        """exp(1) up to 1e-15."""
        e = app("exp", (R1,), "R")
        return and_(le(real(E_ - Fraction(1, 10**15)), e), le(e, real(E_ + Fraction(1, 10**15))))

    def atleast(self, f, c0, n, label):
        """Lemma: a sum of n terms, each at least c0, is at least c0*n. The premise is an obligation for an arbitrary term."""
        c = C()
        c.oblige("C21", implies(rng(SD, n), le(real(c0), f(SD))), label)
        c.assume(le(mul(real(c0), toreal(n)), norm(total(f, n))))

    def bound(self, name, X, s):
        c = C()
        P = "C21"
        cos = lambda a: app("cos", (a,), "R")
        low = real(-SLACK)
        if name == "ackley":
            body = lambda k: tm.neg(cos(mul(TWOPI, X(k))))
            self.atleast(body, -1, N, "a cosine is at most one")
            c.assume(self.e1())
            S = total(lambda k: cos(mul(TWOPI, X(k))))
            m = norm(div(S, RN))
            c.oblige(P, le(m, R1), "a mean of cosines is at most one")
            c.assume(le(m, R1))
            # exp is increasing
            c.assume(le(app("exp", (m,), "R"), app("exp", (R1,), "R")))
        elif name == "griewank":
            b = lambda k: cos(div(X(k), app("sqrt", (toreal(add(k, ONE)),), "R")))
            c.oblige(P, implies(rng(SD, N), and_(le(real(-1), b(SD)), le(b(SD), R1))), "each factor lies between -1 and 1")
            p = norm(app("vprod", (lam(EK, b(EK), "f"), N), "R"))
            c.assume(le(p, R1))
            self.atleast(lambda k: sq(X(k)), 0, N, "a square is not negative")
        elif name == "quartic":
            self.atleast(lambda k: mul(toreal(add(k, ONE)), sq(sq(X(k)))), 0, N, "each term is not negative")
        elif name == "rastrigin":
            self.atleast(lambda k: sub(sq(X(k)), mul(real(10), cos(mul(TWOPI, X(k))))), -10, N, "each term is at least -10")
        elif name == "rosenbrock":
            self.atleast(lambda k: add(mul(real(100), sq(sub(X(add(k, ONE)), sq(X(k))))), sq(sub(R1, X(k)))), 0, sub(N, ONE), "each term is not negative")
        elif name == "sphere":
            self.atleast(lambda k: sq(X(k)), 0, N, "each term is not negative")
        else:
            f = lambda k: add(sub(sq(sq(X(k))), mul(real(16), sq(X(k)))), mul(real(5), X(k)))
            self.atleast(f, -2 * (Fraction("39.16599") + Fraction(1, 5000)), N, "each term is at least twice -39.16619")
            low = mul(real(-Fraction(1, 5000)), RN)
        c.oblige(P, le(low, s), "the value is not below the documented minimum")

    looped = False

    def on_head(self, head):
        self.looped = True

    def on_write(self, buf):
        if buf.owner is not None:
            C().oblige("C21", FALSE, "the argument is not modified")

    def on_raise(self, e):
        C().oblige("C21", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))
