"""Obligation prover: instantiation of quantified facts and of the rules of the defined functions
(bounded rounds of trigger matching), then a quantifier-free query to z3 (second back end: cvc5).

Soundness: a goal is reported proved only if hyps + instances + not(goal) is unsatisfiable.
"""
import os
import threading
import time
from fractions import Fraction

import z3

from . import terms as tm
from .terms import (TRUE, FALSE, add, and_, app, children, const_val, elem, eq, ge, gt, implies, ite,
                    le, lt, mul, neg, not_, num, or_, sub, sym, toreal)

STATS = {"queries": 0, "time": 0.0, "unsat": 0, "sat": 0, "unknown": 0, "cvc5": 0, "instances": 0}

OPTS = {"hitperm": False, "sumdiff": False}  # optional rules, enabled by a unit

ZERO = num(0)
RZERO = num(0, "R")
INF = sym("INF", "R")


class Fact:
    """forall vars. body, instantiated on matches of one of the pattern lists."""

    __slots__ = ("vars", "pats", "body", "name", "varset")

    def __init__(self, vars, pats, body, name=""):
        self.vars, self.body, self.name = tuple(vars), body, name
        self.pats = [tuple(p) if isinstance(p, (list, tuple)) else (p,) for p in pats]
        self.varset = frozenset(v.name for v in self.vars)

    def __repr__(self):
        return "Fact(%s: %s)" % (self.name, self.body)


def match(p, t, b, varset):
    """Match pattern p against ground t extending binding b (dict) or return None."""
    if p.op == "sym" and p.name in varset:
        if p.sort != t.sort:
            return None
        o = b.get(p)
        if o is None:
            b = dict(b)
            b[p] = t
            return b
        return b if o is t else None
    if p is t:
        return b
    if not (tm.free(p) & varset):
        return None
    if p.op == "app":
        if t.op != "app" or t.name != p.name or len(t.args) != len(p.args):
            return None
        for x, y in zip(p.args, t.args):
            b = match(x, y, b, varset)
            if b is None:
                return None
        return b
    if p.op == "toreal" and t.op == "toreal":
        return match(p.args[0], t.args[0], b, varset)
    if p.op == "poly" and t.sort == p.sort:
        # single variable with unit coefficient plus ground rest
        for m, c in p.args:
            if len(m) == 1 and m[0].op == "sym" and m[0].name in varset and c in (1, -1):
                v = m[0]
                rest = tm.sub(p, tm.scale(c, v))
                if tm.free(rest) & varset:
                    rest = tm.subst(rest, {k: x for k, x in b.items()})
                    if tm.free(rest) & varset:
                        return None
                val = tm.scale(c, sub(t, rest))
                o = b.get(v)
                if o is None:
                    b = dict(b)
                    b[v] = val
                    return b
                return b if o is val else None
    return None


# ------------------------------------------------------------------ builtin rules
# each: name of application -> function(t, ctx) -> list of valid B terms
RULES = {}
RMEMO = {}  # instances are functions of the terms: computed once


def rule(*names):
    def deco(f):
        for n in names:
            RULES.setdefault(n, []).append(f)
        return f

    return deco


def rng(k, n):
    return and_(le(ZERO, k), lt(k, n))


@rule("at", "ati", "atb")
def _r_at(t, ctx):
    v, k = t.args
    out = []
    if v.op == "app" and v.name in tm.VDEF:
        out.append(eq(t, tm.VDEF[v.name](v.args, k)))
    ctx.rd.setdefault(v, {})[k] = None
    return out


@rule("vmin")
def _r_vmin(t, ctx):
    v, n = t.args
    w = app("vargmin", (v, n), "I")
    return [or_(le(n, ZERO), and_(rng(w, n), eq(t, elem(v, w, "f"))))]


@rule("pow")
def _r_pow(t, ctx):
    x, y = t.args
    one = num(1, "R")
    return [implies(lt(RZERO, x), lt(RZERO, t)), implies(le(RZERO, x), le(RZERO, t)), implies(and_(le(one, x), le(RZERO, y)), le(one, t))]


@rule("median")
def _r_median(t, ctx):
    return [implies(lt(ZERO, t.args[1]), and_(le(app("vmin", t.args, "R"), t), le(t, app("vmax", t.args, "R"))))]


@rule("perc")
def _r_perc(t, ctx):
    v, n, q = t.args
    return [implies(lt(ZERO, n), and_(le(app("vmin", (v, n), "R"), t), le(t, app("vmax", (v, n), "R"))))]


@rule("vargmin")
def _r_vargmin(t, ctx):
    v, n = t.args
    return [or_(le(n, ZERO), and_(rng(t, n), eq(app("vmin", (v, n), "R"), elem(v, t, "f"))))]


@rule("vmax")
def _r_vmax(t, ctx):
    v, n = t.args
    w = app("vargmax", (v, n), "I")
    return [or_(le(n, ZERO), and_(rng(w, n), eq(t, elem(v, w, "f"))))]


@rule("vargmax")
def _r_vargmax(t, ctx):
    v, n = t.args
    return [or_(le(n, ZERO), and_(rng(t, n), eq(app("vmax", (v, n), "R"), elem(v, t, "f"))))]


@rule("mmin", "mmax")
def _r_mmin(t, ctx):
    v, m, n = t.args
    w = app("arg" + t.name, (v, m, n), "I")
    return [or_(not_(app("vany", (m, n), "B")), and_(rng(w, n), elem(m, w, "b"), eq(t, elem(v, w, "f"))))]


@rule("vany")
def _r_vany(t, ctx):
    m, n = t.args
    w = app("anyw", (m, n), "I")
    return [or_(not_(t), and_(rng(w, n), elem(m, w, "b"))), or_(t, le(n, ZERO), not_(elem(m, ZERO, "b"))),
            tm.eq(t, lt(ZERO, app("vcnt", (m, n), "I")))]


@rule("vall")
def _r_vall(t, ctx):
    m, n = t.args
    w = app("allw", (m, n), "I")
    return [or_(t, and_(rng(w, n), not_(elem(m, w, "b"))))]


@rule("vcnt")
def _r_vcnt(t, ctx):
    m, n = t.args
    w = app("anyw", (m, n), "I")
    out = [le(ZERO, t), or_(lt(n, ZERO), le(t, n)), or_(le(t, ZERO), and_(rng(w, n), elem(m, w, "b")))]
    # the position of a value in a permutation
    q = sym("$hq", "I")
    b = elem(m, q, "b")
    if b.op == "eq0":
        at = [x for x in ([y for mo, k in b.args[0].args for y in mo] if b.args[0].op == "poly" else [b.args[0]]) if x.op == "app" and x.name == "ati" and x.args[1] is q and
              x.args[0].op == "app" and x.args[0].name in ("asort", "rperm")]
        if len(at) == 1:
            x = at[0]
            pm = x.args[0]
            ln = pm.args[1] if pm.name == "asort" else pm.args[0]
            for v in (add(x, b.args[0]), sub(x, b.args[0])):
                if ln is n and "$hq" not in tm.free(v):
                    pi = app("pinv", (pm, v), "I")
                    out.append(implies(rng(v, n), and_(rng(pi, n), eq(elem(pm, pi, "i"), v), lt(ZERO, t))))
    return out


@rule("nth")
def _r_nth(t, ctx):
    m, n, r = t.args
    return [implies(rng(r, app("vcnt", (m, n), "I")),
                    and_(rng(t, n), elem(m, t, "b"), eq(app("rank", (m, n, t), "I"), r)))]


@rule("rank")
def _r_rank(t, ctx):
    m, n, k = t.args
    return [implies(and_(rng(k, n), elem(m, k, "b")),
                    and_(rng(t, app("vcnt", (m, n), "I")), eq(app("nth", (m, n, t), "I"), k)))]


@rule("hit")
def _r_hit(t, ctx):
    ix, m, k = t.args
    p = app("hitpos", (ix, m, k), "I")
    out = [implies(t, and_(rng(p, m), eq(elem(ix, p, "i"), k)))]
    if not OPTS["hitperm"]:
        return out
    # a slice of a permutation: the position of k is known
    q = sym("$hq", "I")
    b = elem(ix, q, "i")
    if b.op == "app" and b.name == "ati" and b.args[0].op == "app" and b.args[0].name in ("asort", "rperm"):
        pm, e = b.args
        z = tm.subst(e, {q: ZERO})
        for sg in (1, -1):
            if e is add(z, mul(num(sg), q)):
                n = pm.args[1] if pm.name == "asort" else pm.args[0]
                pi = app("pinv", (pm, k), "I")
                r = mul(num(sg), sub(pi, z))
                out.append(implies(rng(k, n), and_(rng(pi, n), eq(elem(pm, pi, "i"), k), implies(rng(r, m), t))))
    return out


@rule("sqrt")
def _r_sqrt(t, ctx):
    (x,) = t.args
    return [le(RZERO, t), or_(lt(x, RZERO), eq(mul(t, t), x)), or_(le(x, RZERO), lt(RZERO, t)),
            or_(not_(eq(x, RZERO)), eq(t, RZERO))]


@rule("exp")
def _r_exp(t, ctx):
    (x,) = t.args
    one = num(1, "R")
    out = [lt(RZERO, t), implies(le(x, RZERO), le(t, one)), implies(le(RZERO, x), le(one, t)),
           implies(lt(x, RZERO), lt(t, one)), implies(lt(RZERO, x), lt(one, t)), le(add(one, x), t)]
    return out


@rule("log")
def _r_log(t, ctx):
    (x,) = t.args
    one = num(1, "R")
    return [implies(lt(RZERO, x), and_(eq(app("exp", (t,), "R"), x), le(t, sub(x, one)))),
            implies(and_(lt(RZERO, x), le(x, one)), le(t, RZERO)),
            implies(and_(lt(RZERO, x), lt(x, one)), lt(t, RZERO)),
            implies(le(one, x), le(RZERO, t)), implies(lt(one, x), lt(RZERO, t))]


@rule("cos", "sin")
def _r_cos(t, ctx):
    out = [le(num(-1, "R"), t), le(t, num(1, "R"))]
    if const_val(t.args[0]) == 0:
        out.append(eq(t, num(1 if t.name == "cos" else 0, "R")))
    return out


@rule("trunc")
def _r_trunc(t, ctx):
    x = t.args[0]
    r, one = toreal(t), num(1, "R")
    return [implies(le(RZERO, x), and_(le(r, x), lt(x, add(r, one)), le(ZERO, t))),
            implies(le(x, RZERO), and_(le(x, r), lt(sub(r, one), x), le(t, ZERO)))]


@rule("F")
def _r_F(t, ctx):
    return [lt(t, INF)]


@rule("vsum")
def _r_vsum(t, ctx):
    v, n = t.args
    w = app("negw", (v, n), "I")
    p = app("posw", (v, n), "I")
    out = [or_(le(RZERO, t), and_(rng(w, n), lt(elem(v, w, "f"), RZERO))),
           or_(le(t, RZERO), and_(rng(p, n), lt(RZERO, elem(v, p, "f"))))]
    # a sum of non-negative terms with a positive one is positive: instance on each read index
    ctx.sums[(v, n)] = t
    return out


@rule("vsumsq")
def _r_vsumsq(t, ctx):
    return [le(RZERO, t)]


@rule("vnorm")
def _r_vnorm(t, ctx):
    return [le(RZERO, t)]


@rule("asort")
def _r_asort(t, ctx):
    p = elem(t, ZERO, "i")
    return [implies(lt(ZERO, t.args[1]), rng(p, t.args[1]))]


@rule("rperm")
def _r_rperm(t, ctx):
    return []


@rule("ipow")
def _r_ipow(t, ctx):
    return []


PAIRCAP = 400


class Groups:
    """Index terms read on a vector or on the vectors it is built from."""

    def __init__(self, ctx):
        par = {}

        def find(x):
            while par.setdefault(x, x) is not x:
                par[x] = par[par[x]]
                x = par[x]
            return x

        vs = set(ctx.rd)
        for nm in ("vmin", "vmax", "mmin", "mmax", "vany", "vall", "vcnt", "vsum", "asort"):
            for t in ctx.byname.get(nm, ()):
                vs.update(a for a in t.args if a.sort == "V")
        st = list(vs)
        done = set()
        while st:
            v = st.pop()
            if v in done:
                continue
            done.add(v)
            if v.op == "ite" or v.op == "app" and v.name in tm.VDEF:
                for a in v.args:
                    if a.sort == "V":
                        r1, r2 = find(v), find(a)
                        if r1 is not r2:
                            par[r1] = r2
                        st.append(a)
        ks = {}
        for v, d in ctx.rd.items():
            ks.setdefault(find(v), {}).update(d)
        self.f, self.ks = find, ks
        self.sk = list(ctx.skolems)
        if ctx.wide:
            ws = [t for nm in ("vargmin", "vargmax") for t in ctx.byname.get(nm, ())]
            if len(ws) <= 12:
                self.sk += ws

    def get(self, v, default=()):
        d = dict(self.ks.get(self.f(v), ()))
        for k in self.sk:
            d[k] = None
        return list(d)


def pair_rules(ctx):
    """Rules needing an index term besides the term itself."""
    out = []
    G = Groups(ctx)
    for t in ctx.byname.get("vmin", ()):
        v, n = t.args
        for k in G.get(v):
            out.append((("vmin", t, k), lambda t=t, n=n, v=v, k=k: implies(rng(k, n), le(t, elem(v, k, "f")))))
    for nm, cmp in (("vargmin", "vmin"), ("vargmax", "vmax")):
        for t in ctx.byname.get(nm, ()):
            # the first index that attains it
            v, n = t.args
            for k in G.get(v):
                if k is not t:
                    out.append(((nm, t, k), lambda t=t, n=n, v=v, k=k, cmp=cmp: or_(not_(rng(k, n)), not_(eq(elem(v, k, "f"), app(cmp, (v, n), "R"))), le(t, k))))
    for t in ctx.byname.get("vmax", ()):
        v, n = t.args
        for k in G.get(v):
            out.append((("vmax", t, k), lambda t=t, n=n, v=v, k=k: implies(rng(k, n), le(elem(v, k, "f"), t))))
    ps = list(ctx.byname.get("perc", ()))
    for t in ps:
        for u in ps:
            if u is not t and u.args[:2] == t.args[:2]:
                out.append((("percle", t, u), lambda t=t, u=u: implies(le(t.args[2], u.args[2]), le(t, u))))
    for nm in ("mmin", "mmax"):
        for t in ctx.byname.get(nm, ()):
            v, m, n = t.args
            ks = G.get(v) + G.get(m)
            for k in ks:
                def f(t=t, v=v, m=m, n=n, k=k, nm=nm):
                    e = elem(v, k, "f")
                    return implies(and_(rng(k, n), elem(m, k, "b")), le(t, e) if nm == "mmin" else le(e, t))
                out.append(((nm, t, k), f))
    for t in ctx.byname.get("vany", ()):
        m, n = t.args
        for k in G.get(m):
            out.append((("vany", t, k), lambda t=t, m=m, n=n, k=k: implies(and_(rng(k, n), elem(m, k, "b")), t)))
    for t in ctx.byname.get("vall", ()):
        m, n = t.args
        for k in G.get(m):
            out.append((("vall", t, k), lambda t=t, m=m, n=n, k=k: implies(and_(t, rng(k, n)), elem(m, k, "b"))))
    for t in ctx.byname.get("vcnt", ()):
        m, n = t.args
        for k in G.get(m):
            out.append((("vcnt", t, k),
                        lambda t=t, m=m, n=n, k=k: implies(and_(rng(k, n), elem(m, k, "b")), lt(ZERO, t))))
    for t in ctx.byname.get("hit", ()):
        pass
    for (ix, m) in list(ctx.scat):
        for r in list(ctx.rd.get(ix, ())):
            out.append((("hitr", ix, m, r),
                        lambda ix=ix, m=m, r=r: implies(rng(r, m), app("hit", (ix, m, elem(ix, r, "i")), "B"))))
    for (v, n), t in list(ctx.sums.items()):
        for k in G.get(v):
            # all others >= 0 (else witness) -> sum >= element
            def f(v=v, n=n, t=t, k=k):
                w = app("negw", (v, n), "I")
                return or_(not_(rng(k, n)), le(elem(v, k, "f"), t), and_(rng(w, n), lt(elem(v, w, "f"), RZERO)))
            out.append((("sumel", t, k), f))
    if OPTS["sumdiff"]:
        sums = list(ctx.sums.items())
        for a, ((v, n), t) in enumerate(sums):
            for (w, l), u in sums[:a]:
                if l is n:
                    # sums of vectors that agree everywhere, or everywhere except at j
                    def f(v=v, w=w, n=n, t=t, u=u):
                        q = app("diffw", (v, w, n), "I")
                        return or_(eq(t, u), and_(rng(q, n), not_(eq(elem(v, q, "f"), elem(w, q, "f")))))
                    out.append((("sumeq", t, u), f))
                    for j in G.get(v) + G.get(w):
                        if j.op == "sym" and "$i" in j.name:
                            def f(v=v, w=w, n=n, t=t, u=u, j=j):
                                q = app("diffwj", (v, w, n, j), "I")
                                return or_(not_(rng(j, n)), eq(sub(t, u), sub(elem(v, j, "f"), elem(w, j, "f"))),
                                           and_(rng(q, n), not_(eq(q, j)), not_(eq(elem(v, q, "f"), elem(w, q, "f")))))
                            out.append((("sumdiff", t, u, j), f))
                for (v1, n1, t1), (w1, l1, u1) in (((v, n, t), (w, l, u)), ((w, l, u), (v, n, t))):
                    if sub(l1, n1) is num(1):
                        # a sum without its first term
                        def f(v=v1, w=w1, n=n1, t=t1, u=u1):
                            q = app("diffs", (v, w, n), "I")
                            return or_(lt(n, ZERO), eq(t, sub(u, elem(w, ZERO, "f"))),
                                       and_(rng(q, n), not_(eq(elem(v, q, "f"), elem(w, add(q, num(1)), "f")))))
                        out.append((("sumshift", t1, u1), f))
    mins = {t.args: t for t in ctx.byname.get("vmin", ())}
    for t in ctx.byname.get("asort", ()):
        v, n = t.args
        if (v, n) in mins:
            out.append((("asortmin", t), lambda t=t, v=v, n=n: implies(lt(ZERO, n), eq(elem(v, elem(t, ZERO, "i"), "f"), mins[(v, n)]))))
        ks = list(ctx.rd.get(t, ()))
        for r in ks:
            def f(t=t, n=n, r=r):
                p = elem(t, r, "i")
                return implies(rng(r, n), and_(rng(p, n), eq(app("pinv", (t, p), "I"), r)))
            out.append((("asort1", t, r), f))
        for k in G.get(v):
            def f(t=t, n=n, k=k):
                p = app("pinv", (t, k), "I")
                return implies(rng(k, n), and_(rng(p, n), eq(elem(t, p, "i"), k)))
            out.append((("asort2", t, k), f))
        for r in ks:
            for s in ks:
                if r is not s:
                    def f(t=t, v=v, n=n, r=r, s=s):
                        return implies(and_(le(ZERO, r), le(r, s), lt(s, n)),
                                       le(elem(v, elem(t, r, "i"), "f"), elem(v, elem(t, s, "i"), "f")))
                    out.append((("asort3", t, r, s), f))
    for t in ctx.byname.get("rperm", ()):
        n = t.args[0]
        for r in list(ctx.rd.get(t, ())):
            def f(t=t, n=n, r=r):
                p = elem(t, r, "i")
                return implies(rng(r, n), and_(rng(p, n), eq(app("pinv", (t, p), "I"), r)))
            out.append((("rperm", t, r), f))
    for nm, mono in (("exp", True), ("log", True), ("sqrt", True)):
        ts = list(ctx.byname.get(nm, ()))
        if len(ts) <= 8:
            for i, a in enumerate(ts):
                for b in ts[i + 1:]:
                    def f(a=a, b=b, nm=nm):
                        x, y = a.args[0], b.args[0]
                        g = and_(lt(RZERO, x), lt(RZERO, y)) if nm != "exp" else TRUE
                        return implies(g, and_(tm.eq(le(x, y), le(a, b)), tm.eq(le(y, x), le(b, a))))
                    out.append((("mono", a, b), f))
    return out


def iteprod(t):
    """A product with a conditional factor, by cases."""
    r = RMEMO.get(("iteprod", t))
    if r is None:
        r = []
        for m, k in t.args:
            if len(m) < 2:
                continue
            for i, a in enumerate(m):
                if a.op == "ite":
                    p = m[0]
                    for b in m[1:]:
                        p = mul(p, b)
                    q = [num(1, t.sort)]
                    for b in m[:i] + m[i + 1:]:
                        q.append(mul(q.pop(), b))
                    c, u, v = a.args
                    r.append(implies(c, eq(p, mul(q[0], u))))
                    r.append(or_(c, eq(p, mul(q[0], v))))
                    break
        RMEMO[("iteprod", t)] = r
    return r


class Ctx:
    wide = False

    def __init__(self, facts, deadline=None, maxinst=4000, fext=None):
        self.terms = set()
        self.byname = {}
        self.rd = {}
        self.sums = {}
        self.scat = {}
        self.facts = facts
        self.lemmas = []
        self.seen = set()
        self.newterms = []
        self.maxinst = maxinst
        self.ninst = 0
        self.fext = fext
        self.eqv = []
        self.skolems = {}

    def add_term(self, t):
        st = [t]
        while st:
            x = st.pop()
            if x in self.terms:
                continue
            self.terms.add(x)
            self.newterms.append(x)
            if x.op == "app":
                self.byname.setdefault(x.name, []).append(x)
                if x.name in ("hit", "hitpos"):
                    self.scat[(x.args[0], x.args[1])] = None
            elif x.op == "eqV":
                self.eqv.append(x)
            elif x.op == "sym" and x.sort == "I" and x.name.startswith("$s"):
                self.skolems[x] = None
            st.extend(children(x))

    def lemma(self, l):
        if l is TRUE or l in self.seen:
            return
        self.seen.add(l)
        self.lemmas.append(l)
        self.ninst += 1
        self.add_term(l)

    def saturate(self, rounds):
        for r in range(rounds):
            if self.ninst > self.maxinst:
                break
            n0 = len(self.lemmas)
            # definitional rules to a fixed point (bounded)
            g = 0
            while self.newterms and g < 6 and self.ninst <= self.maxinst:
                g += 1
                new, self.newterms = self.newterms, []
                for t in new:
                    if t.op == "app":
                        nm = t.name
                        if nm in ("at", "ati", "atb"):
                            self.rd.setdefault(t.args[0], {})[t.args[1]] = None
                        elif nm == "vsum":
                            self.sums[t.args] = t
                        ls = RMEMO.get(t)
                        if ls is None:
                            ls = []
                            for f in RULES.get("F" if nm[:2] == "F$" else nm, ()):
                                ls.extend(f(t, self))
                            RMEMO[t] = ls
                        for l in ls:
                            self.lemma(l)
                    elif t.op == "floor":
                        x = t.args[0]
                        self.lemma(le(toreal(t), x))
                        self.lemma(lt(x, add(toreal(t), num(1, "R"))))
                    elif t.op == "poly":
                        for l in iteprod(t):
                            self.lemma(l)
                    elif t.op == "idiv" or t.op == "mod":
                        a, b = t.args
                        q, m = tm.idiv(a, b), tm.mod(a, b)
                        self.lemma(implies(lt(ZERO, b), and_(le(ZERO, m), lt(m, b), eq(a, add(mul(b, q), m)))))
                    elif t.op == "id":
                        self.lemma(eq(t, t.args[0]) if t.args[0].op != "id" else TRUE)
            for e in self.eqv:
                u, v = e.args
                for a, b in ((u, v), (v, u)):
                    for k in list(self.rd.get(a, ())):
                        key = ("eqv", a, b, k)
                        if key not in self.seen:
                            self.seen.add(key)
                            for acc, s in (("at", "R"), ("ati", "I"), ("atb", "B")):
                                x = app(acc, (a, k), s)
                                if x in self.terms:
                                    self.add_term(app(acc, (b, k), s))
            for key, f in pair_rules(self):
                if key not in self.seen and self.ninst <= self.maxinst:
                    self.seen.add(key)
                    l = RMEMO.get(key)
                    if l is None:
                        l = RMEMO[key] = f()
                    self.lemma(l)
            for fi, fact in enumerate(self.facts):
                if self.ninst > self.maxinst:
                    break
                for pats in fact.pats:
                    for b in self.matches(fact, pats):
                        key = (fi,) + tuple(b.get(v) for v in fact.vars)
                        if key in self.seen or None in key:
                            continue
                        self.seen.add(key)
                        mk = (fact.body,) + key[1:]
                        l = RMEMO.get(mk)
                        if l is None:
                            l = RMEMO[mk] = tm.subst(fact.body, b)
                        self.lemma(l)
                        if self.ninst > self.maxinst:
                            break
            if self.fext is not None:
                self.fextend()
            if len(self.lemmas) == n0 and not self.newterms:
                break

    def matches(self, fact, pats):
        bs = [{}]
        for p in pats:
            nb = []
            cands = self.byname.get(p.name, ()) if p.op == "app" else ()
            for b in bs:
                for t in list(cands):
                    m = match(p, t, b, fact.varset)
                    if m is not None:
                        nb.append(m)
                if len(nb) > 3000:
                    break
            bs = nb
            if not bs:
                break
        return bs

    def fextend(self):
        ss = list(self.byname.get("vsum", ()))[:8]
        for i, a in enumerate(ss):
            for b in ss[i + 1:]:
                key = ("sext", a, b)
                if key in self.seen or a.args[1] is not b.args[1]:
                    continue
                self.seen.add(key)
                u, v = a.args[0], b.args[0]
                d = app("vdiff", (u, v), "I")
                self.lemma(or_(eq(a, b), and_(rng(d, a.args[1]), not_(eq(elem(u, d, "f"), elem(v, d, "f"))))))
        fs = list(self.byname.get("F", ()))
        if len(fs) > 14:
            fs = fs[:14]
        for i, a in enumerate(fs):
            for b in fs[i + 1:]:
                key = ("fext", a, b)
                if key in self.seen:
                    continue
                self.seen.add(key)
                u, v = a.args[0], b.args[0]
                d = app("vdiff", (u, v), "I")
                self.lemma(or_(eq(a, b), and_(rng(d, self.fext), not_(eq(elem(u, d, "f"), elem(v, d, "f"))))))


# ------------------------------------------------------------------ z3 translation
class Z:
    def __init__(self, linear):
        self.linear = linear
        self.cache = {}
        self.V = z3.DeclareSort("V")
        self.S = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort(), "V": self.V}
        self.fns = {}
        self.nonlinear = False

    def fn(self, name, sorts):
        k = (name, sorts)
        f = self.fns.get(k)
        if f is None:
            nm = name + "!" + "".join(sorts)
            f = z3.Function(nm, *[self.S[s] for s in sorts])
            self.fns[k] = f
        return f

    def tr(self, t):
        c = self.cache
        r = c.get(t)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x in c:
                st.pop()
                continue
            ch = [y for y in children(x) if y not in c]
            if ch:
                st.extend(ch)
                continue
            c[x] = self.one(x)
            st.pop()
        return c[t]

    def val(self, q, s):
        if s == "I":
            return z3.IntVal(int(q))
        return z3.RealVal(str(q))

    def one(self, t):
        op, c = t.op, self.cache
        if op == "sym":
            return z3.Const(t.name + "!" + t.sort, self.S[t.sort])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "poly":
            s = t.sort
            parts = []
            for m, k in t.args:
                if not m:
                    parts.append(self.val(k, s))
                    continue
                if len(m) == 1:
                    p = c[m[0]]
                else:
                    self.nonlinear = True
                    if self.linear:
                        p = self.fn("mul%d" % len(m), (s,) * (len(m) + 1))(*[c[a] for a in m])
                    else:
                        p = c[m[0]]
                        for a in m[1:]:
                            p = p * c[a]
                if k != 1:
                    p = self.val(k, s) * p
                parts.append(p)
            if not parts:
                return self.val(0, s)
            return parts[0] if len(parts) == 1 else z3.Sum(parts)
        a = [c[x] for x in t.args]
        if op == "app":
            f = self.fn(t.name, tuple(x.sort for x in t.args) + (t.sort,))
            return f(*a) if a else f()
        if op == "ite":
            return z3.If(*a)
        if op == "and":
            return z3.And(a)
        if op == "or":
            return z3.Or(a)
        if op == "not":
            return z3.Not(a[0])
        if op == "le0":
            return a[0] <= 0
        if op == "lt0":
            return a[0] < 0
        if op == "eq0":
            return a[0] == 0
        if op in ("eqV", "iff"):
            return a[0] == a[1]
        if op == "toreal":
            return z3.ToReal(a[0])
        if op == "floor":
            return self.fn("floor", ("R", "I"))(a[0])
        if op == "div":
            self.nonlinear = True
            if self.linear:
                return self.fn("div", ("R", "R", "R"))(*a)
            return a[0] / a[1]
        if op in ("idiv", "mod"):
            return self.fn(op, ("I", "I", "I"))(*a)
        if op == "id":
            return self.fn("id", (t.sort, t.sort))(a[0])
        raise AssertionError(op)


NLMEMO = {}


def div_lemmas(t):
    r = NLMEMO.get(t)
    if r is None:
        a, b = t.args
        one = num(1, "R")
        pos = lt(RZERO, b)
        r = NLMEMO[t] = [
            implies(not_(eq(b, RZERO)), eq(mul(t, b), a)),
            implies(and_(pos, le(RZERO, a)), le(RZERO, t)),
            implies(and_(le(one, b), le(RZERO, a)), le(t, a)),
            implies(and_(pos, le(a, RZERO)), le(t, RZERO)),
            implies(and_(pos, lt(RZERO, a)), lt(RZERO, t)),
            implies(and_(pos, le(a, b)), le(t, one)),
            implies(and_(pos, lt(a, b)), lt(t, one))]
    return r


def mono_lemmas(m, s):
    r = NLMEMO.get((m, s))
    if r is not None:
        return r
    out = []
    z = num(0, s)
    if len(m) == 2:
        a, b = m
        p = mul(a, b)
        if a is b:
            out.append(le(z, p))
            out.append(or_(eq(a, z), lt(z, p)))
            out.append(or_(not_(eq(a, z)), eq(p, z)))
        else:
            one = num(1, s)
            za, zb, az, bz = le(z, a), le(z, b), le(a, z), le(b, z)
            out.append(implies(and_(za, zb), le(z, p)))
            out.append(implies(and_(lt(z, a), lt(z, b)), lt(z, p)))
            out.append(implies(and_(za, bz), le(p, z)))
            out.append(implies(and_(az, zb), le(p, z)))
            out.append(implies(and_(za, le(one, b)), le(a, p)))
            out.append(implies(and_(zb, le(one, a)), le(b, p)))
            out.append(implies(and_(za, zb, le(b, one)), le(p, a)))
            out.append(implies(and_(zb, za, le(a, one)), le(p, b)))
            out.append(or_(not_(eq(a, z)), eq(p, z)))
            out.append(or_(not_(eq(b, z)), eq(p, z)))
    NLMEMO[(m, s)] = out
    return out


def nl_lemmas(ctx):
    """Linear consequences of nonlinear terms, for the linear abstraction."""
    out = []
    ctx.nonlinear = False
    monos = {}
    for t in ctx.terms:
        if t.op == "div":
            ctx.nonlinear = True
            out.extend(div_lemmas(t))
        elif t.op == "poly":
            for m, _ in t.args:
                if len(m) >= 2:
                    monos[(m, t.sort)] = None
    for m, s in monos:
        ctx.nonlinear = True
        out.extend(mono_lemmas(m, s))
    return out


ZS = {}


def limit(s, ms):
    """Deterministic resource limit; the clock only matters on a machine far slower than usual."""
    s.set("rlimit", 2000 * ms)
    s.set("timeout", 60 * ms)


class Watch:
    """Interrupts z3 when a query has used its processor time (the clock would also count the other processes)."""

    thread = None
    end = None

    @classmethod
    def start(cls, ms):
        if cls.thread is None or cls.pid != os.getpid():
            cls.pid = os.getpid()
            cls.thread = threading.Thread(target=cls.loop, daemon=True)
            cls.thread.start()
        cls.end = time.process_time() + ms / 1000

    @classmethod
    def stop(cls):
        cls.end = None

    @classmethod
    def loop(cls):
        while True:
            time.sleep(0.1)
            e = cls.end
            if e is not None and time.process_time() > e:
                z3.main_ctx().interrupt()


def run(s, ms):
    """Check within the limits."""
    w, p = time.time(), time.process_time()
    Watch.start(8 * ms)
    try:
        r = s.check()
    finally:
        Watch.stop()
    if r == z3.unknown and (time.time() - w) * 1000 > 50 * ms and (time.process_time() - p) * 1000 < 8 * ms:
        STATS["clock"] = STATS.get("clock", 0) + 1
    return r


class Prover:
    """Batch of goals under common hypotheses and facts."""

    def __init__(self, hyps, facts, goals, rounds=4, timeout=3000, fext=None, maxinst=4000, nl=True, wide=False):
        self.timeout = timeout
        hyps = [h for h in hyps if h is not TRUE]
        self.trivial = any(h is FALSE for h in hyps)
        ctx = Ctx(facts, fext=fext, maxinst=maxinst)
        ctx.wide = wide
        for h in hyps:
            ctx.add_term(h)
        for g in goals:
            ctx.add_term(g)
        ctx.saturate(rounds)
        STATS["instances"] += len(ctx.lemmas)
        self.ctx = ctx
        self.hyps = hyps
        extra = nl_lemmas(ctx)
        self.lin = self._solver(True, hyps + ctx.lemmas + extra)
        self.full = None
        self.nl = nl
        self.extra = extra

    def _solver(self, linear, fs):
        z = ZS.get(linear)
        if z is None:
            z = ZS[linear] = Z(linear)
        s = z3.SimpleSolver()
        limit(s, self.timeout)
        for f in fs:
            s.add(z.tr(f))
        return (z, s)

    def check(self, goal, full=True):
        """'proved', 'sat' or 'unknown'."""
        if self.trivial or goal is TRUE:
            return "proved"
        t0 = time.time()
        STATS["queries"] += 1
        z, s = self.lin
        s.push()
        s.add(z3.Not(z.tr(goal)))
        r = run(s, self.timeout)
        self.model = s.model() if r == z3.sat else None
        s.pop()
        if r != z3.unsat and full and self.ctx.nonlinear and self.nl:
            if self.full is None:
                self.full = self._solver(False, self.hyps + self.ctx.lemmas + self.extra)
            z2, s2 = self.full
            s2.push()
            s2.add(z3.Not(z2.tr(goal)))
            r = run(s2, self.timeout)
            s2.pop()
            if r == z3.unknown:
                s3 = z3.Solver()
                limit(s3, self.timeout)
                s3.add(s2.assertions())
                s3.add(z3.Not(z2.tr(goal)))
                r = run(s3, self.timeout)
        dt = time.time() - t0
        STATS["time"] += dt
        if r == z3.unsat:
            STATS["unsat"] += 1
            return "proved"
        if r == z3.sat:
            STATS["sat"] += 1
            return "sat"
        STATS["unknown"] += 1
        return "unknown"

    def falsified(self, goal):
        """True if the last linear model falsifies goal (heuristic, used to drop candidates quickly)."""
        if self.model is None:
            return False
        z, s = self.lin
        v = self.model.eval(z.tr(goal), model_completion=True)
        return z3.is_false(v)

    def smt2(self, goal, linear=False):
        z, s = self._solver(linear, self.hyps + self.ctx.lemmas + (self.extra if linear else []))
        s.add(z3.Not(z.tr(goal)))
        return s.to_smt2()


def prove(goal, hyps=(), facts=(), **kw):
    p = Prover(list(hyps), list(facts), [goal], **kw)
    return p.check(goal)


def consistent(hyps, facts=(), **kw):
    """Reachability: False only if hyps + instances are unsatisfiable."""
    return prove(FALSE, hyps, facts, **kw) != "proved"
