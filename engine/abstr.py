"""Generalization: complex subterms become uninterpreted functions of their integer subterms.

If the generalized obligation is valid, so is the original one (it is an instance of it): the solver is first asked
about the generalized obligation, which does not mention the arithmetic that the argument does not need.
"""
from . import terms as tm
from .solver import Fact
from .terms import T, app, elem, sym

HEAVY = {"vsum", "vany", "vall", "mmin", "mmax", "sqrt", "exp", "log", "vcnt", "cos", "sin", "vnorm", "mdet"}
_memo = {}
_skel = {}


def simple(v):
    """A row of a stored array."""
    if v.op == "sym":
        return True
    if v.op == "app" and v.name not in tm.VDEF:
        return all(a.sort == "I" for a in v.args)
    return False


_hasv = {}


def hasv(t):
    """Does the term mention a vector?"""
    r = _hasv.get(t)
    if r is None:
        r = _hasv[t] = t.sort == "V" or any(hasv(c) for c in tm.children(t))
    return r


def heavy(t):
    if t.op == "div":
        return tm.const_val(t.args[1]) is None and hasv(t)
    if t.op != "app":
        return False
    if t.name == "F":
        return not simple(t.args[0])
    return t.name in HEAVY and hasv(t)


def ints(t, out):
    """Maximal integer subterms in order of occurrence."""
    st = [t]
    while st:
        x = st.pop()
        if x.sort == "I" and x is not t:
            if tm.const_val(x) is None and x not in out:
                out[x] = None
            continue
        st.extend(reversed(tm.children(x)))


def abst(t):
    r = _memo.get(t)
    if r is not None:
        return r
    if heavy(t):
        d = {}
        ints(t, d)
        ks = list(d)
        sk = tm.replace(t, {k: sym("$a%d:I" % i, "I") for i, k in enumerate(ks)})
        i = _skel.setdefault(sk, len(_skel))
        name = ("F$%d" if t.op == "app" and t.name == "F" else "A$%d") % i
        r = app(name, tuple(abst(k) for k in ks) or (tm.num(0),), t.sort)
    elif t.op == "app" and t.name in tm.VDEF and tm.VDT.get(t.name) and t.name.startswith("lam"):
        dt = tm.VDT[t.name]
        n = 0
        while "$ae%d" % n in tm.free(t):
            n += 1
        e = sym("$ae%d" % n, "I")
        b = elem(t, e, dt)
        b2 = abst(b)
        r = t if b2 is b else tm.lam(e, b2, dt)
    elif not tm.children(t):
        r = t
    else:
        r = tm.rebuild(t, abst)
    _memo[t] = r
    return r


_facts = {}


def afact(f):
    r = _facts.get(id(f))
    if r is None or r[0] is not f:
        r = (f, Fact(f.vars, [[abst(p) for p in pl] for pl in f.pats], abst(f.body), f.name))
        _facts[id(f)] = r
    return r[1]


def abstract(hyps, facts, goals):
    return [abst(h) for h in hyps], [afact(f) for f in facts], [abst(g) for g in goals]
