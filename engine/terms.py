"""Hash-consed terms over Int, Real, Bool and vectors, with a polynomial normal form.

Sorts: 'I' int, 'R' real, 'B' bool, 'V' vector (an abstract sequence; elements are read with
the functions at (Real), ati (Int), atb (Bool)).
"""
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "name", "_subs", "_free", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("symbolic term used as a Python bool: %s" % show(self))


def _mk(op, args, sort, name=None):
    key = (op, args, sort, name)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.name = op, args, sort, name
        _cnt[0] += 1
        t.id = _cnt[0]
        t._subs = None
        t._free = None
        _tab[key] = t
    return t


TRUE = _mk("true", (), "B")
FALSE = _mk("false", (), "B")


def sym(name, sort):
    return _mk("sym", (), sort, name)


def app(name, args, sort):
    """Uninterpreted (or rule-defined) function application."""
    for i, a in enumerate(args):
        # F(ite(c,u,v)) -> ite(c, F(u), F(v)) for vector arguments of element and value readers
        if a.op == "ite" and a.sort == "V" and name in PUSH:
            c, u, v = a.args
            rest = list(args)
            rest[i] = u
            x = app(name, tuple(rest), sort)
            rest[i] = v
            y = app(name, tuple(rest), sort)
            return ite(c, x, y)
    if name in BETA and args[0].op == "app" and args[0].name in VDEF:
        return VDEF[args[0].name](args[0].args, args[1])
    return _mk("app", tuple(args), sort, name)


PUSH = {"at", "ati", "atb", "F"}
BETA = {"at", "ati", "atb"}


# ---------------------------------------------------------------- polynomials
# op 'poly', args = ((mono, coeff), ...), mono = tuple of atom terms sorted by id
def num(v, sort=None):
    if isinstance(v, bool):
        v = int(v)
    if sort is None:
        sort = "I" if isinstance(v, int) else "R"
    if isinstance(v, float):
        v = Fraction(repr(v))
    else:
        v = Fraction(v)
    return _mkpoly({(): v} if v else {}, sort)


def _mkpoly(d, sort):
    items = [(m, c) for m, c in d.items() if c]
    if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1:
        return items[0][0][0]
    items.sort(key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0])))
    return _mk("poly", tuple(items), sort)


def _poly(t):
    if t.op == "poly":
        return dict(t.args)
    return {(t,): Fraction(1)}


def is_const(t):
    return t.op == "poly" and (not t.args or (len(t.args) == 1 and t.args[0][0] == ()))


def const_val(t):
    """Fraction if t is a numeric constant else None."""
    if t.op == "poly":
        if not t.args:
            return Fraction(0)
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
    return None


def toreal(t):
    if t.sort == "R":
        return t
    if t.sort == "B":
        return ite(t, num(1, "R"), num(0, "R"))
    if t.op == "poly":
        d = {}
        for m, c in t.args:
            m2 = tuple(sorted((toreal(a) for a in m), key=lambda a: a.id))
            d[m2] = d.get(m2, 0) + c
        return _mkpoly(d, "R")
    if t.op == "ite":
        return ite(t.args[0], toreal(t.args[1]), toreal(t.args[2]))
    return _mk("toreal", (t,), "R")


def toint(t):
    """Truncation toward zero (Python int() / C cast)."""
    if t.sort == "I":
        return t
    if t.sort == "B":
        return ite(t, num(1), num(0))
    c = const_val(t)
    if c is not None:
        return num(int(c))
    if t.op == "toreal":
        return t.args[0]
    if t.op == "poly" and all(
        c.denominator == 1 and all(a.op == "toreal" for a in m) for m, c in t.args
    ):
        d = {}
        for m, c in t.args:
            m2 = tuple(sorted((a.args[0] for a in m), key=lambda a: a.id))
            d[m2] = d.get(m2, 0) + c
        return _mkpoly(d, "I")
    return app("trunc", (t,), "I")


def floor(t):
    if t.sort == "I":
        return t
    c = const_val(t)
    if c is not None:
        import math

        return num(math.floor(c))
    if t.op == "toreal":
        return t.args[0]
    if t.op == "poly" and all(
        c.denominator == 1 and all(a.op == "toreal" for a in m) for m, c in t.args
    ):
        return toint(t)
    return _mk("floor", (t,), "I")


def _unify(a, b):
    if a.sort == b.sort and a.sort in "IR":
        return a, b, a.sort
    if a.sort == "B":
        a = toint(a)
    if b.sort == "B":
        b = toint(b)
    if a.sort == b.sort:
        return a, b, a.sort
    return toreal(a), toreal(b), "R"


def add(a, b):
    a, b, s = _unify(a, b)
    d = dict(_poly(a))
    for m, c in _poly(b).items():
        d[m] = d.get(m, 0) + c
    return _mkpoly(d, s)


def neg(a):
    if a.sort == "B":
        a = toint(a)
    return _mkpoly({m: -c for m, c in _poly(a).items()}, a.sort)


def sub(a, b):
    return add(a, neg(b))


def scale(c, a):
    return _mkpoly({m: c * x for m, x in _poly(a).items()}, a.sort)


def mul(a, b):
    a, b, s = _unify(a, b)
    ca, cb = const_val(a), const_val(b)
    if ca is not None:
        return scale(ca, b)
    if cb is not None:
        return scale(cb, a)
    pa, pb = _poly(a), _poly(b)
    lim = 64 if s == "I" else 9
    if len(pa) * len(pb) > lim:
        # keep big factors opaque
        if len(pa) > 1:
            pa = {(_atomize(a),): Fraction(1)}
        if len(pa) * len(pb) > lim and len(pb) > 1:
            pb = {(_atomize(b),): Fraction(1)}
    d = {}
    for m, c in pa.items():
        for m2, c2 in pb.items():
            mm = tuple(sorted(m + m2, key=lambda x: x.id))
            d[mm] = d.get(mm, 0) + c * c2
    return _mkpoly(d, s)


def _atomize(t):
    return _mk("id", (t,), t.sort)


def div(a, b):
    a, b = toreal(a), toreal(b)
    c = const_val(b)
    if c is not None and c != 0:
        return scale(1 / c, a)
    ca = const_val(a)
    if ca is not None and ca == 0:
        return a
    # (c*x)/b -> c * (x/b) for uniformity
    if a.op == "poly" and len(a.args) == 1 and a.args[0][0]:
        m, k = a.args[0]
        if k != 1:
            return scale(k, _mk("div", (_mkpoly({m: Fraction(1)}, "R"), b), "R"))
    if ca is not None and ca != 1:
        return scale(ca, _mk("div", (num(1, "R"), b), "R"))
    return _mk("div", (a, b), "R")


def idiv(a, b):
    """Floor division on integers."""
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb is not None and cb != 0:
        return num(int(ca // cb))
    if cb == 1:
        return a
    return _mk("idiv", (a, b), "I")


def mod(a, b):
    ca, cb = const_val(a), const_val(b)
    if ca is not None and cb is not None and cb != 0:
        return num(int(ca % cb))
    return _mk("mod", (a, b), "I")


def power(a, n):
    if n == 0:
        return num(1, a.sort)
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


# ---------------------------------------------------------------- boolean
def _cmp(op, p):
    """p (op) 0 with op in le0, lt0, eq0; normalized scaling."""
    c = const_val(p)
    if c is not None:
        return TRUE if {"le0": c <= 0, "lt0": c < 0, "eq0": c == 0}[op] else FALSE
    pol = _poly(p)
    s = p.sort
    if s == "I":
        from math import gcd

        den = 1
        for c in pol.values():
            den = den * c.denominator // gcd(den, c.denominator)
        g = 0
        for m, c in pol.items():
            if m:
                g = gcd(g, int(c * den))
        if op == "lt0":
            # p < 0  <=>  p + 1 <= 0
            k = pol.get((), Fraction(0)) * den
            pol = {m: c * den for m, c in pol.items()}
            pol[()] = k + 1
            op = "le0"
        else:
            pol = {m: c * den for m, c in pol.items()}
        k = pol.get((), Fraction(0))
        if op == "eq0" and int(k) % g:
            return FALSE
        import math

        d = {m: c / g for m, c in pol.items() if m}
        if k:
            d[()] = Fraction(math.ceil(k / g)) if op == "le0" else k / g
        pol = {m: c for m, c in d.items() if c}
    else:
        lead = None
        for m, c in sorted(pol.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0]))):
            if m:
                lead = c
                break
        pol = {m: c / abs(lead) for m, c in pol.items()}
    if op == "eq0":
        lead = None
        for m, c in sorted(pol.items(), key=lambda mc: (len(mc[0]), tuple(a.id for a in mc[0]))):
            if m:
                lead = c
                break
        if lead < 0:
            pol = {m: -c for m, c in pol.items()}
    return _mk(op, (_mkpoly(pol, s),), "B")


_memo = {}


def le(a, b):
    k = ("le", a, b)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _cmp("le0", sub(a, b))
    return r


def lt(a, b):
    k = ("lt", a, b)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _cmp("lt0", sub(a, b))
    return r


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    k = ("eq", a, b)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _eq(a, b)
    return r


def _eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if a.id > b.id:
            a, b = b, a
        return _mk("iff", (a, b), "B")
    if a.sort == "V" or b.sort == "V":
        assert a.sort == b.sort, (a, b)
        if a.op == "ite":
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
        if a.id > b.id:
            a, b = b, a
        return _mk("eqV", (a, b), "B")
    return _cmp("eq0", sub(a, b))


def not_(a):
    r = _memo.get(a)
    if r is None:
        r = _memo[a] = _not(a)
    return r


def _not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return _cmp("lt0", neg(a.args[0]))
    if a.op == "lt0":
        return _cmp("le0", neg(a.args[0]))
    if a.op == "and":
        return or_(*[not_(x) for x in a.args])
    if a.op == "or":
        return and_(*[not_(x) for x in a.args])
    return _mk("not", (a,), "B")


def and_(*xs):
    k = ("and_", xs)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _and_(*xs)
    return r


def _and_(*xs):
    s = []
    seen = set()
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        for y in x.args if x.op == "and" else (x,):
            if y not in seen:
                seen.add(y)
                s.append(y)
    for y in s:
        if not_(y) in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return _mk("and", tuple(s), "B")


def or_(*xs):
    k = ("or_", xs)
    r = _memo.get(k)
    if r is None:
        r = _memo[k] = _or_(*xs)
    return r


def _or_(*xs):
    s = []
    seen = set()
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        for y in x.args if x.op == "or" else (x,):
            if y not in seen:
                seen.add(y)
                s.append(y)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    for y in s:
        if y.op == "and":
            continue
        if not_(y) in seen:
            return TRUE
    s.sort(key=lambda t: t.id)
    return _mk("or", tuple(s), "B")


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort != b.sort:
        if "R" in (a.sort, b.sort):
            a, b = toreal(a), toreal(b)
        elif "I" in (a.sort, b.sort):
            a, b = toint(a), toint(b)
        if a is b:
            return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "le0" and c.args[0].sort == "R":
        return ite(not_(c), b, a)
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return _mk("ite", (c, a, b), a.sort)


def tmin(a, b):
    a, b, _ = _unify(a, b)
    return ite(le(a, b), a, b)


def tmax(a, b):
    a, b, _ = _unify(a, b)
    return ite(le(b, a), a, b)


def tabs(a):
    return ite(le(num(0, a.sort), a), a, neg(a))


# ---------------------------------------------------------------- element readers
ACC = {"f": ("at", "R"), "i": ("ati", "I"), "b": ("atb", "B")}
SORTDT = {"R": "f", "I": "i", "B": "b"}


def elem(v, k, dtype):
    n, s = ACC[dtype]
    return app(n, (v, k), s)


# ---------------------------------------------------------------- traversal, substitution
def children(t):
    if t.op == "poly":
        out = []
        for m, _ in t.args:
            out.extend(m)
        return out
    return t.args


def free(t):
    """Set of symbol names occurring in t."""
    if t._free is None:
        if t.op == "sym":
            t._free = frozenset((t.name,))
        else:
            s = frozenset()
            for c in children(t):
                f = free(c)
                if not f <= s:
                    s = s | f
            t._free = s
    return t._free


def rebuild(t, f):
    """Rebuild t with children mapped through f (simplifying constructors)."""
    op = t.op
    if op == "poly":
        r = num(0, t.sort)
        for m, c in t.args:
            p = num(c, t.sort)
            for a in m:
                p = mul(p, f(a))
            r = add(r, p)
        return r
    a = [f(x) for x in t.args]
    return build(t, a)


def build(t, a):
    op = t.op
    if op == "app":
        return app(t.name, tuple(a), t.sort)
    if op == "ite":
        return ite(*a)
    if op == "and":
        return and_(*a)
    if op == "or":
        return or_(*a)
    if op == "not":
        return not_(a[0])
    if op in ("le0", "lt0", "eq0"):
        return _cmp(op, a[0])
    if op in ("eqV", "iff"):
        return eq(*a)
    if op == "toreal":
        return toreal(a[0])
    if op == "floor":
        return floor(a[0])
    if op == "div":
        return div(*a)
    if op == "idiv":
        return idiv(*a)
    if op == "mod":
        return mod(*a)
    if op == "id":
        return a[0] if const_val(a[0]) is not None else _mk("id", (a[0],), a[0].sort)
    raise AssertionError(op)


def subst(t, m):
    """Substitute symbols (dict sym-term -> term)."""
    if not m:
        return t
    names = frozenset(s.name for s in m)
    cache = {}

    def go(x):
        if x.op == "sym":
            return m.get(x, x)
        if not (free(x) & names):
            return x
        r = cache.get(x)
        if r is None:
            r = rebuild(x, go)
            cache[x] = r
        return r

    return go(t)


def replace(t, m):
    """Replace arbitrary subterms (dict term -> term), top-down."""
    cache = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not children(x):
            return x
        r = cache.get(x)
        if r is None:
            r = rebuild(x, go)
            cache[x] = r
        return r

    return go(t)


def show(t, depth=0):
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1)
    op = t.op
    if op == "sym":
        return t.name
    if op in ("true", "false"):
        return op
    if op == "poly":
        if not t.args:
            return "0"
        out = []
        for m, c in t.args:
            body = "*".join(s(a) for a in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(body)
            else:
                out.append("%s*%s" % (c, body))
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if op == "app":
        return "%s(%s)" % (t.name, ", ".join(s(a) for a in t.args))
    if op in ("le0", "lt0", "eq0"):
        return "(%s %s 0)" % (s(t.args[0]), {"le0": "<=", "lt0": "<", "eq0": "=="}[op])
    return "%s(%s)" % (op, ", ".join(s(a) for a in t.args))


# ---------------------------------------------------------------- defined vector constructors
# VDEF[name] = function(args, k) -> element term (sort given by VDT[name])
VDEF = {}
VDT = {}


def defv(name, dtype, fn):
    if name not in VDEF:
        VDEF[name] = fn
        VDT[name] = dtype
    return name


_lam = {}


def _merge_points(body, k):
    """ite(k == t, b[k:=t], b) -> b"""
    if body.op == "ite" and body.args[0].op == "eq0" and k.name in free(body.args[0]):
        p = _poly(body.args[0].args[0])
        c = p.get((k,))
        if c in (1, -1):
            t = sub(k, scale(c, body.args[0].args[0]))
            if k.name not in free(t):
                b = _merge_points(body.args[2], k)
                if subst(b, {k: t}) is subst(body.args[1], {k: t}):
                    return b
    return body


def _conds(body, k):
    """Conditions free of k in the conditionals of the body that depend on k."""
    out, seen, st = [], set(), [body]
    while st:
        x = st.pop()
        if x in seen or x.sort == "V" or k.name not in free(x):
            continue
        seen.add(x)
        if x.op == "ite" and k.name not in free(x.args[0]):
            if x.args[0] not in out:
                out.append(x.args[0])
        st.extend(children(x))
    return out


def assuming(t, c, v):
    """t with the condition c of its conditionals decided."""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x is c:
                r = v
            elif x.sort == "V" or not children(x):
                r = x
            else:
                r = rebuild(x, go)
            memo[x] = r
        return r

    return go(t)


def lam(k, body, dtype):
    """Vector whose element k is body (k a symbol). Lambda-lifted over maximal k-free subterms."""
    body = {"f": toreal, "i": lambda t: toint(t) if t.sort == "B" else t, "b": lambda t: t}[dtype](body)
    acc, s = ACC[dtype]
    # eta: at(v,k) with v free of k
    if body.op == "app" and body.name == acc and body.args[1] is k and k.name not in free(body.args[0]):
        return body.args[0]
    body = _merge_points(body, k)
    if body.op == "app" and body.name == acc and body.args[1] is k and k.name not in free(body.args[0]):
        return body.args[0]
    if body.op == "ite" and k.name not in free(body.args[0]):
        return ite(body.args[0], lam(k, body.args[1], dtype), lam(k, body.args[2], dtype))
    cs = _conds(body, k)
    if 0 < len(cs) <= 2:
        c = cs[0]
        return ite(c, lam(k, assuming(body, c, TRUE), dtype), lam(k, assuming(body, c, FALSE), dtype))
    params = []
    pmap = {}
    cache = {}

    def go(x):
        if x is k:
            return _K
        if k.name not in free(x):
            if x.op in ("true", "false") or const_val(x) is not None:
                return x
            p = pmap.get(x)
            if p is None:
                p = sym("$p%d:%s" % (len(params), x.sort), x.sort)
                pmap[x] = p
                params.append(x)
            return p
        r = cache.get(x)
        if r is None:
            r = rebuild(x, go)
            cache[x] = r
        return r

    tmpl = go(body)
    name = _lam.get((tmpl, dtype))
    if name is None:
        name = "lam%d" % len(_lam)
        _lam[(tmpl, dtype)] = name
        ps = [pmap[x] for x in params]

        def fn(args, kk, tmpl=tmpl, ps=ps):
            m = dict(zip(ps, args))
            m[_K] = kk
            return subst(tmpl, m)

        defv(name, dtype, fn)
    return app(name, tuple(params), "V")


_K = sym("$k", "I")


_weight = {}


def parts(t):
    """Subterms that determine the value, the positions read in arrays left out."""
    if t.op == "app" and t.name in VDEF:
        return (VDEF[t.name](t.args, _K),)
    return tuple(c for c in children(t) if c.sort != "I")


def weight(t):
    """Size of a term as a tree (saturating)."""
    r = _weight.get(t)
    if r is None:
        r = 1
        for c in parts(t):
            r += weight(c)
            if r > 100000:
                break
        _weight[t] = r
    return r


_names = {}


def names(t):
    """Function symbols of a term (and "div")."""
    r = _names.get(t)
    if r is None:
        s = {t.name} if t.op == "app" else {"div"} if t.op == "div" else set()
        for c in parts(t):
            s |= names(c)
        r = _names[t] = frozenset(s)
    return r


def mentions(t, ns):
    return bool(names(t) & ns)
