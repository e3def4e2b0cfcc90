"""Symbolic model of the part of numpy the code under verification uses.

Arrays are mathematical (real arithmetic, no rounding); every operation gives a new buffer except
views and in-place writes. This file is part of the trusted base; it is cross-checked against the
real numpy by /verif/monitors on every run.
"""
from . import core
from . import terms as tm
from .core import (BND, C, DT, EK, INF, POISON, SORT, Arr, Buf, Opaque, PathEnd, PyRaise, Unsupported, cast, dim, is_scalar, lift,
                   promote, same_dim, unlift, ONE, ZERO)
from .terms import (T, TRUE, FALSE, add, and_, app, const_val, elem, eq, ge, gt, implies, ite, lam, le, lt, mul, neg,
                    not_, num, or_, sub, sym, toreal)
from .solver import Fact

FK = sym("$f", "I")
R0, R1 = num(0, "R"), num(1, "R")


class SymSeq:
    """Sequence of symbolic length n; element k is value (a template over the symbol k)."""

    def __init__(self, n, k, value):
        self.n, self.k, self.value = n, k, value

    def get(self, i):
        return subst_value(self.value, {self.k: lift(i)})


class ListLike:
    """A Python list (of lists) of numbers given by the user."""

    def __init__(self, arr):
        self.arr = arr


def subst_value(v, m):
    if isinstance(v, T):
        return unlift(tm.subst(v, m))
    if isinstance(v, Arr):
        a = Arr.new([unlift(tm.subst(dim(d), m)) for d in v.shape], v.dtype, tm.subst(v.body(), m), v.buf.name)
        return a
    if isinstance(v, (tuple, list)):
        return type(v)(subst_value(x, m) for x in v)
    if isinstance(v, (bool, int, float, str, type(None), Opaque)) or callable(v):
        return v
    return v


# ------------------------------------------------------------------ conversion
def asarr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, ListLike):
        return x.arr.copy()
    if isinstance(x, SymSeq):
        return from_symseq(x)
    if isinstance(x, (list, tuple)):
        return from_list(x)
    if isinstance(x, range):
        return from_list(list(x))
    if hasattr(x, "sym_range"):
        lo, hi = x.sym_range
        return Arr.new((unlift(sub(hi, lo)),), "i", lam(EK, add(lo, EK), "i"))
    raise Unsupported("array from %s" % type(x).__name__)


def from_symseq(s):
    v = s.value
    if isinstance(v, (SymSeq, list, tuple)) and not is_scalar(v):
        v = asarr(v)
    if is_scalar(v):
        t = lift(v)
        return Arr.new((s.n,), DT[t.sort], lam(s.k, t, DT[t.sort]))
    if isinstance(v, Arr):
        for d in v.shape:
            if s.k.name in tm.free(dim(d)):
                raise Unsupported("ragged array")
        b = v.body()
        # shift binders: element axes move right by one
        nd = v.nd
        m = {BND[i]: BND[i + 1] for i in range(nd - 1)}
        m[s.k] = BND[0]
        return Arr.new((s.n,) + v.shape, v.dtype, tm.subst(b, m))
    raise Unsupported("array of %s" % type(v).__name__)


def from_list(xs):
    xs = [x if is_scalar(x) else asarr(x) for x in xs]
    if not xs:
        return Arr.new((0,), "f", lam(EK, R0, "f"))
    if all(is_scalar(x) for x in xs):
        ts = [lift(x) for x in xs]
        dt = "b"
        for t in ts:
            dt = promote(dt, DT[t.sort])
        ts = [cast(t, dt) for t in ts]
        b = ts[-1]
        for i in range(len(ts) - 2, -1, -1):
            b = ite(eq(EK, num(i)), ts[i], b)
        return Arr.new((len(ts),), dt, lam(EK, b, dt))
    if all(isinstance(x, Arr) for x in xs):
        nd = xs[0].nd
        dt = xs[0].dtype
        for x in xs[1:]:
            dt = promote(dt, x.dtype)
            if x.nd != nd:
                raise PyRaise("ValueError", "inhomogeneous array")
            for d, e in zip(x.shape, xs[0].shape):
                need_dim(d, e)
        m = {BND[i]: BND[i + 1] for i in range(nd - 1)}
        bs = [tm.subst(castarr(x, dt).body(), m) for x in xs]
        b = bs[-1]
        for i in range(len(bs) - 2, -1, -1):
            b = ite(eq(BND[0], num(i)), bs[i], b)
        return Arr.new((len(xs),) + xs[0].shape, dt, b)
    raise PyRaise("ValueError", "inhomogeneous array")


def castarr(a, dt):
    if a.dtype == dt:
        return a
    r = emap(lambda x: cast(x, dt), a, dtype=dt)
    return r


def dtype_of(d):
    if d is None:
        return "f"
    if isinstance(d, str):
        if d.startswith("float") or d in ("f8", "d", "double"):
            return "f"
        if d.startswith("int") or d == "i8":
            return "i"
        if d.startswith("bool"):
            return "b"
    nm = getattr(d, "np_dtype", None) or getattr(d, "name", None)
    if d is float:
        return "f"
    if d is int:
        return "i"
    if d is bool:
        return "b"
    if isinstance(nm, str):
        for k, r in (("float", "f"), ("double", "f"), ("int", "i"), ("bool", "b")):
            if k in nm:
                return r
    raise Unsupported("dtype %r" % (d,))


def need_dim(a, b):
    """Two dimensions must agree (shape error otherwise)."""
    if same_dim(a, b):
        return
    if isinstance(a, int) and isinstance(b, int):
        raise PyRaise("ValueError", "operands could not be broadcast together")
    g = eq(dim(a), dim(b))
    if g is FALSE:
        raise PyRaise("ValueError", "operands could not be broadcast together")
    c = C()
    if c.unit.fork_errors:
        if not c.branch(g):
            if c.branch(or_(eq(dim(a), ONE), eq(dim(b), ONE))):
                c.unit.on_broadcast()
                raise PathEnd()
            raise PyRaise("ValueError", "operands could not be broadcast together")
        return
    c.oblige("C24", g, "array shapes agree")
    c.assume(g)


def need(goal, label, prop="C24"):
    if C().unit.fork_errors and prop == "C24":
        if not C().branch(goal):
            raise PyRaise("IndexError" if "index" in label else "ValueError", label)
        return
    C().oblige(prop, goal, label)
    C().assume(goal)


def bshape(shapes):
    nd = max([len(s) for s in shapes] or [0])
    out = []
    for j in range(nd):
        cur = 1
        for s in shapes:
            i = j - (nd - len(s))
            if i < 0:
                continue
            d = s[i]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            else:
                need_dim(cur, d)
                if isinstance(d, int):
                    cur = d
        out.append(cur)
    return tuple(out)


def bidx(a, shape, idx):
    """Index of array a corresponding to index idx of the broadcast shape."""
    off = len(shape) - a.nd
    out = []
    for i, d in enumerate(a.shape):
        if isinstance(d, int) and d == 1 and not (isinstance(shape[i + off], int) and shape[i + off] == 1):
            out.append(ZERO)
        else:
            out.append(idx[i + off])
    return tuple(out)


def emap(fn, *args, dtype=None):
    """Elementwise function of scalars and arrays."""
    args = [x if is_scalar(x) else asarr(x) for x in args]
    arrs = [x for x in args if isinstance(x, Arr)]
    if not arrs:
        r = fn(*[lift(x) for x in args])
        return unlift(r)
    # arrays selected by the same mask: work on the bases
    pr = [a.prov for a in arrs]
    if all(p is not None and p[0] == "mask" for p in pr) and all(p[1] is pr[0][1] and p[2] is pr[0][2] for p in pr):
        bases = [a.prov[3] if isinstance(a, Arr) else a for a in args]
        r = emap(fn, *bases, dtype=dtype)
        return compress(r, pr[0][1], pr[0][2])
    shape = bshape([a.shape for a in arrs])
    idx = tuple(BND[: len(shape) - 1]) + (EK,)
    vals = [lift(x) if not isinstance(x, Arr) else x.el(bidx(x, shape, idx)) for x in args]
    b = fn(*vals)
    dt = dtype or DT[b.sort]
    b = cast(b, dt)
    return Arr.new(shape, dt, lam(EK, b, dt))


def broadcast_to(v, shape, dt):
    """Template body (over BND prefix) of v broadcast to shape with dtype dt."""
    if is_scalar(v):
        return lam(EK, cast(lift(v), dt), dt)
    v = castarr(asarr(v), dt)
    nd = len(shape)
    if v.nd > nd:
        # leading dimensions equal to one are dropped
        if all(C().branch(eq(dim(d), ONE)) for d in v.shape[: v.nd - nd]):
            v = getitem(v, tuple([0] * (v.nd - nd)))
        else:
            raise PyRaise("ValueError", "could not broadcast input array")
    off = nd - v.nd
    for i, d in enumerate(v.shape):
        if not (isinstance(d, int) and d == 1):
            need_dim(d, shape[i + off])
    idx = tuple(BND[: nd - 1]) + (EK,)
    bi = bidx(v, shape, idx)
    if bi[-1] is EK:
        return v.vec(bi[:-1])
    return lam(EK, v.el(bi), dt)


# ------------------------------------------------------------------ indexing
def isint(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, T) and x.sort == "I")


def norm_index(i, n):
    """Index term in [0, n), with the range obligation."""
    n = dim(n)
    if isinstance(i, int):
        if i < 0:
            t = add(n, num(i))
            need(le(ZERO, t), "index in range")
            return t
        t = num(i)
        need(lt(t, n), "index in range")
        return t
    c = C()
    if c.entails(le(ZERO, i)):
        need(lt(i, n), "index in range")
        return i
    if c.entails(lt(i, ZERO)):
        need(le(ZERO, add(n, i)), "index in range")
        return add(n, i)
    need(and_(le(neg(n), i), lt(i, n)), "index in range")
    return ite(le(ZERO, i), i, add(n, i))


def clip_stop(s, n, lo=0):
    """Normalize a slice bound (already a term) for a dimension n; result in [lo, n + lo]."""
    c = C()
    hi = n if lo == 0 else sub(n, ONE)
    if c.branch(lt(s, ZERO)):
        s = add(s, n)
        if c.entails(le(num(lo), s)):
            return s
        return ite(le(num(lo), s), s, num(lo))
    if s is hi or c.entails(le(s, hi)):
        return s
    return ite(le(s, hi), s, hi)


def slice_params(s, n):
    """(start, step, length) of a slice for dimension n."""
    n = dim(n)
    st = 1 if s.step is None else s.step
    if isinstance(st, T) or st not in (1, -1):
        if isinstance(st, int) and st > 1 and s.start is None and s.stop is None:
            return ZERO, num(st), tm.idiv(add(n, num(st - 1)), num(st))
        raise Unsupported("slice step")
    if st == 1:
        a = ZERO if s.start is None else clip_stop(lift(s.start), n)
        b = n if s.stop is None else clip_stop(lift(s.stop), n)
        ln = sub(b, a)
        if a is not ZERO and not C().entails(le(ZERO, ln)):
            ln = ite(le(ZERO, ln), ln, ZERO)
        return a, ONE, ln
    a = sub(n, ONE) if s.start is None else clip_stop(lift(s.start), n, -1)
    b = num(-1) if s.stop is None else clip_stop(lift(s.stop), n, -1)
    ln = sub(a, b)
    if not C().entails(le(ZERO, ln)):
        ln = ite(le(ZERO, ln), ln, ZERO)
    return a, num(-1), ln


class Slice:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


def expand_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = tuple(asarr(x) if isinstance(x, (list, SymSeq, ListLike)) else x for x in idx)
    n = sum(1 for x in idx if x is not None and x is not Ellipsis and not (isinstance(x, Arr) and x.dtype == "b"))
    n += sum(x.nd for x in idx if isinstance(x, Arr) and x.dtype == "b")
    out = []
    for x in idx:
        if x is Ellipsis:
            out.extend([Slice(None, None, None)] * (a.nd - n))
            n = a.nd
        else:
            out.append(x)
    if n > a.nd:
        raise PyRaise("IndexError", "too many indices for array")
    out.extend([Slice(None, None, None)] * (a.nd - n))
    for x in out:
        if isinstance(x, bool) or (isinstance(x, T) and x.sort != "I") or isinstance(x, float):
            if isinstance(x, T) and x.sort == "B":
                raise Unsupported("boolean scalar index")
            raise PyRaise("IndexError", "only integers, slices and arrays are valid indices")
    return out


def view(a, idx):
    """Basic indexing (integers, slices, None)."""
    amap = list(a.amap)
    shape = []
    newpos = {}
    ax = 0
    for x in idx:
        if x is None:
            shape.append(1)
            continue
        n = a.shape[ax]
        if isinstance(x, Slice):
            if x.start is None and x.stop is None and x.step is None:
                newpos[ax] = (len(shape), ZERO, ONE)
                shape.append(n)
            else:
                st, step, ln = slice_params(x, n)
                newpos[ax] = (len(shape), st, step)
                shape.append(unlift(ln))
        else:
            newpos[ax] = ("x", norm_index(x, n))
        ax += 1
    for i, m in enumerate(amap):
        if m[0] == "a":
            p = newpos[m[1]]
            if p[0] == "x":
                amap[i] = ("x", add(mul(m[3], p[1]), m[2]))
            else:
                amap[i] = ("a", p[0], add(mul(m[3], p[1]), m[2]), mul(m[3], p[2]))
    return Arr(a.buf, shape, amap)


def getitem(a, idx):
    idx = expand_index(a, idx)
    adv = [i for i, x in enumerate(idx) if isinstance(x, Arr)]
    if not adv:
        if all(not isinstance(x, Slice) and x is not None for x in idx):
            ix = tuple(norm_index(x, n) for x, n in zip(idx, a.shape))
            if a.prov is not None and a.prov[0] == "mask" and False:
                pass
            return unlift(a.el(ix))
        return view(a, idx)
    if len(adv) == 1:
        p = adv[0]
        ixa = idx[p]
        if ixa.dtype == "b" and ixa.nd == 2:
            if a.nd == 2 and p == 0:
                return compress2(a, ixa)
            raise Unsupported("2-D mask")
        if ixa.nd != 1:
            if ixa.nd == 2 and a.nd == 1 and ixa.dtype == "i":
                check_gather(ixa, a.shape[0])
                return emap(lambda i: a.el((i,)), ixa, dtype=a.dtype)
            raise Unsupported("index array of rank %d" % ixa.nd)
        base = idx[:p] + [Slice(None, None, None)] + idx[p + 1:]
        v = view(a, base)
        # position of the indexed axis in the view
        q = sum(1 for x in idx[:p] if x is None or isinstance(x, Slice))
        if ixa.dtype == "b":
            need_dim(ixa.shape[0], a.shape[p - sum(1 for x in idx[:p] if x is None)])
            if q == 0:
                return compress(v, ixa.vec(), dim(ixa.shape[0]))
            raise Unsupported("mask on a later axis")
        return gather(v, q, ixa)
    if len(adv) == 2 and a.nd == 2 and len(idx) == 2 and all(x.dtype == "i" and x.nd == 1 for x in idx):
        need_dim(idx[0].shape[0], idx[1].shape[0])
        check_gather(idx[0], a.shape[0])
        check_gather(idx[1], a.shape[1])
        return emap(lambda i, j: a.el((i, j)), idx[0], idx[1], dtype=a.dtype)
    raise Unsupported("advanced indexing")


def check_gather(ixa, n):
    c = C()
    ks = [c.freshsym("g", "I") for _ in ixa.shape]
    e = ixa.el(tuple(ks))
    g = implies(and_(*[and_(le(ZERO, k), lt(k, dim(d))) for k, d in zip(ks, ixa.shape)]),
                and_(le(ZERO, e), lt(e, dim(n))))
    c.oblige("C24", g, "index array in range")


def gather(v, q, ixa):
    n = v.shape[q]
    check_gather(ixa, n)
    shape = list(v.shape)
    shape[q] = ixa.shape[0]
    idx = list(BND[: len(shape) - 1]) + [EK]
    src = list(idx)
    src[q] = ixa.el((idx[q],))
    prov = ("gather", ixa.vec(), dim(ixa.shape[0]), v) if q == 0 else None
    if q < len(shape) - 1:
        return Arr.new(shape, v.dtype, v.vec(tuple(src[:-1])), prov=prov)
    return Arr.new(shape, v.dtype, lam(EK, v.el(tuple(src)), v.dtype), prov=prov)


def compress(v, mask, n):
    """v[mask] along the first axis."""
    cnt = app("vcnt", (mask, n), "I")
    c = C()
    # keep the selected values (snapshot) as provenance
    base = v.copy() if not v.buf.ser < 0 else v
    nth = lambda r: app("nth", (mask, n, r), "I")
    shape = (cnt,) + tuple(v.shape[1:])
    if v.nd == 1:
        body = lam(EK, v.el((nth(EK),)), v.dtype)
    else:
        body = v.vec((nth(BND[0]),) + tuple(BND[1: v.nd - 1]))
    return Arr.new(shape, v.dtype, body, prov=("mask", mask, n, base))


def compress2(a, m):
    for d, e in zip(a.shape, m.shape):
        need_dim(d, e)
    body = m.body()
    cnt = app("vcnt2", (lam(EK, app("vcnt", (m.vec((EK,)), dim(m.shape[1])), "I"), "i"), dim(m.shape[0])), "I")
    key = lam(EK, a.el((app("nth2r", (lam(EK, app("vcnt", (m.vec((EK,)), dim(m.shape[1])), "I"), "i"), EK), "I"),
                        app("nth2c", (lam(EK, app("vcnt", (m.vec((EK,)), dim(m.shape[1])), "I"), "i"), EK), "I"))), a.dtype)
    return Arr.new((cnt,), a.dtype, key, prov=("mask2", body, None, a.copy()))


def cond_store(a, conds, fixedlast, body):
    """Store template body (over view axes, prefix BND and EK for the last) into view a."""


def assign(a, val):
    """a[...] = val for a view a."""
    buf = a.buf
    nd = len(buf.shape)
    bi = list(BND[: nd - 1])
    conds = []
    lastcond = None
    vidx = [None] * a.nd
    for i, m in enumerate(a.amap):
        b = bi[i] if i < nd - 1 else EK
        if m[0] == "x":
            cnd = eq(b, m[1])
        else:
            st, off, step, d = m[1], m[2], m[3], dim(a.shape[m[1]])
            if step is ONE:
                j = sub(b, off)
            elif const_val(step) == -1:
                j = sub(off, b)
            else:
                raise Unsupported("store through a strided view")
            vidx[st] = j
            if off is ZERO and step is ONE and same_dim(a.shape[st], buf.shape[i]):
                cnd = TRUE
            else:
                cnd = and_(le(ZERO, j), lt(j, d))
        if i < nd - 1:
            conds.append(cnd)
        else:
            lastcond = cnd
    for st in range(a.nd):
        if vidx[st] is None:
            vidx[st] = ZERO
    rc = and_(*conds)
    dt = buf.dtype
    old = buf.body
    if is_scalar(val):
        vt = cast(lift(val), dt)
        if lastcond is TRUE:
            new = ite(rc, lam(EK, vt, dt), old)
        else:
            oe = elem(old, EK, dt)
            new = ite(rc, lam(EK, ite(lastcond, vt, oe), dt), old)
    else:
        v = castarr(asarr(val), dt)
        if v.nd > a.nd:
            if all(C().branch(eq(dim(d), ONE)) for d in v.shape[: v.nd - a.nd]):
                v = getitem(v, tuple([0] * (v.nd - a.nd)))
            else:
                raise PyRaise("ValueError", "could not broadcast input array")
        off = a.nd - v.nd
        for i, d in enumerate(v.shape):
            if not (isinstance(d, int) and d == 1):
                need_dim(d, a.shape[i + off])
        ix = bidx(v, a.shape, vidx)
        if lastcond is TRUE and ix and ix[-1] is EK:
            if all("$e" not in tm.free(x) for x in ix[:-1]):
                nv = v.vec(ix[:-1])
            else:
                nv = lam(EK, v.el(ix), dt)
            new = ite(rc, nv, old)
        else:
            e = v.el(ix)
            oe = elem(old, EK, dt)
            if lastcond is TRUE:
                new = ite(rc, lam(EK, e, dt), old)
            else:
                new = ite(rc, lam(EK, ite(lastcond, e, oe), dt), old)
    a.prov = None
    buf.set(new)


def assign_where(a, condfn, valfn):
    """a[idx] = valfn(idx) where condfn(idx) (idx over the axes of view a)."""
    buf = a.buf
    if not (len(a.amap) == a.nd and all(m == ("a", i, ZERO, ONE) for i, m in enumerate(a.amap))):
        # general view: read-modify-write through a full assignment
        idx = tuple(BND[: a.nd - 1]) + (EK,)
        b = ite(condfn(idx), cast(valfn(idx), a.dtype), a.el(idx))
        tmp = Arr.new(a.shape, a.dtype, lam(EK, b, a.dtype))
        return assign(a, tmp)
    idx = tuple(BND[: a.nd - 1]) + (EK,)
    b = ite(condfn(idx), cast(valfn(idx), a.dtype), a.el(idx))
    buf.set(lam(EK, b, a.dtype))
    a.prov = None


def assign_rows(a, cond, rowfn):
    """a[i] = row i for the rows where cond(i), a of rank 2 (row level) or 1."""
    if a.nd == 2 and a.full():
        buf = a.buf
        buf.set(ite(cond(BND[0]), rowfn(BND[0]), buf.body))
        a.prov = None
    else:
        b = ite(cond(BND[0]), rowfn(BND[0]), a.body())
        return assign(a, Arr.new(a.shape, a.dtype, b))


def setitem(a, idx, val):
    idx = expand_index(a, idx)
    adv = [i for i, x in enumerate(idx) if isinstance(x, Arr)]
    if not adv:
        if all(not isinstance(x, Slice) and x is not None for x in idx):
            ix = tuple(norm_index(x, n) for x, n in zip(idx, a.shape))
            if isinstance(val, Arr):
                if all(C().branch(eq(dim(d), ONE)) for d in val.shape):
                    val = unlift(val.el((ZERO,) * val.nd))
                else:
                    raise PyRaise("ValueError", "setting an array element with a sequence")
            if not is_scalar(val):
                raise PyRaise("TypeError", "array element must be a number")
            v = Arr(a.buf, (), [("x", x) if False else x for x in _fix(a, ix)])
            return assign(v, val)
        return assign(view(a, idx), val)
    val = val if is_scalar(val) else asarr(val)
    if len(adv) == 1:
        p = adv[0]
        ixa = idx[p]
        if ixa.dtype == "b" and ixa.nd == a.nd and a.nd == 2 and p == 0:
            for d, e in zip(a.shape, ixa.shape):
                need_dim(d, e)
            if is_scalar(val):
                vt = lift(val)
                return assign_where(a, lambda i: ixa.el(i), lambda i: vt)
            if val.prov is not None and val.prov[0] == "mask2" and val.prov[1] is ixa.body():
                base = val.prov[3]
                return assign_where(a, lambda i: ixa.el(i), lambda i: base.el(i))
            raise Unsupported("2-D mask store")
        if ixa.nd != 1:
            raise Unsupported("index array of rank %d" % ixa.nd)
        base = idx[:p] + [Slice(None, None, None)] + idx[p + 1:]
        v = view(a, base)
        q = sum(1 for x in idx[:p] if x is None or isinstance(x, Slice))
        if q != 0:
            raise Unsupported("indexed store on a later axis")
        n = dim(v.shape[0])
        mk = ixa.vec()
        if ixa.dtype == "b":
            need_dim(ixa.shape[0], v.shape[0])
            cond = lambda k: elem(mk, k, "b")
            cnt = app("vcnt", (mk, n), "I")
            pos = lambda k: app("rank", (mk, n, k), "I")
            same = isinstance(val, Arr) and val.prov is not None and val.prov[0] == "mask" and val.prov[1] is mk
        else:
            check_gather(ixa, v.shape[0])
            m = dim(ixa.shape[0])
            cond = lambda k: app("hit", (mk, m, k), "B")
            cnt = m
            pos = lambda k: app("hitpos", (mk, m, k), "I")
            same = isinstance(val, Arr) and val.prov is not None and val.prov[0] == "gather" and val.prov[1] is mk
        if is_scalar(val):
            vt = cast(lift(val), v.dtype)
            if v.nd == 2:
                return assign_rows(v, cond, lambda k: lam(EK, vt, v.dtype))
            return assign_where(v, lambda i: cond(i[0]), lambda i: vt)
        if same:
            src = castarr(val.prov[3], v.dtype) if val.prov[3].dtype != v.dtype else val.prov[3]
            if v.nd == 2 and src.nd == 2:
                return assign_rows(v, cond, lambda k: src.vec((k,)))
            if v.nd == 1 and src.nd == 1:
                return assign_where(v, lambda i: cond(i[0]), lambda i: src.el(i))
        val = castarr(val, v.dtype)
        if val.nd == v.nd:
            if not (isinstance(val.shape[0], int) and val.shape[0] == 1):
                need_dim(val.shape[0], unlift(cnt))
            else:
                pos = lambda k: ZERO
            if v.nd == 2:
                need_dim(val.shape[1], v.shape[1])
                return assign_rows(v, cond, lambda k: val.vec((pos(k),)))
            return assign_where(v, lambda i: cond(i[0]), lambda i: val.el((pos(i[0]),)))
        if val.nd == 1 and v.nd == 2:
            need_dim(val.shape[0], v.shape[1])
            return assign_rows(v, cond, lambda k: val.vec(()))
        raise Unsupported("indexed store")
    if len(adv) == 2 and a.nd == 2 and len(idx) == 2:
        i0, i1 = idx
        if i0.dtype == "i" and i0.nd == 1 and i0.vec() is lam(EK, EK, "i"):
            need_dim(i0.shape[0], i1.shape[0])
            check_gather(i0, a.shape[0])
            check_gather(i1, a.shape[1])
            m = dim(i0.shape[0])
            vf = (lambda i: lift(val)) if is_scalar(val) else (lambda i: val.el((i[0],)))
            return assign_where(a, lambda i: and_(le(ZERO, i[0]), lt(i[0], m), eq(i[1], i1.el((i[0],)))), vf)
    raise Unsupported("advanced store")


def _fix(a, ix):
    out = []
    for m in a.amap:
        if m[0] == "x":
            out.append(m)
        else:
            out.append(("x", add(mul(m[3], ix[m[1]]), m[2])))
    return out


# ------------------------------------------------------------------ reductions
def vsum(v, n):
    if isinstance(n, int):
        n = num(n)
    c = const_val(n)
    if c is not None and 0 <= c <= 4:
        r = R0
        for i in range(int(c)):
            r = add(r, elem(v, num(i), "f"))
        return r
    return app("vsum", (v, n), "R")


def fvec(a, prefix=()):
    return castarr(a, "f").vec(prefix)


def red_vec(kind, v, n, dt):
    """Reduction of the first n elements of vector v (element type dt)."""
    n = dim(n)
    if kind == "sum":
        if dt == "b":
            return app("vcnt", (v, n), "I")
        if dt == "i":
            return app("ivsum", (v, n), "I")
        return vsum(v, n)
    if kind == "mean":
        return tm.div(vsum(v, n), toreal(n))
    if kind == "prod":
        return app("vprod", (v, n), "R")
    if kind in ("min", "max", "argmin", "argmax"):
        need(lt(ZERO, n), "reduction of a non-empty array")
        if dt == "i":
            v = lam(EK, toreal(elem(v, EK, "i")), "f")
        elif dt == "b":
            raise Unsupported("%s of booleans" % kind)
        if kind.startswith("arg"):
            return app("v" + kind, (v, n), "I")
        r = app("v" + kind, (v, n), "R")
        return tm.toint(r) if dt == "i" else r
    if kind in ("any", "all"):
        if dt != "b":
            v = lam(EK, cast(elem(v, EK, dt), "b"), "b")
        return app("v" + kind, (v, n), "B")
    raise Unsupported(kind)


def reduce(kind, a, axis=None):
    a = asarr(a) if not is_scalar(a) else a
    if is_scalar(a):
        if kind in ("argmin", "argmax"):
            return 0
        if kind in ("any", "all"):
            return unlift(cast(lift(a), "b"))
        return a
    if kind in ("mean", "prod"):
        a = castarr(a, "f")
    if a.nd == 1:
        if axis not in (None, 0, -1):
            raise PyRaise("AxisError", "axis out of bounds")
        if a.prov is not None and a.prov[0] == "mask" and kind in ("min", "max"):
            _, mask, n, base = a.prov
            need(app("vany", (mask, n), "B"), "reduction of a non-empty array")
            return app("m" + kind, (castarr(base, "f").vec(), mask, n), "R")
        return unlift(red_vec(kind, a.vec(), a.shape[0], a.dtype))
    if a.nd == 2:
        if axis in (1, -1):
            t = red_vec(kind, a.vec((EK,)), a.shape[1], a.dtype)
            return Arr.new((a.shape[0],), DT[t.sort], lam(EK, t, DT[t.sort]))
        if axis == 0:
            t = red_vec(kind, lam(FK, a.el((FK, EK)), a.dtype), a.shape[0], a.dtype)
            return Arr.new((a.shape[1],), DT[t.sort], lam(EK, t, DT[t.sort]))
        if axis is None and kind in ("sum", "min", "max", "any", "all"):
            t = red_vec(kind, a.vec((EK,)), a.shape[1], a.dtype)
            dt = DT[t.sort]
            return unlift(red_vec(kind, lam(EK, t, dt), a.shape[0], dt))
        if axis is None and kind == "mean":
            t = red_vec("sum", a.vec((EK,)), a.shape[1], a.dtype)
            s = red_vec("sum", lam(EK, t, "f"), a.shape[0], "f")
            return tm.div(s, toreal(mul(dim(a.shape[0]), dim(a.shape[1]))))
    raise Unsupported("%s of rank %d, axis %r" % (kind, a.nd, axis))


def square(x):
    if x.op == "ite":
        return ite(x.args[0], square(x.args[1]), square(x.args[2]))
    if len(tm._poly(x)) > 1:
        x = tm._atomize(x)
    return mul(x, x)


def norm(a, axis=None):
    a = castarr(asarr(a), "f")
    sq = emap(square, a)
    s = reduce("sum", sq, axis)
    if isinstance(s, Arr):
        return emap(lambda x: app("sqrt", (x,), "R"), s)
    return app("sqrt", (lift(s),), "R")


def dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return emap(mul, a, b)
    a, b = castarr(asarr(a), "f"), castarr(asarr(b), "f")
    if a.nd == 1 and b.nd == 1:
        need_dim(a.shape[0], b.shape[0])
        return vsum(lam(EK, mul(a.el((EK,)), b.el((EK,))), "f"), dim(a.shape[0]))
    if a.nd == 2 and b.nd == 1:
        need_dim(a.shape[1], b.shape[0])
        t = vsum(lam(FK, mul(a.el((EK, FK)), b.el((FK,))), "f"), dim(a.shape[1]))
        return Arr.new((a.shape[0],), "f", lam(EK, t, "f"))
    if a.nd == 1 and b.nd == 2:
        need_dim(a.shape[0], b.shape[0])
        t = vsum(lam(FK, mul(a.el((FK,)), b.el((FK, EK))), "f"), dim(a.shape[0]))
        return Arr.new((b.shape[1],), "f", lam(EK, t, "f"))
    if a.nd == 2 and b.nd == 2:
        need_dim(a.shape[1], b.shape[0])
        t = vsum(lam(FK, mul(a.el((BND[0], FK)), b.el((FK, EK))), "f"), dim(a.shape[1]))
        return Arr.new((a.shape[0], b.shape[1]), "f", lam(EK, t, "f"))
    raise Unsupported("dot")


def transpose(a):
    a = asarr(a)
    if a.nd == 1:
        return a
    if a.nd != 2:
        raise Unsupported("transpose of rank %d" % a.nd)
    sw = {0: 1, 1: 0}
    amap = [m if m[0] == "x" else ("a", sw[m[1]], m[2], m[3]) for m in a.amap]
    return Arr(a.buf, (a.shape[1], a.shape[0]), amap)


def argsort(a):
    a = castarr(asarr(a), "f")
    if a.nd != 1:
        raise Unsupported("argsort of rank %d" % a.nd)
    return Arr.new((a.shape[0],), "i", app("asort", (a.vec(), dim(a.shape[0])), "V"))


# ------------------------------------------------------------------ arithmetic
def fdiv(x, y):
    return tm.div(x, y)


def tpow(x, y):
    c = const_val(y)
    if c is not None:
        if c.denominator == 1 and 0 <= c <= 4:
            n = int(c)
            if x.sort == "B":
                x = tm.toint(x)
            if y.sort == "R":
                x = toreal(x)
            if n == 0:
                return num(1, x.sort)
            if n == 1:
                return x
            if n == 2:
                return square(x) if const_val(x) is None else mul(x, x)
            if len(tm._poly(x)) > 1:
                x = tm._atomize(x)
            return tm.power(x, n)
        if c.denominator == 1 and -4 <= c < 0:
            return tm.div(R1, tpow(toreal(x), num(int(-c))))
        if c == num(1, "R").args[0][1] / 2:
            return app("sqrt", (toreal(x),), "R")
    return app("pow", (toreal(x), toreal(y)), "R")


def numeric(x):
    return tm.toint(x) if x.sort == "B" else x


BIN = {
    "Add": add, "Sub": sub, "Mult": mul, "Div": fdiv, "Pow": tpow,
}


def idivmod(op):
    def f(x, y):
        x, y = numeric(x), numeric(y)
        if x.sort == "I" and y.sort == "I":
            return tm.idiv(x, y) if op == "FloorDiv" else tm.mod(x, y)
        x, y = toreal(x), toreal(y)
        q = toreal(tm.floor(tm.div(x, y)))
        return q if op == "FloorDiv" else sub(x, mul(y, q))

    return f


def logical(op):
    def f(x, y):
        if x.sort != "B":
            x = cast(x, "b")
        if y.sort != "B":
            y = cast(y, "b")
        if op == "and":
            return and_(x, y)
        if op == "or":
            return or_(x, y)
        return not_(tm.eq(x, y))

    return f


def bitop(op):
    lg = logical({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[op])

    def f(x, y):
        if x.sort == "B" and y.sort == "B":
            return lg(x, y)
        raise Unsupported("bitwise operation on numbers")

    return f


for _o in ("FloorDiv", "Mod"):
    BIN[_o] = idivmod(_o)
for _o in ("BitAnd", "BitOr", "BitXor"):
    BIN[_o] = bitop(_o)


def nn(f):
    return lambda x, y: f(numeric(x), numeric(y))


for _o in ("Add", "Sub", "Mult", "Div", "Pow"):
    BIN[_o] = nn(BIN[_o])


def cmp_eq(x, y):
    if x.sort == "B" and y.sort != "B":
        x = tm.toint(x)
    if y.sort == "B" and x.sort != "B":
        y = tm.toint(y)
    return eq(x, y)


CMP = {
    "Lt": nn(lt), "LtE": nn(le), "Gt": nn(gt), "GtE": nn(ge), "Eq": cmp_eq,
    "NotEq": lambda x, y: not_(cmp_eq(x, y)),
}


def binop(op, a, b):
    if op == "MatMult":
        return dot(a, b)
    return emap(BIN[op], a, b)


def inplace(op, a, b):
    """a op= b for an array a (writes the buffer)."""
    r = binop(op, a, b)
    if not isinstance(r, Arr) or r.nd != a.nd:
        raise PyRaise("ValueError", "non-broadcastable output operand")
    for d, e in zip(r.shape, a.shape):
        need_dim(d, e)
    if a.dtype == "i" and r.dtype == "f":
        raise PyRaise("UFuncTypeError", "Cannot cast ufunc output from float64 to int64")
    if a.dtype == "b" and r.dtype != "b":
        raise PyRaise("UFuncTypeError", "Cannot cast ufunc output to bool")
    p = a.prov
    assign(a, r)
    return a


# ------------------------------------------------------------------ elementary functions
def ufun(name):
    return lambda x: emap(lambda t: app(name, (toreal(t),), "R"), x)


def t_log(t):
    c = const_val(toreal(t))
    if c is not None and c > 0:
        if c == 1:
            return R0
    return app("log", (toreal(t),), "R")


def t_sign(t):
    z = num(0, t.sort)
    return ite(lt(t, z), num(-1, t.sort), ite(lt(z, t), num(1, t.sort), z))


def t_exp(t):
    t = toreal(t)
    if const_val(t) == 0:
        return R1
    return app("exp", (t,), "R")


def t_sqrt(t):
    t = toreal(t)
    c = const_val(t)
    if c is not None and c in (0, 1):
        return t
    return app("sqrt", (t,), "R")


def getitem_nocheck(a, k):
    """a[k] for an index known to be in range."""
    if isinstance(k, int):
        k = num(k)
    if a.nd == 1:
        return unlift(a.el((k,)))
    amap = []
    for m in a.amap:
        if m[0] == "a" and m[1] == 0:
            amap.append(("x", add(mul(m[3], k), m[2])))
        elif m[0] == "a":
            amap.append(("a", m[1] - 1, m[2], m[3]))
        else:
            amap.append(m)
    return Arr(a.buf, a.shape[1:], amap)


def freshvec(base, nd):
    """Fresh array content (template over BND) depending on the enclosing binders."""
    c = C()
    c.nfresh += 1
    args = tuple(c.binders) + tuple(BND[: max(0, nd - 1)])
    n = "%s#%d" % (base, c.nfresh)
    return app(n, args, "V") if args else sym(n, "V")
