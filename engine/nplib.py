"""Namespaces of the model: numpy, joblib, functools, mpi4py, math and the built-in functions.

Trusted base: every function here states the documented effect of the library function on
mathematical (exact) numbers. Functions not listed raise Unsupported.
"""
from . import core, npm
from . import terms as tm
from .core import (BND, C, DT, EK, INF, POISON, Arr, Opaque, PyRaise, Unsupported, cast, dim, is_scalar, lift, promote,
                   same_dim, unlift, ONE, ZERO)
from .npm import (freshvec, FK, R0, R1, ListLike, Slice, SymSeq, asarr, castarr, dot, dtype_of, emap, need, need_dim, norm, reduce,
                  square, transpose)
from .solver import Fact
from .terms import (T, TRUE, FALSE, add, and_, app, const_val, elem, eq, ge, gt, implies, ite, lam, le, lt, mul, neg, not_,
                    num, or_, sub, sym, toreal)


def bi(name):
    def deco(f):
        from .interp import Bi

        NP[name] = Bi("numpy." + name, f)
        return f

    return deco


NP = {}


def arg(a, k, i, name, default=None):
    if len(a) > i:
        return a[i]
    return k.get(name, default)


def chk(k, *names):
    for n in k:
        if n not in names:
            raise Unsupported("keyword argument " + n)


def aa(x):
    """Scalar or array argument."""
    if x is None or isinstance(x, (str, dict)):
        raise PyRaise("TypeError", "unsupported argument")
    if x is POISON:
        raise Unsupported("value lost at a loop head")
    if is_scalar(x) or isinstance(x, Arr):
        return x
    if isinstance(x, Opaque):
        raise Unsupported("array from " + x.name)
    from .interp import GenExp

    if isinstance(x, GenExp):
        raise Unsupported("array of a generator")
    return asarr(x)


def shapearg(s):
    if isinstance(s, (tuple, list)):
        return tuple(dimarg(d) for d in s)
    if isinstance(s, Arr) and s.nd == 1 and isinstance(s.shape[0], int):
        return tuple(dimarg(npm.getitem(s, i)) for i in range(s.shape[0]))
    return (dimarg(s),)


def dimarg(d):
    if isinstance(d, bool):
        return int(d)
    if isinstance(d, int):
        if d < 0:
            raise PyRaise("ValueError", "negative dimensions are not allowed")
        return d
    if isinstance(d, float) or (isinstance(d, T) and d.sort == "R"):
        raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
    if isinstance(d, T) and d.sort == "I":
        need(le(ZERO, d), "array dimension is not negative")
        return d
    if d is None:
        raise PyRaise("TypeError", "dimension")
    raise Unsupported("dimension")


# ------------------------------------------------------------------ creation
def full(shape, v, dt):
    return Arr.new(shape, dt, lam(EK, cast(lift(v), dt), dt))


def _creator(name, v):
    @bi(name)
    def f(I, a, k):
        chk(k, "dtype", "shape", "order")
        s = shapearg(arg(a, k, 0, "shape"))
        dt = dtype_of(arg(a, k, 1, "dtype"))
        return full(s, v, dt)


_creator("zeros", 0)
_creator("ones", 1)


@bi("empty")
def _empty(I, a, k):
    chk(k, "dtype", "shape", "order")
    s = shapearg(arg(a, k, 0, "shape"))
    dt = dtype_of(arg(a, k, 1, "dtype"))
    r = Arr.new(s, dt, freshvec("empty", len(s)))
    r.buf.uninit = True
    return r


@bi("full")
def _full(I, a, k):
    chk(k, "dtype", "shape", "fill_value")
    s = shapearg(arg(a, k, 0, "shape"))
    v = arg(a, k, 1, "fill_value")
    d = arg(a, k, 2, "dtype")
    if is_scalar(v):
        dt = dtype_of(d) if d is not None else DT[lift(v).sort]
        return full(s, v, dt)
    v = aa(v)
    dt = dtype_of(d) if d is not None else v.dtype
    return Arr.new(s, dt, npm.broadcast_to(v, s, dt))


def _like(name, v):
    @bi(name)
    def f(I, a, k):
        chk(k, "dtype", "a")
        x = aa(arg(a, k, 0, "a"))
        d = arg(a, k, 1, "dtype")
        if is_scalar(x):
            return v
        dt = dtype_of(d) if d is not None else x.dtype
        if v is None:
            return Arr.new(x.shape, dt, freshvec("empty", x.nd))
        return full(x.shape, v, dt)


_like("zeros_like", 0)
_like("ones_like", 1)
_like("empty_like", None)


@bi("full_like")
def _full_like(I, a, k):
    x = aa(a[0])
    d = arg(a, k, 2, "dtype")
    dt = dtype_of(d) if d is not None else x.dtype
    return full(x.shape, arg(a, k, 1, "fill_value"), dt)


@bi("eye")
def _eye(I, a, k):
    chk(k, "dtype")
    n = dimarg(a[0])
    m = dimarg(a[1]) if len(a) > 1 and a[1] is not None else n
    return Arr.new((n, m), "f", lam(EK, ite(eq(BND[0], EK), R1, R0), "f"))


NP["identity"] = NP["eye"]


def toarray(x, dt=None):
    x = aa(x)
    if is_scalar(x):
        t = lift(x)
        return unlift(cast(t, dt)) if dt else x
    if dt and x.dtype != dt:
        return castarr(x, dt)
    return x


@bi("array")
def _array(I, a, k):
    chk(k, "dtype", "copy", "ndmin")
    d = arg(a, k, 1, "dtype")
    dt = dtype_of(d) if d is not None else None
    src = a[0]
    if k.get("ndmin"):
        raise Unsupported("ndmin")
    if isinstance(src, (SymSeq, list)) or hasattr(src, "node"):
        from .interp import GenExp

        if isinstance(src, GenExp):
            raise Unsupported("array of a generator")
    r = toarray(src, dt)
    if isinstance(r, Arr) and k.get("copy", True) is not False:
        if r is src or (isinstance(src, Arr) and r.buf is src.buf):
            r = r.copy()
            r.prov = None
    return r


@bi("asarray")
def _asarray(I, a, k):
    chk(k, "dtype")
    d = arg(a, k, 1, "dtype")
    return toarray(a[0], dtype_of(d) if d is not None else None)


NP["asanyarray"] = NP["asarray"]
NP["ascontiguousarray"] = NP["asarray"]


@bi("copy")
def _copy(I, a, k):
    x = aa(a[0])
    if isinstance(x, Arr):
        return x.copy()
    return x


@bi("atleast_1d")
def _atleast_1d(I, a, k):
    x = aa(a[0])
    if is_scalar(x):
        return npm.from_list([x])
    return x


@bi("atleast_2d")
def _atleast_2d(I, a, k):
    x = aa(a[0])
    if is_scalar(x):
        x = npm.from_list([x])
    if x.nd == 1:
        return npm.view(x, [None, Slice(None, None, None)])
    return x


@bi("arange")
def _arange(I, a, k):
    chk(k, "dtype", "start", "stop", "step")
    if len(a) == 1:
        st, en, step = 0, a[0], 1
    else:
        st, en, step = a[0], a[1], a[2] if len(a) > 2 else k.get("step", 1)
    step = k.get("step", step)
    for x in (st, en, step):
        if not npm.isint(x):
            raise Unsupported("arange of non-integers")
    d = k.get("dtype")
    dt = dtype_of(d) if d is not None else "i"
    n = sub(lift(en), lift(st))
    ls = lift(step)
    if const_val(ls) == 1:
        pass
    else:
        if not C().entails(lt(ZERO, ls)):
            need(lt(ZERO, ls), "positive step")
        n = tm.idiv(add(n, sub(ls, ONE)), ls)
    if not C().entails(le(ZERO, n)):
        n = ite(le(ZERO, n), n, ZERO)
    r = Arr.new((unlift(n),), dt, lam(EK, add(lift(st), mul(EK, ls)), dt))
    if const_val(ls) is None:
        r.buf.prog = (lift(st), lift(en), ls, r.buf.body)
    return r


@bi("linspace")
def _linspace(I, a, k):
    chk(k, "num", "endpoint", "start", "stop")
    s, e = toreal(lift(arg(a, k, 0, "start"))), toreal(lift(arg(a, k, 1, "stop")))
    n = arg(a, k, 2, "num", 50)
    end = arg(a, k, 3, "endpoint", True)
    n = dimarg(n)
    d = dim(n)
    if end:
        d = sub(d, ONE)
    step = tm.div(sub(e, s), toreal(d))
    return Arr.new((n,), "f", lam(EK, add(s, mul(toreal(EK), step)), "f"))


# ------------------------------------------------------------------ shape
@bi("ndim")
def _ndim(I, a, k):
    x = a[0]
    if isinstance(x, Opaque) and hasattr(x, "np_ndim"):
        return x.np_ndim
    if x is None:
        return 0
    x = aa(x)
    return 0 if is_scalar(x) else x.nd


@bi("shape")
def _shape(I, a, k):
    x = aa(a[0])
    return () if is_scalar(x) else tuple(x.shape)


@bi("size")
def _size(I, a, k):
    x = aa(a[0])
    if is_scalar(x):
        return 1
    return I.arrattr(x, "size")


@bi("transpose")
def _transpose(I, a, k):
    r = transpose(aa(a[0]))
    # the transposed temporary has no other reference: materialize it
    return r if isinstance(a[0], Arr) else r.copy()


@bi("reshape")
def _reshape(I, a, k):
    return reshape(aa(a[0]), a[1] if len(a) == 2 else tuple(a[1:]))


def reshape(x, s):
    s = s if isinstance(s, (tuple, list)) else (s,)
    if x.nd == 1 and len(s) == 2:
        if s[0] == -1 and s[1] == 1:
            return npm.view(x, [Slice(None, None, None), None])
        if s[0] == 1 and s[1] == -1:
            return npm.view(x, [None, Slice(None, None, None)])
    if x.nd == 1 and len(s) == 1:
        return x
    if x.nd == len(s) and all(same_dim(p, q) for p, q in zip(x.shape, s)):
        return x
    raise Unsupported("reshape")


@bi("ravel")
def _ravel(I, a, k):
    x = aa(a[0])
    if is_scalar(x):
        return npm.from_list([x])
    if x.nd == 1:
        return x
    raise Unsupported("ravel")


@bi("expand_dims")
def _expand(I, a, k):
    x = aa(a[0])
    ax = arg(a, k, 1, "axis")
    ix = [Slice(None, None, None)] * x.nd
    ix.insert(ax if ax >= 0 else x.nd + 1 + ax, None)
    return npm.view(x, ix)


@bi("tile")
def _tile(I, a, k):
    x, r = aa(a[0]), a[1]
    if isinstance(r, tuple) and len(r) == 2 and isinstance(x, Arr) and x.nd == 1 and r[1] == 1:
        return Arr.new((dimarg(r[0]), x.shape[0]), x.dtype, x.vec())
    raise Unsupported("tile")


def concat1(xs):
    """Concatenation along the first axis."""
    xs = [npm.from_list([x]) if is_scalar(x) else x for x in xs]
    dt = xs[0].dtype
    nd = xs[0].nd
    for x in xs:
        dt = promote(dt, x.dtype)
        if x.nd != nd:
            raise PyRaise("ValueError", "all the input array dimensions must match")
        for d, e in zip(x.shape[1:], xs[0].shape[1:]):
            need_dim(d, e)
    xs = [castarr(x, dt) for x in xs]
    offs = []
    o = ZERO
    for x in xs:
        offs.append(o)
        o = add(o, dim(x.shape[0]))
    if nd == 1:
        b = xs[-1].el((sub(EK, offs[-1]),))
        for i in range(len(xs) - 2, -1, -1):
            b = ite(lt(EK, offs[i + 1]), xs[i].el((sub(EK, offs[i]),)), b)
        return Arr.new((unlift(o),), dt, lam(EK, b, dt))
    rest = tuple(BND[1: nd - 1])
    b = xs[-1].vec((sub(BND[0], offs[-1]),) + rest)
    for i in range(len(xs) - 2, -1, -1):
        b = ite(lt(BND[0], offs[i + 1]), xs[i].vec((sub(BND[0], offs[i]),) + rest), b)
    return Arr.new((unlift(o),) + tuple(xs[0].shape[1:]), dt, b)


def seqargs(x):
    if isinstance(x, (tuple, list)):
        return [aa(y) for y in x]
    raise Unsupported("sequence of arrays")


@bi("concatenate")
def _concatenate(I, a, k):
    chk(k, "axis")
    xs = seqargs(a[0])
    ax = arg(a, k, 1, "axis", 0)
    for x in xs:
        if is_scalar(x):
            raise PyRaise("ValueError", "zero-dimensional arrays cannot be concatenated")
    if ax == 0:
        return concat1(xs)
    if ax in (1, -1) and all(x.nd == 2 for x in xs):
        return transpose(concat1([transpose(x) for x in xs]))
    raise Unsupported("concatenate axis")


@bi("vstack")
def _vstack(I, a, k):
    xs = seqargs(a[0])
    xs = [npm.view(x, [None, Slice(None, None, None)]) if isinstance(x, Arr) and x.nd == 1 else x for x in xs]
    return concat1(xs)


@bi("hstack")
def _hstack(I, a, k):
    xs = seqargs(a[0])
    if all(is_scalar(x) or x.nd == 1 for x in xs):
        return concat1(xs)
    raise Unsupported("hstack")


@bi("stack")
def _stack(I, a, k):
    ax = arg(a, k, 1, "axis", 0)
    x = asarr(a[0])
    if ax == 0:
        return x
    if ax in (1, -1) and x.nd == 2:
        return transpose(x)
    raise Unsupported("stack axis")


@bi("column_stack")
def _column_stack(I, a, k):
    x = asarr(a[0])
    if x.nd == 2:
        return transpose(x)
    raise Unsupported("column_stack")


@bi("append")
def _append(I, a, k):
    chk(k, "axis")
    x, y = aa(a[0]), aa(a[1])
    ax = arg(a, k, 2, "axis")
    if ax is None:
        for z in (x, y):
            if isinstance(z, Arr) and z.nd != 1:
                raise Unsupported("append of matrices")
        return concat1([x, y])
    if ax == 0:
        return concat1([x, y])
    raise Unsupported("append axis")


@bi("delete")
def _delete(I, a, k):
    chk(k, "axis")
    x, i = aa(a[0]), a[1]
    ax = arg(a, k, 2, "axis")
    if not npm.isint(i):
        raise Unsupported("delete of several indices")
    if x.nd != 1 and ax != 0:
        raise Unsupported("delete axis")
    i = npm.norm_index(i, x.shape[0])
    n = unlift(sub(dim(x.shape[0]), ONE))
    if x.nd == 1:
        return Arr.new((n,), x.dtype, lam(EK, ite(lt(EK, i), x.el((EK,)), x.el((add(EK, ONE),))), x.dtype))
    r = tuple(BND[1: x.nd - 1])
    b = ite(lt(BND[0], i), x.vec((BND[0],) + r), x.vec((add(BND[0], ONE),) + r))
    return Arr.new((n,) + tuple(x.shape[1:]), x.dtype, b)


@bi("diag")
def _diag(I, a, k):
    x = aa(a[0])
    if len(a) > 1 and a[1] != 0:
        raise Unsupported("diagonal")
    if x.nd == 1:
        n = x.shape[0]
        z = num(0, core.SORT[x.dtype])
        return Arr.new((n, n), x.dtype, lam(EK, ite(eq(BND[0], EK), x.el((EK,)), z), x.dtype))
    r = Arr.new((x.shape[0],), x.dtype, lam(EK, x.el((EK, EK)), x.dtype))
    return r


NP["diagonal"] = NP["diag"]


@bi("triu")
def _triu(I, a, k):
    x = aa(a[0])
    d = arg(a, k, 1, "k", 0)
    z = num(0, core.SORT[x.dtype])
    return Arr.new(x.shape, x.dtype, lam(EK, ite(le(add(BND[0], num(d)), EK), x.el((BND[0], EK)), z), x.dtype))


@bi("tril")
def _tril(I, a, k):
    x = aa(a[0])
    d = arg(a, k, 1, "k", 0)
    z = num(0, core.SORT[x.dtype])
    return Arr.new(x.shape, x.dtype, lam(EK, ite(le(EK, add(BND[0], num(d))), x.el((BND[0], EK)), z), x.dtype))


@bi("outer")
def _outer(I, a, k):
    x, y = castarr(aa(a[0]), "f"), castarr(aa(a[1]), "f")
    return Arr.new((x.shape[0], y.shape[0]), "f", lam(EK, mul(x.el((BND[0],)), y.el((EK,))), "f"))


@bi("flip")
def _flip(I, a, k):
    return npm.view(aa(a[0]), [Slice(None, None, -1)])


# ------------------------------------------------------------------ selection
@bi("where")
def _where(I, a, k):
    if len(a) == 1:
        x = aa(a[0])
        if isinstance(x, Arr) and x.nd == 1:
            m = npm.castarr(x, "b") if x.dtype != "b" else x
            mk, n = m.vec(), dim(m.shape[0])
            cnt = app("vcnt", (mk, n), "I")
            return (Arr.new((unlift(cnt),), "i", lam(EK, app("nth", (mk, n, EK), "I"), "i")),)
        raise Unsupported("where of one argument")
    c, x, y = [aa(z) for z in a]
    dt = promote(dt_of(x), dt_of(y))

    def f(p, q, r):
        return ite(cast(p, "b"), cast(q, dt), cast(r, dt))

    if all(is_scalar(z) for z in (c, x, y)):
        return unlift(f(lift(c), lift(x), lift(y)))
    return emap(f, c, x, y, dtype=dt)


def dt_of(x):
    return x.dtype if isinstance(x, Arr) else DT[lift(x).sort]


@bi("nonzero")
def _nonzero(I, a, k):
    return _where(I, [a[0]], {})


@bi("flatnonzero")
def _flatnonzero(I, a, k):
    return _where(I, [a[0]], {})[0]


def _logical(name, op):
    f = npm.logical(op)

    @bi(name)
    def g(I, a, k):
        chk(k, "out")
        r = emap(f, aa(a[0]), aa(a[1]), dtype="b")
        return out(r, k)


_logical("logical_and", "and")
_logical("logical_or", "or")
_logical("logical_xor", "xor")


@bi("logical_not")
def _logical_not(I, a, k):
    return emap(lambda t: not_(cast(t, "b")), aa(a[0]), dtype="b")


def out(r, k):
    o = k.get("out")
    if o is None:
        return r
    if isinstance(o, tuple) and len(o) == 1:
        o = o[0]
    npm.assign(o, r)
    return o


def _binary(name, op):
    @bi(name)
    def g(I, a, k):
        chk(k, "out")
        return out(npm.binop(op, aa(a[0]), aa(a[1])), k)


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"),
               ("power", "Pow"), ("floor_divide", "FloorDiv"), ("mod", "Mod"), ("remainder", "Mod")):
    _binary(_n, _o)


def _cmpfn(name, op):
    @bi(name)
    def g(I, a, k):
        return emap(npm.CMP[op], aa(a[0]), aa(a[1]), dtype="b")


for _n, _o in (("less", "Lt"), ("less_equal", "LtE"), ("greater", "Gt"), ("greater_equal", "GtE"), ("equal", "Eq"),
               ("not_equal", "NotEq")):
    _cmpfn(_n, _o)


def minmax(name):
    f = tm.tmin if name == "minimum" else tm.tmax

    @bi(name)
    def g(I, a, k):
        chk(k, "out")
        x, y = aa(a[0]), aa(a[1])
        dt = promote(dt_of(x), dt_of(y))
        return out(emap(lambda p, q: f(cast(p, dt), cast(q, dt)), x, y, dtype=dt), k)


minmax("minimum")
minmax("maximum")
NP["fmin"], NP["fmax"] = NP["minimum"], NP["maximum"]


def clip(x, lo, hi):
    if lo is not None:
        lo = aa(lo)
        dt = promote(dt_of(x), dt_of(lo))
        x = emap(lambda p, q: tm.tmax(cast(p, dt), cast(q, dt)), x, lo, dtype=dt)
    if hi is not None:
        hi = aa(hi)
        dt = promote(dt_of(x), dt_of(hi))
        x = emap(lambda p, q: tm.tmin(cast(p, dt), cast(q, dt)), x, hi, dtype=dt)
    return x


@bi("clip")
def _clip(I, a, k):
    chk(k, "out", "a_min", "a_max")
    return out(clip(aa(a[0]), arg(a, k, 1, "a_min"), arg(a, k, 2, "a_max")), k)


# ------------------------------------------------------------------ elementwise
def _unary(name, f, dt=None):
    @bi(name)
    def g(I, a, k):
        chk(k, "out")
        return out(emap(f, aa(a[0]), dtype=dt), k)

    return f


def f_abs(t):
    return tm.tabs(npm.numeric(t))


def f_floor(t):
    return toreal(tm.floor(toreal(npm.numeric(t))))


def f_ceil(t):
    return neg(f_floor(neg(toreal(npm.numeric(t)))))


_unary("abs", f_abs)
_unary("absolute", f_abs)
_unary("fabs", lambda t: toreal(f_abs(t)))
_unary("sqrt", npm.t_sqrt)
_unary("exp", npm.t_exp)
_unary("log", npm.t_log)
_unary("cos", lambda t: app("cos", (toreal(t),), "R"))
_unary("sin", lambda t: app("sin", (toreal(t),), "R"))
_unary("square", lambda t: square(npm.numeric(t)))
_unary("sign", npm.t_sign)
_unary("floor", f_floor)
_unary("ceil", f_ceil)
_unary("negative", lambda t: neg(npm.numeric(t)))
_unary("float64", lambda t: toreal(t))
_unary("isnan", lambda t: FALSE, "b")
_unary("isfinite", lambda t: and_(not_(eq(toreal(t), INF)), not_(eq(toreal(t), neg(INF)))), "b")
_unary("isinf", lambda t: or_(eq(toreal(t), INF), eq(toreal(t), neg(INF))), "b")


# ------------------------------------------------------------------ reductions
def _red(name, kind=None):
    kind = kind or name

    @bi(name)
    def g(I, a, k):
        chk(k, "axis", "out", "keepdims")
        x = aa(a[0])
        r = reduce(kind, x, arg(a, k, 1, "axis"))
        if k.get("keepdims"):
            raise Unsupported("keepdims")
        return out(r, k)


for _n in ("sum", "mean", "prod", "min", "max", "argmin", "argmax", "any", "all"):
    _red(_n)
_red("amin", "min")
_red("amax", "max")


@bi("median")
def _median(I, a, k):
    x = castarr(aa(a[0]), "f")
    if x.nd != 1 or a[1:]:
        raise Unsupported("median")
    v, n = x.vec(), dim(x.shape[0])
    need(lt(ZERO, n), "median of a non-empty array")
    return app("median", (v, n), "R")


@bi("percentile")
def _percentile(I, a, k):
    chk(k)
    x, q = castarr(aa(a[0]), "f"), a[1]
    if x.nd != 1:
        raise Unsupported("percentile")
    v, n = x.vec(), dim(x.shape[0])
    need(lt(ZERO, n), "percentile of a non-empty array")
    qs = [q] if is_scalar(q) else list(q)
    rs = [app("perc", (v, n, toreal(lift(y))), "R") for y in qs]
    return rs[0] if is_scalar(q) else npm.from_list(rs)


@bi("count_nonzero")
def _count_nonzero(I, a, k):
    x = aa(a[0])
    return reduce("sum", emap(lambda t: cast(t, "b"), x, dtype="b"))


@bi("argsort")
def _argsort(I, a, k):
    chk(k, "kind")
    return npm.argsort(aa(a[0]))


@bi("sort")
def _sort(I, a, k):
    x = aa(a[0])
    return npm.gather(x, 0, npm.argsort(x))


@bi("dot")
def _dot(I, a, k):
    return dot(aa(a[0]), aa(a[1]))


NP["matmul"] = NP["dot"]
NP["inner"] = NP["dot"]


@bi("array_equal")
def _array_equal(I, a, k):
    x, y = aa(a[0]), aa(a[1])
    raise Unsupported("array_equal")


@bi("isscalar")
def _isscalar(I, a, k):
    return is_scalar(a[0])


@bi("errstate")
def _errstate(I, a, k):
    o = Opaque("errstate", callable_=False)
    o.context = True
    return o


# ------------------------------------------------------------------ linalg
LINALG = {}
RANDOM = {}


def _norm(I, a, k):
    chk(k, "axis")
    if len(a) > 1:
        raise Unsupported("norm order")
    x = aa(a[0])
    if is_scalar(x):
        raise Unsupported("norm of a scalar")
    if x.nd == 2 and k.get("axis") is None:
        sq = emap(square, castarr(x, "f"))
        return app("sqrt", (lift(reduce("sum", sq)),), "R")
    return norm(x, k.get("axis"))


def _eigh(I, a, k):
    x = aa(a[0])
    n = x.shape[0]
    d = Arr.new((n,), "f", freshvec("eigval", 1))
    b = Arr.new((n, n), "f", freshvec("eigvec", 2))
    return (d, b)


def _init_lin():
    from .interp import Bi

    LINALG["norm"] = Bi("numpy.linalg.norm", _norm)
    LINALG["eigh"] = Bi("numpy.linalg.eigh", _eigh)


# ------------------------------------------------------------------ random
def elemfact(a, g, name):
    """forall indices. g(element, index) for array a (a fresh random array)."""
    c = C()
    nd = a.nd
    vs = [sym("$q%d" % i, "I") for i in range(nd)]
    bvars = []
    el = a.el(tuple(vs))
    # binders of the content are quantified as well
    m = {}
    for i, b in enumerate(c.binders):
        q = sym("$w%d" % i, "I")
        m[b] = q
        bvars.append(q)
    body = g(el, vs)
    if m:
        el, body = tm.subst(el, m), tm.subst(body, m)
    c.facts.append(Fact(tuple(vs) + tuple(bvars), [[el]], body, name))


def scalarfact(t, body, name):
    c = C()
    if not c.binders:
        c.assume(body)
        return
    m, vs = {}, []
    for i, b in enumerate(c.binders):
        q = sym("$w%d" % i, "I")
        m[b] = q
        vs.append(q)
    c.facts.append(Fact(tuple(vs), [[tm.subst(t, m)]], tm.subst(body, m), name))
    c.assume(body)


def rnd(kind, shape, dt, g):
    """Draw: scalar when shape is None; g(element, index) is the range assertion."""
    c = C()
    c.unit.on_draw(kind)
    if shape is None:
        r = c.fresh("rnd_" + kind, core.SORT[dt])
        if g:
            scalarfact(r, g(r, ()), kind)
    else:
        r = Arr.new(shape, dt, freshvec("rnd_" + kind, len(shape)))
        if g:
            elemfact(r, g, kind)
    c.unit.on_drawn(kind, r)
    return r


def unit_interval(e, ix):
    return and_(le(R0, e), lt(e, R1))


def _rand(I, a, k):
    return rnd("rand", None if not a else tuple(dimarg(d) for d in a), "f", unit_interval)


def sizearg(s):
    return None if s is None else shapearg(s)


def _random(I, a, k):
    return rnd("rand", sizearg(arg(a, k, 0, "size")), "f", unit_interval)


def _randn(I, a, k):
    return rnd("randn", None if not a else tuple(dimarg(d) for d in a), "f", None)


def _normal(I, a, k):
    lo, sc = arg(a, k, 0, "loc", 0.0), arg(a, k, 1, "scale", 1.0)
    s = sizearg(arg(a, k, 2, "size"))
    if not (is_scalar(lo) and is_scalar(sc)):
        raise Unsupported("normal")
    r = rnd("randn", s, "f", None)
    if const_val(lift(sc)) == 1 and const_val(lift(lo)) == 0:
        return r
    return npm.binop("Add", lo, npm.binop("Mult", sc, r))


def _uniform(I, a, k):
    lo, hi = aa(arg(a, k, 0, "low", 0.0)), aa(arg(a, k, 1, "high", 1.0))
    s = sizearg(arg(a, k, 2, "size"))
    arrs = [x for x in (lo, hi) if isinstance(x, Arr)]
    if s is None and arrs:
        s = npm.bshape([x.shape for x in arrs])
    if s is None:
        l, h = toreal(lift(lo)), toreal(lift(hi))
        return rnd("uniform", None, "f", lambda e, ix: implies(le(l, h), and_(le(l, e), le(e, h))))

    def at(x, ix):
        if isinstance(x, Arr):
            off = len(s) - x.nd
            if off < 0:
                raise PyRaise("ValueError", "could not broadcast")
            for i, d in enumerate(x.shape):
                if not (isinstance(d, int) and d == 1):
                    need_dim(d, s[i + off])
            return toreal(x.el(npm.bidx(x, s, ix)))
        return toreal(lift(x))

    return rnd("uniform", s, "f", lambda e, ix: implies(
        le(at(lo, ix), at(hi, ix)), and_(le(at(lo, ix), e),
                                         lt(e, at(hi, ix)) if is_scalar(lo) and is_scalar(hi) and lo == 0.0 and hi == 1.0
                                         else le(e, at(hi, ix)))))


def _randint(I, a, k):
    lo, hi = arg(a, k, 0, "low"), arg(a, k, 1, "high")
    if hi is None:
        lo, hi = 0, lo
    s = sizearg(arg(a, k, 2, "size"))
    l, h = lift(lo), lift(hi)
    need(lt(l, h), "randint of a non-empty range")
    return rnd("randint", s, "i", lambda e, ix: and_(le(l, e), lt(e, h)))


def _permutation(I, a, k):
    x = a[0]
    c = C()
    c.unit.on_draw("permutation")
    if npm.isint(x):
        n = dim(dimarg(x))
        base = None
    else:
        base = aa(x)
        n = dim(base.shape[0])
    c.nfresh += 1
    v = app("rperm", (n, num(c.nfresh)) + tuple(c.binders), "V")
    p = Arr.new((unlift(n),), "i", v)
    if base is None:
        return p
    # elements of the permutation are valid indices: no obligation
    if base.nd == 1:
        return Arr.new(base.shape, base.dtype, lam(EK, base.el((p.el((EK,)),)), base.dtype))
    if base.nd == 2:
        return Arr.new(base.shape, base.dtype, base.vec((p.el((BND[0],)),)))
    raise Unsupported("permutation")


def _seed(I, a, k):
    C().unit.on_seed(arg(a, k, 0, "seed"))
    return None


def _init_random():
    from .interp import Bi

    for n, f in (("rand", _rand), ("random", _random), ("random_sample", _random), ("randn", _randn), ("normal", _normal),
                 ("uniform", _uniform), ("randint", _randint), ("permutation", _permutation), ("seed", _seed)):
        RANDOM[n] = Bi("numpy.random." + n, f)
    RANDOM["standard_normal"] = Bi("numpy.random.standard_normal", lambda I, a, k: rnd("randn", sizearg(arg(a, k, 0, "size")), "f", None))


# ------------------------------------------------------------------ array methods
ARRMETHODS = {}


def am(name):
    def deco(f):
        ARRMETHODS[name] = f
        return f

    return deco


for _n in ("sum", "mean", "prod", "min", "max", "argmin", "argmax", "any", "all"):
    ARRMETHODS[_n] = (lambda kind: lambda I, x, a, k: reduce(kind, x, arg(a, k, 0, "axis")))(_n)


@am("copy")
def _m_copy(I, x, a, k):
    return x.copy()


@am("astype")
def _m_astype(I, x, a, k):
    r = castarr(x, dtype_of(a[0]))
    return r.copy() if r is x else r


@am("fill")
def _m_fill(I, x, a, k):
    npm.assign(x, a[0])


@am("argsort")
def _m_argsort(I, x, a, k):
    return npm.argsort(x)


@am("dot")
def _m_dot(I, x, a, k):
    return dot(x, aa(a[0]))


@am("transpose")
def _m_transpose(I, x, a, k):
    return transpose(x)


@am("reshape")
def _m_reshape(I, x, a, k):
    return reshape(x, a[0] if len(a) == 1 else tuple(a))


@am("ravel")
def _m_ravel(I, x, a, k):
    return _ravel(I, [x], {})


@am("flatten")
def _m_flatten(I, x, a, k):
    return _ravel(I, [x.copy()], {})


@am("clip")
def _m_clip(I, x, a, k):
    return clip(x, arg(a, k, 0, "min"), arg(a, k, 1, "max"))


@am("item")
def _m_item(I, x, a, k):
    if not a and all(isinstance(d, int) and d == 1 for d in x.shape):
        return unlift(x.el((ZERO,) * x.nd))
    if a:
        return npm.getitem(x, tuple(a))
    raise Unsupported("item")


@am("diagonal")
def _m_diag(I, x, a, k):
    return _diag(I, [x], {})


@am("tolist")
def _m_tolist(I, x, a, k):
    return ListLike(x.copy())


@am("nonzero")
def _m_nonzero(I, x, a, k):
    return _where(I, [x], {})


# ------------------------------------------------------------------ other modules
def modules():
    from .interp import Bi, Ext

    _init_lin()
    _init_random()
    NP["linalg"] = Ext("numpy.linalg", LINALG)
    NP["random"] = Ext("numpy.random", RANDOM)
    NP["inf"] = NP["Inf"] = NP["infty"] = float("inf")
    NP["newaxis"] = None
    NP["pi"] = sym("PI", "R")
    NP["e"] = app("exp", (num(1, "R"),), "R")
    for n, d in (("float64", "float"), ("double", "float"), ("float_", "float"), ("int64", "int"), ("int32", "int"), ("bool_", "bool"),
                 ("intp", "int")):
        if n not in NP:
            NP[n] = Opaque(n, np_dtype=d)
    NP["ndarray"] = Opaque("ndarray")
    NP["float64"].attrs["np_dtype"] = "float"
    NP["finfo"] = Bi("finfo", lambda I, a, k: Opaque("finfo", eps=2.220446049250313e-16, tiny=2.2250738585072014e-308,
                                                     max=1.7976931348623157e308))
    np = Ext("numpy", NP)
    wraps = Bi("functools.wraps", lambda I, a, k: Bi("wraps", lambda I2, a2, k2: a2[0]))

    def partial(I, a, k):
        f, pre, kw = a[0], list(a[1:]), dict(k)
        return Bi("partial", lambda I2, a2, k2: I2.call(f, pre + list(a2), {**kw, **k2}))

    functools = Ext("functools", {"wraps": wraps, "partial": Bi("functools.partial", partial)})
    jl = Ext("joblib", {"Parallel": Bi("joblib.Parallel", _parallel), "delayed": Bi("joblib.delayed", _delayed)})
    mpi = Ext("mpi4py.MPI", {"COMM_WORLD": Comm(), "DOUBLE": Opaque("MPI.DOUBLE", callable_=False),
                             "SUM": Opaque("MPI.SUM", callable_=False)})
    mpi4py = Ext("mpi4py", {"MPI": mpi})
    math = Ext("math", {n: NP[n] for n in ("sqrt", "exp", "log", "cos", "sin", "inf", "pi")})
    math.attrs["floor"] = Bi("math.floor", lambda I, a, k: unlift(tm.floor(lift(a[0]))))
    math.attrs["ceil"] = Bi("math.ceil", lambda I, a, k: unlift(neg(tm.floor(neg(lift(a[0]))))))
    math.attrs["isfinite"] = NP["isfinite"]
    math.attrs["isnan"] = NP["isnan"]
    warnings = Ext("warnings", {"warn": Bi("warnings.warn", lambda I, a, k: None)})
    return {"numpy": np, "numpy.linalg": NP["linalg"], "numpy.random": NP["random"], "functools": functools, "joblib": jl,
            "mpi4py": mpi4py, "mpi4py.MPI": mpi, "math": math, "warnings": warnings, "__future__": Ext("__future__", {})}


def _delayed(I, a, k):
    from .interp import Delayed

    return Delayed(a[0])


def _parallel(I, a, k):
    """joblib.Parallel: a context manager and a callable mapping delayed calls, in order."""
    u = C().unit
    u.on_parallel(a, k)

    def call(I2, a2, k2):
        from .interp import DelayedCall, GenExp

        g = a2[0]
        if isinstance(g, GenExp):
            r = I2.comp(g.node, g.frame, post=lambda d: run(I2, d))
            return r
        if isinstance(g, list):
            return [run(I2, d) for d in g]
        if isinstance(g, SymSeq):
            raise Unsupported("list of delayed calls of symbolic length")
        raise Unsupported("argument of Parallel")

    def run(I2, d):
        from .interp import DelayedCall

        if not isinstance(d, DelayedCall):
            raise Unsupported("argument of Parallel")
        return I2.call(d.fn, d.args, d.kwargs)

    o = Opaque("Parallel", call=call)
    o.context = True
    return o


class Comm(Opaque):
    def __init__(self):
        from .interp import Bi

        Opaque.__init__(self, "MPI.COMM_WORLD", callable_=False)
        A = self.attrs
        A["Get_rank"] = Bi("Get_rank", lambda I, a, k: C().unit.mpi_rank())
        A["Get_size"] = Bi("Get_size", lambda I, a, k: C().unit.mpi_size())
        A["Barrier"] = Bi("Barrier", lambda I, a, k: None)
        A["Bcast"] = Bi("Bcast", self.bcast)
        A["Allreduce"] = Bi("Allreduce", self.allreduce)

    def bcast(self, I, a, k):
        """Every process holds the array of process 0 afterwards (all processes run the same program
        from the same arguments; their arrays are those of process 0 after the call)."""
        buf = a[0][0] if isinstance(a[0], (list, tuple)) else a[0]
        if k.get("root", 0) != 0:
            raise Unsupported("Bcast root")
        if not isinstance(buf, Arr):
            raise Unsupported("Bcast argument")
        return None

    def allreduce(self, I, a, k):
        src = a[0][0] if isinstance(a[0], (list, tuple)) else a[0]
        dst = a[1][0] if isinstance(a[1], (list, tuple)) else a[1]
        op = k.get("op", a[2] if len(a) > 2 else None)
        if not (op is None or getattr(op, "name", "") == "MPI.SUM"):
            raise Unsupported("Allreduce operation")
        if not (isinstance(src, Arr) and isinstance(dst, Arr) and src.nd == 1 and dst.nd == 1):
            raise Unsupported("Allreduce argument")
        need_dim(src.shape[0], dst.shape[0])
        c = C()
        u = c.unit
        r, size = u.mpi_rank(), u.mpi_size()
        rt, st = lift(r), lift(size)
        # sum over the processes: value of the owner k mod size when all the others contribute zero
        e = src.el((EK,))
        w = tm.mod(EK, st)
        c.nfresh += 1
        z = app("mpiz#%d" % c.nfresh, (EK,), "I")
        name = "allred#%d" % c.nfresh
        body = sym(name, "V")
        res = Arr.new(dst.shape, "f", body)
        if rt.op == "sym":
            ek = sym("$q0", "I")
            ew = tm.subst(e, {rt: tm.mod(EK, st)})
            ez = tm.subst(e, {rt: z})
            el = elem(body, EK, "f")
            f = or_(eq(el, ew), and_(le(ZERO, z), lt(z, st), not_(eq(z, w)), not_(eq(ez, R0))))
            c.facts.append(Fact((ek,), [[elem(body, ek, "f")]], tm.subst(f, {EK: ek}), "Allreduce"))
        npm.assign(dst, res)
        return None


# ------------------------------------------------------------------ builtins
def builtins():
    from .interp import Bi, Enum, FS, GenExp, PYDICT, Prop, StrVal, SymRange, Zip, EXC, Obj, Func, Cls, Module

    B = {}

    def b(name):
        def deco(f):
            B[name] = Bi(name, f)
            return f

        return deco

    @b("len")
    def _len(I, a, k):
        x = a[0]
        if isinstance(x, (list, tuple, dict, str, range)):
            return len(x)
        if isinstance(x, Arr):
            if x.nd == 0:
                raise PyRaise("TypeError", "len() of unsized object")
            return x.shape[0]
        if isinstance(x, ListLike):
            return x.arr.shape[0]
        if isinstance(x, SymSeq):
            return unlift(lift(x.n))
        if isinstance(x, Obj) and x.cls.isdict():
            return len(x.data)
        if isinstance(x, SymRange):
            return I.iterate(x)[0]
        if x is None or is_scalar(x):
            raise PyRaise("TypeError", "object has no len()")
        if isinstance(x, Opaque) and hasattr(x, "len_"):
            return x.len_
        raise Unsupported("len of %s" % type(x).__name__)

    @b("range")
    def _range(I, a, k):
        for x in a:
            if not npm.isint(x) and not isinstance(x, bool):
                if isinstance(x, (float, T)):
                    raise PyRaise("TypeError", "'float' object cannot be interpreted as an integer")
                raise Unsupported("range argument")
        if all(isinstance(x, int) for x in a):
            return range(*a)
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        if a[2] == 1:
            return SymRange(a[0], a[1], 1)
        return _arange(I, a, {})

    B["zip"] = Bi("zip", lambda I, a, k: Zip(list(a)))
    B["enumerate"] = Bi("enumerate", lambda I, a, k: Enum(a[0], arg(a, k, 1, "start", 0)))

    def extremum(name, f, red):
        def g(I, a, k):
            if k:
                raise Unsupported(name + " with a key")
            if len(a) == 1:
                x = a[0]
                if isinstance(x, GenExp):
                    x = I.comp(x.node, x.frame)
                if isinstance(x, (Arr, SymSeq, ListLike)):
                    return reduce(red, asarr(x))
                a = I.unpack(x)
            if not a:
                raise PyRaise("ValueError", "arg is an empty sequence")
            if any(y is None or isinstance(y, str) for y in a):
                raise PyRaise("TypeError", "not supported between instances")
            for y in a:
                if isinstance(y, Arr):
                    raise PyRaise("ValueError", "truth value of an array is ambiguous")
                if not is_scalar(y):
                    lift(y)
            if all(isinstance(y, (int, float)) and not isinstance(y, T) for y in a):
                return min(a) if red == "min" else max(a)
            r = lift(a[0])
            for y in a[1:]:
                r = f(r, lift(y))
            return unlift(r)

        B[name] = Bi(name, g)

    extremum("min", tm.tmin, "min")
    extremum("max", tm.tmax, "max")

    @b("abs")
    def _abs(I, a, k):
        if isinstance(a[0], (int, float)):
            return abs(a[0])
        return emap(f_abs, I.numarg(a[0]))

    @b("int")
    def _int(I, a, k):
        x = a[0] if a else 0
        if isinstance(x, (int, float)):
            try:
                return int(x)
            except OverflowError:
                raise PyRaise("OverflowError", "cannot convert float infinity to integer")
        if isinstance(x, T):
            return unlift(tm.toint(x))
        if isinstance(x, Arr) and all(d == 1 for d in x.shape):
            return unlift(tm.toint(x.el((ZERO,) * x.nd)))
        if x is None:
            raise PyRaise("TypeError", "int() argument")
        raise Unsupported("int()")

    @b("float")
    def _float(I, a, k):
        x = a[0] if a else 0.0
        if isinstance(x, (int, float)):
            return float(x)
        if isinstance(x, str):
            return float(x)
        if isinstance(x, T):
            return toreal(x)
        if isinstance(x, Arr) and all(d == 1 for d in x.shape):
            return toreal(x.el((ZERO,) * x.nd))
        if x is None:
            raise PyRaise("TypeError", "float() argument")
        raise Unsupported("float()")

    @b("bool")
    def _bool(I, a, k):
        t = I.truthterm(a[0]) if a else False
        return t

    @b("str")
    def _str(I, a, k):
        if a and isinstance(a[0], (str, int)):
            return str(a[0])
        if a and getattr(a[0], "text", None):
            return a[0].text
        return StrVal()

    @b("repr")
    def _repr(I, a, k):
        x = a[0]
        if isinstance(x, (str, int)):
            return repr(x)
        return getattr(x, "text", None) or StrVal()

    B["format"] = Bi("format", lambda I, a, k: StrVal())

    @b("list")
    def _list(I, a, k):
        if not a:
            return []
        x = a[0]
        if isinstance(x, (SymSeq, ListLike)):
            return x
        if isinstance(x, Obj):
            x = x.data
        if isinstance(x, GenExp):
            return I.comp(x.node, x.frame)
        if isinstance(x, (Arr, SymRange, Zip, Enum)):
            n, f = I.iterate(x)
            if isinstance(n, int) and n <= 24:
                return [f(num(i)) for i in range(n)]
            return I.symseq(n, f)
        return list(I.unpack(x))

    @b("tuple")
    def _tuple(I, a, k):
        if not a:
            return ()
        if isinstance(a[0], Opaque) and getattr(a[0], "star", False):
            return a[0]
        r = _list(I, a, k)
        if isinstance(r, (SymSeq, ListLike)):
            return r
        return tuple(r)

    B["dict"] = PYDICT

    @b("set")
    def _set(I, a, k):
        return FS(I.unpack(a[0])) if a else FS(())

    B["frozenset"] = B["set"]

    @b("hasattr")
    def _hasattr(I, a, k):
        o, n = a
        if n == "__call__":
            return _callable(o)
        try:
            I.getattr(o, n)
            return True
        except PyRaise as e:
            if e.kind == "AttributeError":
                return False
            raise

    def _callable(o):
        if isinstance(o, (Func, Bi, Cls)):
            return True
        if isinstance(o, Opaque):
            return o.callable_
        if isinstance(o, Obj):
            return o.cls.lookup("__call__") is not None
        return False

    B["callable"] = Bi("callable", lambda I, a, k: _callable(a[0]))

    @b("isinstance")
    def _isinstance(I, a, k):
        o, ts = a
        ts = ts if isinstance(ts, tuple) else (ts,)
        for t in ts:
            n = getattr(t, "name", None)
            if isinstance(t, Cls):
                def sub_(c):
                    return c is t or any(isinstance(x, Cls) and sub_(x) for x in c.bases)

                if isinstance(o, Obj) and sub_(o.cls):
                    return True
                continue
            if n == "dict":
                if isinstance(o, dict) or isinstance(o, Obj) and o.cls.isdict():
                    return True
            elif n == "str":
                if isinstance(o, (str, StrVal)):
                    return True
            elif n == "ndarray":
                if isinstance(o, Arr):
                    return True
            elif n == "list":
                if isinstance(o, (list, ListLike)) and not isinstance(o, tuple) or isinstance(o, SymSeq):
                    return True
            elif n == "tuple":
                if isinstance(o, tuple) or isinstance(o, Opaque) and getattr(o, "star", False):
                    return True
            elif n == "int":
                if isinstance(o, T):
                    raise Unsupported("isinstance of a number")
                if isinstance(o, int):
                    return True
            elif n == "float":
                if isinstance(o, T):
                    raise Unsupported("isinstance of a number")
                if isinstance(o, float):
                    return True
            elif n == "bool":
                if isinstance(o, bool):
                    return True
            else:
                raise Unsupported("isinstance with %r" % (t,))
        return False

    @b("sum")
    def _sum(I, a, k):
        x = a[0]
        if isinstance(x, GenExp):
            x = I.comp(x.node, x.frame)
        if isinstance(x, (Arr, SymSeq, ListLike)):
            return reduce("sum", asarr(x), 0)
        acc = arg(a, k, 1, "start", 0)
        for y in I.unpack(x):
            acc = I.binop("Add", acc, y)
        return acc

    def quant(name):
        def g(I, a, k):
            x = a[0]
            if isinstance(x, GenExp):
                x = I.comp(x.node, x.frame)
            if isinstance(x, (Arr, SymSeq, ListLike)):
                return reduce(name, asarr(x))
            for y in I.unpack(x):
                t = I.truth(y)
                if t != (name == "all"):
                    return t
            return name == "all"

        B[name] = Bi(name, g)

    quant("any")
    quant("all")

    @b("map")
    def _map(I, a, k):
        f, its = a[0], a[1:]
        n, g = I.iterate(Zip(list(its)))
        if isinstance(n, int) and n <= 24:
            return [I.call(f, list(g(num(i))), {}) for i in range(n)]
        return I.symseq(n, lambda kk: I.call(f, list(g(kk)), {}))

    @b("sorted")
    def _sorted(I, a, k):
        xs = I.unpack(a[0])
        if all(isinstance(x, (int, float, str)) for x in xs) and not k:
            return sorted(xs)
        if all(isinstance(x, tuple) and isinstance(x[0], str) for x in xs) and not k:
            return sorted(xs, key=lambda x: x[0])
        raise Unsupported("sorted")

    @b("reversed")
    def _reversed(I, a, k):
        x = a[0]
        if isinstance(x, range):
            return list(reversed(x))
        if isinstance(x, (list, tuple)):
            return list(reversed(x))
        raise Unsupported("reversed")

    @b("type")
    def _type(I, a, k):
        o = a[0]
        if isinstance(o, Obj):
            return o.cls
        raise Unsupported("type()")

    @b("getattr")
    def _getattr(I, a, k):
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as e:
            if e.kind == "AttributeError" and len(a) > 2:
                return a[2]
            raise

    B["setattr"] = Bi("setattr", lambda I, a, k: I.setattr(a[0], a[1], a[2]))
    B["delattr"] = Bi("delattr", lambda I, a, k: I.delattr(a[0], a[1]))
    B["print"] = Bi("print", lambda I, a, k: None)
    B["id"] = Bi("id", lambda I, a, k: id(a[0]))
    B["property"] = Bi("property", lambda I, a, k: Prop(a[0]))
    B["object"] = Bi("object", lambda I, a, k: Opaque("object"))
    B["slice"] = Bi("slice", lambda I, a, k: Slice(*( [None, a[0], None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))))
    B["round"] = Bi("round", lambda I, a, k: round(*a) if all(isinstance(x, (int, float)) and not isinstance(x, T) for x in a) else _raise("round"))
    B["super"] = Bi("super", lambda I, a, k: _raise("super"))
    B["divmod"] = Bi("divmod", lambda I, a, k: (npm.binop("FloorDiv", a[0], a[1]), npm.binop("Mod", a[0], a[1])))
    B["pow"] = Bi("pow", lambda I, a, k: npm.binop("Pow", a[0], a[1]))
    B["iter"] = Bi("iter", lambda I, a, k: a[0])
    for n in EXC:
        B[n] = Bi(n, lambda I, a, k, n=n: Opaque("exception " + n))
    B["BaseException"] = Bi("BaseException", lambda I, a, k: Opaque("exception"))
    B["True"], B["False"], B["None"] = True, False, None
    return B


def _raise(n):
    raise Unsupported(n)
