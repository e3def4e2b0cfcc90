"""Path context, symbolic values and array buffers of the verifier."""
from . import terms as tm
from .terms import (T, TRUE, FALSE, add, and_, app, const_val, elem, eq, ge, gt, implies, ite, lam, le, lt, mul,
                    neg, not_, num, or_, sub, sym, toreal)
from .solver import INF, Fact, Prover, prove

ZERO, ONE = num(0), num(1)


class Unsupported(Exception):
    """Construct outside the engine's dialect (never an alarm)."""


class PathEnd(Exception):
    """This path is covered elsewhere (back edge) or infeasible."""


class PyRaise(Exception):
    """An exception raised by the code under verification."""

    def __init__(self, kind, msg="", node=None):
        Exception.__init__(self, kind, msg)
        self.kind, self.msg, self.node = kind, msg, node


class Restart(Exception):
    """The set of modified locations of a loop grew: explore the unit again."""


class _Poison:
    def __repr__(self):
        return "<poison>"


POISON = _Poison()


class Maybe:
    """A scalar variable that is bound on some of the merged paths only."""

    def __init__(self, cond, value, lost=False):
        self.cond, self.value, self.lost = cond, value, lost  # lost: otherwise unknown, not unbound


class Opaque:
    """A user supplied object (callable, extra arguments, ...)."""

    def __init__(self, name, call=None, callable_=True, **attrs):
        self.name, self.call, self.callable_, self.attrs = name, call, callable_, attrs

    def __repr__(self):
        return "<opaque %s>" % self.name


class Ctx:
    """State of one execution path."""

    def __init__(self, unit, trace):
        self.unit = unit
        self.trace = list(trace)
        self.pos = 0
        self.pc = []
        self.facts = []
        self.heads = []
        self.nfresh = 0
        self.nser = 0
        self.binders = []
        self.local = None  # local decision list during merging
        self.localpos = 0
        self.frames = []
        self.obl = []
        self.ghost = {}
        self.wlog = []
        self.bufs = {}
        self.callkey = []
        self.line = None
        self.loopkey = []
        self.events = []
        self.nosplit = 0

    def serial(self):
        self.nser += 1
        return self.nser

    # fresh symbols are functions of the enclosing binders
    def fresh(self, base, sort):
        self.nfresh += 1
        n = "%s#%d" % (base, self.nfresh)
        if self.binders:
            return app(n, tuple(self.binders), sort)
        return sym(n, sort)

    def freshsym(self, base, sort):
        self.nfresh += 1
        return sym("%s#%d" % (base, self.nfresh), sort)

    def assume(self, f):
        if f is TRUE:
            return
        if f is FALSE:
            raise PathEnd()
        if f.op == "and":
            for x in f.args:
                self.assume(x)
            return
        if f not in self.pc:
            self.pc.append(f)

    def entails(self, f, rounds=1, facts=False):
        if f is TRUE or f in self.pc:
            return True
        if f is FALSE or not_(f) in self.pc:
            return False
        key = (f, tuple(self.pc), len(self.facts) if facts else -1)
        c = self.unit.qcache
        if key not in c:
            c[key] = prove(f, self.pc, self.facts if facts else (), rounds=rounds, timeout=500, nl=False) == "proved"
        return c[key]

    def branch(self, c):
        """Truth value of a boolean term on this path (forks when both are possible)."""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.pc:
            return True
        if not_(c) in self.pc:
            return False
        if self.entails(c):
            return True
        if self.entails(not_(c)):
            return False
        d = self.decide()
        self.assume(c if d else not_(c))
        return d

    def decide(self):
        """Next binary decision (True is explored first)."""
        if self.local is not None:
            if self.localpos < len(self.local):
                d = self.local[self.localpos]
            else:
                d = True
                self.local.append(True)
            self.localpos += 1
            return d
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            d = True
            self.trace.append(True)
            self.unit.todo.append(tuple(self.trace[:-1]) + (False,))
        self.pos += 1
        return d

    def key(self):
        return tuple(self.trace[: self.pos]) + (("L",) + tuple(self.local[: self.localpos]) if self.local is not None else ())

    def oblige(self, prop, goal, label, rounds=4, fext=False):
        """Record a proof obligation for property prop (a string or tuple)."""
        u = self.unit
        if not u.wants(prop):
            return
        if goal is TRUE:
            u.trivial.append((prop, label, self.line))
            u.count(prop, label, self.line)
            return
        if goal in self.pc:
            u.count(prop, label, self.line)
            u.trivial.append((prop, label, self.line))
            return
        key = (prop, label, self.line, goal, tuple(self.pc), tuple(h.id for h in self.heads))
        if key in u.oblseen:
            return
        u.oblseen.add(key)
        u.count(prop, label, self.line)
        u.obls.append(Obl(prop, goal, label, self.line, list(self.pc), list(self.facts), list(self.heads), rounds, fext,
                          self.key()))


class Obl:
    def __init__(self, prop, goal, label, line, pc, facts, heads, rounds, fext, key):
        self.prop, self.goal, self.label, self.line = prop, goal, label, line
        self.pc, self.facts, self.heads, self.rounds, self.fext, self.key = pc, facts, heads, rounds, fext, key


_cur = [None]


def C():
    return _cur[0]


def set_ctx(c):
    _cur[0] = c


# ------------------------------------------------------------------ scalars
def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def lift(x):
    """Python scalar or term -> term."""
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x)
    if isinstance(x, float):
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return neg(INF)
        if x != x:
            raise Unsupported("nan")
        return num(x, "R")
    if x is POISON:
        raise Unsupported("value lost at a loop head")
    raise Unsupported("scalar expected, got %r" % (type(x).__name__,))


def unlift(t):
    """Term -> Python value when it is a concrete int or bool."""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.sort == "I":
        c = const_val(t)
        if c is not None:
            return int(c)
    return t


def is_scalar(x):
    return isinstance(x, (bool, int, float)) or (isinstance(x, T) and x.sort in "IRB")


DT = {"I": "i", "R": "f", "B": "b"}
SORT = {"i": "I", "f": "R", "b": "B"}


def cast(t, dtype):
    """Convert a scalar term to dtype (numpy assignment semantics)."""
    if dtype == "f":
        return toreal(t)
    if dtype == "i":
        return tm.toint(t)
    if t.sort == "B":
        return t
    return not_(eq(t, num(0, t.sort)))


def promote(a, b):
    return "f" if "f" in (a, b) else ("i" if "i" in (a, b) else "b")


def dim(d):
    return lift(d)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return lift(a) is lift(b)


# ------------------------------------------------------------------ arrays
BND = [sym("$b%d" % i, "I") for i in range(6)]
EK = sym("$e", "I")


class Buf:
    """Storage of an array: rank, dtype, dims and content (template over prefix binders)."""

    def __init__(self, shape, dtype, body, name="a"):
        c = C()
        self.ser = c.serial()
        self.shape, self.dtype, self.body, self.name = tuple(shape), dtype, body, name
        self.owner = None
        self.uninit = False
        c.bufs[self.ser] = self

    @property
    def nd(self):
        return len(self.shape)

    def row(self, prefix):
        m = {BND[i]: p for i, p in enumerate(prefix) if p is not BND[i]}
        return tm.subst(self.body, m)

    def set(self, body):
        c = C()
        if self.owner is not None:
            c.unit.on_write(self)
        elif c.unit.wants("C11"):
            k = ("C11 write", c.line)
            if k not in c.unit.oblseen:
                c.unit.oblseen.add(k)
                c.oblige("C11", TRUE, "frame: the array written is not one of the caller's")
        c.wlog.append(("buf", self.ser))
        self.body = body


class Arr:
    """View on a buffer. amap[i] for buffer axis i: ('x', index) or ('a', view axis, offset, step)."""

    def __init__(self, buf, shape, amap, prov=None):
        self.buf, self.shape, self.amap, self.prov = buf, tuple(shape), tuple(amap), prov

    @staticmethod
    def new(shape, dtype, body, name="a", prov=None):
        b = Buf(shape, dtype, body, name)
        return Arr(b, shape, [("a", i, ZERO, ONE) for i in range(len(shape))], prov)

    @property
    def nd(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def full(self):
        return len(self.amap) == len(self.shape) and all(
            m == ("a", i, ZERO, ONE) and same_dim(self.shape[i], self.buf.shape[i]) for i, m in enumerate(self.amap)
        )

    def bidx(self, idx):
        out = []
        for m in self.amap:
            if m[0] == "x":
                out.append(m[1])
            else:
                out.append(add(mul(m[3], idx[m[1]]), m[2]))
        return out

    def el(self, idx):
        b = self.bidx(idx)
        return elem(self.buf.row(b[:-1]), b[-1], self.buf.dtype)

    def vec(self, prefix=()):
        """V term of the last axis."""
        if any(isinstance(x, T) and "$e" in tm.free(x) for x in prefix):
            # the index of the last axis must not capture the one used by the caller
            g = sym("$g%d" % max([0] + [1 + int(n[2:]) for x in prefix if isinstance(x, T) for n in tm.free(x) if n[:2] == "$g" and n[2:].isdigit()]), "I")
            v = self.vec(tuple(tm.subst(x, {EK: g}) if isinstance(x, T) else x for x in prefix))
            return tm.subst(v, {g: EK})
        m = self.amap[-1]
        if m[0] == "a" and m[1] == self.nd - 1 and m[2] is ZERO and m[3] is ONE:
            b = self.bidx(tuple(prefix) + (EK,))
            if all("$e" not in tm.free(x) for x in b[:-1]):
                return self.buf.row(b[:-1])
        return lam(EK, self.el(tuple(prefix) + (EK,)), self.buf.dtype)

    def body(self):
        return self.vec(BND[: self.nd - 1])

    def copy(self):
        a = Arr.new(self.shape, self.dtype, self.body(), self.buf.name, self.prov)
        a.buf.uninit = self.buf.uninit
        return a


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.buf is b.buf and a.amap == b.amap and len(a.shape) == len(b.shape) and all(
            same_dim(x, y) for x, y in zip(a.shape, b.shape))
    if isinstance(a, T) or isinstance(b, T):
        try:
            return lift(a) is lift(b)
        except Unsupported:
            return False
    if isinstance(a, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, int, float, str)) and type(a) is type(b):
        return a == b
    if isinstance(a, range) and isinstance(b, range):
        return a == b
    return False
