"""Loops: unrolling, parallel summaries and inductive cut points.

A loop of unknown length is either summarized exactly (every iteration works on its own row), or cut:
the state at the loop head is replaced by a fresh state of the same shape (induction hypothesis), one
iteration is executed, and the state reached is recorded as an edge. Invariants are inferred and
checked on all edges by the driver.
"""
import ast

from . import core, npm
from . import terms as tm
from .core import (BND, C, DT, EK, POISON, SORT, Maybe, Arr, Buf, Opaque, PathEnd, PyRaise, Restart, Unsupported, dim, is_scalar,
                   lift, same_dim, same_value, unlift, ONE, ZERO)
from .interp import Frame, Func, MergeFail, Obj, StrVal, _Break, _Continue, _Return, has_node
from .npm import SymSeq
from .terms import T, TRUE, FALSE, add, and_, app, eq, ite, le, lt, not_, num, or_, sub, sym, toreal

UNROLL = 24
MAXSHAPES = 8


class NotParallel(Exception):
    pass


class Snap(Arr):
    """Frozen array."""


def freeze(a):
    b = Buf.__new__(Buf)
    o = a.buf
    b.ser, b.shape, b.dtype, b.body, b.name, b.owner, b.uninit = o.ser, o.shape, o.dtype, o.body, o.name, o.owner, o.uninit
    return Snap(b, a.shape, a.amap)


class Head:
    def __init__(self, id, info, shape, env, pc, facts):
        self.id, self.info, self.shape, self.env, self.pc, self.facts = id, info, shape, env, pc, facts


class Edge:
    def __init__(self, kind, info, shape, env, pc, facts, heads, line, trace):
        self.kind, self.info, self.shape, self.env, self.pc, self.facts, self.heads = kind, info, shape, env, pc, facts, heads
        self.line, self.trace = line, trace


class LoopInfo:
    def __init__(self, id, key, line):
        self.id, self.key, self.line = id, key, line
        self.mod = []
        self.shapes = [{}]
        self.sealed = {}
        self.kind = None
        self.reset()

    def reset(self):
        self.edges = []
        self.heads = {}
        self.n = None


# ------------------------------------------------------------------ state
def liveframes(c):
    out, st = {}, list(c.frames)
    while st:
        f = st.pop()
        if f is None or f.ser in out:
            continue
        out[f.ser] = f
        st.append(f.parent)
    return out


def allslots(c, maxser):
    d = {}
    for s, f in getattr(c, "allframes", {}).items():
        if s <= maxser:
            for n, v in f.vars.items():
                d[("v", s, n)] = v
    for s, f in getattr(c, "allfuncs", {}).items():
        if s <= maxser:
            for n, v in f.attrs.items():
                d[("a", s, n)] = v
    for n, v in c.ghost.items():
        d[("g", n)] = v
    return d


def bufstate(c, maxser):
    return {s: b.body for s, b in c.bufs.items() if s <= maxser}


def envof(c, maxser):
    """Values visible at a loop head: slot -> scalar or frozen array."""
    env = {}
    lf = liveframes(c)
    for s, f in lf.items():
        if s > maxser:
            continue
        for n, v in f.vars.items():
            if isinstance(v, bool) or is_scalar(v):
                env[("v", s, n)] = v
            elif isinstance(v, Arr):
                env[("v", s, n)] = freeze(v)
    for s, f in getattr(c, "allfuncs", {}).items():
        if s <= maxser:
            for n, v in f.attrs.items():
                if is_scalar(v):
                    env[("a", s, n)] = v
    for n, v in c.ghost.items():
        if is_scalar(v):
            env[("g", n)] = v
        elif isinstance(v, Arr):
            env[("g", n)] = freeze(v)
    return env


def refs(v, out, depth=0):
    """Buffers referenced by a value."""
    if isinstance(v, Arr):
        out.append(v.buf.ser)
    elif isinstance(v, (tuple, list)) and depth < 3:
        for x in v:
            refs(x, out, depth + 1)
    elif isinstance(v, dict) and depth < 3:
        for x in v.values():
            refs(x, out, depth + 1)


# ------------------------------------------------------------------ kinds
def kind_of(v):
    if v is None:
        return ("none",)
    if v is POISON or isinstance(v, (StrVal, Maybe)):
        return ("poison",)
    if isinstance(v, bool):
        return ("B",)
    if isinstance(v, T):
        return (v.sort,) if v.sort in "IRB" else ("poison",)
    if isinstance(v, int):
        return ("I",)
    if isinstance(v, float):
        return ("R",)
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, Arr):
        return ("arr", v.nd, v.dtype, tuple(v.shape), None, v.buf.owner)
    if isinstance(v, (Opaque, Func)) or callable(v):
        return ("obj", id(v), v)
    return ("poison",)


def join(a, b):
    """Common generalization of two kinds, or None."""
    if a == b:
        return a
    if a[0] == "poison" or b[0] == "poison":
        return ("poison",)
    if a[0] in "IR" and b[0] in "IR" and len(a) == len(b) == 1:
        return ("R",)
    if a[0] == b[0] == "arr":
        if a[1] != b[1] or a[2] != b[2] or a[4] != b[4] or a[5] != b[5]:
            return None
        dims = []
        for x, y in zip(a[3], b[3]):
            if x is None or y is None:
                dims.append(None)
            else:
                dims.append(x if same_dim(x, y) else None)
        return ("arr", a[1], a[2], tuple(dims), a[4], a[5])
    return None


def fits(k, s):
    """Kind k is an instance of shape kind s."""
    j = join(k, s)
    return j is not None and eqkind(j, s)


def eqkind(a, b):
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == "arr":
        return a[1:3] == b[1:3] and a[4:] == b[4:] and all(
            (x is None and y is None) or (x is not None and y is not None and same_dim(x, y)) for x, y in zip(a[3], b[3]))
    return a == b


def kinds(c, info, maxser):
    """Kind of every modified slot in the current state."""
    slots = allslots(c, maxser)
    lf = liveframes(c)
    mod = [s for s in info.mod if s[0] != "b"]
    ks = {}
    for s in mod:
        ks[s] = kind_of(slots[s]) if s in slots else ("poison",)
        if s in info.poisoned:
            ks[s] = ("poison",)
    # aliasing: who else refers to the same buffer
    users = {}
    for s, v in slots.items():
        if s[0] == "v" and s[1] not in lf and s not in ks:
            continue
        if s in ks and ks[s][0] == "poison":
            continue
        r = []
        refs(v, r)
        for b in r:
            users.setdefault(b, []).append(s)
    for s in mod:
        if ks[s][0] != "arr":
            continue
        a = slots[s]
        us = sorted(set(users.get(a.buf.ser, ())), key=str)
        others = [u for u in us if u != s]
        if not others:
            continue
        if not a.full():
            ks[s] = ("poison",)
            continue
        old = [u for u in others if u not in ks]
        if old:
            rep = ("old", a.buf.ser)
        else:
            rep = us[0]
            if any(not (isinstance(slots[u], Arr) and slots[u].full()) for u in us):
                ks[s] = ("poison",)
                continue
            if rep == s:
                rep = None
        ks[s] = ks[s][:4] + (rep,) + ks[s][5:]
    return ks


def slotname(s):
    return {"v": lambda: s[2], "a": lambda: "fn." + s[2], "g": lambda: "ghost." + s[1], "b": lambda: "buf%d" % s[1]}[s[0]]()


def setslot(c, s, v):
    if s[0] == "v":
        c.allframes[s[1]].vars[s[2]] = v
    elif s[0] == "a":
        c.allfuncs[s[1]].attrs[s[2]] = v
    elif s[0] == "g":
        c.ghost[s[1]] = v


def content(name, nd):
    return app(name, tuple(BND[: nd - 1]), "V") if nd > 1 else sym(name, "V")


def havoc(c, info, si):
    """Replace the modified slots by fresh values of shape si."""
    sh = info.shapes[si]
    made = {}
    for s in info.mod:
        base = "h%d_%d_%s" % (info.id, si, slotname(s))
        if s[0] == "b":
            b = c.bufs[s[1]]
            b.body = content(base, b.nd)
            continue
        k = sh.get(s, ("poison",))
        if k[0] == "poison":
            v = POISON
        elif k[0] == "none":
            v = None
        elif k[0] in "IRB" and len(k) == 1:
            v = sym(base + "@%d" % s[1] if s[0] != "g" else base, k[0])
        elif k[0] == "str":
            v = k[1]
        elif k[0] == "obj":
            v = k[2]
        elif k[0] == "arr":
            if k[4] is not None and k[4][0] == "old":
                b = c.bufs[k[4][1]]
                v = Arr(b, b.shape, [("a", i, ZERO, ONE) for i in range(b.nd)])
            elif k[4] is not None and k[4] in made:
                v = made[k[4]]
            else:
                dims = []
                for i, d in enumerate(k[3]):
                    if d is None:
                        x = sym("%s.dim%d" % (base, i), "I")
                        c.assume(le(ZERO, x))
                        dims.append(x)
                    else:
                        dims.append(d)
                v = Arr.new(dims, k[2], content(base, k[1]), slotname(s))
                v.buf.owner = k[5]
        made[s] = v
        setslot(c, s, v)


def newmods(c, info, s0, b0, maxser, entryslots):
    """Slots whose value changed since the head state (s0, b0) and are not yet in info.mod."""
    cur = allslots(c, maxser)
    bad = []
    lf = liveframes(c)
    mod = info.modset
    for s, v in cur.items():
        if s in mod:
            continue
        if s not in s0:
            if s[0] == "v" and s[1] not in lf:
                continue
            bad.append(s)
        elif not same_value(s0[s], v):
            bad.append(s)
    for s in s0:
        if s not in cur and s not in mod:
            bad.append(s)
    for b, body in bufstate(c, maxser).items():
        if ("b", b) not in mod and b in b0 and b0[b] is not body:
            bad.append(("b", b))
    return bad


def containers(c, maxser):
    """ids of the Python containers alive at the head."""
    ids = set()

    def go(v, d):
        if isinstance(v, (list, dict)) and d < 4:
            ids.add(id(v))
            for x in v.values() if isinstance(v, dict) else v:
                go(x, d + 1)
        elif isinstance(v, tuple) and d < 4:
            for x in v:
                go(x, d + 1)

    for s, v in allslots(c, maxser).items():
        go(v, 0)
    return ids


def getinfo(c, s, fr):
    v = getattr(c, "visits", None)
    if v is None:
        v = c.visits = {}
    k0 = (fr.mod.path, s.lineno, s.col_offset)
    n = v.get(k0, 0)
    v[k0] = n + 1
    key = (k0, n, c.key())
    u = c.unit
    info = u.loops.get(key)
    if info is None:
        info = LoopInfo(len(u.loops), key, (fr.mod.path, s.lineno))
        u.loops[key] = info
    info.modset = set(info.mod)
    if not hasattr(info, "poisoned"):
        info.poisoned = set()
    return info


def choose_shape(c, info):
    for i in range(len(info.shapes) - 1):
        if c.decide():
            return i
    return len(info.shapes) - 1


def grow(info, slots):
    for s in slots:
        if s not in info.modset:
            info.mod.append(s)
            info.modset.add(s)
    info.mod.sort(key=str)
    raise Restart("loop at %s:%d: %s" % (info.line[0].split("/")[-1], info.line[1], ", ".join(slotname(s) for s in slots)))


def reach(c, info, kind, maxser):
    """Record the arrival of the current state at the head of the loop."""
    ks = kinds(c, info, maxser)
    for i, sh in enumerate(info.shapes):
        if all(s in sh and fits(k, sh[s]) for s, k in ks.items()):
            break
    else:
        # generalize a compatible shape or add one
        for i, sh in enumerate(info.shapes):
            j = {s: (join(k, sh[s]) if s in sh else k) for s, k in ks.items()}
            if all(x is not None for x in j.values()):
                info.shapes[i] = j
                raise Restart("shape of loop %s:%d" % (info.line[0].split("/")[-1], info.line[1]))
        if len(info.shapes) >= MAXSHAPES:
            raise Unsupported("too many state shapes at a loop head")
        info.shapes.append(ks)
        raise Restart("new shape of loop %s:%d" % (info.line[0].split("/")[-1], info.line[1]))
    info.edges.append(Edge(kind, info, i, envof(c, maxser), list(c.pc), list(c.facts), list(c.heads), c.line, c.key()))
    return i


def cut(I, s, fr, cond, body, pre=None, after=None):
    """Generic cut loop. cond() -> bool or term; body() executes one iteration."""
    c = C()
    if c.local is not None:
        raise MergeFail("loop in a merged block")
    if c.binders:
        raise Unsupported("loop under a symbolic comprehension")
    t = cond()
    if t is False:
        I.block(s.orelse, fr)
        return
    info = getinfo(c, s, fr)
    maxser = c.nser
    ents = allslots(c, maxser)
    conts = containers(c, maxser)
    # entry edge (recorded once per exploration)
    if info.kind is None:
        info.kind = type(s).__name__
    if not any(e.kind == "init" and e.trace == c.key() for e in info.edges):
        reach(c, info, "init", maxser)
    else:
        pass
    si = choose_shape(c, info)
    fs, gs = getattr(c, "allframes", {}), getattr(c, "allfuncs", {})
    stale = [m for m in info.mod if (m[0] == "v" and m[1] not in fs) or (m[0] == "a" and m[1] not in gs) or
             (m[0] == "b" and m[1] not in c.bufs)]
    if stale:
        # the serial numbers changed since the information was collected: collect it again
        del c.unit.loops[info.key]
        raise Restart("stale loop information at line %d" % s.lineno)
    havoc(c, info, si)
    # serial numbers of what the body creates do not depend on the set of modified slots
    c.nser = maxser + 2000
    c.events = []
    s0, b0 = allslots(c, maxser), bufstate(c, maxser)
    w0 = len(c.wlog)
    head = Head((info.id, si), info, si, envof(c, maxser), list(c.pc), list(c.facts))
    c.heads.append(head)
    old = info.heads.get(si)
    if old is None:
        info.heads[si] = head
    if pre is not None:
        pre()
    for f in info.sealed.get(si, ()):
        x = f.inst(head.env)
        if x is not None:
            c.assume(x)
    c.unit.on_head(head)
    depth = len(c.heads)
    t = cond()
    if isinstance(t, T):
        t = c.branch(t)
    if not t:
        I.block(s.orelse, fr)
        return
    try:
        body()
    except _Continue:
        pass
    except _Break:
        return
    if after is not None:
        after()
    # back edge
    t = cond()
    if t is False:
        I.block(s.orelse, fr)
        return
    for w in c.wlog[w0:]:
        if w[0] == "obj" and (w[1] in conts or (isinstance(w[1], int) and w[1] <= maxser and w[1] in OBJSER(c, maxser))):
            raise Unsupported("a container is mutated by the loop at line %d" % s.lineno)
    bad = newmods(c, info, s0, b0, maxser, ents)
    if bad:
        grow(info, bad)
    c.unit.on_backedge(head)
    reach(c, info, "step", maxser)
    info.edges[-1].src = head
    raise PathEnd()


def OBJSER(c, maxser):
    out = set()
    for s, v in allslots(c, maxser).items():
        if isinstance(v, Obj):
            out.add(v.ser)
    return out


# ------------------------------------------------------------------ statements
def run_while(I, s, fr):
    c = C()

    def cond():
        return I.truthterm(I.ev(s.test, fr))

    # concrete unrolling when everything stays concrete
    n = 0
    while True:
        t = cond()
        if t is False:
            I.block(s.orelse, fr)
            return
        if t is not True or n >= 2 or not concrete_test(I, s, fr):
            break
        n += 1
        try:
            I.block(s.body, fr)
        except _Continue:
            continue
        except _Break:
            return
    cut(I, s, fr, cond, lambda: I.block(s.body, fr))


def concrete_test(I, s, fr):
    return False


def run_for(I, s, fr):
    c = C()
    it = I.ev(s.iter, fr)
    n, f = I.iterate(it)
    if isinstance(n, int) and n <= UNROLL:
        for i in range(n):
            I.assign(s.target, f(num(i)), fr)
            try:
                I.block(s.body, fr)
            except _Continue:
                continue
            except _Break:
                return
        I.block(s.orelse, fr)
        return
    pk = (fr.mod.path, s.lineno, s.col_offset)
    if not has_node(s.body, (ast.Break, ast.Return, ast.While)) and c.unit.notpar.get(pk, 0) < 2:
        st = I.snapshot()
        nser0 = c.nser
        save = (list(c.pc), len(c.facts), len(c.wlog), c.nfresh, dict(getattr(c, "visits", {})), len(c.obl))
        try:
            parallel(I, s, fr, n, f)
            I.block(s.orelse, fr)
            return
        except (NotParallel, MergeFail, Unsupported) as e:
            c.unit.note("loop at line %d not parallel: %s" % (s.lineno, e))
            I.restore(st)
            c.pc = save[0]
            del c.facts[save[1]:]
            del c.wlog[save[2]:]
            c.visits = save[4]
            c.nser, c.nfresh = nser0, save[3]
            for d in (c.bufs, getattr(c, "allframes", {}), getattr(c, "allfuncs", {})):
                for x in [x for x in d if x > nser0]:
                    del d[x]
            c.unit.notpar[pk] = c.unit.notpar.get(pk, 0) + 1
    nt = lift(n)
    name = "$i%d" % s.lineno
    fr.vars[name] = 0

    def cond():
        return unlift(lt(lift(fr.vars[name]), nt))

    def body():
        k = lift(fr.vars[name])
        fr.vars["$n" + name] = add(k, ONE)
        I.assign(s.target, f(k), fr)
        I.block(s.body, fr)

    def after():
        fr.vars[name] = unlift(fr.vars["$n" + name])

    def pre():
        x = fr.vars[name]
        if isinstance(x, T):
            c.assume(and_(le(ZERO, x), le(x, ite(le(ZERO, nt), nt, ZERO))))
            pr = getattr(it.buf, "prog", None) if isinstance(it, Arr) and it.full() else None
            if pr is not None and it.buf.body is pr[3]:
                # contract of arange: element x exists exactly when start + x*step < stop
                st, en, step, _ = pr
                c.assume(tm.eq(lt(x, nt), lt(add(st, tm.mul(x, step)), en)))

    cut(I, s, fr, cond, body, pre, after)


# ------------------------------------------------------------------ parallel loops
def parallel(I, s, fr, n, f):
    """Execute one iteration with a symbolic index; succeed when iterations are independent."""
    c = C()
    if c.local is not None:
        raise MergeFail("loop in a merged block")
    nb = len(c.binders)
    k = BND[4 - nb] if False else c.freshsym("i", "I")
    ser0 = c.nser
    s0 = allslots(c, ser0)
    b0 = bufstate(c, ser0)
    pc0 = list(c.pc)
    w0 = len(c.wlog)
    conts = containers(c, ser0)
    events0, c.events = c.events, []
    marks = {}
    c.binders.append(k)
    u = c.unit
    obl0 = len(u.obls)
    ok = False
    try:
        c.assume(and_(le(ZERO, k), lt(k, lift(n))))
        # every buffer is replaced by a marker: what does the iteration read and write?
        for b in sorted(b0):
            buf = c.bufs[b]
            m = "mark%d" % b
            marks[b] = m
        I.assign(s.target, f(k), fr)
        ns, c.nosplit = c.nosplit, 0
        try:
            I.merged(lambda: I.block(s.body, fr), single=True)
        except (_Continue, _Break, _Return):
            raise NotParallel("control flow")
        finally:
            c.nosplit = ns
        cur = allslots(c, ser0)
        # written variables: temporaries only (assigned before use in the iteration)
        tmps = []
        for sl, v in cur.items():
            if sl in s0 and same_value(s0[sl], v):
                continue
            if sl[0] == "v" and sl[1] == fr.ser and sl not in s0:
                tmps.append(sl)
                continue
            if sl[0] == "v" and sl[1] == fr.ser and assigned_first(s, sl[2]):
                tmps.append(sl)
                continue
            raise NotParallel("carried variable %s" % slotname(sl))
        for w in c.wlog[w0:]:
            if w[0] == "obj" and w[1] in conts:
                raise NotParallel("container mutated")
        written = {b: c.bufs[b].body for b in b0 if c.bufs[b].body is not b0[b]}
        new = {}
        for b, body in written.items():
            new[b] = summarize(c, c.bufs[b], b0[b], body, k, n)
        # what the iteration reads of a written buffer must not depend on the other iterations
        for b in written:
            pass
        evs = c.events
        ok = True
    finally:
        c.events = events0
        c.binders.pop()
        c.pc = pc0
        if not ok:
            del u.obls[obl0:]
    checkreads(c, written, b0, k, n, new)
    for b in b0:
        c.bufs[b].body = new.get(b, (None, None))[1] if b in new else b0[b]
    for sl in tmps:
        # last value: unknown
        c.allframes[sl[1]].vars[sl[2]] = POISON
    c.unit.on_batch(k, n, evs)


def assigned_first(s, name):
    """The loop target or a name whose first occurrence in the body is an assignment."""
    for x in ast.walk(s.target):
        if isinstance(x, ast.Name) and x.id == name:
            return True
    for st in s.body:
        occ = [x for x in ast.walk(st) if isinstance(x, ast.Name) and x.id == name]
        if not occ:
            continue
        if isinstance(st, ast.Assign) and all(isinstance(x.ctx, ast.Store) for x in occ):
            return True
        return False
    return False


def summarize(c, buf, old, new, k, n):
    """new = content after iteration k from content old. Returns (condition, content after the loop)."""
    # peel ite(cond, value, old) at row level (rank >= 2) or inside the vector (rank 1)
    nd = buf.nd
    if nd >= 2:
        cond, val = peel(new, old)
        if cond is None:
            raise NotParallel("store pattern")
        j = BND[0]
        e = rowof(cond, j, k)
        if e is not None:
            inv = e
            val = tm.subst(val, {k: inv[0]})
            full = and_(inv[1], le(ZERO, inv[0]), lt(inv[0], lift(n)))
            rest = tm.subst(inv[2], {k: inv[0]})
            g = and_(full, rest)
            if inv[1] is TRUE and same_dim(unlift(lift(n)), buf.shape[0]) and rest is TRUE:
                return (g, val if False else ite(g, val, old))
            return (g, ite(g, val, old))
        raise NotParallel("store pattern")
    # rank 1: element level
    x = sym("$x", "I")
    ne, oe = tm.elem(new, x, buf.dtype), tm.elem(old, x, buf.dtype)
    cond, val = peel(ne, oe)
    if cond is None:
        raise NotParallel("store pattern")
    e = rowof(cond, x, k)
    if e is None:
        raise NotParallel("store pattern")
    kk, cc, rest = e
    val = tm.subst(val, {k: kk})
    g = and_(cc, le(ZERO, kk), lt(kk, lift(n)), tm.subst(rest, {k: kk}))
    b = ite(g, val, oe)
    return (g, tm.subst(tm.lam(x, b, buf.dtype), {}))


def peel(new, old):
    """(cond, value) with new == ite(cond, value, old)."""
    if new.op == "ite":
        if new.args[2] is old:
            return new.args[0], new.args[1]
        if new.args[1] is old:
            return not_(new.args[0]), new.args[2]
        c2, v2 = peel(new.args[2], old)
        if c2 is not None:
            return or_(new.args[0], c2), ite(new.args[0], new.args[1], v2)
    return None, None


def rowof(cond, j, k):
    """From a condition selecting row j in iteration k: (k as a term of j, side condition, remaining condition)."""
    cs = list(cond.args) if cond.op == "and" else [cond]
    for i, x in enumerate(cs):
        if x.op == "eq0" and k.name in tm.free(x) and j.name in tm.free(x):
            p = tm._poly(x.args[0])
            cj, ck = p.get((j,)), p.get((k,))
            rest = tm.sub(tm.sub(x.args[0], tm.scale(cj or 0, j)), tm.scale(ck or 0, k))
            if cj in (1, -1) and ck in (1, -1) and k.name not in tm.free(rest) and j.name not in tm.free(rest):
                # cj*j + ck*k + rest == 0  ->  k = -(cj*j + rest)/ck
                kk = tm.scale(-1 / ck, add(tm.scale(cj, j), rest))
                others = cs[:i] + cs[i + 1:]
                return kk, TRUE, and_(*others)
            # strided: j == a + k*step
            if cj in (1, -1):
                steps = [m for m in p if k in m and len(m) == 2]
                if len(steps) == 1:
                    m = steps[0]
                    st = m[0] if m[1] is k else m[1]
                    cst = -p[m] / cj
                    if cst == 1 and p.get((k,)) is None:
                        a = tm.scale(-1 / cj, sub(sub(x.args[0], tm.scale(cj, j)), tm.scale(p[m], tm.mul(st, k))))
                        if k.name not in tm.free(a) and j.name not in tm.free(a):
                            kk = tm.idiv(sub(j, a), st)
                            side = eq(tm.mod(sub(j, a), st), ZERO)
                            return kk, side, and_(*(cs[:i] + cs[i + 1:]))
    return None


def checkreads(c, written, b0, k, n, new):
    """Iteration k may read a written buffer only at the positions it writes (they still hold the old content),
    or where no earlier iteration has written. The check is syntactic: the old content may occur in the new values
    only as the rows addressed by k itself, provided distinct iterations write distinct rows."""
    for b, (g, body) in new.items():
        pass
    for b in written:
        old = b0[b]
        syms = basesyms(old)
        for b2, body in written.items():
            # value stored (with the iteration index k): occurrences of the old content of b
            val = storedval(body, b0[b2], c.bufs[b2])
            if val is None:
                continue
            if not readsok(val, old, k, c.bufs[b], b2 == b):
                raise NotParallel("iterations read rows written by others")


def basesyms(t):
    return t


def storedval(new, old, buf):
    if buf.nd >= 2:
        return peel(new, old)[1]
    x = sym("$x", "I")
    return peel(tm.elem(new, x, buf.dtype), tm.elem(old, x, buf.dtype))[1]


def readsok(val, old, k, buf, same):
    """No occurrence of the old content of buf in val except row k (rank >= 2) or element k (rank 1)."""
    fo = tm.free(old) | heads_of(old)
    mine = {k, BND[0], sym("$x", "I")}
    if buf.nd >= 2:
        oldk = tm.subst(old, {BND[0]: k})
        v2 = tm.replace(val, {oldk: sym("$row", "V"), old: sym("$row", "V")})
    else:
        v2 = tm.replace(val, {tm.elem(old, k, buf.dtype): sym("$el", SORT[buf.dtype]),
                              tm.elem(old, sym("$x", "I"), buf.dtype): sym("$el", SORT[buf.dtype])})
    return not (heads_of(v2) & heads_of(old))


def heads_of(t):
    """Uninterpreted symbols and functions a content is made of (vector sources)."""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.sort == "V" and x.op in ("sym", "app") and not (x.op == "app" and x.name in tm.VDEF):
            out.add(x.name)
        st.extend(tm.children(x))
    return out
