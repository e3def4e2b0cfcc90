"""Verification units: path exploration, inductive invariants, discharge of obligations.

A unit is a harness around functions of /repo: it builds symbolic arguments satisfying the documented
preconditions, interprets the real source on every path, and collects proof obligations. Loops of unknown
length are cut at their head; the invariants are found by a fixed point over candidate templates (Houdini):
a candidate is kept only if it holds on entry and is preserved by every path of the body, so a template that
does not fit the code is simply dropped and cannot make the result unsound.
"""
import os
import time
import traceback

from . import core, interp, loops, npm
from . import terms as tm
from .core import (BND, C, Arr, Buf, Ctx, Obl, Opaque, PathEnd, PyRaise, Restart, Unsupported, dim, is_scalar, lift,
                   same_dim, set_ctx, unlift, INF, ONE, ZERO)
from .abstr import abstract
from .interp import Interp, MergeFail, Obj
from .npm import ListLike, SymSeq
from .solver import Fact, Prover, STATS, prove
from .terms import (T, TRUE, FALSE, add, and_, app, elem, eq, ge, gt, implies, ite, lam, le, lt, mul, not_, num, or_, sub,
                    sym, toreal)

R0 = num(0, "R")
DEBUG = bool(os.environ.get("VERIF_DEBUG"))
EK = core.EK


class NullUnit:
    """Execution without obligations (module bodies)."""

    strict_scalars = False
    fork_errors = False
    havoc = 0

    def __init__(self):
        self.todo, self.qcache, self.trivial, self.oblseen, self.obls = [], {}, [], set(), []
        self.loops, self.functions = {}, set()
        self.counts = {}
        self.notpar = {}
        self.pure = {}

    def wants(self, prop):
        return False

    def count(self, prop, label, line):
        pass

    def contract(self, f):
        return None

    def on_write(self, buf):
        pass

    def on_newobj(self, o):
        pass

    def on_objset(self, o, k, v):
        pass

    def on_setattr(self, o, n, v):
        raise Unsupported("attribute of a user object")

    def on_batch(self, k, n, events):
        if events:
            raise Unsupported("unexpected events")

    def on_draw(self, kind):
        pass

    def on_drawn(self, kind, value):
        pass

    def on_seed(self, seed):
        pass

    def on_parallel(self, args, kwargs):
        pass

    # over-approximation of irrelevant numerical values (units with havoc > 0)
    keep = frozenset(("F",))
    drop = frozenset(("vsum", "sqrt", "exp", "log", "pow", "div", "ipow", "mmax", "mmin"))

    def forgets(self, t):
        return not self.constant(t) and (tm.weight(t) > self.havoc or tm.mentions(t, self.drop)) and not tm.mentions(t, self.keep)

    def constant(self, t):
        """Made of numbers and of the dimensions only."""
        r = self.pure.get(t)
        if r is None:
            cs = tm.children(t)
            r = self.pure[t] = all(self.constant(x) for x in cs) if cs else t.op != "sym" or t in self.const_ints()
        return r

    def const_ints(self):
        return ()

    def forgetsbool(self, t):
        return not self.constant(t) and tm.mentions(t, self.drop) and not tm.mentions(t, self.keep)

    def mpi_rank(self):
        raise Unsupported("MPI")

    mpi_size = mpi_rank

    def on_head(self, head):
        pass

    def on_backedge(self, head):
        pass

    def note(self, msg):
        pass


class Cand:
    """Invariant candidate: forall vars. body(env), with triggers pats(env)."""

    __slots__ = ("name", "vars", "fn", "alive", "_h", "stage", "strong")

    def __init__(self, name, vars, fn, stage=1, strong=None):
        self.strong = strong
        self.name, self.vars, self.fn, self.alive, self.stage = name, tuple(vars), fn, True, stage
        self._h = {}

    def implied(self):
        """A candidate that implies this one is still alive."""
        s = self.strong
        while s is not None:
            if s.alive:
                return True
            s = s.strong
        return False

    def inst(self, env):
        """Quantifier free instance (scalar candidates only)."""
        try:
            r = self.fn(env)
        except (Unsupported, KeyError, AttributeError, TypeError, IndexError):
            return None
        return None if r is None else r[0]

    def goal(self, env):
        b = self.inst(env)
        if b is None:
            return None
        return tm.subst(b, {v: sym("$sk_" + v.name, v.sort) for v in self.vars})

    def fact(self, env):
        r = self.fn(env)
        if r is None:
            return None
        if not self.vars:
            return r[0]
        return Fact(self.vars, r[1], r[0], self.name)


class Unit(NullUnit):
    """Exploration of all the paths of a harness."""

    timeout = 4000
    maxpaths = 3000
    retry = False
    deep = False
    time_limit = 600

    def __init__(self, name, props, root=None):
        NullUnit.__init__(self)
        self.name, self.props = name, set(props)
        self.I = Interp(root)
        self.notes = []
        self.paths = 0
        self.raises = {}
        self.reached = {}
        self.t0 = time.time()
        self.results = []
        self.allcands = {}
        self.error = None

    # ---- hooks
    def wants(self, prop):
        if isinstance(prop, tuple):
            return any(p in self.props for p in prop)
        return prop in self.props

    def count(self, prop, label, line):
        k = (prop, label, line)
        self.counts[k] = self.counts.get(k, 0) + 1

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def run(self):
        raise NotImplementedError

    def mark(self):
        """This path is complete although the harness stops here."""
        c = C()
        self.complete.append((list(c.pc), list(c.facts), list(c.heads), c.key()))

    def on_raise(self, e):
        """The code raised on this path."""
        C().oblige("C24", FALSE, "no %s is raised (%s)" % (e.kind, e.msg))

    # ---- exploration
    def explore(self):
        for rnd in range(120):
            self.todo[:] = [()]
            self.obls.clear()
            self.oblseen.clear()
            self.trivial.clear()
            self.counts.clear()
            self.paths = 0
            self.complete = []
            self.backedges = []
            for i in self.loops.values():
                i.reset()
            self.visited = set()
            try:
                while self.todo:
                    if time.time() - self.t0 > self.time_limit:
                        raise Unsupported("time limit of the exploration")
                    tr = self.todo.pop()
                    c = Ctx(self, tr)
                    set_ctx(c)
                    self.paths += 1
                    if self.paths > self.maxpaths:
                        raise Unsupported("too many paths")
                    try:
                        self.run()
                        self.complete.append((list(c.pc), list(c.facts), list(c.heads), c.key()))
                    except PathEnd:
                        pass
                    except PyRaise as e:
                        self.on_raise(e)
                        if self.fork_errors:
                            self.complete.append((list(c.pc), list(c.facts), list(c.heads), c.key()))
                    except MergeFail as e:
                        raise Unsupported("merge: %s" % e)
                    except interp._Return:
                        raise Unsupported("return outside a function")
                return
            except Restart as e:
                self.note("restart: %s" % e)
                continue
        raise Unsupported("the exploration does not reach a fixed point")

    def live_loops(self):
        return [i for i in self.loops.values() if i.heads]

    # ---- invariants
    def templates(self, info, si, head):
        return []

    def presealed(self, info, si, head):
        return int_templates(self, info, si, head)

    def houdini(self, cands, sealed=False):
        """Largest inductive subset of the candidates. cands: {(id, shape): [Cand]}"""
        self.allcands = {k: list(v) for k, v in cands.items()}
        edges = []
        for info in self.live_loops():
            for e in info.edges:
                edges.append(e)
        # entry edges first
        edges.sort(key=lambda e: (e.kind != "init", len(e.heads)))
        dirty = set(range(len(edges)))
        first = True
        it = 0
        while dirty:
            it += 1
            if it > 2000:
                raise Unsupported("the invariants do not stabilize")
            i = min(dirty)
            dirty.discard(i)
            e = edges[i]
            cs = [c for c in cands.get((e.info.id, e.shape), ()) if c.alive]
            if not cs:
                continue
            dropped = self.check_edge(e, cs, cands)
            if dropped:
                weak = {id(c.strong) for c in cs if c.strong is not None}
                weak = any(id(c) in weak for c in dropped)
                for j, f in enumerate(edges):
                    if weak and j != i and (f.info.id, f.shape) == (e.info.id, e.shape):
                        dirty.add(j)
                    if any(h.id == (e.info.id, e.shape) for h in f.heads):
                        dirty.add(j)
        for k in cands:
            cands[k] = [c for c in cands[k] if c.alive and not c.implied()]
        return cands

    def hyps_of(self, heads, cands):
        hs, fs = [], []
        for h in heads:
            for c in cands.get(h.id, ()):
                if not c.alive or c.implied():
                    continue
                f = c._h.get(id(h.info))
                if f is None:
                    f = c.fact(h.env)
                    c._h[id(h.info)] = f
                if isinstance(f, Fact):
                    fs.append(f)
                elif f is not None:
                    hs.append(f)
        return hs, fs

    def check_edge(self, e, cs, cands):
        goals = []
        dropped = []

        def drop(c):
            c.alive = False
            dropped.append(c)
            if DEBUG:
                print("drop", (e.info.id, e.shape), e.kind, [h.id for h in e.heads], e.trace, c.name, flush=True)

        for c in cs:
            g = c.goal(e.env)
            if g is None or g is FALSE:
                drop(c)
            elif g is not TRUE and g not in e.pc:
                goals.append((c, g))
        if not goals:
            return dropped
        hs, fs = self.hyps_of(e.heads, cands)
        hyps = hs + e.pc
        facts = fs + e.facts
        ints = [(c, g) for c, g in goals if int_only(g)]
        if ints:
            p = Prover([h for h in hyps if int_only(h)], (), [g for _, g in ints], rounds=1, timeout=1000, nl=True)
            for n, (c, g) in enumerate(ints):
                if not c.alive or c.implied():
                    continue
                r = p.check(g)
                if r == "proved":
                    continue
                if r == "sat" and c.stage == 0:
                    drop(c)
                    for c2, g2 in ints[n + 1:]:
                        if c2.alive and c2.stage == 0 and p.falsified(g2):
                            drop(c2)
                    continue
                if prove(g, hyps, facts, rounds=2, timeout=1000) != "proved":
                    drop(c)
        rest = [(c, g) for c, g in goals if not int_only(g)]
        groups = {}
        for c, g in rest:
            groups.setdefault(c.stage, []).append((c, g))
        fe = self.fext_dim()
        for st in sorted(groups):
            gl = groups[st]
            if st == 4:
                # candidates about sums: one at a time
                for c, g in gl:
                    tq = time.time()
                    if c.alive and not self.sumprove(g, hyps, facts):
                        drop(c)
                    if DEBUG:
                        print("sum %.1f" % (time.time() - tq), c.alive, e.kind, e.trace, c.name, flush=True)
                continue
            for a in range(0, len(gl), 8):
                chunk = [x for x in gl[a:a + 8] if x[0].alive]
                if not chunk:
                    continue
                if st in (1, 2):
                    ah, af, ag = abstract(hyps, facts, [g for _, g in chunk])
                    p = Prover(ah, af, ag, rounds=3, timeout=800, nl=False, maxinst=1500, wide=True)
                    bad = [x for x, g in zip(chunk, ag) if p.check(g, full=False) != "proved"]
                    if not self.deep:
                        for x in bad:
                            drop(x[0])
                        continue
                    chunk = bad
                    if not chunk:
                        continue
                tq = time.time()
                p = Prover(hyps, facts, [g for _, g in chunk], rounds=3 if st < 3 else 5, timeout=800, nl=st == 3, maxinst=2500)
                for n, (c, g) in enumerate(chunk):
                    if not c.alive:
                        continue
                    r = p.check(g, full=st == 3)
                    if r == "proved":
                        continue
                    if r == "sat" and st < 2:
                        drop(c)
                        for c2, g2 in chunk[n + 1:]:
                            if c2.alive and p.falsified(g2):
                                drop(c2)
                        continue
                    if DEBUG:
                        print("slow %.1f" % (time.time() - tq), r, e.kind, e.trace, c.name)
                        tq = time.time()
                    ok = self.retry and self.deep and st == 2 and prove(g, hyps, facts, rounds=5, timeout=1500, fext=fe, nl=False) == "proved"
                    if DEBUG:
                        print("  fallback %.1f" % (time.time() - tq), ok)
                        tq = time.time()
                    if not ok:
                        drop(c)
        return dropped

    def fext_dim(self):
        return None

    def sumprove(self, g, hyps, facts):
        return any(prove(g, hyps, facts, rounds=r, timeout=t, nl=False) == "proved" for r, t in ((2, 2000), (3, 3000)))

    def seal(self):
        """Linear invariants of the counters, assumed at the heads in the following explorations."""
        for rnd in range(6):
            cands = {}
            new = False
            for info in self.live_loops():
                for si, head in info.heads.items():
                    if si in info.sealed:
                        continue
                    cands[(info.id, si)] = self.presealed(info, si, head)
                    new = True
            if not new:
                return
            # sealed ones of other loops are part of the path conditions already
            self.houdini(cands)
            for info in self.live_loops():
                for si in info.heads:
                    if (info.id, si) in cands:
                        info.sealed[si] = cands[(info.id, si)]
                        if info.sealed[si]:
                            self.note("sealed %s/%d: %s" % (info.line[1], si, "; ".join(c.name for c in info.sealed[si])))
            self.explore()
        raise Unsupported("sealed invariants do not stabilize")

    def verify(self):
        """Explore, infer, discharge. Fills self.results."""
        self.t0 = time.time()
        try:
            self.explore()
            self.seal()
            self.t_explore = time.time() - self.t0
            for deep in (False, True):
                if self.deep and not deep:
                    continue
                self.deep = deep
                self.results = []
                cands = {}
                if any(o.heads for o in self.obls):
                    for info in self.live_loops():
                        for si, head in info.heads.items():
                            cands[(info.id, si)] = self.templates(info, si, head)
                    self.ncand = sum(len(v) for v in cands.values())
                    self.houdini(cands)
                    self.pruned(cands)
                self.cands = cands
                self.t_inv = time.time() - self.t0
                self.termination(cands)
                self.discharge(cands)
                if all(r["status"] == "proved" for r in self.results):
                    break
                self.note("deep: %s (%.0f s)" % ("; ".join(sorted({r["label"] for r in self.results if r["status"] != "proved"}))[:600], time.time() - self.t0))
                if not any(c.stage in (1, 2) for v in self.allcands.values() for c in v):
                    break
                if time.time() - self.t0 > self.time_limit:
                    if not deep:
                        self.error = "time limit"
                    break
            if STATS.get("clock") and any(r["status"] != "proved" for r in self.results):
                self.error = "time limit of the solver"
            self.vacuity(cands)
        except Unsupported as e:
            self.error = "outside the verifier's dialect: %s" % e
            c = C()
            if c is not None and c.line:
                self.error += " (line %s)" % (c.line,)
        except RecursionError:
            self.error = "engine recursion limit"
        except Exception as e:
            self.error = "engine failure: %s" % "".join(traceback.format_exception(e))[-1800:]
        self.wall = time.time() - self.t0
        return self

    def pruned(self, cands):
        pass

    def termination(self, cands):
        if "C24" not in self.props:
            return
        for info in self.live_loops():
            if info.kind != "While":
                continue
            steps = [e for e in info.edges if e.kind == "step"]
            ok = not steps
            slots = [s for s in info.mod if s[0] == "v"]
            for s in slots:
                if ok:
                    break
                good = True
                for e in steps:
                    h = e.src.env.get(s)
                    v = e.env.get(s)
                    if h is None or v is None or not is_scalar(h) or not is_scalar(v) or lift(h).sort != "I" or lift(v).sort != "I":
                        good = False
                        break
                    hs, fs = self.hyps_of(e.heads, cands)
                    ub = self.bound_terms()
                    # strictly increasing and bounded by a constant of the run
                    g = and_(le(add(lift(h), ONE), lift(v)), or_(*[le(lift(v), u) for u in ub]))
                    if prove(g, hs + e.pc, fs + e.facts, rounds=3, timeout=3000) != "proved":
                        good = False
                        break
                ok = good
            self.results.append({"prop": "C24", "label": "the loop terminates (a counter grows at every iteration up to a bound)",
                                 "line": info.line[1], "status": "proved" if ok else "failed", "detail": ""})

    def bound_terms(self):
        return []

    def discharge(self, cands):
        seen = {}
        for t in self.trivial:
            self.results.append({"prop": t[0], "label": t[1], "line": t[2], "status": "proved", "detail": "by simplification"})
        for o in self.obls:
            hs, fs = self.hyps_of(o.heads, cands)
            key = (o.goal, tuple(o.pc), tuple(h.id for h in o.heads))
            st = seen.get(key)
            model = ""
            if st is None:
                t0 = time.time()
                st = "failed"
                hyps = hs + o.pc
                facts = fs + o.facts
                goal, hyps = self.sumcut(o.goal, hyps, facts)
                for rounds, to, fe, mi in ((3, 2000, -1, 2000), (2, 1500, None, 1500), (o.rounds, self.timeout, None, 4000),
                                           (o.rounds + 1, self.timeout, self.fext_dim(), 6000)):
                    if fe == -1:
                        ah, af, ag = abstract(hyps, facts, [goal])
                        p = Prover(ah, af, ag, rounds=rounds, timeout=to, maxinst=mi, wide=True)
                        r = p.check(ag[0], full=False)
                    else:
                        p = Prover(hyps, facts, [goal], rounds=rounds, timeout=to, fext=fe, maxinst=mi)
                        r = p.check(goal)
                    if r == "proved":
                        st = "proved"
                        break
                if st != "proved":
                    st = "refuted" if r == "sat" else "unknown"
                    model = model_text(p)
                seen[key] = st
                if DEBUG:
                    print("obligation %.1f s" % (time.time() - t0), st, o.label, o.line[1] if o.line else "", tm.show(o.goal)[:300], flush=True)
            self.results.append({"prop": o.prop, "label": o.label, "line": o.line, "status": st, "detail": model,
                                 "goal": tm.show(o.goal)[:2000] if st != "proved" else "",
                                 "path": str(o.key)[:400] if st != "proved" else ""})

    def sumcut(self, goal, hyps, facts):
        """Cut: reductions of vectors that are provably equal element by element are the same term in the goal."""
        names = {"vsum": "f", "vall": "b", "vany": "b"}
        tried = set()
        for _ in range(4):
            ts, st, seen = [], [goal], set()
            while st:
                t = st.pop()
                if t in seen:
                    continue
                seen.add(t)
                if t.op == "app" and t.name in names:
                    ts.append(t)
                st.extend(tm.children(t))
            if not 2 <= len(ts) <= 8:
                break
            m = {}
            ts.sort(key=tm.show)
            for i, t in enumerate(ts):
                for w in ts[:i]:
                    if w.name != t.name or w.args[-1] is not t.args[-1] or (t, w) in tried:
                        continue
                    k = tm.sym("$cut", "I")
                    d = names[t.name]
                    g = tm.implies(and_(le(ZERO, k), tm.lt(k, t.args[-1])), eq(tm.elem(t.args[0], k, d), tm.elem(w.args[0], k, d)))
                    if any(prove(g, hyps, facts, rounds=r, timeout=1500) == "proved" for r in (1, 2)):
                        m[t] = w
                        break
                    tried.add((t, w))
                if m:
                    break
            if not m:
                break
            goal = tm.replace(goal, m)
            hyps = [tm.replace(h, m) for h in hyps]
        return goal, hyps

    def vacuity(self, cands):
        """Some complete path must be consistent under everything assumed."""
        ok = False
        for pc, facts, heads, key in self.complete[:40]:
            hs, fs = self.hyps_of(heads, cands)
            if prove(FALSE, hs + pc, fs + facts, rounds=3, timeout=1000, nl=False) != "proved":
                ok = True
                break
        self.reachable = ok


_intonly = {}


def int_only(t):
    """Linear integer formula without arrays or reals."""
    r = _intonly.get(t)
    if r is None:
        r = t.sort in "IB" and t.op not in ("app", "floor", "eqV") and all(int_only(x) for x in tm.children(t))
        _intonly[t] = r
    return r


def model_text(p):
    if getattr(p, "model", None) is None:
        return "no model"
    out = []
    for d in sorted(p.model.decls(), key=str):
        if d.arity() == 0 and "V" != str(d.range()):
            out.append("%s = %s" % (d.name(), p.model[d]))
    return "; ".join(out[:60])


# ------------------------------------------------------------------ candidates
def scalar_slots(info, head, sorts):
    """Distinct modified scalar slots of the head."""
    out, seen = [], set()
    for s in info.mod:
        v = head.env.get(s)
        if isinstance(v, T) and v.sort in sorts and v not in seen:
            seen.add(v)
            out.append((s, v))
    return out


def nm(s):
    if s[0] == "d":
        return "%s.shape[%d]" % (nm(s[1]), s[2])
    return loops.slotname(s)


def slotval(env, s):
    """Value of a slot; ("d", slot, i) is the extent of an array."""
    if s[0] != "d":
        return env.get(s)
    v = env.get(s[1])
    return v.shape[s[2]] if isinstance(v, Arr) and s[2] < v.nd else None


def dim_slots(info, head):
    """Extents that the loop changes, one slot for each distinct extent."""
    seen, out = set(), []
    for s in info.mod:
        v = head.env.get(s)
        if not isinstance(v, Arr) or s[0] not in "vg":
            continue
        for i, d in enumerate(v.shape):
            if isinstance(d, T) and d.op == "sym" and ".dim" in d.name and d not in seen:
                seen.add(d)
                out.append((("d", s, i), d))
    return out


def int_templates(u, info, si, head):
    """Linear relations of the integer counters."""
    ints = scalar_slots(info, head, "I") + dim_slots(info, head)
    init = [e for e in info.edges if e.kind == "init" and e.shape == si] or [e for e in info.edges if e.kind == "init"]
    own = any(e.kind == "init" and e.shape == si for e in info.edges)
    consts = list(u.const_ints())
    for s, v in head.env.items():
        if isinstance(v, T) and v.op == "sym" and v.sort == "I" and s not in info.modset and v not in consts and len(consts) < 10:
            consts.append(v)
    out = []

    def entry(s):
        vals = set()
        for e in init:
            v = slotval(e.env, s)
            if v is None or not is_scalar(v):
                return None
            vals.add(lift(v))
        return vals.pop() if len(vals) == 1 else None

    ents = {s: entry(s) for s, _ in ints}
    for s, v in ints:
        e0 = ents[s]
        if not own:
            prev = None
            for q in (ZERO, ONE):
                prev = Cand("%s <= %s" % (nm(s), tm.show(q)), (), lambda env, s=s, q=q: (le(lift(slotval(env, s)), q), ()), 0, prev)
                out.append(prev)
        if e0 is not None:
            out.append(Cand("%s >= entry" % nm(s), (), lambda env, s=s, e0=e0: (le(e0, lift(slotval(env, s))), ()), 0))
        if e0 is None or not own:
            prev = None
            for lo in (1, 0):
                prev = Cand("%s >= %d" % (nm(s), lo), (), lambda env, s=s, lo=lo: (le(num(lo), lift(slotval(env, s))), ()), 0, prev)
                out.append(prev)
        if s[0] == "d":
            for q in u.const_ints():
                out.append(Cand("%s >= %s" % (nm(s), tm.show(q)), (), lambda env, s=s, q=q: (le(q, lift(slotval(env, s))), ()), 0))
        for q in consts:
            prev = None
            for d in (-1, 0, 1):
                prev = Cand("%s <= %s%+d" % (nm(s), tm.show(q), d), (),
                            lambda env, s=s, q=q, d=d: (le(lift(slotval(env, s)), add(q, num(d))), ()), 0, prev)
                out.append(prev)
    steps = [ONE, num(2)] + list(u.const_ints())
    for s, v in ints:
        for t, w in ints:
            if s == t:
                continue
            if ents[s] is not None and ents[t] is not None:
                for d in steps:
                    if d is ONE and str(s) > str(t):
                        continue
                    out.append(Cand("%s - t0 == %s*(%s - s0)" % (nm(t), tm.show(d), nm(s)), (),
                                    lambda env, s=s, t=t, d=d: (eq(sub(lift(slotval(env, t)), ents[t]), mul(d, sub(lift(slotval(env, s)), ents[s]))), ()), 0))
            else:
                for d in steps:
                    for o in (0, 1, -1):
                        out.append(Cand("%s == %s*(%s%+d)" % (nm(t), tm.show(d), nm(s), o), (),
                                        lambda env, s=s, t=t, d=d, o=o: (eq(lift(slotval(env, t)), mul(d, add(lift(slotval(env, s)), num(o)))), ()), 0))
    return out
