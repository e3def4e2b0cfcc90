"""Symbolic interpreter of the Python subset used by the code under verification.

The source is parsed from /repo on every run; nothing is dropped except docstrings and type
annotations. Anything outside the supported subset raises Unsupported.
"""
import ast
import os

from . import core, npm
from . import terms as tm
from .core import (BND, C, DT, EK, INF, POISON, Maybe, Arr, Buf, Opaque, PathEnd, PyRaise, Unsupported, cast, dim, is_scalar,
                   lift, same_dim, same_value, unlift, ONE, ZERO)
from .npm import ListLike, Slice, SymSeq, asarr
from .terms import (T, TRUE, FALSE, add, and_, app, const_val, elem, eq, ge, gt, implies, ite, lam, le, lt, mul, neg,
                    not_, num, or_, sub, sym, toreal)


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class MergeFail(Exception):
    pass


class Frame:
    def __init__(self, func, parent, mod):
        c = C()
        self.ser = c.serial() if c else -1
        self.func, self.parent, self.mod = func, parent, mod
        self.vars = {}
        self.nonlocals = set()
        self.globals = set()
        self.locals = None
        if c:
            c.allframes = getattr(c, "allframes", {})
            c.allframes[self.ser] = self

    def set(self, name, v):
        if name in self.nonlocals:
            f = self.parent
            while f is not None and name not in f.vars:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal " + name)
            f.set(name, v)
            return
        if name in self.globals:
            raise Unsupported("global assignment")
        if C() is not None:
            C().wlog.append(("var", self.ser, name))
        self.vars[name] = v


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.vars = {}
        self.attrs = self.vars


class Func:
    def __init__(self, node, parent, mod, name, defaults, kwdefaults):
        self.node, self.parent, self.mod, self.name = node, parent, mod, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        c = C()
        self.ser = c.serial() if c else -id(self)
        self.attrs = {}
        if c:
            c.allfuncs = getattr(c, "allfuncs", {})
            c.allfuncs[self.ser] = self

    def __repr__(self):
        return "<function %s>" % self.name


class Bi:
    """Built-in function of the model."""

    def __init__(self, name, fn, attrs=None):
        self.name, self.fn = name, fn
        self.attrs = attrs or {}

    def __repr__(self):
        return "<builtin %s>" % self.name


class Cls:
    def __init__(self, name, bases, vars, mod):
        self.name, self.bases, self.vars, self.mod = name, bases, vars, mod

    def lookup(self, n):
        if n in self.vars:
            return self.vars[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def isdict(self):
        return any(b is PYDICT or (isinstance(b, Cls) and b.isdict()) for b in self.bases)


class Obj:
    """Instance of an interpreted class (dict data when the class derives from dict)."""

    def __init__(self, cls):
        self.cls = cls
        self.ser = C().serial() if C() else -1
        self.data = {}
        self.attrs = {}

    def __repr__(self):
        return "<%s %r>" % (self.cls.name, self.data)


class Delayed:
    def __init__(self, fn):
        self.fn = fn


class DelayedCall:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class GenExp:
    def __init__(self, interp, node, frame):
        self.interp, self.node, self.frame = interp, node, frame


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step
        self.sym_range = (lift(start), lift(stop))
        if not (isinstance(step, int) and step == 1):
            del self.sym_range


class Zip:
    def __init__(self, its):
        self.its = its


class Enum:
    def __init__(self, it, start):
        self.it, self.start = it, start


class StrVal:
    """A string with unknown content."""

    def __init__(self, parts=()):
        self.parts = parts


PYDICT = Bi("dict", lambda I, a, k: mkdict(a, k))


def mkdict(a, k):
    d = {}
    if a:
        s = a[0]
        if isinstance(s, Obj):
            s = s.data
        if isinstance(s, dict):
            d.update(s)
        elif isinstance(s, (list, tuple)):
            for x, y in s:
                d[x] = y
        else:
            raise Unsupported("dict()")
    d.update(k)
    return d


REPO = os.environ.get("VERIF_REPO", "/repo")
_mods = {}
_trees = {}


def parse(path):
    if path not in _trees:
        with open(path) as f:
            _trees[path] = ast.parse(f.read(), path)
    return _trees[path]


def assigned_names(node):
    """Names bound in a function body."""
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for g in n.generators:
                self.visit(g.iter)

        visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp

        def visit_Import(self, n):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

    v = V()
    for s in node if isinstance(node, list) else node.body:
        v.visit(s)
    return out


_assigned = {}


def locals_of(fn):
    if id(fn) not in _assigned:
        if isinstance(fn, ast.Lambda):
            _assigned[id(fn)] = (fn, set())
        else:
            _assigned[id(fn)] = (fn, assigned_names(fn))
    return _assigned[id(fn)][1]


def has_node(stmts, kinds):
    for s in stmts:
        for n in walk_no_func(s):
            if isinstance(n, kinds):
                return True
    return False


def walk_no_func(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        yield from walk_no_func(c)


class Interp:
    def __init__(self, root=None):
        self.root = root or REPO

    # -------------------------------------------------------------- modules
    def modpath(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        return None, False

    def load(self, name):
        key = (self.root, name)
        if key in _mods:
            return _mods[key]
        ext = external(name)
        if ext is not None:
            _mods[key] = ext
            return ext
        path, pkg = self.modpath(name)
        if path is not None and "." in name:
            # the parent package is imported first
            self.load(name.rpartition(".")[0])
            if key in _mods:
                return _mods[key]
        if path is None:
            m = Opaque("module " + name, callable_=False)
            m.module = True
            _mods[key] = m
            return m
        m = Module(name, path)
        m.pkg = name if pkg else name.rpartition(".")[0]
        m.vars["__name__"] = name
        _mods[key] = m
        save = C()
        core.set_ctx(None)
        try:
            from . import driver

            c = core.Ctx(driver.NullUnit(), ())
            core.set_ctx(c)
            fr = Frame(None, None, m)
            fr.vars = m.vars
            for s in parse(path).body:
                try:
                    self.stmt(s, fr)
                except (PyRaise, Unsupported) as e:
                    # names bound by a module statement outside the subset are unknown
                    names = assigned_names([s])
                    for n in names:
                        o = Opaque("%s.%s" % (name, n))
                        o.unknown = True
                        m.vars[n] = o
                    m.failed = getattr(m, "failed", []) + ["%s:%d %s" % (path, s.lineno, e)]
        finally:
            core.set_ctx(save)
        if "." in name:
            self.load(name.rpartition(".")[0]).vars[name.rpartition(".")[2]] = m
        return m

    def imp_from(self, node, mod):
        base = node.module or ""
        if node.level:
            parts = mod.pkg.split(".")
            parts = parts[: len(parts) - (node.level - 1)]
            base = ".".join(parts + ([node.module] if node.module else []))
        m = self.load(base)
        out = {}
        for a in node.names:
            if a.name == "*":
                names = m.vars.get("__all__") or [n for n in m.vars if not n.startswith("_")]
                for n in names:
                    out[n] = m.vars[n]
                continue
            if isinstance(m, Module) and a.name not in m.vars:
                p, _ = self.modpath(base + "." + a.name)
                if p is not None:
                    out[a.asname or a.name] = self.load(base + "." + a.name)
                    continue
                raise PyRaise("ImportError", a.name)
            if isinstance(m, Opaque):
                v = Opaque("%s.%s" % (m.name, a.name))
                v.unknown = True
            else:
                if a.name not in m.attrs:
                    v = Opaque("%s.%s" % (base, a.name))
                    v.unknown = True
                else:
                    v = m.attrs[a.name]
            out[a.asname or a.name] = v
        return out

    # -------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        c = C()
        c.line = (fr.mod.path, s.lineno)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                fr.set(a.asname, m)
            else:
                fr.set(a.name.split(".")[0], self.load(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        if s.module == "__future__":
            return
        for k, v in self.imp_from(s, fr.mod).items():
            fr.set(k, v)

    def s_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr, s.name)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), [f], {})
        fr.set(s.name, f)

    def mkfunc(self, node, fr, name):
        defaults = [self.ev(d, fr) for d in node.args.defaults]
        kwd = [self.ev(d, fr) if d is not None else None for d in node.args.kw_defaults]
        parent = fr if fr.func is not None else None
        return Func(node, parent, fr.mod, name, defaults, kwd)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        f2 = Frame(fr.func, fr.parent, fr.mod)
        f2.isclass = True
        self.classframe = f2
        for st in s.body:
            if isinstance(st, ast.FunctionDef):
                g = Func(st, None, fr.mod, st.name, [self.ev(d, fr) for d in st.args.defaults], [])
                for d in reversed(st.decorator_list):
                    g = self.call(self.ev(d, fr), [g], {})
                f2.vars[st.name] = g
            else:
                self.stmt(st, f2)
        fr.set(s.name, Cls(s.name, bases, f2.vars, fr.mod))

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    raise PyRaise("ValueError", "not enough values to unpack")
                parts = list(xs[:i]) + [list(xs[i: len(xs) - after])] + list(xs[len(xs) - after:])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(xs) != len(t.elts):
                raise PyRaise("ValueError", "wrong number of values to unpack")
            for e, x in zip(t.elts, xs):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.index(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n=None, star=False):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Obj):
            return list(v.data)
        if isinstance(v, ListLike):
            v = v.arr
        if isinstance(v, Arr):
            d = v.shape[0]
            if not isinstance(d, int):
                if n is None or star:
                    raise Unsupported("unpacking of symbolic length")
                npm.need(eq(lift(d), num(n)), "number of values to unpack")
                d = n
            return [npm.getitem(v, i) for i in range(d)]
        if isinstance(v, SymSeq):
            if n is None or star:
                raise Unsupported("unpacking of symbolic length")
            npm.need(eq(lift(v.n), num(n)), "number of values to unpack")
            return [v.get(i) for i in range(n)]
        if isinstance(v, range):
            return list(v)
        if isinstance(v, (Zip, Enum)):
            k, f = self.iterate(v)
            if isinstance(k, int):
                return [f(num(i)) for i in range(k)]
        if isinstance(v, GenExp):
            return self.unpack(self.comp(v.node, v.frame), n, star)
        if isinstance(v, Opaque):
            if getattr(v, "items_", None) is not None:
                return list(v.items_)
            raise Unsupported("unpacking of %s" % v.name)
        if v is None or isinstance(v, (int, float)):
            raise PyRaise("TypeError", "cannot unpack")
        raise Unsupported("unpacking of %s" % type(v).__name__)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            v = self.ev(s.value, fr)
            r = self.aug(op, cur, v)
            u = C().unit
            if u.havoc and isinstance(r, Arr) and r.dtype == "f" and r.nd >= 1 and r.full() and u.forgets(r.buf.body):
                r.buf.set(npm.freshvec("any", r.nd))
            fr.set(t.id, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            v = self.ev(s.value, fr)
            r = self.aug(op, cur, v)
            if isinstance(o, Arr) and isinstance(r, Arr) and isinstance(cur, Arr) and r is cur and r.buf is o.buf:
                return
            self.setitem(o, ix, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.aug(op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def aug(self, op, cur, v):
        if isinstance(cur, Arr):
            return npm.inplace(op, cur, v)
        if isinstance(cur, list) and op == "Add" and isinstance(v, (list, tuple)):
            self.mut(cur)
            cur.extend(v)
            return cur
        ser = C().nser
        return self.forget(self.binop(op, cur, v), ser)

    def mut(self, o):
        C().wlog.append(("obj", id(o)))

    def s_If(self, s, fr):
        t = self.truthterm(self.ev(s.test, fr))
        if not isinstance(t, T):
            self.block(s.body if t else s.orelse, fr)
            return
        c = C()
        if c.local is None and not c.nosplit and self.mergeable(s):
            if c.entails(t):
                return self.block(s.body, fr)
            if c.entails(not_(t)):
                return self.block(s.orelse, fr)
            keep = self.keep
            self.keep = (fr.ser, self.outside(s, fr))
            try:
                self.merged(lambda: self.block(s.body if c.branch(t) else s.orelse, fr))
                return
            except MergeFail:
                pass
            finally:
                self.keep = keep
        self.block(s.body if c.branch(t) else s.orelse, fr)

    keep = None

    def outside(self, s, fr):
        """Names the function reads outside statement s."""
        root = fr.func.node if fr.func is not None else None
        if root is None:
            return ()
        memo = self.__dict__.setdefault("_outside", {})
        r = memo.get(id(s))
        if r is None:
            inside = {id(x) for x in ast.walk(s)}
            r = memo[id(s)] = (s, {x.id for x in ast.walk(root) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and
                                   id(x) not in inside})
        return r[1]

    def mergeable(self, s):
        for n in walk_no_func(s):
            if isinstance(n, (ast.For, ast.While, ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Try, ast.With,
                              ast.FunctionDef, ast.Import, ast.ImportFrom)):
                return False
        return True

    def s_While(self, s, fr):
        from . import loops

        loops.run_while(self, s, fr)

    def s_For(self, s, fr):
        from . import loops

        loops.run_for(self, s, fr)

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Raise(self, s, fr):
        if s.exc is None:
            raise Unsupported("bare raise")
        e = s.exc
        if isinstance(e, ast.Call):
            k = self.ev(e.func, fr)
        else:
            k = self.ev(e, fr)
        raise PyRaise(getattr(k, "name", str(k)), "raise", s)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise PyRaise("AssertionError", "", s)

    def s_Try(self, s, fr):
        try:
            self.block(s.body, fr)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    names = None
                else:
                    ts = self.ev(h.type, fr)
                    names = [x.name for x in (ts if isinstance(ts, tuple) else (ts,))]
                if names is None or any(exc_is(e.kind, n) for n in names):
                    if h.name:
                        fr.set(h.name, Opaque("exception"))
                    self.block(h.body, fr)
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody, fr)
                raise
        except (_Return, _Break, _Continue):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.orelse, fr)
        if s.finalbody:
            self.block(s.finalbody, fr)

    def s_With(self, s, fr):
        for it in s.items:
            v = self.ev(it.context_expr, fr)
            if not getattr(v, "context", False):
                raise Unsupported("context manager")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(s.body, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.delitem(o, self.index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Global(self, s, fr):
        fr.globals.update(s.names)

    # -------------------------------------------------------------- truth
    def truthterm(self, v):
        """Python bool or B term."""
        if isinstance(v, T):
            if v.sort == "B":
                return unlift(v)
            if v.sort in "IR":
                return unlift(not_(eq(v, num(0, v.sort))))
            raise Unsupported("truth value of a vector")
        if v is POISON:
            raise Unsupported("value lost at a loop head")
        if isinstance(v, Arr):
            if all(isinstance(d, int) and d == 1 for d in v.shape):
                return self.truthterm(unlift(v.el((ZERO,) * v.nd)))
            raise PyRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (SymSeq,)):
            return unlift(lt(ZERO, lift(v.n)))
        if isinstance(v, ListLike):
            return unlift(lt(ZERO, lift(v.arr.shape[0])))
        if isinstance(v, Obj):
            return bool(v.data) if v.cls.isdict() else True
        if isinstance(v, Opaque):
            if hasattr(v, "truth"):
                return v.truth
            return True
        if isinstance(v, StrVal):
            raise Unsupported("truth of a string")
        if isinstance(v, (Func, Bi, Cls, Module)):
            return True
        return bool(v)

    def truth(self, v):
        t = self.truthterm(v)
        if isinstance(t, T):
            return C().branch(t)
        return t

    # -------------------------------------------------------------- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def bound(self, n, m):
        c = C()
        if not c.entails(m.cond) and not c.branch(m.cond):
            if m.lost:
                raise Unsupported("variable '%s' lost at a loop head" % n)
            raise PyRaise("UnboundLocalError", n)
        return m.value

    def name(self, n, fr):
        f = fr
        if n in f.vars:
            v = f.vars[n]
            if v is POISON:
                raise Unsupported("variable '%s' lost at a loop head" % n)
            if type(v) is Maybe:
                return self.bound(n, v)
            return v
        if f.func is not None and not isinstance(f.func.node, ast.Lambda) and n in locals_of(f.func.node) and \
                n not in f.nonlocals and n not in f.globals and not getattr(f, "comp", False):
            raise PyRaise("UnboundLocalError", n)
        f = f.parent
        while f is not None:
            if n in f.vars:
                v = f.vars[n]
                if v is POISON:
                    raise Unsupported("variable '%s' lost at a loop head" % n)
                if type(v) is Maybe:
                    return self.bound(n, v)
                return v
            f = f.parent
        if n in fr.mod.vars:
            return fr.mod.vars[n]
        if n in BUILTINS:
            return BUILTINS[n]
        raise PyRaise("NameError", n)

    def e_Name(self, e, fr):
        return self.name(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def elts(self, xs, fr):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Set(self, e, fr):
        return frozenset_like([self.ev(x, fr) for x in e.elts])

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                s = self.ev(v, fr)
                d.update(s.data if isinstance(s, Obj) else s)
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, (str, int)) and v.format_spec is None and v.conversion == -1:
                    parts.append(str(x))
                else:
                    return StrVal()
        return "".join(parts)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        fr.set(e.target.id, v)
        return v

    def e_IfExp(self, e, fr):
        t = self.truthterm(self.ev(e.test, fr))
        if not isinstance(t, T):
            return self.ev(e.body if t else e.orelse, fr)
        c = C()
        if c.local is None and not c.nosplit:
            if c.entails(t):
                return self.ev(e.body, fr)
            if c.entails(not_(t)):
                return self.ev(e.orelse, fr)
            try:
                return self.merged(lambda: self.ev(e.body if c.branch(t) else e.orelse, fr))
            except MergeFail:
                pass
        return self.ev(e.body if c.branch(t) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truthterm(v)
            if isinstance(t, T):
                rest = e.values[i + 1:]
                if isinstance(v, T) and v.sort == "B" and all(self.pure(y) for y in rest):
                    # evaluate the rest under the guard; combine without forking
                    acc = v
                    c = C()
                    saved = list(c.pc)
                    ok = True
                    try:
                        for y in rest:
                            c.assume(acc if isand else not_(acc))
                            w = self.ev(y, fr)
                            if isinstance(w, bool):
                                w = lift(w)
                            if not (isinstance(w, T) and w.sort == "B"):
                                ok = False
                                break
                            acc = and_(acc, w) if isand else or_(acc, w)
                    except PathEnd:
                        ok = False
                    finally:
                        c.pc = saved
                    if ok:
                        return unlift(acc)
                b = C().branch(t)
            else:
                b = t
            if b != isand:
                return v if not isinstance(t, T) or not (isinstance(v, T) and v.sort == "B") else b
        return v

    def pure(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr in ("any", "all", "sum", "max", "min", "norm", "mean", "append",
                                                               "abs", "sqrt", "log", "exp", "copy", "isnan", "isfinite",
                                                               "all", "log10", "dot", "maximum", "minimum"):
                    continue
                if isinstance(f, ast.Name) and f.id in ("len", "min", "max", "abs", "hasattr", "callable", "isinstance", "int",
                                                        "float", "bool"):
                    continue
                return False
            if isinstance(n, (ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
                return False
        return True

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truthterm(v)
            return unlift(not_(t)) if isinstance(t, T) else (not t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return npm.emap(lambda x: neg(npm.numeric(x)), self.numarg(v))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, int):
                return ~v

            def inv(x):
                if x.sort != "B":
                    raise Unsupported("bitwise not")
                return not_(x)

            return npm.emap(inv, self.numarg(v), dtype="b")

    def numarg(self, v):
        if is_scalar(v) or isinstance(v, Arr):
            return v
        if v is POISON:
            raise Unsupported("value lost at a loop head")
        if isinstance(v, (SymSeq, ListLike)):
            return v
        if v is None or isinstance(v, (str, dict, list, tuple)):
            raise PyRaise("TypeError", "unsupported operand")
        raise Unsupported("operand %s" % type(v).__name__)

    def e_BinOp(self, e, fr):
        ser = C().nser
        return self.forget(self.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr)), ser)

    def forget(self, v, ser):
        """A large numerical value becomes an arbitrary one when the unit allows it (over-approximation)."""
        u = C().unit
        if not u.havoc:
            return v
        if isinstance(v, T):
            if v.sort == "R" and u.forgets(v):
                return C().fresh("any", "R")
        elif isinstance(v, Arr) and v.buf.ser > ser and v.dtype == "f" and v.nd >= 1 and v.full() and u.forgets(v.buf.body):
            return Arr.new(v.shape, "f", npm.freshvec("any", v.nd))
        elif type(v) is tuple:
            return tuple(self.forget(x, ser) for x in v)
        return v

    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, T) and not isinstance(b, T):
            return pybin(op, a, b)
        if isinstance(a, str) or isinstance(b, str):
            if op == "Add" and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == "Mod":
                return StrVal()
            if isinstance(a, StrVal) or isinstance(b, StrVal):
                return StrVal()
            raise PyRaise("TypeError", "str operand")
        if isinstance(a, StrVal) or isinstance(b, StrVal):
            return StrVal()
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and op == "Add":
            if type(a) is not type(b):
                raise PyRaise("TypeError", "concatenation")
            return a + b
        if isinstance(a, (list, tuple)) and op == "Mult" and isinstance(b, int):
            return a * b
        if isinstance(a, (list, tuple)) and op == "Mult" and isinstance(b, T) and b.sort == "I" and len(a) == 1:
            return SymSeq(unlift(b), C().freshsym("c", "I"), a[0])
        la = isinstance(a, (list, tuple, ListLike, SymSeq))
        lb = isinstance(b, (list, tuple, ListLike, SymSeq))
        if (la and not isinstance(b, Arr)) or (lb and not isinstance(a, Arr)):
            if op in ("Mult", "Add") and (la and lb or op == "Mult"):
                raise Unsupported("list arithmetic")
            raise PyRaise("TypeError", "unsupported operand type(s)")
        if a is None or b is None:
            raise PyRaise("TypeError", "unsupported operand type(s): NoneType")
        if op == "MatMult":
            return npm.dot(a, b)
        for x in (a, b):
            if not (is_scalar(x) or isinstance(x, Arr) or isinstance(x, (list, tuple, ListLike, SymSeq))):
                if x is POISON:
                    raise Unsupported("value lost at a loop head")
                raise Unsupported("operand %s" % type(x).__name__)
        return npm.binop(op, a, b)

    def e_Compare(self, e, fr):
        v = self.compares(e, fr)
        u = C().unit
        if u.havoc and isinstance(v, T) and v.sort == "B" and u.forgetsbool(v):
            return C().fresh("any", "B")
        return v

    def compares(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            left = right
            if i == len(e.ops) - 1:
                if res is None:
                    return v
                if isinstance(v, bool) and isinstance(res, bool):
                    return res and v
                return unlift(and_(self.bterm(res), self.bterm(v)))
            t = self.truthterm(v)
            if t is False:
                return False
            res = t if res is None else (unlift(and_(self.bterm(res), self.bterm(t))))
        return res

    def bterm(self, v):
        t = self.truthterm(v)
        return t if isinstance(t, T) else lift(t)

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_same(a, b)
            if isinstance(r, T):
                return r if op == "Is" else unlift(not_(r))
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            if isinstance(r, T):
                return unlift(not_(r)) if op == "NotIn" else r
            return r if op == "In" else not r
        if op in ("Eq", "NotEq"):
            r = self.pyeq(a, b)
            if r is not None:
                return r if op == "Eq" else not r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return pycmp(op, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return pycmp(op, a, b)
        if a is None or b is None or isinstance(a, (str, StrVal)) or isinstance(b, (str, StrVal)):
            raise PyRaise("TypeError", "not supported between instances")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            raise Unsupported("list comparison")
        if isinstance(a, ListLike) and not isinstance(b, Arr) or isinstance(b, ListLike) and not isinstance(a, Arr):
            raise PyRaise("TypeError", "not supported between instances of 'list'")
        for x in (a, b):
            if not (is_scalar(x) or isinstance(x, (Arr, list, tuple, SymSeq, ListLike))):
                raise Unsupported("comparison of %s" % type(x).__name__)
        fn = npm.CMP[op]
        return npm.emap(fn, a, b, dtype="b") if not (is_scalar(a) and is_scalar(b)) else unlift(fn(lift(a), lift(b)))

    def is_same(self, a, b):
        if a is b:
            return True
        if a is POISON or b is POISON:
            raise Unsupported("value lost at a loop head")
        if a is None or b is None:
            o = b if a is None else a
            if isinstance(o, Opaque) and hasattr(o, "isnone"):
                return o.isnone
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, T) or isinstance(b, T):
                # identity with a Python bool: numpy and symbolic booleans are not the singletons
                raise Unsupported("identity of booleans")
            return a is b
        if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)):
            return a is b or (type(a) is type(b) and a == b)
        return False

    def pyeq(self, a, b):
        """Equality decided without terms, or None."""
        if isinstance(a, (str, StrVal)) or isinstance(b, (str, StrVal)):
            if isinstance(a, StrVal) or isinstance(b, StrVal):
                raise Unsupported("string comparison")
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Unsupported("array and string")
            return a == b if isinstance(a, str) and isinstance(b, str) else False
        if a is None or b is None:
            if isinstance(a, Arr) or isinstance(b, Arr):
                raise Unsupported("array == None")
            return a is b
        if isinstance(a, (Opaque, Func, Bi, Cls, Obj, Module)) or isinstance(b, (Opaque, Func, Bi, Cls, Obj, Module)):
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if type(a) is not type(b) or len(a) != len(b):
                return False
            rs = [self.compare("Eq", x, y) for x, y in zip(a, b)]
            if all(isinstance(r, bool) for r in rs):
                return all(rs)
            raise Unsupported("symbolic tuple comparison")
        if isinstance(a, (list, tuple)) and is_scalar(b) or isinstance(b, (list, tuple)) and is_scalar(a):
            return False
        if isinstance(a, dict) and isinstance(b, dict):
            raise Unsupported("dict comparison")
        return None

    def contains(self, c, x):
        if isinstance(c, (set, frozenset, FS)):
            items = list(c)
        elif isinstance(c, (list, tuple)):
            items = list(c)
        elif isinstance(c, dict):
            items = list(c)
        elif isinstance(c, Obj) and c.cls.isdict():
            items = list(c.data)
        elif isinstance(c, range):
            items = None
            if isinstance(x, int):
                return x in c
            return unlift(and_(le(num(c.start), x), lt(x, num(c.stop))))
        elif isinstance(c, str) and isinstance(x, str):
            return x in c
        elif isinstance(c, Opaque) and hasattr(c, "contains"):
            return c.contains(x)
        else:
            raise Unsupported("in")
        acc = FALSE
        if isinstance(x, (Arr, list)) and isinstance(c, (set, frozenset, FS, dict)):
            raise PyRaise("TypeError", "unhashable type")
        for y in items:
            if (isinstance(x, Opaque) and hasattr(x, "eq")):
                r = x.eq(y)
            else:
                r = self.compare("Eq", x, y)
            if isinstance(r, T):
                acc = or_(acc, r)
            elif r:
                return True
        return unlift(acc)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            return Slice(*[self.ev(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def e_Slice(self, e, fr):
        return self.index(e, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.index(e.slice, fr))

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, Opaque) and getattr(v, "star", False):
                    args.append(StarArg(v))
                else:
                    args.extend(self.unpack(v))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Obj):
                    v = v.data
                if isinstance(v, Opaque) and getattr(v, "star", False):
                    kwargs["**"] = v
                    continue
                if not isinstance(v, dict):
                    raise Unsupported("** argument")
                for kk in v:
                    if kk in kwargs:
                        raise PyRaise("TypeError", "multiple values for keyword argument")
                kwargs.update(v)
            else:
                if k.arg in kwargs:
                    raise PyRaise("TypeError", "multiple values for keyword argument")
                kwargs[k.arg] = v
        C().line = (fr.mod.path, e.lineno)
        C().callnode = e
        return self.call(f, args, kwargs)

    # -------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if isinstance(f, Func):
            return self.callfunc(f, args, kwargs)
        if isinstance(f, Bi):
            ser = C().nser
            return self.forget(f.fn(self, args, kwargs), ser)
        if isinstance(f, Opaque):
            if getattr(f, "unknown", False):
                raise Unsupported("call of " + f.name)
            if f.call is None:
                raise PyRaise("TypeError", "'%s' object is not callable" % f.name)
            return f.call(self, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Delayed):
            return DelayedCall(f.fn, args, kwargs)
        if isinstance(f, Obj):
            m = f.cls.lookup("__call__")
            if m is not None:
                return self.call(m, [f] + args, kwargs)
        if f is POISON:
            raise Unsupported("value lost at a loop head")
        if f is None or is_scalar(f) or isinstance(f, (str, list, tuple, dict, Arr)):
            raise PyRaise("TypeError", "object is not callable")
        raise Unsupported("call of %s" % type(f).__name__)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        star = [x for x in args if isinstance(x, StarArg)]
        if star:
            if a.vararg is None:
                raise Unsupported("star argument of symbolic length")
        if len(args) > len(names):
            if a.vararg is None:
                raise PyRaise("TypeError", "too many positional arguments")
            vals[a.vararg.arg] = StarTuple.make(args[len(names):])
            pos = args[: len(names)]
        else:
            pos = args
            if a.vararg is not None:
                vals[a.vararg.arg] = ()
        if any(isinstance(x, StarArg) for x in pos):
            raise Unsupported("star argument of symbolic length")
        for n, v in zip(names, pos):
            vals[n] = v
        kwn = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k == "**":
                extra[k] = v
            elif k in names or k in kwn:
                if k in vals:
                    raise PyRaise("TypeError", "multiple values for argument '%s'" % k)
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise("TypeError", "unexpected keyword argument '%s'" % k)
        if a.kwarg is not None:
            vals[a.kwarg.arg] = extra
        elif extra:
            raise Unsupported("** argument")
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    raise PyRaise("TypeError", "missing argument '%s'" % n)
                vals[n] = f.defaults[j]
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg not in vals:
                vals[x.arg] = d
        return vals

    def callfunc(self, f, args, kwargs):
        c = C()
        h = c.unit.contract(f)
        if h is not None:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        vals = self.bind(f, args, kwargs)
        if len(c.frames) > 40:
            raise PyRaise("RecursionError", f.name)
        c.unit.functions.add((f.mod.name, f.name, f.node.lineno))
        fr = Frame(f, f.parent, f.mod)
        fr.vars.update(vals)
        saved_line, saved_key = c.line, c.callkey
        c.callkey = c.callkey + [(id(f.node), getattr(c, "callnode", None) and c.callnode.lineno)]
        c.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            if c.local is None and not c.nosplit and self.call_mergeable(f):
                try:
                    return self.merged(lambda: self.runbody(f, fr, vals))
                except MergeFail:
                    fr.vars.clear()
                    fr.vars.update(vals)
            return self.runbody(f, fr, vals)
        finally:
            c.frames.pop()
            c.line, c.callkey = saved_line, saved_key

    def runbody(self, f, fr, vals):
        try:
            self.block(f.node.body, fr)
        except _Return as r:
            return r.value
        return None

    def call_mergeable(self, f):
        """Function without loops whose branches return."""
        n = f.node
        k = getattr(n, "_cm", None)
        if k is None:
            k = has_node(n.body, (ast.If,)) and not has_node(n.body, (ast.For, ast.While, ast.Raise, ast.With, ast.Try)) and any(
                isinstance(x, ast.If) and has_node([x], (ast.Return,)) for s in n.body for x in walk_no_func(s))
            if any(isinstance(x, (ast.FunctionDef,)) for x in n.body):
                k = False
            n._cm = k
        return k

    def instantiate(self, cls, args, kwargs):
        o = Obj(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
            return o
        if cls.isdict():
            if "**" in kwargs:
                raise Unsupported("** argument")
            o.data.update(mkdict(args, kwargs))
            C().unit.on_newobj(o)
        elif args or kwargs:
            raise PyRaise("TypeError", "object takes no arguments")
        return o

    # -------------------------------------------------------------- attributes
    def getattr(self, o, n):
        if isinstance(o, Arr):
            return self.arrattr(o, n)
        if isinstance(o, Module):
            if n in o.vars:
                return o.vars[n]
            p, _ = self.modpath(o.name + "." + n)
            if p is not None:
                return self.load(o.name + "." + n)
            raise PyRaise("AttributeError", n)
        if isinstance(o, (Ext,)):
            if n in o.attrs:
                return o.attrs[n]
            raise Unsupported("%s.%s" % (o.name, n))
        if isinstance(o, Func):
            if n in o.attrs:
                v = o.attrs[n]
                if v is POISON:
                    raise Unsupported("value lost at a loop head")
                return v
            if n == "__name__":
                return o.name
            if n == "__doc__":
                return StrVal()
            raise PyRaise("AttributeError", n)
        if isinstance(o, Obj):
            return self.objattr(o, n)
        if isinstance(o, Bi):
            if n in o.attrs:
                return o.attrs[n]
            if o is PYDICT:
                return Bi("dict." + n, lambda I, a, k: I.call(I.dictmethod(a[0], n), list(a[1:]), k))
            if n == "__name__":
                return o.name
            raise Unsupported("%s.%s" % (o.name, n))
        if isinstance(o, Cls):
            if n == "__name__":
                return o.name
            v = o.lookup(n)
            if v is None:
                raise PyRaise("AttributeError", n)
            return v
        if isinstance(o, dict):
            return self.dictmethod(o, n)
        if isinstance(o, list):
            return self.listmethod(o, n)
        if isinstance(o, str):
            if hasattr(str, n):
                def f(I, a, k):
                    if all(isinstance(x, (str, int)) for x in a):
                        return getattr(o, n)(*a, **k)
                    if n == "join":
                        xs = I.unpack(a[0])
                        if all(isinstance(x, str) for x in xs):
                            return o.join(xs)
                        return StrVal()
                    if n == "format":
                        return StrVal()
                    raise Unsupported("str." + n)

                return Bi("str." + n, f)
            raise PyRaise("AttributeError", n)
        if isinstance(o, StrVal):
            return Bi("str." + n, lambda I, a, k: StrVal())
        if isinstance(o, Opaque):
            if getattr(o, "unknown", False) or getattr(o, "module", False):
                x = Opaque(o.name + "." + n)
                x.unknown = True
                return x
            if n in o.attrs:
                return o.attrs[n]
            raise Unsupported("%s.%s" % (o.name, n))
        if isinstance(o, T) or isinstance(o, (bool, int, float)):
            return self.scalarattr(o, n)
        if isinstance(o, ListLike):
            raise PyRaise("AttributeError", "'list' object has no attribute '%s'" % n)
        if o is None or isinstance(o, tuple):
            raise PyRaise("AttributeError", n)
        if o is POISON:
            raise Unsupported("value lost at a loop head")
        if getattr(o, "attrs", None) and n in o.attrs:
            return o.attrs[n]
        raise Unsupported("attribute %s of %s" % (n, type(o).__name__))

    def scalarattr(self, o, n):
        if n == "copy":
            if isinstance(o, (bool, int, float)) and not isinstance(o, T) and C().unit.strict_scalars:
                pass
            return Bi("copy", lambda I, a, k: o)
        if n == "ndim":
            return 0
        if n == "shape":
            return ()
        if n == "size":
            return 1
        if n == "item":
            return Bi("item", lambda I, a, k: o)
        if n == "astype":
            return Bi("astype", lambda I, a, k: unlift(cast(lift(o), npm.dtype_of(a[0]))))
        if n in ("sum", "min", "max", "mean", "any", "all"):
            return Bi(n, lambda I, a, k: npm.reduce(n, o))
        if n == "real":
            return o
        if n == "is_integer" and not isinstance(o, T):
            return Bi(n, lambda I, a, k: float(o).is_integer())
        if n == "dtype":
            return Opaque("dtype", np_dtype={"I": "int", "R": "float", "B": "bool"}[lift(o).sort])
        raise Unsupported("scalar attribute " + n)

    def objattr(self, o, n):
        if o.cls.lookup("__getattribute__") is not None:
            raise Unsupported("__getattribute__")
        v = o.cls.lookup(n)
        if v is not None:
            if isinstance(v, Func):
                return Bi(n, lambda I, a, k: I.call(v, [o] + list(a), k))
            if isinstance(v, Bi) and v.name.startswith("dict."):
                return Bi(n, lambda I, a, k: I.call(v, [o] + list(a), k))
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            return v
        if n in o.attrs:
            return o.attrs[n]
        if o.cls.isdict() and n in DICTMETHODS:
            return self.dictmethod(o, n)
        if n == "__class__":
            return o.cls
        if n == "__dict__":
            return o.attrs
        g = o.cls.lookup("__getattr__")
        if g is not None:
            return self.call(g, [o, n], {})
        raise PyRaise("AttributeError", n)

    def setattr(self, o, n, v):
        if isinstance(o, Func):
            C().wlog.append(("attr", o.ser, n))
            o.attrs[n] = v
            return
        if isinstance(o, Obj):
            s = o.cls.lookup("__setattr__")
            if s is not None:
                self.call(s, [o, n, v], {})
                return
            C().wlog.append(("obj", o.ser))
            o.attrs[n] = v
            return
        if isinstance(o, Arr) and n == "shape":
            raise Unsupported("shape assignment")
        if isinstance(o, Opaque):
            C().unit.on_setattr(o, n, v)
            o.attrs[n] = v
            return
        raise Unsupported("attribute assignment")

    def delattr(self, o, n):
        if isinstance(o, Obj):
            s = o.cls.lookup("__delattr__")
            if s is not None:
                self.call(s, [o, n], {})
                return
            if n in o.attrs:
                del o.attrs[n]
                return
            raise PyRaise("AttributeError", n)
        raise Unsupported("attribute deletion")

    # -------------------------------------------------------------- items
    def getitem(self, o, ix):
        if isinstance(o, Arr):
            return npm.getitem(o, self.fixidx(ix))
        if isinstance(o, (list, tuple, str, range)):
            if isinstance(ix, Slice):
                p = [x for x in (ix.start, ix.stop, ix.step)]
                if all(x is None or isinstance(x, int) for x in p):
                    return o[slice(*p)]
                raise Unsupported("symbolic slice of a list")
            if isinstance(ix, T):
                ix = self.pick(ix, len(o))
            if isinstance(ix, bool) or not isinstance(ix, int):
                if isinstance(ix, float) or isinstance(ix, (tuple, str)):
                    raise PyRaise("TypeError", "list indices must be integers")
                raise Unsupported("list index")
            if not -len(o) <= ix < len(o):
                raise PyRaise("IndexError", "index out of range")
            return o[ix]
        if isinstance(o, dict):
            return self.dictget(o, ix)
        if isinstance(o, Obj):
            g = o.cls.lookup("__getitem__")
            if g is not None:
                return self.call(g, [o, ix], {})
            if o.cls.isdict():
                return self.dictget(o.data, ix)
        if isinstance(o, SymSeq):
            if isinstance(ix, Slice):
                raise Unsupported("slice of a list of symbolic length")
            return o.get(npm.norm_index(ix, o.n))
        if isinstance(o, ListLike):
            if isinstance(ix, tuple):
                raise PyRaise("TypeError", "list indices must be integers or slices, not tuple")
            r = npm.getitem(o.arr, self.fixidx(ix))
            return ListLike(r) if isinstance(r, Arr) else r
        if isinstance(o, SymRange):
            if npm.isint(ix):
                return unlift(add(lift(o.start), mul(lift(ix), lift(o.step))))
        if isinstance(o, Opaque):
            if hasattr(o, "getitem"):
                return o.getitem(ix)
            raise Unsupported("item of " + o.name)
        if o is None or is_scalar(o):
            if isinstance(o, T) and ix == ():
                return o
            raise PyRaise("TypeError", "object is not subscriptable")
        raise Unsupported("item of %s" % type(o).__name__)

    def pick(self, t, n):
        """Concrete value of an index term (by case split)."""
        for i in range(-n, n):
            if C().branch(eq(t, num(i))):
                return i
        raise PyRaise("IndexError", "index out of range")

    def fixidx(self, ix):
        if isinstance(ix, tuple):
            return tuple(self.fixidx(x) for x in ix)
        if isinstance(ix, range):
            return asarr(ix)
        if isinstance(ix, SymRange):
            return asarr(ix)
        return ix

    def dictget(self, d, k):
        if isinstance(k, T):
            if k.sort == "I":
                # finite map with integer keys
                ks = [x for x in d if isinstance(x, int)]
                vals = [d[x] for x in ks]
                npm.need(or_(*[eq(k, num(x)) for x in ks]), "key in dictionary")
                o = Opaque("entry of a dictionary", callable_=False)
                o.dictentry = (d, k)
                return o
            raise Unsupported("symbolic key")
        if isinstance(k, Opaque) and hasattr(k, "eq"):
            for x in d:
                if self.truth(self.keyeq(k, x)):
                    return d[x]
            raise PyRaise("KeyError", k.name)
        if isinstance(k, (list, dict, Arr)):
            raise PyRaise("TypeError", "unhashable type")
        for x in d:
            if isinstance(x, Opaque) and hasattr(x, "eq"):
                if self.truth(self.keyeq(x, k)):
                    return d[x]
        if k in d:
            return d[k]
        raise PyRaise("KeyError", str(k))

    def keyeq(self, k, x):
        if k is x:
            return True
        return k.eq(x)

    def setitem(self, o, ix, v):
        if isinstance(o, Arr):
            npm.setitem(o, self.fixidx(ix), v)
            return
        if isinstance(o, Obj):
            s = o.cls.lookup("__setitem__")
            if s is not None:
                self.call(s, [o, ix, v], {})
                return
            C().wlog.append(("obj", o.ser))
            C().unit.on_objset(o, ix, v)
            self.dictset(o.data, ix, v)
            return
        if isinstance(o, dict):
            self.mut(o)
            self.dictset(o, ix, v)
            return
        if isinstance(o, list):
            if isinstance(ix, int):
                self.mut(o)
                if not -len(o) <= ix < len(o):
                    raise PyRaise("IndexError", "list assignment index out of range")
                o[ix] = v
                return
        if isinstance(o, ListLike):
            C().unit.on_write(o.arr.buf)
            raise Unsupported("store in a user list")
        if isinstance(o, tuple) or o is None or is_scalar(o):
            raise PyRaise("TypeError", "object does not support item assignment")
        raise Unsupported("item assignment on %s" % type(o).__name__)

    def dictset(self, d, k, v):
        if isinstance(k, Opaque) and hasattr(k, "eq") or any(isinstance(x, Opaque) and hasattr(x, "eq") for x in d):
            for x in list(d):
                if x is k or (isinstance(x, Opaque) and hasattr(x, "eq") and self.truth(self.keyeq(x, k))) or (
                        isinstance(k, Opaque) and hasattr(k, "eq") and self.truth(self.keyeq(k, x))):
                    d[x] = v
                    return
        d[k] = v

    def delitem(self, o, k):
        d = o.data if isinstance(o, Obj) else o
        if isinstance(d, dict):
            if isinstance(o, Obj):
                C().wlog.append(("obj", o.ser))
            else:
                self.mut(o)
            for x in list(d):
                if x is k or (isinstance(k, str) and isinstance(x, str) and x == k) or (
                        isinstance(x, Opaque) and hasattr(x, "eq") and self.truth(self.keyeq(x, k))) or (
                        isinstance(k, Opaque) and hasattr(k, "eq") and self.truth(self.keyeq(k, x))):
                    del d[x]
                    return
            raise PyRaise("KeyError", str(k))
        raise Unsupported("item deletion")

    def dictmethod(self, o, n):
        d = o.data if isinstance(o, Obj) else o
        I0 = self

        def log():
            if isinstance(o, Obj):
                C().wlog.append(("obj", o.ser))
            else:
                self.mut(o)

        def f(I, a, k):
            if n == "update":
                log()
                new = mkdict(a, k)
                for kk, vv in new.items():
                    if isinstance(o, Obj):
                        C().unit.on_objset(o, kk, vv)
                    I0.dictset(d, kk, vv)
                return None
            if n == "get":
                try:
                    return I0.dictget(d, a[0])
                except PyRaise as e:
                    if e.kind == "KeyError":
                        return a[1] if len(a) > 1 else None
                    raise
            if n == "keys":
                return list(d)
            if n == "values":
                return list(d.values())
            if n == "items":
                return [(x, y) for x, y in d.items()]
            if n in ("setdefault",):
                log()
                if a[0] not in d:
                    d[a[0]] = a[1] if len(a) > 1 else None
                return d[a[0]]
            if n == "pop":
                log()
                try:
                    v = I0.dictget(d, a[0])
                except PyRaise as e:
                    if e.kind == "KeyError" and len(a) > 1:
                        return a[1]
                    raise
                I0.delitem(d, a[0])
                return v
            if n == "copy":
                return dict(d)
            if n == "__setitem__":
                log()
                if isinstance(o, Obj):
                    C().unit.on_objset(o, a[0], a[1])
                I0.dictset(d, a[0], a[1])
                return None
            if n == "__getitem__":
                return I0.dictget(d, a[0])
            if n == "__delitem__":
                I0.delitem(o, a[0])
                return None
            if n == "__contains__":
                return I0.contains(d, a[0])
            if n == "__len__":
                return len(d)
            raise Unsupported("dict." + n)

        if n not in DICTMETHODS:
            if isinstance(o, Obj):
                raise PyRaise("AttributeError", n)
            raise PyRaise("AttributeError", n)
        return Bi("dict." + n, f)

    def listmethod(self, o, n):
        def f(I, a, k):
            if n == "append":
                I.mut(o)
                o.append(a[0])
                return None
            if n == "extend":
                I.mut(o)
                o.extend(I.unpack(a[0]))
                return None
            if n == "copy":
                return list(o)
            if n == "index":
                for i, x in enumerate(o):
                    if I.truth(I.compare("Eq", x, a[0])):
                        return i
                raise PyRaise("ValueError", "not in list")
            if n == "sort":
                if all(isinstance(x, (str, int, float)) for x in o) and not k:
                    I.mut(o)
                    o.sort()
                    return None
            if n == "pop":
                I.mut(o)
                return o.pop(*a)
            raise Unsupported("list." + n)

        if not hasattr(list, n):
            raise PyRaise("AttributeError", n)
        return Bi("list." + n, f)

    def arrattr(self, a, n):
        if n == "shape":
            return tuple(a.shape)
        if n == "ndim":
            return a.nd
        if n == "size":
            r = ONE
            for d in a.shape:
                r = mul(r, dim(d))
            return unlift(r)
        if n == "T":
            return npm.transpose(a)
        if n == "dtype":
            return Opaque("dtype", np_dtype={"i": "int", "f": "float", "b": "bool"}[a.dtype])
        if n == "flat":
            raise Unsupported("flat")
        from .nplib import ARRMETHODS

        if n in ARRMETHODS:
            return Bi("ndarray." + n, lambda I, args, k: ARRMETHODS[n](I, a, args, k))
        if n in ("append", "extend", "index", "items", "keys", "update"):
            raise PyRaise("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % n)
        raise Unsupported("ndarray." + n)

    # -------------------------------------------------------------- iteration
    def iterate(self, v):
        """(length, element function on index terms)."""
        if isinstance(v, (list, tuple)):
            return len(v), lambda k: v[int(const_val(k))]
        if isinstance(v, range):
            return len(v), lambda k: v[int(const_val(k))]
        if isinstance(v, dict):
            return self.iterate(list(v))
        if isinstance(v, Obj) and v.cls.isdict():
            return self.iterate(list(v.data))
        if isinstance(v, (set, frozenset, FS)):
            return self.iterate(list(v))
        if isinstance(v, str):
            return self.iterate(list(v))
        if isinstance(v, Arr):
            return v.shape[0], lambda k: npm.getitem_nocheck(v, k)
        if isinstance(v, ListLike):
            return v.arr.shape[0], lambda k: self.wrapll(npm.getitem_nocheck(v.arr, k))
        if isinstance(v, SymSeq):
            return v.n, v.get
        if isinstance(v, SymRange):
            st = lift(v.step)
            if const_val(st) == 1:
                n = sub(lift(v.stop), lift(v.start))
                if not C().entails(le(ZERO, n)):
                    n = ite(le(ZERO, n), n, ZERO)
            else:
                raise Unsupported("range with a step")
            return unlift(n), lambda k: unlift(add(lift(v.start), k))
        if isinstance(v, Zip):
            its = [self.iterate(x) for x in v.its]
            n = its[0][0]
            for m, _ in its[1:]:
                if same_dim(n, m):
                    continue
                if isinstance(n, int) and isinstance(m, int):
                    n = min(n, m)
                elif C().entails(eq(lift(n), lift(m)), facts=True):
                    pass
                else:
                    n = unlift(tm.tmin(lift(n), lift(m)))
            return n, lambda k: tuple(f(k) for _, f in its)
        if isinstance(v, Enum):
            n, f = self.iterate(v.it)
            return n, lambda k: (unlift(add(lift(v.start), k)), f(k))
        if isinstance(v, GenExp):
            return self.iterate(self.comp(v.node, v.frame))
        if isinstance(v, Opaque) and getattr(v, "items_", None) is not None:
            return self.iterate(list(v.items_))
        if v is None or is_scalar(v):
            raise PyRaise("TypeError", "object is not iterable")
        if v is POISON:
            raise Unsupported("value lost at a loop head")
        raise Unsupported("iteration over %s" % type(v).__name__)

    def wrapll(self, x):
        return ListLike(x) if isinstance(x, Arr) else x

    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return GenExp(self, e, fr)

    def e_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda f2: (self.ev(e.key, f2), self.ev(e.value, f2)))
        if isinstance(r, SymSeq):
            raise Unsupported("dict comprehension of symbolic length")
        return dict(r)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr)
        if isinstance(r, SymSeq):
            raise Unsupported("set comprehension of symbolic length")
        return FS(r)

    def comp(self, e, fr, elt=None, post=None):
        elt = elt or (lambda f2: self.ev(e.elt, f2))
        post = post or (lambda x: x)
        f2 = Frame(fr.func, fr, fr.mod)
        f2.comp = True
        if len(e.generators) != 1:
            raise Unsupported("nested comprehension")
        g = e.generators[0]
        n, f = self.iterate(self.ev(g.iter, fr))
        if isinstance(n, int) and n <= 24:
            out = []
            for i in range(n):
                self.assign(g.target, f(num(i)), f2)
                if all(self.truth(self.ev(c, f2)) for c in g.ifs):
                    out.append(post(elt(f2)))
            return out
        if g.ifs:
            raise Unsupported("filtered comprehension of symbolic length")

        def body(k):
            self.assign(g.target, f(k), f2)
            return post(elt(f2))

        return self.symseq(n, body)

    def symseq(self, n, body):
        """[body(k) for k in range(n)] for a symbolic n."""
        c = C()
        k = c.freshsym("c", "I")
        c.binders.append(k)
        pc, w0 = list(c.pc), len(c.wlog)
        ev0, c.events = c.events, []
        ser0 = c.nser
        try:
            c.assume(and_(le(ZERO, k), lt(k, lift(n))))
            if c.local is None:
                c.nosplit, ns = 0, c.nosplit
                try:
                    try:
                        v = self.merged(lambda: body(k), single=True)
                    except MergeFail as ex:
                        raise Unsupported("comprehension body: %s" % ex)
                finally:
                    c.nosplit = ns
            else:
                # inside a merge: explore the element's own paths separately
                v = self.submerge(lambda: body(k))
        finally:
            evs, c.events = c.events, ev0
            c.binders.pop()
            c.pc = pc
        for w in c.wlog[w0:]:
            if w[0] == "buf" and w[1] <= ser0 or w[0] in ("attr",) or (w[0] == "obj"):
                raise Unsupported("side effect in a comprehension")
            if w[0] == "ghost":
                raise Unsupported("ghost update in a comprehension")
        c.unit.on_batch(k, n, evs)
        return SymSeq(n, k, v)

    def submerge(self, thunk):
        c = C()
        sl, sp = c.local, c.localpos
        c.local, c.localpos = None, 0
        c.nosplit, ns = 0, c.nosplit
        try:
            return self.merged(thunk, single=True)
        finally:
            c.local, c.localpos = sl, sp
            c.nosplit = ns

    # -------------------------------------------------------------- merging of local paths
    def snapshot(self):
        c = C()
        frames = {s: dict(f.vars) for s, f in c.allframes.items()} if hasattr(c, "allframes") else {}
        bufs = {s: b.body for s, b in c.bufs.items()}
        fattrs = {s: dict(f.attrs) for s, f in getattr(c, "allfuncs", {}).items()}
        return (frames, bufs, dict(c.ghost), fattrs, list(c.events))

    def restore(self, st):
        c = C()
        frames, bufs, ghost, fattrs, events = st
        for s, v in frames.items():
            f = c.allframes[s]
            f.vars.clear()
            f.vars.update(v)
        for s, b in bufs.items():
            c.bufs[s].body = b
        c.ghost = dict(ghost)
        for s, a in fattrs.items():
            c.allfuncs[s].attrs = dict(a)
        c.events = list(events)

    def merged(self, thunk, single=False):
        """Run every local path of thunk and merge the outcomes of the same shape; fork over shapes."""
        c = C()
        assert c.local is None
        st0 = self.snapshot()
        pc0 = list(c.pc)
        w0 = len(c.wlog)
        ser0 = c.nser
        heads0 = list(c.heads)
        todo = [[]]
        outs = []
        pos0 = c.pos
        nfresh0 = c.nfresh
        ok = False
        try:
            while todo:
                tr = todo.pop()
                c.local, c.localpos = list(tr), 0
                self.restore(st0)
                c.pc = list(pc0)
                v = None
                exc = None
                try:
                    v = thunk()
                except PathEnd:
                    exc = "dead"
                except PyRaise as e:
                    exc = e
                full = c.local[: c.localpos]
                for i in range(len(tr), len(full)):
                    todo.append(full[:i] + [False])
                if exc == "dead":
                    continue
                if len(outs) > 200:
                    raise MergeFail("too many local paths")
                cond = [x for x in c.pc if x not in pc0]
                outs.append((cond, v, self.snapshot(), exc))
            ok = True
        finally:
            c.local = None
            c.localpos = 0
            if not ok:
                self.restore(st0)
                c.pc = list(pc0)
        for w in c.wlog[w0:]:
            if w[0] == "obj":
                self.restore(st0)
                c.pc = list(pc0)
                raise MergeFail("container mutated")
        if not outs:
            raise PathEnd()
        groups = []
        for o in outs:
            for g in groups:
                if self.compatible(g[0], o, ser0):
                    g.append(o)
                    break
            else:
                groups.append([o])
        if single and len(groups) > 1:
            self.restore(st0)
            c.pc = list(pc0)
            raise MergeFail("outcomes of different shapes")
        conds = [or_(*[and_(*o[0]) for o in g]) for g in groups]
        c.pc = list(pc0)
        self.restore(st0)
        pick = None
        for i, g in enumerate(groups):
            if i == len(groups) - 1:
                if len(groups) > 1:
                    c.assume(conds[i])
                    if c.entails(FALSE):
                        raise PathEnd()
                pick = i
                break
            if c.branch(conds[i]):
                pick = i
                break
        g = groups[pick]
        if len(g) == 1:
            for x in g[0][0]:
                c.assume(x)
        else:
            c.assume(conds[pick])
        if g[0][3] is not None:
            self.restore(g[0][2])
            raise g[0][3]
        return self.combine(g, ser0, st0)

    def compatible(self, a, b, ser0):
        if (a[3] is None) != (b[3] is None):
            return False
        if a[3] is not None:
            return a[3].kind == b[3].kind
        if not self.mergeval(a[1], b[1]):
            return False
        fa, fb = a[2][0], b[2][0]
        for s in fa:
            if s > ser0:
                continue
            va, vb = fa[s], fb.get(s, {})
            for n in set(va) | set(vb):
                if n not in va or n not in vb:
                    if self.keep is not None and s == self.keep[0] and n in self.keep[1]:
                        return False
                    continue  # becomes poison
                if not self.mergeval(va[n], vb[n]) and not isinstance(va[n], (dict, Obj, StrVal)):
                    return False
        for s in a[2][3]:
            if s > ser0:
                continue
            aa, ab = a[2][3][s], b[2][3].get(s, {})
            for n in set(aa) | set(ab):
                if n not in aa or n not in ab or not self.mergeval(aa[n], ab[n]):
                    return False
        for n in set(a[2][2]) | set(b[2][2]):
            if not self.mergeval(a[2][2].get(n), b[2][2].get(n)):
                return False
        if [e.key() for e in a[2][4]] != [e.key() for e in b[2][4]]:
            return False
        return True

    def mergeval(self, x, y):
        if same_value(x, y):
            return True
        if x is POISON or y is POISON or type(x) is Maybe or type(y) is Maybe:
            return True
        if isinstance(x, bool) and isinstance(y, bool):
            return False
        if is_scalar(x) and is_scalar(y):
            if isinstance(x, bool) != isinstance(y, bool):
                # a concrete flag and a symbolic one
                return isinstance(x, T) and x.sort == "B" or isinstance(y, T) and y.sort == "B"
            return True
        if isinstance(x, Arr) and isinstance(y, Arr):
            return x.nd == y.nd and x.dtype == y.dtype
        if isinstance(x, (tuple, list)) and type(x) is type(y) and len(x) == len(y):
            return all(self.mergeval(p, q) for p, q in zip(x, y))
        return False

    def combine(self, g, ser0, st0):
        """State and value of the merged outcomes g."""
        c = C()
        conds = [and_(*o[0]) for o in g]
        memo = {}
        refs = {}

        def mv(vals):
            if all(same_value(vals[0], v) for v in vals[1:]):
                return vals[0]
            if any(v is POISON for v in vals):
                return POISON
            if all(is_scalar(v) for v in vals):
                r = lift(vals[-1])
                for i in range(len(vals) - 2, -1, -1):
                    r = ite(conds[i], lift(vals[i]), r)
                return unlift(r)
            if all(isinstance(v, Arr) for v in vals):
                key = tuple((v.buf.ser, v.amap) for v in vals)
                if key in memo:
                    return memo[key]
                bodies = []
                for o, v in zip(g, vals):
                    sv = v.buf.body
                    v.buf.body = o[2][1].get(v.buf.ser, sv)
                    bodies.append((v.body(), v.shape))
                    v.buf.body = sv
                b = bodies[-1][0]
                shape = list(bodies[-1][1])
                for i in range(len(vals) - 2, -1, -1):
                    b = ite(conds[i], bodies[i][0], b)
                    for j in range(len(shape)):
                        if not same_dim(shape[j], bodies[i][1][j]):
                            shape[j] = unlift(ite(conds[i], dim(bodies[i][1][j]), dim(shape[j])))
                r = Arr.new(shape, vals[0].dtype, b)
                for v in vals:
                    if v.buf.ser <= ser0:
                        v.buf.alias = True
                        r.buf.alias = True
                memo[key] = r
                return r
            if all(isinstance(v, (tuple, list)) for v in vals):
                return type(vals[0])(mv([v[i] for v in vals]) for i in range(len(vals[0])))
            return POISON

        def partly(vals):
            if all(v is POISON for v in vals):
                return POISON
            defs = [v.cond if type(v) is Maybe else FALSE if v is POISON else TRUE for v in vals]
            lost = any(v is POISON or type(v) is Maybe and v.lost for v in vals)
            vals = [v.value if type(v) is Maybe else v for v in vals]
            some = [i for i, v in enumerate(vals) if defs[i] is not FALSE]
            if not all(is_scalar(vals[i]) and vals[i] is not POISON for i in some):
                return POISON
            r = lift(vals[some[-1]])
            for i in reversed(some[:-1]):
                r = ite(conds[i], lift(vals[i]), r)
            return Maybe(or_(*[and_(conds[i], defs[i]) for i in some]), unlift(r), lost)

        if len(g) == 1:
            self.restore(g[0][2])
            return g[0][1]
        # frames
        newframes = {}
        for s in st0[0]:
            vs = [o[2][0].get(s, {}) for o in g]
            names = set()
            for v in vs:
                names |= set(v)
            d = {}
            for n in sorted(names):
                if all(n in v and type(v[n]) is not Maybe and v[n] is not POISON for v in vs):
                    d[n] = mv([v[n] for v in vs])
                else:
                    d[n] = partly([v.get(n, Maybe(FALSE, None)) for v in vs])
            newframes[s] = d
        newattrs = {}
        for s in st0[3]:
            vs = [o[2][3].get(s, {}) for o in g]
            newattrs[s] = {n: mv([v[n] for v in vs]) for n in vs[0]}
        ghost = {n: mv([o[2][2].get(n) for o in g]) for n in g[0][2][2]}
        value = mv([o[1] for o in g])
        newbufs = {}
        for s, old in st0[1].items():
            bs = [o[2][1].get(s, old) for o in g]
            b = bs[-1]
            for i in range(len(bs) - 2, -1, -1):
                b = ite(conds[i], bs[i], b)
            newbufs[s] = b
        self.restore(g[-1][2])
        for s, d in newframes.items():
            f = c.allframes[s]
            f.vars.clear()
            f.vars.update(d)
        for s, b in newbufs.items():
            c.bufs[s].body = b
        for s, a in newattrs.items():
            c.allfuncs[s].attrs = a
        c.ghost = ghost
        return value


class Prop:
    def __init__(self, fget):
        self.fget = fget


class StarArg:
    """*args of the user's extra arguments (unknown number)."""

    def __init__(self, v):
        self.v = v


class StarTuple(tuple):
    @staticmethod
    def make(xs):
        if len(xs) == 1 and isinstance(xs[0], StarArg):
            return xs[0].v
        if any(isinstance(x, StarArg) for x in xs):
            o = Opaque("*args", callable_=False)
            o.star = True
            o.parts = tuple(xs)
            return o
        return tuple(xs)


class FS(tuple):
    """A set display."""


def frozenset_like(xs):
    return FS(xs)


DICTMETHODS = {"update", "get", "keys", "values", "items", "setdefault", "pop", "copy", "__setitem__", "__getitem__",
               "__delitem__", "__contains__", "__len__"}

EXC = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
    "TypeError": "Exception", "AttributeError": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "OverflowError": "ArithmeticError",
    "UnboundLocalError": "NameError", "NameError": "Exception", "RecursionError": "RuntimeError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "AssertionError": "Exception", "UFuncTypeError": "TypeError",
    "AxisError": "ValueError", "Exception": "BaseException", "StopIteration": "Exception",
    "UserWarning": "Exception", "Warning": "Exception", "LinAlgError": "ValueError", "FloatingPointError": "ArithmeticError",
}


def exc_is(k, n):
    while k is not None:
        if k == n:
            return True
        k = EXC.get(k)
    return False


def pybin(op, a, b):
    import operator as o

    f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "Pow": o.pow, "FloorDiv": o.floordiv, "Mod": o.mod,
         "BitAnd": o.and_, "BitOr": o.or_, "BitXor": o.xor, "LShift": o.lshift, "RShift": o.rshift}.get(op)
    if f is None:
        raise Unsupported("operator " + op)
    try:
        r = f(a, b)
    except ZeroDivisionError:
        raise PyRaise("ZeroDivisionError", "division by zero")
    except TypeError:
        raise PyRaise("TypeError", "operand")
    if isinstance(r, complex):
        raise Unsupported("complex number")
    return r


def pycmp(op, a, b):
    import operator as o

    return {"Lt": o.lt, "LtE": o.le, "Gt": o.gt, "GtE": o.ge, "Eq": o.eq, "NotEq": o.ne}[op](a, b)


class Ext:
    """External module of the model."""

    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


_ext = {}


def external(name):
    if not _ext:
        from . import nplib

        _ext.update(nplib.modules())
    return _ext.get(name)


BUILTINS = {}


def _init_builtins():
    from . import nplib

    BUILTINS.update(nplib.builtins())
