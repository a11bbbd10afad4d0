"""Abstract interpreter for the Python subset used in the package.

Functions of the package are inlined at their call sites; branches whose
condition is undecided are analysed on both sides and joined; loops over
abstract dimensions are analysed once with the dimension as a free index,
other loops by widening.  Nothing of the package is ever executed.
"""

import ast
import os
from fractions import Fraction

from . import prelude
from . import terms as tm
from .vals import *
from .vals import NONE

DBG = 0
MAXUNROLL = 24


class Unbound(Value):
    __slots__ = ("val",)

    def __init__(self, val=None):
        self.val = val


class State:
    __slots__ = ("env", "heap", "guards", "gdeps", "facts", "absent", "pdeps")

    def __init__(self, env, heap):
        self.env, self.heap = env, heap
        self.guards = {}
        self.gdeps = {}
        self.facts = {}
        self.absent = NONE

    def copy(self):
        n = State(dict(self.env), dict(self.heap))
        n.guards = dict(self.guards)
        n.gdeps = dict(self.gdeps)
        n.facts = dict(self.facts)
        n.absent = self.absent
        return n

    def become(self, o):
        self.env, self.heap, self.guards = o.env, o.heap, o.guards
        self.gdeps, self.facts, self.absent = o.gdeps, o.facts, o.absent


class Flow:
    __slots__ = ("normal", "rets", "brks", "conts", "raises")

    def __init__(self, normal):
        self.normal = normal
        self.rets, self.brks, self.conts, self.raises = [], [], [], []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts
        self.raises += o.raises


class Frame:
    def __init__(self, func, mod):
        self.func, self.mod = func, mod
        self.st = None
        self.globals = set()
        self.nonlocals = {}
        self.gen = None
        self.callloc = None
        self.final = None  # the names as the function left them (for closures)


class TooDeep(Exception):
    pass


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "AttributeError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "OverflowError": "ArithmeticError", "FloatingPointError": "ArithmeticError",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "RecursionError": "RuntimeError",
    "StopIteration": "Exception", "AssertionError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "OSError": "Exception", "FileNotFoundError": "OSError",
    "IOError": "Exception", "LinAlgError": "ValueError", "UnicodeError": "ValueError", "Warning": "Exception",
    "FutureWarning": "Warning", "DeprecationWarning": "Warning", "UserWarning": "Warning", "RuntimeWarning": "Warning",
    "MemoryError": "Exception", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
}


class Interp:
    def __init__(self, root, package="utide"):
        self.root, self.package = root, package
        self.mods = {}
        self.events = []
        self.frames = []
        self.loc = ("?", "?", 0)
        self.keyloc = {}
        self.loopdepth = 0
        self.views = {}  # storage oid -> handles sharing it
        self.handles = {}
        self.user_exc = {}
        self.stats = {"calls": 0, "stmts": 0, "funcs": set(), "sites": set(), "joins": 0, "loops": 0, "unknown": set()}
        self.quiet = 0
        self.set_reversed = False  # iterate over sets the other way round
        from . import npmodel

        self.np = npmodel.NP(self)
        self.base_heap = {}
        self.config = {}
        self.trace_calls = {}
        self.summaries = {}
        self.globals_written = {}
        self.known_bad = {}  # (token, axis) -> positions known to be invalid

    # ----------------------------------------------------------- events
    def event(self, kind, **kw):
        if self.quiet:
            return
        kw["kind"] = kind
        kw.setdefault("loc", self.loc)
        kw["stack"] = tuple(f.func.qual if f.func else f.mod.name for f in self.frames)
        self.events.append(kw)

    def store_loc(self):
        """Location of the statement that stores, outside container methods."""
        loc = self.loc
        for f in reversed(self.frames):
            if f.func is not None and f.func.name.startswith("__set") and f.callloc:
                loc = f.callloc
            else:
                break
        return loc

    def where(self, node=None):
        f, q, l = self.loc
        return f"{f}:{l} ({q})"

    def raise_(self, name, msg=""):
        raise AbsRaise(Exc(name, msg, self.loc))

    def mayraise(self, st, name, why, key=None):
        self.event("mayraise", exc=name, why=why)

    def unknown(self, why, deps=NONE):
        self.stats["unknown"].add((why,) + self.loc[:2])
        return Unknown(why, deps)

    # ---------------------------------------------------------- modules
    def modfile(self, name):
        rel = name.replace(".", "/")
        for cand in (rel + ".py", rel + "/__init__.py"):
            p = os.path.join(self.root, cand)
            if os.path.exists(p):
                return p
        return None

    def load(self, name, heap):
        m = self.mods.get(name)
        if m is not None:
            return m
        p = self.modfile(name)
        if p is None:
            return None
        m = Mod(name, p)
        self.mods[name] = m
        if "." in name:
            parent = self.load(name.rsplit(".", 1)[0], heap)
        with open(p, encoding="utf-8") as f:
            tree = ast.parse(f.read(), p)
        m.env["__name__"] = Known(name)
        m.env["__file__"] = Known(os.path.relpath(p, self.root))
        m.env["__doc__"] = Known(ast.get_docstring(tree))
        fr = Frame(None, m)
        self.frames.append(fr)
        saved = self.loc
        st = State(m.env, heap)
        fr.st = st
        try:
            flow = self.block(tree.body, st)
            for _s, e in flow.raises:
                self.event("module-raise", exc=e, mod=name)
            if flow.normal is not None:
                if flow.normal is not st:
                    heap.clear()
                    heap.update(flow.normal.heap)
                if flow.normal.env is not m.env:
                    m.env.update(flow.normal.env)
        finally:
            self.frames.pop()
            self.loc = saved
        m.done = True
        if "." in name:
            par, child = name.rsplit(".", 1)
            if par in self.mods:
                self.mods[par].env.setdefault(child, m)
        return m

    def prelude(self, name):
        """Interpreted definition of a library function."""
        m = self.mods.get("<prelude>")
        if m is None:
            m = self.mods["<prelude>"] = Mod("<prelude>", "<prelude>")
            m.env["np"] = Ext("numpy")
            m.env["unmodelled"] = Ext("unmodelled")
            for d in prelude.TREE.body:
                m.env[d.name] = Func(d, m, d.name, None, self.prelude_defaults(d))
        return m.env[name]

    @staticmethod
    def prelude_defaults(d):
        return tuple(Known(ast.literal_eval(x)) if isinstance(ast.literal_eval(x), (str, type(None))) else num(ast.literal_eval(x)) for x in d.args.defaults)

    def load_all(self):
        heap = self.base_heap
        self.load(self.package, heap)
        d = os.path.join(self.root, self.package)
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".py") and not fn.startswith("__") and fn != "_version.py":
                self.load(f"{self.package}.{fn[:-3]}", heap)
        self.mark_globals(heap)

    def mark_globals(self, heap):
        seen = set()

        def walk(v, label):
            if isinstance(v, Arr):
                if v.oid in seen:
                    return
                seen.add(v.oid)
                v.root = (v.root or NONE) | {"global:" + label}
                inf = heap.get(v.oid)
            elif isinstance(v, Ref):
                if v.oid in seen:
                    return
                seen.add(v.oid)
                v.root = "global:" + label
                c = heap.get(v.oid)
                if isinstance(c, ListCell):
                    for it in c.items:
                        walk(it[-1], label + "[]")
                elif isinstance(c, DictCell):
                    for k, x in c.d.items():
                        walk(x, f"{label}.{k}")
                    if c.rest:
                        walk(c.rest[1], label + "[]")
                elif isinstance(c, InstCell):
                    for k, x in c.attrs.items():
                        walk(x, f"{label}.{k}")
            elif isinstance(v, Func):
                for d in list(v.defaults) + list(v.kwdefaults.values()):
                    walk(d, label + "()default")
            elif isinstance(v, Cls):
                for k, x in v.ns.items():
                    walk(x, f"{label}.{k}")
            elif isinstance(v, Choice):
                for _, x in v.alts:
                    walk(x, label)

        for name, m in list(self.mods.items()):
            for k, v in list(m.env.items()):
                if isinstance(v, Value):
                    walk(v, f"{name.split('.')[-1]}.{k}")

    # ------------------------------------------------------------ state
    def info(self, st, v):
        if isinstance(v, Arr):
            i = st.heap.get(v.oid, v.init)
        elif isinstance(v, Num):
            i = v.info
        elif isinstance(v, Known):
            return Info(tm.T(tm.opaque("const", (repr(v.v),))), v.deps)
        elif isinstance(v, Unknown):
            return Info(tm.T(tm.opaque("unk", (v.why,))), v.deps, None, None, None)
        elif isinstance(v, Choice):
            i = None
            for g, x in v.alts:
                j = self.info(st, x)
                i = j if i is None else info_join(i, j)
            return i
        else:
            return Info(tm.T(tm.opaque("obj", (repr(type(v).__name__),))), self.deps(st, v), None, None, None)
        return self.refine(st, i)

    def refine(self, st, i):
        ch = {}
        if st.guards and len(i.term.alts) > 1:
            t = tm.tprune(i.term, st.guards)
            if t is not i.term:
                ch["term"] = t
        if st.facts:
            p = (ch.get("term") or i.term).single()
            if p is not None and p in st.facts:
                ch["re"] = iv_meet(i.re, st.facts[p])
        if st.absent and (i.inv & st.absent or i.mk & st.absent):
            ch["inv"] = i.inv - st.absent
            ch["mk"] = i.mk - st.absent
        return i.rep(**ch) if ch else i

    def deps(self, st, v, depth=0):
        if isinstance(v, Num):
            return v.info.deps
        if isinstance(v, Arr):
            return st.heap.get(v.oid, v.init).deps
        if isinstance(v, (Known, Unknown)):
            return v.deps
        if isinstance(v, Choice):
            s = NONE
            for _, x in v.alts:
                s = s | self.deps(st, x, depth)
            return s
        if isinstance(v, Ref) and depth < 5:
            c = st.heap.get(v.oid)
            s = NONE
            if isinstance(c, ListCell):
                s = s | c.deps
                for it in c.items:
                    s = s | self.deps(st, it[-1], depth + 1)
            elif isinstance(c, DictCell):
                s = s | c.deps
                for x in c.d.values():
                    s = s | self.deps(st, x, depth + 1)
            return s
        if isinstance(v, Iter):
            s = v.deps
            for it in v.items:
                s = s | self.deps(st, it[-1], depth + 1)
            return s
        return NONE

    def newarr(self, axes, dt, info, **kw):
        axes = list(axes)
        if len(set(a for a in axes if a != tm.ONEAX)) < len([a for a in axes if a != tm.ONEAX]):
            raise AssertionError("axes not unique %r" % (axes,))
        if not axes and dt in "bifcUMmO" and not kw.get("keep0"):
            return Num(dt, info, unit=kw.get("unit"))
        kw.pop("keep0", None)
        a = Arr(axes, dt, info, **kw)
        if a.parents:
            for p in a.parents:
                self.views.setdefault(p, set()).add(a.oid)
            self.handles[a.oid] = a
        return a

    def view(self, st, a, axes, info, dt=None, ma=None):
        """New handle sharing the storage of a."""
        if not axes:
            return Num(dt or a.dt, info, unit=a.unit)
        self.handles.setdefault(a.oid, a)
        return self.newarr(axes, dt or a.dt, info, root=a.root, parents=frozenset(a.parents or ()) | {a.oid},
                           unit=a.unit, ma=a.ma if ma is None else ma)

    def set_info(self, st, a, info, what="store"):
        """Contents of array a replaced by info (in-place modification)."""
        if a.root:
            self.event("mutate", root=frozenset(a.root), what=what)
        self.handles.setdefault(a.oid, a)
        st.heap[a.oid] = info
        sharers = set(a.parents or ())
        for p in list(sharers) + [a.oid]:
            sharers |= self.views.get(p, set())
        sharers.discard(a.oid)
        for o in sharers:
            h = self.handles.get(o)
            if h is None:
                continue
            old = st.heap.get(o, h.init)
            t = tm.T(tm.opaque("weak", tm.closed((old.term, info.term), h.axes), tuple(x for x in h.axes if x != tm.ONEAX), real=False))
            st.heap[o] = Info(t, old.deps | info.deps, iv_join(old.re, info.re), iv_join(old.im, info.im),
                              deg_join(old.deg, info.deg), old.inv | info.inv, old.mk | info.mk, None)

    def touch(self, ref, what):
        if ref.root:
            self.event("mutate", root=frozenset([ref.root]), what=what)

    # ------------------------------------------------------------- join
    def guard_split(self, a, b):
        common = {k: v for k, v in a.guards.items() if b.guards.get(k, None) == v and k in b.guards}
        ga = frozenset((k, v) for k, v in a.guards.items() if k not in common)
        gb = frozenset((k, v) for k, v in b.guards.items() if k not in common)
        # keep only contradictory keys when there are some
        ka, kb = dict(ga), dict(gb)
        both = [k for k in ka if k in kb]
        if both:
            ga = frozenset((k, ka[k]) for k in both)
            gb = frozenset((k, kb[k]) for k in both)
            keys = both
        else:
            keys = list(ka) + list(kb)
        return common, ga, gb, keys

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        self.stats["joins"] += 1
        common, ga, gb, keys = self.guard_split(a, b)
        cdeps, cbad = NONE, None
        for k in keys:
            for s in (a, b):
                if k in s.gdeps:
                    d, dg = s.gdeps[k]
                    cdeps = cdeps | d
                    if isinstance(dg, Bad):
                        cbad = dg
        J = Joiner(self, a, b, ga, gb, cdeps, cbad)
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            x, y = a.env.get(k), b.env.get(k)
            if x is None or y is None:
                v = x if x is not None else y
                env[k] = v if isinstance(v, Unbound) else Unbound(v)
            else:
                env[k] = J.val(x, y)
        heap = dict(a.heap)
        for k, y in b.heap.items():
            x = heap.get(k)
            if x is None:
                # modified (or allocated) on the b side only
                h = self.handles.get(k)
                if isinstance(y, Info) and h is not None and k[0] == "a":
                    base = h.init
                    heap[k] = J.info(base, y) if base is not y else y
                else:
                    heap[k] = y
            elif x is not y:
                heap[k] = J.cell(x, y)
        for k, x in a.heap.items():
            if k not in b.heap and isinstance(x, Info):
                h = self.handles.get(k)
                if h is not None and h.init is not x:
                    heap[k] = J.info(x, h.init)
        heap.update(J.newcells)
        st = State(env, heap)
        st.guards = common
        gd = dict(a.gdeps)
        gd.update(b.gdeps)
        st.gdeps = gd
        st.facts = {}
        for k, v in a.facts.items():
            if k in b.facts:
                j = iv_join(v, b.facts[k])
                if j is not None:
                    st.facts[k] = j
        st.absent = a.absent & b.absent
        return st

    def joinall(self, states):
        out = None
        for s in states:
            out = self.join(out, s)
        return out

    # ------------------------------------------------------- statements
    def block(self, stmts, st):
        flow = Flow(st)
        for s in stmts:
            if flow.normal is None:
                break
            f = self.stmt(s, flow.normal)
            flow.normal = f.normal
            flow.absorb(f)
        return flow

    def setloc(self, node):
        fr = self.frames[-1]
        if fr.mod.name == "<prelude>":
            return
        q = fr.func.qual if fr.func else "<module>"
        self.loc = (os.path.relpath(fr.mod.path, self.root) if fr.mod.path else fr.mod.name, q, getattr(node, "lineno", 0))

    def stmt(self, s, st):
        self.stats["stmts"] += 1
        self.frames[-1].st = st
        self.setloc(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        flow = Flow(st)
        try:
            if m is None:
                self.unknown("statement " + type(s).__name__)
                return flow
            return m(s, st) or flow
        except AbsRaise as e:
            f = Flow(None)
            f.raises.append((st, e.exc))
            return f

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        self.ev(s.value, st)

    def s_Import(self, s, st):
        for al in s.names:
            top = al.name.split(".")[0]
            if top == self.package:
                self.load(al.name, st.heap)
                st.env[al.asname or top] = self.mods[al.name if al.asname else top]
            else:
                self.load_sibling(al.name)
                st.env[al.asname or top] = Ext(alias_ext(al.name if al.asname else top))

    def load_sibling(self, name):
        pass

    def s_ImportFrom(self, s, st):
        fr = self.frames[-1]
        if s.level:
            pkg = fr.mod.name if fr.mod.path.endswith("__init__.py") else fr.mod.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit(".", 1)[0]
            modname = pkg + ("." + s.module if s.module else "")
        else:
            modname = s.module
        if modname.split(".")[0] == self.package:
            m = self.load(modname, st.heap)
            if m is None:
                raise AbsRaise(Exc("ImportError", modname, self.loc))
            for al in s.names:
                if al.name == "*":
                    for k, v in m.env.items():
                        if not k.startswith("_"):
                            st.env[k] = v
                    continue
                v = m.env.get(al.name)
                if v is None:
                    v = self.load(modname + "." + al.name, st.heap)
                if v is None:
                    raise AbsRaise(Exc("ImportError", f"cannot import {al.name} from {modname}", self.loc))
                st.env[al.asname or al.name] = v
        else:
            for al in s.names:
                st.env[al.asname or al.name] = Ext(alias_ext(modname + "." + al.name))

    def s_FunctionDef(self, s, st):
        f = self.mkfunc(s, st)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, st)
        self.bind_name(s.name, v, st)

    def mkfunc(self, node, st):
        fr = self.frames[-1]
        outer = fr.func.qual + "." if fr.func else ""
        cls = getattr(self, "_clsname", None)
        if cls and not fr.func:
            outer = cls + "."
        a = node.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.ev(d, st)
        f = Func(node, fr.mod, outer + getattr(node, "name", "<lambda>"), None, defaults, kwd)
        if fr.func is not None:
            f.closure = st.env
            f.frameid = fr
        Func_n = getattr(self, "_fn", 0) + 1
        self._fn = Func_n
        f.oid = ("f", Func_n)
        return f

    def decorate(self, d, v, st):
        name = None
        base = d.func if isinstance(d, ast.Call) else d
        dv = self.ev(base, st)
        if isinstance(dv, Ext):
            name = dv.path
            if name in ("builtins.property", "builtins.staticmethod", "builtins.classmethod"):
                v.deco = v.deco + (name.split(".")[1],)
                return v
            if name in ("functools.lru_cache", "functools.cache"):
                v.deco = v.deco + ("cache",)
                return v
            if name in ("functools.wraps", "contextlib.contextmanager", "numba.njit", "numba.jit", "dataclasses.dataclass"):
                if name == "contextlib.contextmanager":
                    v.deco = v.deco + ("ctx",)
                return v
        if isinstance(dv, Func):
            fn = dv
            if isinstance(d, ast.Call):
                fn = self.ev(d, st)
            return self.call(fn, [v], {}, st)
        return v

    def s_AsyncFunctionDef(self, s, st):
        st.env[s.name] = self.unknown("async")

    def s_ClassDef(self, s, st):
        bases = [self.ev(b, st) for b in s.bases]
        fr = self.frames[-1]
        sub = State({}, st.heap)
        sub.guards = st.guards
        saved = getattr(self, "_clsname", None)
        self._clsname = s.name
        env0 = st.env
        # class bodies see the enclosing scope
        sub.env = ChainEnv(env0)
        try:
            self.block(s.body, sub)
        finally:
            self._clsname = saved
        ns = dict(sub.env.own)
        c = Cls(s.name, bases, ns, fr.mod)
        c.node = s
        for k, v in ns.items():
            if isinstance(v, Func):
                v.cls = c
        for b in bases:
            if isinstance(b, Ext) and b.path.split(".")[-1] in BUILTIN_EXC:
                self.user_exc[s.name] = b.path.split(".")[-1]
            if isinstance(b, Cls) and b.name in self.user_exc:
                self.user_exc[s.name] = b.name
        v = c
        self.bind_name(s.name, v, st)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else PYNONE
        f = Flow(None)
        f.rets.append((st, v))
        return f

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def s_AugAssign(self, s, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st)
            nv = self.inplace(op, cur, self.ev(s.value, st), st)
            self.bind_name(t.id, nv, st)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, st)
            cur = self.getattr(obj, t.attr, st)
            nv = self.inplace(op, cur, self.ev(s.value, st), st)
            self.setattr(obj, t.attr, nv, st)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st)
            idx = self.ev_index(t.slice, st)
            cur = self.getitem(obj, idx, st)
            if isinstance(obj, Arr):
                nv = self.binop(op, cur, self.ev(s.value, st), st)
            else:
                nv = self.inplace(op, cur, self.ev(s.value, st), st)
            self.setitem(obj, idx, nv, st)

    def inplace(self, op, cur, v, st):
        cur = self.pick(cur, st)
        if isinstance(cur, Arr):
            r = self.binop(op, cur, v, st)
            if isinstance(r, Num):
                self.set_info(st, cur, r.info, "in-place " + op)
                return cur
            if isinstance(r, Arr):
                if len(r.axes) != len(cur.axes):
                    self.raise_("ValueError", "non-broadcastable in-place operand")
                if op == "Div" and cur.dt == "i":
                    self.raise_("TypeError", "in-place true division of integer array")
                if cur.dt in "if" and r.dt == "c" and op in ("Add", "Sub", "Mult", "Div"):
                    self.raise_("TypeError", "cannot cast complex result into real array")
                i = self.info(st, r)
                if r.axes != cur.axes:
                    i = i.rep(term=tm.rename_axes(i.term, r.axes, cur.axes))
                self.set_info(st, cur, i, "in-place " + op)
                return cur
            self.set_info(st, cur, self.info(st, r), "in-place " + op)
            return cur
        if isinstance(cur, Ref) and cur.kind == "list" and op == "Add":
            self.np.list_extend(st, cur, v)
            return cur
        if isinstance(cur, Ref) and cur.kind in ("set", "dict") and op == "BitOr":
            return self.call_method(cur, "update", [v], {}, st)and cur or cur
        return self.binop(op, cur, v, st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                obj = self.pick(self.ev(t.value, st), st)
                idx = self.ev_index(t.slice, st)
                self.np.delitem(st, obj, idx)
            elif isinstance(t, ast.Attribute):
                obj = self.pick(self.ev(t.value, st), st)
                if isinstance(obj, Ref):
                    self.touch(obj, "del attribute " + t.attr)

    def s_Global(self, s, st):
        self.frames[-1].globals |= set(s.names)

    def s_Nonlocal(self, s, st):
        for n in s.names:
            self.frames[-1].nonlocals[n] = True

    def s_Assert(self, s, st):
        ts, fs = self.branch(s.test, st)
        flow = Flow(self.joinall(ts))
        for f in fs:
            flow.raises.append((f, Exc("AssertionError", "", self.loc)))
        if flow.normal is not None and flow.normal is not st:
            pass
        return flow

    def s_Raise(self, s, st):
        f = Flow(None)
        if s.exc is None:
            f.raises.append((st, getattr(self, "_handling", None) or Exc("RuntimeError", "re-raise", self.loc)))
            return f
        v = self.pick(self.ev(s.exc, st), st)
        f.raises.append((st, self.to_exc(v)))
        return f

    def to_exc(self, v):
        if isinstance(v, Exc):
            return Exc(v.name, v.msg, v.loc or self.loc)
        if isinstance(v, Ext):
            return Exc(v.path.split(".")[-1], "", self.loc)
        if isinstance(v, Cls):
            return Exc(v.name, "", self.loc)
        return Exc("Exception", repr(v), self.loc)

    def s_If(self, s, st):
        ts, fs = self.branch(s.test, st)
        out = Flow(None)
        t, f = self.joinall(ts), self.joinall(fs)
        n1 = n2 = None
        if t is not None:
            fl = self.block(s.body, t)
            out.absorb(fl)
            n1 = fl.normal
        if f is not None:
            fl = self.block(s.orelse, f)
            out.absorb(fl)
            n2 = fl.normal
        out.normal = self.join(n1, n2)
        return out

    def s_With(self, s, st):
        names = []
        for it in s.items:
            v = self.ev(it.context_expr, st)
            self.np.enter_ctx(st, v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, self.np.ctx_value(st, v), st)
            names.append(v)
        fl = self.block(s.body, st)
        for v in names:
            self.np.exit_ctx(st, v)
        return fl

    def s_Try(self, s, st):
        st0 = st.copy()
        n0 = len(self.events)
        fl = self.block(s.body, st)
        out = Flow(None)
        may = [e for e in self.events[n0:] if e["kind"] == "mayraise"]
        normals = []
        if fl.normal is not None:
            nf = self.block(s.orelse, fl.normal) if s.orelse else Flow(fl.normal)
            out.absorb(nf)
            normals.append(nf.normal)
        out.rets += fl.rets
        out.brks += fl.brks
        out.conts += fl.conts
        handled = [False] * len(s.handlers)
        pend = []
        for rs, exc in fl.raises:
            hit = False
            for k, h in enumerate(s.handlers):
                if self.matches(h, exc, st0):
                    hit = True
                    hs = rs.copy()
                    nf = self.handler(h, exc, hs)
                    out.absorb(nf)
                    normals.append(nf.normal)
                    handled[k] = True
                    break
            if not hit:
                pend.append((rs, exc))
        for e in may:
            exc = Exc(e["exc"], e["why"], e["loc"])
            for k, h in enumerate(s.handlers):
                if self.matches(h, exc, st0):
                    if not handled[k]:
                        handled[k] = True
                        hs = st0.copy()
                        key = ("exc", self.loc[0], self.loc[1], s.lineno, e["exc"])
                        hs.guards[key] = True
                        for i, n in enumerate(normals):
                            if n is not None:
                                n.guards[key] = False
                        nf = self.handler(h, exc, hs)
                        out.absorb(nf)
                        normals.append(nf.normal)
                    break
        out.raises += pend
        out.normal = self.joinall([n for n in normals if n is not None])
        if s.finalbody:
            if out.normal is not None:
                ff = self.block(s.finalbody, out.normal)
                out.normal = ff.normal
                out.absorb(ff)
            else:
                for lst in (out.rets, out.raises):
                    for i, (rs, v) in enumerate(list(lst)):
                        ff = self.block(s.finalbody, rs)
                        if ff.rets:
                            out.rets += ff.rets
        return out

    s_TryStar = s_Try

    def handler(self, h, exc, st):
        if h.name:
            st.env[h.name] = exc
        saved = getattr(self, "_handling", None)
        self._handling = exc
        try:
            return self.block(h.body, st)
        finally:
            self._handling = saved

    def exc_isa(self, name, base):
        seen = 0
        while name is not None and seen < 12:
            if name == base:
                return True
            name = self.user_exc.get(name) or BUILTIN_EXC.get(name)
            seen += 1
        return False

    def matches(self, h, exc, st):
        if h.type is None:
            return True
        try:
            v = self.ev(h.type, st)
        except AbsRaise:
            return True
        vs = [v]
        if isinstance(v, Ref) and v.kind == "tuple":
            vs = [it[-1] for it in st.heap[v.oid].items]
        for x in vs:
            n = x.path.split(".")[-1] if isinstance(x, Ext) else getattr(x, "name", None)
            if n and self.exc_isa(exc.name, n):
                return True
        return False

    def s_Break(self, s, st):
        f = Flow(None)
        f.brks.append(st)
        return f

    def s_Continue(self, s, st):
        f = Flow(None)
        f.conts.append(st)
        return f

    def s_Match(self, s, st):
        self.unknown("match")
        out = Flow(st)
        return out

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.pick(self.ev(s.iter, st), st)
        items, deps = self.iter_items(it, st)
        if items is None:
            items = [("ax", ("anon", tm.opaque("niter", (self.loc[1], s.lineno)), "iter"), self.unknown("iter", deps))]
        out = Flow(None)
        cur = st
        brks = []
        if len([1 for i in items if i[0] == "v"]) > MAXUNROLL:
            joined = None
            first = items[0][-1]
            rest = None
            for i in items[1:]:
                v = i[-1]
                rest = v if rest is None else Joiner(self, st, st, NONE, NONE, NONE, None).val(rest, v)
            return self.counter_loop(s, st, lambda c: self.assign(s.target, first, c), lambda c: self.assign(s.target, self.anyof(rest), c), None)
        for item in items:
            if cur is None:
                break
            if item[0] == "v":
                self.assign(s.target, item[1], cur)
                fl = self.block(s.body, cur)
                brks += fl.brks
                out.rets += fl.rets
                out.raises += fl.raises
                cur = self.joinall([x for x in [fl.normal] + fl.conts if x is not None])
            elif item[1] is None or item[1][0] == "count":
                fl = self.counter_loop(s, cur, lambda c, i=item: self.assign(s.target, num(0), c),
                                       lambda c, i=item: self.assign(s.target, i[2], c), None)
                brks += fl.brks
                out.rets += fl.rets
                out.raises += fl.raises
                cur = fl.normal
            else:
                fl = self.axis_loop(s, cur, item[1], item[2])
                brks += fl.brks
                out.rets += fl.rets
                out.raises += fl.raises
                cur = fl.normal
        if s.orelse and cur is not None:
            fl = self.block(s.orelse, cur)
            out.absorb(fl)
            cur = fl.normal
        ends = ([cur] if cur is not None else []) + brks
        if len(ends) > 1:
            for k, e in enumerate(ends):
                e.guards[("exit", self.loc[0], self.loc[1], s.lineno)] = k
        out.normal = self.joinall(ends)
        return out

    def anyof(self, v):
        if isinstance(v, Num):
            return Num(v.dt, v.info.rep(term=tm.T(tm.opaque("mu", ("it",) + self.loc[:2]))), NOVAL)
        return v

    def changed(self, a, b):
        """Names and heap cells that differ between two states."""
        ev = [k for k in b.env if k not in a.env or not same_value(a.env[k], b.env[k])]
        hv = [k for k, c in b.heap.items() if k in a.heap and a.heap[k] is not c and not same_cell(a.heap[k], c)]
        for k, c in b.heap.items():
            if k not in a.heap and k[0] == "a" and k in self.handles and self.handles[k].oid == k:
                # array first modified inside the loop
                if not same_cell(self.handles[k].init, c) and k in self.preexist:
                    hv.append(k)
        return ev, hv

    def axis_loop(self, s, st, ax, elem):
        self.stats["loops"] += 1
        self.loopdepth += 1
        it = tm.retag(ax, "i%d" % self.loopdepth)
        ren = lambda v, c: self.rename_value(v, ax, it, c)
        out = Flow(None)
        site = (self.loc[0], self.loc[1], self.ordinal(s))
        dead = dead_at_entry(s)
        saved_pre = getattr(self, "preexist", None)
        self.preexist = PreExist(Arr.n)
        saved_ml = getattr(self, "maploop", None)
        self.maploop = ml = {"ax": ax, "it": it, "stores": set(), "weak": set(), "outer": saved_ml, "pre": Arr.n}
        try:
            def run(h):
                c = h.copy()
                self.assign(s.target, ren(elem, c), c)
                fl = self.block(s.body, c)
                n = self.joinall([x for x in [fl.normal] + fl.conts if x is not None])
                return n, fl

            self.quiet += 1
            o0, fl0 = run(st)
            self.quiet -= 1
            if o0 is None:
                # body never completes normally
                o0, fl0 = run(st)
                out.rets += fl0.rets
                out.raises += fl0.raises
                out.brks += fl0.brks
                out.normal = st.copy() if False else None
                return out
            head = st
            W = {}
            for _ in range(6):
                ev, hv = self.changed(head if not W else st, o0)
                hv = [k for k in hv if not (k in ml["stores"] and k not in ml["weak"]) and not self.is_append(st.heap.get(k), o0.heap[k])]
                ev = [k for k in ev if k in st.env and not isinstance(st.env.get(k), Unbound) and k not in dead]
                new = self.widen(st, o0, ev, hv, site, W)
                if not new and W is not None and _ > 0:
                    break
                head = self.apply_widen(st, W)
                ml["stores"], ml["weak"] = set(), set()
                self.quiet += 1
                o0, fl0 = run(head)
                self.quiet -= 1
                if o0 is None:
                    break
                if not W:
                    break
            ml["stores"], ml["weak"] = set(), set()
            n0 = len(self.events)
            o1, fl1 = run(head)
            out.rets += fl1.rets
            out.raises += fl1.raises
            out.brks += fl1.brks
            if o1 is None:
                return out
            self.finish_axis_loop(st, head, o1, ax, it, site, W, ml, s)
            out.normal = o1
            return out
        finally:
            self.maploop = saved_ml
            self.preexist = saved_pre
            self.loopdepth -= 1

    def ordinal(self, node):
        """Stable name of a loop inside its function: its position among loops."""
        fr = self.frames[-1]
        root = fr.func.node if fr.func else None
        if root is None:
            return getattr(node, "lineno", 0)
        n = 0
        for x in ast.walk(root):
            if isinstance(x, (ast.For, ast.While)):
                if x is node:
                    return n
                n += 1
        return n

    def is_append(self, old, new):
        return (isinstance(old, ListCell) and isinstance(new, ListCell) and len(new.items) >= len(old.items)
                and new.items[: len(old.items)] == old.items)

    def widen(self, st, o, ev, hv, site, W):
        """Record widened head values for changed variables; True when new."""
        new = False
        for k in ev:
            key = ("env", k)
            v = Joiner(self, st, o, NONE, NONE, NONE, None).val(st.env[k], o.env[k]) if k in o.env else st.env[k]
            new |= self.wset(W, key, v, st, site, k)
        for n, k in enumerate(hv):
            key = ("heap", k)
            old = st.heap.get(k) or (self.handles[k].init if k in self.handles else None)
            if old is None:
                continue
            c = Joiner(self, st, o, NONE, NONE, NONE, None).cell(old, o.heap[k])
            if isinstance(c, Info):
                h = self.handles.get(k)
                axes = tuple(x for x in (h.axes if h else ()) if x != tm.ONEAX)
                mu = tm.T(tm.opaque("mu", tm.closed((site, "h%d" % n, self.entry_term(st, k)), axes), axes, real=_real(c)))
                c = c.rep(term=mu)
                prev = W.get(key)
                if prev is None or not _covers(prev, c):
                    W[key] = c if prev is None else _cover(prev, c)
                    new = True
            else:
                if key not in W:
                    W[key] = c
                    new = True
        return new

    def entry_term(self, st, k):
        c = st.heap.get(k)
        if c is None and k in self.handles:
            c = self.handles[k].init
        return c.term if isinstance(c, Info) else None

    def wset(self, W, key, v, st, site, name):
        prev = W.get(key)
        if isinstance(v, Num):
            t0 = st.env[name].info.term if isinstance(st.env.get(name), Num) else None
            c = v.info.rep(term=tm.T(tm.opaque("mu", (site, name, t0), (), real=_real(v.info))))
            if isinstance(prev, Num):
                if _covers(prev.info, c):
                    return False
                c = _cover(prev.info, c)
            W[key] = Num(v.dt, c, NOVAL, unit=v.unit)
            return True
        if isinstance(v, Arr):
            i = st.heap.get(v.oid, v.init)
            t0 = self.info(st, st.env[name]).term if isinstance(st.env.get(name), (Arr, Num)) else None
            axes = tuple(x for x in v.axes if x != tm.ONEAX)
            c = i.rep(term=tm.T(tm.opaque("mu", tm.closed((site, name, t0), axes), axes, real=_real(i))))
            if isinstance(prev, Arr) and prev.axes == v.axes:
                pi = prev.init
                if _covers(pi, c):
                    return False
                c = _cover(pi, c)
            W[key] = Arr(v.axes, v.dt, c, root=v.root, parents=v.parents, unit=v.unit, ma=v.ma)
            return True
        if prev is None:
            W[key] = v
            return True
        return False

    def apply_widen(self, st, W):
        h = st.copy()
        for (kind, k), v in W.items():
            if kind == "env":
                h.env[k] = v
            else:
                h.heap[k] = v
        return h

    def finish_axis_loop(self, st, head, o, ax, it, site, W, ml, s):
        mp = self.axis_map(it, ax)
        deltas = []
        for (kind, k), v in W.items():
            if kind == "env" and isinstance(o.env.get(k), (Num, Arr)):
                deltas.append(self.info(o, o.env[k]).term)
            elif kind == "heap" and isinstance(o.heap.get(k), Info):
                deltas.append(o.heap[k].term)
        deltas = tuple(deltas)
        # carried variables
        for (kind, k), v in W.items():
            if kind == "env":
                cur = o.env.get(k)
                if isinstance(cur, Num):
                    i = cur.info
                    ent = st.env[k].info.term if isinstance(st.env.get(k), Num) else None
                    t = tm.T(tm.opaque("loop", (site, k, ent) + deltas, (), real=_real(i)))
                    o.env[k] = Num(cur.dt, info_join(i, v.info).rep(term=t) if isinstance(v, Num) else i.rep(term=t))
                elif isinstance(cur, Arr):
                    i = self.info(o, cur)
                    ent = self.info(st, st.env[k]).term if isinstance(st.env.get(k), (Arr, Num)) else None
                    axes = tuple(x for x in cur.axes if x != tm.ONEAX)
                    t = tm.T(tm.opaque("loop", tm.closed((site, k, ent) + deltas, axes), axes, real=_real(i)))
                    o.heap[cur.oid] = i.rep(term=t)
            else:
                c = o.heap.get(k)
                if isinstance(c, Info):
                    h = self.handles.get(k)
                    axes = tuple(x for x in (h.axes if h else ()) if x != tm.ONEAX)
                    n = [kk for kk in W if kk[0] == "heap"].index((kind, k))
                    t = tm.T(tm.opaque("loop", tm.closed((site, "h%d" % n, self.entry_term(st, k)) + deltas, axes), axes, real=_real(c)))
                    prev = W[(kind, k)]
                    o.heap[k] = info_join(c, prev).rep(term=t)
        # map stores and appended lists: bind the loop index
        for k, c in list(o.heap.items()):
            old = st.heap.get(k)
            if c is old:
                continue
            if isinstance(c, Info) and ("heap", k) not in W:
                o.heap[k] = c.rep(term=tm.tsubst(c.term, mp))
            elif isinstance(c, ListCell) and isinstance(old, ListCell) and self.is_append(old, c) and len(c.items) > len(old.items):
                add = c.items[len(old.items):]
                nit = []
                for a in add:
                    nit.append(self.bind_item(a, ax, it, mp, o, len(add)))
                o.heap[k] = ListCell(old.items + tuple(nit), c.deps)
            elif isinstance(c, DictCell) and isinstance(old, DictCell):
                for kk, vv in list(c.d.items()):
                    if kk not in old.d or old.d[kk] is not vv:
                        c2 = c.copy()
                        c2.d[kk] = self.bind_last(vv, mp, site)
                        c = c2
                if c.rest is not None and c.rest is not old.rest:
                    kx, vx, axx = c.rest
                    if axx is None:
                        c = c.copy()
                        c.rest = (self.subst_value(kx, mp, o), self.subst_value(vx, mp, o), ax)
                o.heap[k] = c
        # leftovers in local variables: value of the last iteration
        for k, v in list(o.env.items()):
            if ("env", k) in W:
                continue
            if st.env.get(k) is v:
                continue
            o.env[k] = self.bind_last(v, mp, site)

    def bind_item(self, a, ax, it, mp, o, n):
        if a[0] == "v":
            if n != 1:
                return ("ax", ("flt", ax, "multi"), self.subst_value(a[1], mp, o))
            return ("ax", ax, self.subst_value(a[1], mp, o))
        if a[0] == "opt":
            ax2 = ("flt", ax, tm.tsubst(a[1], mp) if isinstance(a[1], tm.Term) else a[1])
            v = self.subst_value(a[2], mp, o)
            return ("ax", ax2, self.rename_value(v, ax, ax2, o) if isinstance(a[1], tm.Term) else v)
        inner = a[1]
        return ("ax", ("fmap", ax, inner), self.subst_value(a[2], mp, o))

    def bind_last(self, v, mp, site):
        if isinstance(v, Num):
            if any(x in v.info.term.axes() for x in mp):
                return Num(v.dt, v.info.rep(term=tm.T(tm.opaque("last", (site, v.info.term), (), real=_real(v.info)))))
        return v

    def axis_map(self, a, b):
        ia, ib = tm.inner_axes(a), tm.inner_axes(b)
        return {x: y for x, y in zip(ia, ib) if x != y and x != tm.ONEAX}

    def rename_value(self, v, a, b, st):
        return self.subst_value(v, self.axis_map(a, b), st)

    def subst_value(self, v, mp, st):
        if isinstance(v, Num):
            t = tm.tsubst(v.info.term, mp)
            return v if t is v.info.term else Num(v.dt, v.info.rep(term=t), v.val, v.lenof, v.unit)
        if isinstance(v, Arr):
            i = st.heap.get(v.oid, v.init)
            if i.term.axes() & set(mp):
                t = tm.tsubst(i.term, mp)
                axes = [mp.get(x, x) for x in v.axes]
                return Arr(axes, v.dt, i.rep(term=t), root=v.root, parents=frozenset(v.parents or ()) | {v.oid}, unit=v.unit, ma=v.ma)
            return v
        if isinstance(v, Ref) and v.kind == "tuple":
            c = st.heap[v.oid]
            items = tuple((it[0],) + tuple(it[1:-1]) + (self.subst_value(it[-1], mp, st),) for it in c.items)
            r = Ref("tuple")
            st.heap[r.oid] = ListCell(items, c.deps)
            return r
        if isinstance(v, Choice):
            return Choice([(g, self.subst_value(x, mp, st)) for g, x in v.alts])
        return v

    def counter_loop(self, s, st, bind0, bindn, test):
        """Loop whose iteration count is not a data dimension."""
        self.stats["loops"] += 1
        out = Flow(None)
        site = (self.loc[0], self.loc[1], self.ordinal(s))
        saved_pre = getattr(self, "preexist", None)
        self.preexist = PreExist(Arr.n)
        exits = []

        def run(h, bind, record):
            """One iteration from head state h: (state after, exits)."""
            c = h.copy()
            ex = []
            if test is not None:
                ts, fs = self.branch(test, c)
                ex += fs
                c = self.joinall(ts)
                if c is None:
                    return None, ex, None
            if bind is not None:
                bind(c)
            fl = self.block(s.body, c)
            n = self.joinall([x for x in [fl.normal] + fl.conts if x is not None])
            if record:
                out.rets += fl.rets
                out.raises += fl.raises
                ex += fl.brks
            return n, ex, fl

        try:
            s1, e0, _ = run(st, bind0, True)
            exits += e0
            if s1 is not None:
                W = {}
                cur = s1
                base = s1
                ev, hv = self.changed(st, s1)
                self.widen_from(base, s1, ev, hv, site, W)
                self.quiet += 1
                s2 = None
                for _ in range(6):
                    head = self.apply_widen(base, W)
                    s2, _e, _f = run(head, bindn, False)
                    if s2 is None:
                        break
                    ev2, hv2 = self.changed(head, s2)
                    if not self.widen_from(base, s2, ev2, hv2, site, W):
                        break
                self.quiet -= 1
                if s2 is not None:
                    s3, e1, _ = run(s2, bindn, True)
                    exits += e1
                    if test is None:
                        tail = self.join_exit([s1, s2], site, "n")
                        exits.append(tail)
                    else:
                        pass
                else:
                    # second iteration never completes
                    head = self.apply_widen(base, W)
                    _n, e1, _ = run(head, bindn, True)
                    exits += e1
                    if test is None:
                        exits.append(s1)
            exits = [e for e in exits if e is not None]
            if len(exits) > 1:
                for k, e in enumerate(exits):
                    e.guards[("exit",) + site] = k
            out.normal = self.joinall(exits)
            return out
        finally:
            self.preexist = saved_pre

    def join_exit(self, states, site, tag):
        for k, e in enumerate(states):
            e.guards[("exitn",) + site] = k
        return self.joinall(states)

    def widen_from(self, base, o, ev, hv, site, W):
        new = False
        for k in ev:
            if k in base.env and k in o.env:
                a, b = base.env[k], o.env[k]
                if isinstance(a, Unbound) or isinstance(b, Unbound):
                    continue
                v = Joiner(self, base, o, NONE, NONE, NONE, None).val(a, b)
                if isinstance(v, Ref) and v.kind == "tuple":
                    v = self.mu_tuple(v, base, o, site, k)
                    if ("env", k) not in W:
                        W[("env", k)] = v
                        new = True
                    continue
                new |= self.wset(W, ("env", k), v, base, site, k)
        for n, k in enumerate(hv):
            if k not in base.heap and k not in self.handles:
                continue
            old = base.heap.get(k) or self.handles[k].init
            c = Joiner(self, base, o, NONE, NONE, NONE, None).cell(old, o.heap[k])
            key = ("heap", k)
            if isinstance(c, Info):
                h = self.handles.get(k)
                axes = tuple(x for x in (h.axes if h else ()) if x != tm.ONEAX)
                c = c.rep(term=tm.T(tm.opaque("mu", tm.closed((site, "h%d" % n, old.term), axes), axes, real=_real(c))))
                prev = W.get(key)
                if prev is None or not _covers(prev, c):
                    W[key] = c if prev is None else _cover(prev, c)
                    new = True
            elif key not in W:
                W[key] = c
                new = True
        return new

    def mu_tuple(self, v, base, o, site, name):
        c = (o.heap.get(v.oid) or base.heap.get(v.oid))
        if c is None:
            return v
        items = []
        for n, it in enumerate(c.items):
            x = it[-1]
            nm = f"{name}.{n}"
            if isinstance(x, Num):
                x = Num(x.dt, x.info.rep(term=tm.T(tm.opaque("mu", (site, nm, None), (), real=_real(x.info)))))
            elif isinstance(x, Arr):
                i = self.info(o, x)
                x = Arr(x.axes, x.dt, i.rep(term=tm.T(tm.opaque("mu", (site, nm, None), tuple(a for a in x.axes if a != tm.ONEAX), real=_real(i)))), root=x.root, parents=x.parents)
            items.append((it[0],) + tuple(it[1:-1]) + (x,))
        r = Ref("tuple")
        base.heap[r.oid] = ListCell(items)
        return r

    def few(self, s, st, names):
        """Does a loop counted by plain statements of its body end soon?

        None: it goes on for longer than it can be unrolled, and ends by its
        test; False: no end was seen.
        """
        steps = [b for b in s.body if isinstance(b, (ast.Assign, ast.AugAssign)) and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names for x in ast.walk(b))]
        inside = [x for b in s.body if b not in steps for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names]
        if inside or not steps:
            return True
        c = st.copy()
        self.quiet += 1
        try:
            for n in range(MAXUNROLL * 50):
                t = self.truth(self.ev(s.test, c), c)
                if t is None:
                    return True if n <= MAXUNROLL else False
                if t is False:
                    return True if n <= MAXUNROLL else None
                fl = self.block(steps, c)
                c = fl.normal
                if c is None:
                    return True
        except AbsRaise:
            return True
        finally:
            self.quiet -= 1
        return False

    def s_While(self, s, st):
        out = Flow(None)
        cur, brks, n = st, [], 0
        # iterations whose test is decided by known values, one by one
        names = {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)}
        moved = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        few = False
        if names & moved and not any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(s.test)):
            few = self.few(s, st, names)
        if few:
            while cur is not None and n < MAXUNROLL:
                c = cur.copy()
                t = self.truth(self.ev(s.test, c), c)
                if t is not True:
                    break
                n += 1
                fl = self.block(s.body, cur)
                brks += fl.brks
                out.rets += fl.rets
                out.raises += fl.raises
                cur = self.joinall([x for x in [fl.normal] + fl.conts if x is not None])
        if cur is not None:
            fl = self.counter_loop(s, cur, None, None, s.test if few is not None else None)
            out.absorb(fl)
            cur = fl.normal
        if s.orelse and cur is not None:
            f2 = self.block(s.orelse, cur)
            out.absorb(f2)
            cur = f2.normal
        ends = ([cur] if cur is not None else []) + brks
        if n and len(ends) > 1:
            for k, e in enumerate(ends):
                e.guards[("exit", self.loc[0], self.loc[1], s.lineno)] = k
        out.normal = self.joinall(ends)
        return out

    # ------------------------------------------------------------ names
    def lookup(self, name, st):
        fr = self.frames[-1]
        if name not in fr.globals:
            v = st.env.get(name)
            if v is not None:
                if isinstance(v, Unbound):
                    if v.val is None:
                        self.raise_("UnboundLocalError", name)
                    self.mayraise(st, "UnboundLocalError", name)
                    return v.val
                return v
            f = fr.func
            if f is not None and self.is_local(f.node, name):
                self.raise_("UnboundLocalError", f"local variable '{name}' referenced before assignment")
            while f is not None and f.closure is not None:
                env = f.closure if f.frameid.final is None else f.frameid.final
                for x in reversed(self.frames[:-1]):
                    if x is f.frameid and x.st is not None:
                        env = x.st.env
                        break
                if name in env:
                    v = env[name]
                    return v.val if isinstance(v, Unbound) else v
                f = f.frameid.func if f.frameid is not None else None
        ov = st.heap.get(("g", fr.mod.name, name))
        if ov is not None:
            return ov
        v = fr.mod.env.get(name)
        if v is not None:
            return v.val if isinstance(v, Unbound) else v
        b = self.np.builtin(name)
        if b is not None:
            return b
        self.raise_("NameError", f"name '{name}' is not defined")

    _locals = {}

    def is_local(self, node, name):
        s = self._locals.get(node)
        if s is None:
            s = set()
            gl = set()
            stack = list(node.body) if isinstance(node.body, list) else [node.body]
            while stack:
                x = stack.pop()
                if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    s.add(x.name)
                    continue
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    s.add(x.id)
                if isinstance(x, (ast.Global, ast.Nonlocal)):
                    gl |= set(x.names)
                if isinstance(x, ast.ExceptHandler) and x.name:
                    s.add(x.name)
                stack += list(ast.iter_child_nodes(x))
            s -= gl
            self._locals[node] = s
        return name in s

    def bind_name(self, name, v, st):
        fr = self.frames[-1]
        if name in fr.globals:
            self.event("global-write", name=f"{fr.mod.name}.{name}")
            st.heap[("g", fr.mod.name, name)] = v
            return
        if name in fr.nonlocals:
            for x in reversed(self.frames[:-1]):
                if x.st is not None and name in x.st.env:
                    x.st.env[name] = v
                    return
        st.env[name] = v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, st)
            self.setitem(obj, self.ev_index(t.slice, st), v, st)

    def unpack(self, elts, v, st):
        v = self.pick(v, st)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Choice):
            # unpack each alternative that has the right shape and join
            cols = None
            for g, x in v.alts:
                items, d = self.iter_items(x, st)
                if items is None or len(items) != n or any(i[0] != "v" for i in items):
                    continue
                xs = [i[1] for i in items]
                if cols is None:
                    cols = [[(g, y)] for y in xs]
                else:
                    for c, y in zip(cols, xs):
                        c.append((g, y))
            if cols is not None:
                for e, c in zip(elts, cols):
                    self.assign(e, self.merge_choice(c, st), st)
                return
        items, deps = self.iter_items(v, st)
        if items is not None and any(i[0] != "v" for i in items):
            ex = self.expand_items(items, st)
            items = ex
        if items is None:
            for e in elts:

                self.assign(e, self.unknown("unpack", self.deps(st, v)), st)
            return
        if star:
            i = star[0]
            after = n - i - 1
            if len(items) < n - 1:
                self.raise_("ValueError", "not enough values to unpack")
            for e, it in zip(elts[:i], items[:i]):
                self.assign(e, it[-1], st)
            mid = items[i : len(items) - after]
            r = Ref("list")
            st.heap[r.oid] = ListCell(mid)
            self.assign(elts[i].value, r, st)
            for e, it in zip(elts[i + 1 :], items[len(items) - after :]):
                self.assign(e, it[-1], st)
            return
        if len(items) != n:
            self.raise_("ValueError", f"cannot unpack {len(items)} values into {n}")
        for e, it in zip(elts, items):
            self.assign(e, it[-1], st)

    def expand_items(self, items, st):
        out = []
        for it in items:
            if it[0] == "v":
                out.append(it)
                continue
            return None
        return out

    def merge_choice(self, alts, st):
        v = alts[0][1]
        g = frozenset(alts[0][0])
        for g2, x in alts[1:]:
            v = Joiner(self, st, st, frozenset(g), frozenset(g2), NONE, None).val(v, x)
            g = frozenset()
        return v

    def pick(self, v, st):
        """Resolve a Choice under the path guards."""
        if not isinstance(v, Choice):
            return v
        keep = []
        for g, x in v.alts:
            if all(st.guards.get(k, val) == val for k, val in g):
                keep.append((g, x))
        if len(keep) == 1:
            return keep[0][1]
        if not keep:
            return v
        return Choice(keep) if len(keep) < len(v.alts) else v

    # ------------------------------------------------------ expressions
    def ev(self, node, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return self.unknown("expression " + type(node).__name__)
        return m(node, st)

    def e_Constant(self, n, st):
        v = n.value
        if isinstance(v, (bool, int, float, complex)):
            return num(v)
        return Known(v)

    def e_Name(self, n, st):
        return self.pick(self.lookup(n.id, st), st)

    def e_JoinedStr(self, n, st):
        parts = []
        deps = NONE
        known = True
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, st)
                deps = deps | self.deps(st, x)
                spec = None
                if v.format_spec is not None:
                    sv = self.ev(v.format_spec, st)
                    spec = sv.v if isinstance(sv, Known) else None
                    if isinstance(x, Ref) and spec and v.conversion == -1:
                        self.raise_("TypeError", f"unsupported format string passed to {x.kind}.__format__")
                    if isinstance(x, Known) and x.v is None and spec and v.conversion == -1:
                        self.raise_("TypeError", "unsupported format string passed to NoneType.__format__")
                if isinstance(x, Ref):
                    self.np.to_str(st, x)
                if isinstance(x, Known) and isinstance(x.v, str) and not spec:
                    parts.append(x.v)
                elif isinstance(x, Num) and x.val is not NOVAL and not spec and v.conversion == -1:
                    parts.append(str(x.val))
                elif isinstance(spec, str) and v.conversion == -1 and (isinstance(x, Known) and isinstance(x.v, str) or isinstance(x, Num) and x.val is not NOVAL and x.dt in "fi" and isinstance(x.val, (int, float, Fraction))):
                    x = x.v if isinstance(x, Known) else float(x.val) if x.dt == "f" else int(x.val)
                    try:
                        parts.append(format(x, spec))
                    except ValueError as e:
                        self.raise_("ValueError", str(e))
                else:
                    known = False
        if known:
            return Known("".join(parts), deps)
        return Num("U", Info(tm.T(tm.opaque("str", (self.loc[1],))), deps))

    def e_FormattedValue(self, n, st):
        return self.ev(n.value, st)

    def mkseq(self, kind, elts, st):
        items = []
        for e in elts:
            if isinstance(e, ast.Starred):
                x = self.ev(e.value, st)
                its, d = self.iter_items(self.pick(x, st), st)
                if its is None:
                    items.append(("ax", ("anon", tm.opaque("len", (repr(x),)), "star"), self.unknown("star", self.deps(st, x))))
                else:
                    items += its
            else:
                items.append(("v", self.ev(e, st)))
        r = Ref(kind)
        st.heap[r.oid] = ListCell(items)
        return r

    def e_List(self, n, st):
        return self.mkseq("list", n.elts, st)

    def e_Tuple(self, n, st):
        return self.mkseq("tuple", n.elts, st)

    def e_Set(self, n, st):
        return self.mkseq("set", n.elts, st)

    def e_Dict(self, n, st):
        r = Ref("dict")
        c = DictCell()
        st.heap[r.oid] = c
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.pick(self.ev(v, st), st)
                self.np.dict_update(st, r, x, mutate=False)
            else:
                kv = self.ev(k, st)
                self.np.dict_set(st, r, kv, self.ev(v, st), mutate=False)
        return r

    def e_Slice(self, n, st):
        return Slice(*[self.ev(x, st) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def ev_index(self, n, st):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev(x, st) for x in n.elts)
        v = self.ev(n, st)
        if isinstance(v, Ref) and v.kind == "tuple":
            c = st.heap[v.oid]
            if all(i[0] == "v" for i in c.items):
                return tuple(self.pick(i[1], st) for i in c.items)
        return v

    def e_Subscript(self, n, st):
        obj = self.ev(n.value, st)
        idx = self.ev_index(n.slice, st)
        return self.getitem(obj, idx, st)

    def e_Attribute(self, n, st):
        return self.getattr(self.ev(n.value, st), n.attr, st)

    def e_Starred(self, n, st):
        return self.ev(n.value, st)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st)
        return v

    def e_Lambda(self, n, st):
        return self.mkfunc(n, st)

    def e_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            ts, fs = self.branch_value(self.ev(n.operand, st), st)
            if not fs:
                return num(False)
            if not ts:
                return num(True)
            i = self.info(st, self.cond_num(self._lastcond, st))
            return Num("b", i.rep(term=tm.tmap(lambda p: tm.sub(tm.PONE, p), i.term), re=((0.0, 1.0),)))
        return self.np.unary(st, type(n.op).__name__, self.ev(n.operand, st))

    def cond_num(self, c, st):
        if isinstance(c, Num):
            return c
        return Num("b", Info(tm.T(tm.opaque("cond", (repr(c),))), self.deps(st, c), ((0.0, 1.0),)))

    def e_BinOp(self, n, st):
        a = self.ev(n.left, st)
        b = self.ev(n.right, st)
        return self.binop(type(n.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.pick(a, st), self.pick(b, st)
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.over_choice(lambda x, y: self.binop(op, x, y, st), [a, b], st)
        return self.np.binop(st, op, a, b)

    def over_choice(self, f, vals, st):
        """Apply f to every consistent combination of alternatives and join."""
        combos = [({}, [])]
        for v in vals:
            nxt = []
            for g, xs in combos:
                for g2, x in (v.alts if isinstance(v, Choice) else [((), v)]):
                    d = dict(g)
                    if all(d.get(k, val) == val and st.guards.get(k, val) == val for k, val in g2):
                        d.update(dict(g2))
                        nxt.append((d, xs + [x]))
            combos = nxt
        res = None
        rg = None
        deps = NONE
        last = None
        for g, xs in combos:
            try:
                r = f(*xs)
            except AbsRaise as e:
                last = e
                self.mayraise(st, e.exc.name, e.exc.msg)
                continue
            for k in g:
                if k in st.gdeps:
                    deps = deps | st.gdeps[k][0]
            if res is None:
                res, rg = r, frozenset(g.items())
            else:
                res = Joiner(self, st, st, rg, frozenset(g.items()), deps, None).val(res, r)
                rg = frozenset()
        if res is None:
            if last is not None:
                raise last
            return self.unknown("no alternative")
        return res

    def e_Compare(self, n, st):
        left = self.ev(n.left, st)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, st)
            r = self.compare(type(op).__name__, left, right, st)
            if res is None:
                res = r
            else:
                res = self.np.binop(st, "BitAnd", res, r)
            left = right
        return res

    def compare(self, op, a, b, st):
        a, b = self.pick(a, st), self.pick(b, st)
        if isinstance(a, Choice) or isinstance(b, Choice):
            if op in ("Is", "IsNot") and isinstance(a, Choice):
                return self.over_choice_cond(lambda x: self.compare(op, x, b, st), a, st)
            return self.over_choice(lambda x, y: self.compare(op, x, y, st), [a, b], st)
        return self.np.compare(st, op, a, b)

    def over_choice_cond(self, f, ch, st):
        """Condition over alternatives: decided per alternative, guard kept."""
        tr, fa = [], []
        for g, x in ch.alts:
            r = f(x)
            (tr if r.val is True else fa).append(g)
        if not fa:
            return num(True)
        if not tr:
            return num(False)
        deps = NONE
        for g in tr + fa:
            for k, _ in g:
                if k in st.gdeps:
                    deps = deps | st.gdeps[k][0]
        key = None
        if len(tr) == 1 and len(tr[0]) == 1:
            (key, val), = tr[0]
            return Num("b", Info(tm.T(tm.opaque("guard", (key, val))), deps, ((0.0, 1.0),)), NOVAL, lenof=("guard", key, val))
        if len(fa) == 1 and len(fa[0]) == 1:
            (key, val), = fa[0]
            return Num("b", Info(tm.T(tm.opaque("nguard", (key, val))), deps, ((0.0, 1.0),)), NOVAL, lenof=("nguard", key, val))
        return Num("b", Info(tm.T(tm.opaque("cond", (repr(tr),))), deps, ((0.0, 1.0),)))

    # ---------------------------------------------------------- branching
    def branch(self, node, st):
        """(states where true, states where false)"""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.branch(node.operand, st)
            return f, t
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            live, done = [st], []
            for x in node.values:
                nxt = []
                for s in live:
                    t, f = self.branch(x, s)
                    if isand:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                live = [self.joinall(nxt)] if nxt else []
                if not live:
                    break
            done = [self.joinall(done)] if done else []
            return (live, done) if isand else (done, live)
        v = self.ev(node, st)
        t, f = self.branch_value(v, st)
        # narrow names tested against None / by truth value
        if t and f:
            self.narrow(node, t[0], f[0])
        return t, f

    def narrow(self, node, t, f):
        name = None
        if isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.left, ast.Name):
            if isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None:
                if isinstance(node.ops[0], (ast.Is, ast.IsNot)):
                    name = node.left.id
                    if isinstance(node.ops[0], ast.IsNot):
                        t, f = f, t
        if name is None:
            return
        for s, wantnone in ((t, True), (f, False)):
            v = s.env.get(name)
            if isinstance(v, Choice):
                keep = [(g, x) for g, x in v.alts if (isinstance(x, Known) and x.v is None) == wantnone]
                if keep:
                    s.env[name] = keep[0][1] if len(keep) == 1 else Choice(keep)

    def branch_value(self, v, st):
        v = self.pick(v, st)
        self._lastcond = v
        tv = self.truth(v, st)
        if tv is True:
            return [st], []
        if tv is False:
            return [], [st]
        # undecided
        key, want, deps, deg = self.condkey(v, st)
        if key in st.guards:
            return ([st], []) if st.guards[key] == want else ([], [st])
        a, b = st, st.copy()
        a = st.copy()
        for s, val in ((a, want), (b, (not want) if isinstance(want, bool) else ("not", want))):
            s.guards[key] = val
            s.gdeps[key] = (deps, deg)
        if isinstance(key, tuple) and key[0] == "c" and isinstance(want, bool):
            for s, val in ((a, want), (b, not want)):
                if not self.learn(s, key[1], val):
                    pass
        if isinstance(key, tuple) and key[0] == "anybad":
            (b if want is True else a).absent |= key[1]
        return [a], [b]

    def condkey(self, v, st):
        if isinstance(v, Num):
            i = self.info(st, v)
            if isinstance(v.lenof, tuple) and v.lenof and v.lenof[0] == "anybad":
                return ("anybad", v.lenof[1]), True, i.deps, i.deg
            if isinstance(v.lenof, tuple) and v.lenof and v.lenof[0] == "noneb":
                return ("anybad", v.lenof[1]), False, i.deps, i.deg
            if isinstance(v.lenof, tuple) and v.lenof and v.lenof[0] == "guard":
                return v.lenof[1], v.lenof[2], i.deps, i.deg
            if isinstance(v.lenof, tuple) and v.lenof and v.lenof[0] == "nguard":
                return v.lenof[1], ("not", v.lenof[2]) if not isinstance(v.lenof[2], bool) else (not v.lenof[2]), i.deps, i.deg
            p = i.term.single()
            if p is not None:
                if len(p.m) == 1:
                    return ("c", p), True, i.deps, i.deg
                q = tm.sub(tm.PONE, p)
                if len(q.m) == 1:
                    return ("c", q), False, i.deps, i.deg
                return ("c", p), True, i.deps, i.deg
            return ("ct", i.term), True, i.deps, i.deg
        return ("cv",) + self.loc + (repr(v)[:40],), True, self.deps(st, v), 0

    def learn(self, st, p, val):
        """Record what a decided comparison says about intervals."""
        if len(p.m) != 1:
            return True
        (mono, c), = p.m.items()
        if len(mono) != 1 or c != tm.C1:
            return True
        a = tm.Atom.byid[mono[0][0]]
        if a.kind != "bool":
            return True
        op, d = a.key
        k0 = d.m.get((), (tm.ZERO, tm.ZERO))
        rest = {m: x for m, x in d.m.items() if m != ()}
        if len(rest) == 2 and k0 == (tm.ZERO, tm.ZERO) and (val is False and op == "lt" or val is True and op == "eq"):
            self.learn_lens(st, op, rest)
        if len(rest) != 1 or k0[1] != 0:
            return True
        (m1, c1), = rest.items()
        if c1[1] != 0:
            return True
        q = tm.Poly({m1: tm.C1})
        b = float(-k0[0] / c1[0])
        tiny = 1e-300
        if op == "eq":
            if val:
                self.addfact(st, q, ((b, b),))
            elif b == 0:
                self.addfact(st, q, ((-INF, -tiny), (tiny, INF)))
            return True
        up = (c1[0] > 0) == bool(val)  # q < b  or q > b
        if val and b == 0:
            b = -tiny if up else tiny  # strict
        self.addfact(st, q, ((-INF, b),) if up else ((b, INF),))
        return True

    def learn_lens(self, st, op, rest):
        """len(subset) not below len(superset): nothing was left out of the subset."""
        ax = {}
        for m, c in rest.items():
            if len(m) != 1 or m[0][1] != 1 or c[1] != 0 or c[0] not in (1, -1):
                return
            a = tm.Atom.byid[m[0][0]]
            if a.kind != "sym" or a.key[0] != "len":
                return
            x = a.key[1]
            ax[int(c[0])] = (x[1], x[2]) if x[0] == "sel" else (x, NONE)
        if len(ax) != 2 or ax[1][0] != ax[-1][0]:
            return
        pos, neg = ax[1][1], ax[-1][1]  # d = len(pos) - len(neg)
        if neg <= pos:
            st.absent |= pos - neg
        elif op == "eq" and pos <= neg:
            st.absent |= neg - pos

    def addfact(self, st, q, iv):
        st.facts[q] = iv_meet(st.facts.get(q), iv)
        if len(q.m) == 1:
            (m1, c1), = q.m.items()
            if len(m1) == 1 and m1[0][1] == 1 and c1 == tm.C1:
                a = tm.Atom.byid[m1[0][0]]
                if a.kind == "abs":
                    P = a.key[0]
                    lo, hi = iv_bounds(st.facts[q])
                    lo = max(lo, 0.0)
                    if hi < 0:
                        r = ()
                    elif hi < INF:
                        r = ((-hi, hi),) if lo <= 0 else ((-hi, -lo), (lo, hi))
                    else:
                        r = ((-INF, INF),) if lo <= 0 else ((-INF, -lo), (lo, INF))
                    st.facts[P] = iv_meet(st.facts.get(P), r)

    def truth(self, v, st):
        if isinstance(v, Known):
            return bool(v.v)
        if isinstance(v, Num):
            if v.val is not NOVAL:
                return bool(v.val)
            i = self.info(st, v)
            if isinstance(v.lenof, tuple) and v.lenof and v.lenof[0] == "anybad":
                left = v.lenof[1] - st.absent
                return None if left else False
            if isinstance(v.lenof, tuple) and v.lenof and v.lenof[0] == "noneb":
                left = v.lenof[1] - st.absent
                return None if left else True
            c = i.term.rconst() if len(i.term.alts) == 1 else None
            if c is not None:
                return bool(c)
            if len(i.term.alts) > 1:
                cs = [p.rconst() for _, p in i.term.alts]
                if all(x is not None for x in cs):
                    if all(cs):
                        return True
                    if not any(cs):
                        return False
            if i.re is not None and i.re and not iv_has0(i.re) and v.dt in "bif":
                return True
            return None
        if isinstance(v, Arr):
            lens = [tm.axis_len(a).rconst() for a in v.axes]
            if any(l is None or l != 1 for l in lens):
                if all(l is not None for l in lens) or True:
                    n = 1
                    for l in lens:
                        n = None if (l is None or n is None) else n * l
                    if n is not None and n > 1:
                        self.raise_("ValueError", "truth value of an array with more than one element is ambiguous")
                    if n == 0:
                        return False
                    if n is None:
                        self.raise_("ValueError", "truth value of an array with more than one element is ambiguous")
            i = self.info(st, v)
            c = i.term.rconst() if len(i.term.alts) == 1 else None
            return None if c is None else bool(c)
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ListCell):
                if not c.items:
                    return False
                if any(i[0] == "v" for i in c.items):
                    return True
                if any(i[0] == "ax" and i[1][0] in ("base", "lit", "one") for i in c.items):
                    return True
                return None
            if isinstance(c, DictCell):
                if c.cls is not None:
                    r = self.dunder(v, "__bool__", [], st)
                    if r is not None:
                        return self.truth(r, st)
                if any(k not in c.maybe for k in c.d):
                    return True
                if not c.d and c.rest is None:
                    return False
                return None
            if isinstance(c, InstCell):
                for nm in ("__bool__", "__len__"):
                    r = self.dunder(v, nm, [], st)
                    if r is not None:
                        return self.truth(r, st)
                return True
        if isinstance(v, (Func, Cls, Mod, Ext, Bound, BoundF, Exc)):
            return True
        if isinstance(v, Choice):
            r = {self.truth(x, st) for _, x in v.alts}
            return r.pop() if len(r) == 1 else None
        return None

    def dunder(self, v, name, args, st):
        cls = self.cls_of(v, st)
        if cls is None:
            return None
        f = cls.lookup(name)
        if f is None:
            return None
        return self.call(BoundF(f, v), args, {}, st)

    def cls_of(self, v, st):
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, (InstCell, DictCell)):
                return c.cls
        return None

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        v = None
        for k, x in enumerate(n.values):
            v = self.ev(x, st)
            if k == len(n.values) - 1:
                return v
            tv = self.truth(self.pick(v, st), st)
            if tv is None:
                # both possible: evaluate the rest on a refined copy and join
                ts, fs = self.branch_value(v, st)
                cont, stop = (ts, fs) if isand else (fs, ts)
                if not cont:
                    return v
                if not stop:
                    continue
                rest = ast.BoolOp(op=n.op, values=n.values[k + 1 :]) if k + 2 < len(n.values) else n.values[k + 1]
                if isinstance(rest, ast.BoolOp):
                    ast.copy_location(rest, n)
                c, s0 = cont[0], stop[0]
                try:
                    w = self.ev(rest, c)
                except AbsRaise as e:
                    self.mayraise(st, e.exc.name, e.exc.msg)
                    st.become(s0)
                    return v
                c.env["%bool"] = w
                s0.env["%bool"] = v
                j = self.join(c, s0)
                r = j.env.pop("%bool")
                st.become(j)
                if isinstance(v, Num) and isinstance(w, Num) and v.dt == "b" and w.dt == "b":
                    t = tm.tmap(lambda p, q: tm.mul(p, q) if isand else tm.sub(tm.add(p, q), tm.mul(p, q)), v.info.term, w.info.term)
                    return Num("b", Info(t, v.info.deps | w.info.deps, ((0.0, 1.0),), deg=deg_join(v.info.deg, w.info.deg)))
                return r
            if tv != isand:
                return v
        return v

    def e_IfExp(self, n, st):
        ts, fs = self.branch(n.test, st)
        t, f = self.joinall(ts), self.joinall(fs)
        if t is None:
            st.become(f)
            return self.ev(n.orelse, st)
        if f is None:
            st.become(t)
            return self.ev(n.body, st)
        e1 = e2 = None
        try:
            t.env["%if"] = self.ev(n.body, t)
        except AbsRaise as e:
            e1 = e
        try:
            f.env["%if"] = self.ev(n.orelse, f)
        except AbsRaise as e:
            e2 = e
        if e1 and e2:
            raise e1
        if e1 or e2:
            e = e1 or e2
            self.mayraise(st, e.exc.name, e.exc.msg)
            j = f if e1 else t
        else:
            j = self.join(t, f)
        v = j.env.pop("%if")
        st.become(j)
        return v

    # ---------------------------------------------------- comprehensions
    def e_ListComp(self, n, st):
        items, deps = self.comp(n, st, lambda s: self.ev(n.elt, s))
        r = Ref("list")
        st.heap[r.oid] = ListCell(items, deps)
        return r

    def e_SetComp(self, n, st):
        items, deps = self.comp(n, st, lambda s: self.ev(n.elt, s))
        r = Ref("set")
        st.heap[r.oid] = ListCell(items, deps)
        return r

    def e_GeneratorExp(self, n, st):
        items, deps = self.comp(n, st, lambda s: self.ev(n.elt, s))
        return Iter(items, deps)

    def e_DictComp(self, n, st):
        items, deps = self.comp(n, st, lambda s: (self.ev(n.key, s), self.ev(n.value, s)))
        r = Ref("dict")
        c = DictCell(deps=deps)
        st.heap[r.oid] = c
        for it in items:
            k, v = it[-1]
            if it[0] == "v":
                self.np.dict_set(st, r, k, v, mutate=False)
            elif it[0] == "opt":
                self.np.dict_set(st, r, k, v, mutate=False)
                c = st.heap[r.oid]
                if isinstance(k, Known):
                    c2 = c.copy()
                    c2.maybe = c2.maybe | {k.v}
                    st.heap[r.oid] = c2
            else:
                c = st.heap[r.oid].copy()
                c.rest = (k, v, it[1])
                st.heap[r.oid] = c
        return r

    def comp(self, n, st, elt):
        saved = dict(st.env)
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        out = self.comp_gen(n.generators, 0, st, elt)
        items, deps = out
        for k in names:
            if k in saved:
                st.env[k] = saved[k]
            else:
                st.env.pop(k, None)
        return items, deps

    def comp_gen(self, gens, k, st, elt):
        if k == len(gens):
            return [("v", elt(st))], NONE
        g = gens[k]
        it = self.pick(self.ev(g.iter, st), st)
        items, deps = self.iter_items(it, st, ordered=True)
        if items is None:
            return [("ax", ("anon", tm.opaque("niter", (self.loc[1],)), "comp"), self.unknown("comprehension", deps))], deps
        out = []
        for item in items:
            if item[0] == "v":
                self.assign(g.target, item[1], st)
                cond = self.comp_ifs(g.ifs, st)
                if cond is False:
                    continue
                sub, d2 = self.comp_gen(gens, k + 1, st, elt)
                deps = deps | d2
                if cond is not True:
                    deps = deps | cond[1]
                    sub = [("opt", cond[0], s[1]) if s[0] == "v" else s for s in sub]
                out += sub
            else:
                ax = item[1]
                self.loopdepth += 1
                t = tm.retag(ax, "i%d" % self.loopdepth)
                mp = self.axis_map(ax, t)
                back = self.axis_map(t, ax)
                self.assign(g.target, self.subst_value(item[2], mp, st), st)
                cond = self.comp_ifs(g.ifs, st)
                if cond is not False:
                    sub, d2 = self.comp_gen(gens, k + 1, st, elt)
                    deps = deps | d2
                    ax2 = ax
                    if cond is not True:
                        deps = deps | cond[1]
                        key = cond[0]
                        ax2 = ("flt", ax, tm.tsubst(key, back) if isinstance(key, tm.Term) else key)
                        back2 = dict(back)
                        back2.update({})
                    for s_ in sub:
                        v = s_[-1]
                        def bind(x):
                            if isinstance(x, tuple):
                                return tuple(bind(y) for y in x)
                            y = self.subst_value(x, back, st)
                            return self.rename_value(y, ax, ax2, st) if ax2 != ax else y
                        if s_[0] == "v":
                            out.append(("ax", ax2, bind(v)))
                        else:
                            out.append(("ax", ("fmap", ax2, s_[1]), bind(v)))
                self.loopdepth -= 1
        return out, deps

    def comp_ifs(self, ifs, st):
        """True / False / (key, deps)"""
        res = True
        for c in ifs:
            v = self.pick(self.ev(c, st), st)
            tv = self.truth(v, st)
            if tv is False:
                return False
            if tv is None:
                i = self.info(st, v)
                t = i.term
                res = (t, i.deps) if res is True else (tm.tmap(tm.mul, res[0], t), res[1] | i.deps)
        return res

    def e_Yield(self, n, st):
        v = self.ev(n.value, st) if n.value is not None else PYNONE
        fr = self.frames[-1]
        if fr.gen is not None:
            self.np.list_append(st, fr.gen, v)
        return PYNONE

    def e_YieldFrom(self, n, st):
        v = self.ev(n.value, st)
        fr = self.frames[-1]
        if fr.gen is not None:
            self.np.list_extend(st, fr.gen, v)
        return PYNONE

    def e_Await(self, n, st):
        return self.unknown("await")

    # ---------------------------------------------------------- iteration
    def iter_items(self, v, st, ordered=True):
        """Items of an iterable: list of ('v', x) / ('ax', axis, x) ..., deps."""
        v = self.pick(v, st)
        if isinstance(v, Iter):
            return list(v.items), v.deps
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, ListCell):
                if v.kind == "set":
                    strs = [i for i in c.items]
                    if ordered and len(strs) > 1:
                        self.event("set-iteration", n=len(strs))
                    elif ordered and strs and strs[0][0] == "ax":
                        self.event("set-iteration", n=None)
                    if ordered and self.set_reversed:
                        return strs[::-1], c.deps
                return list(c.items), c.deps
            if isinstance(c, DictCell):
                if c.cls is not None:
                    f = c.cls.lookup("__iter__")
                    if f is not None:
                        return self.iter_items(self.call(BoundF(f, v), [], {}, st), st)
                return self.np.dict_keys(c), c.deps
            if isinstance(c, InstCell):
                f = c.cls.lookup("__iter__") if c.cls else None
                if f is not None:
                    return self.iter_items(self.call(BoundF(f, v), [], {}, st), st)
            return None, self.deps(st, v)
        if isinstance(v, Arr):
            return self.np.arr_items(st, v)
        if isinstance(v, Known) and isinstance(v.v, str):
            return [("v", Known(ch)) for ch in v.v], NONE
        if isinstance(v, Known) and v.v is None:
            self.raise_("TypeError", "'NoneType' object is not iterable")
        if isinstance(v, Num) and v.dt in "bifc":
            self.raise_("TypeError", "iteration over a scalar")
        if isinstance(v, (Func, Bound, BoundF, Mod)):
            self.raise_("TypeError", "object is not iterable")
        return None, self.deps(st, v)

    # ------------------------------------------------------- attributes
    def getattr(self, obj, name, st, default=None):
        obj = self.pick(obj, st)
        if isinstance(obj, Choice):
            return self.over_choice(lambda x: self.getattr(x, name, st), [obj], st)
        if isinstance(obj, Mod):
            v = obj.env.get(name)
            if v is None:
                v = self.mods.get(obj.name + "." + name) or (self.load(obj.name + "." + name, st.heap) if obj.path and obj.path.endswith("__init__.py") else None)
            if v is None:
                self.raise_("AttributeError", f"module '{obj.name}' has no attribute '{name}'")
            return v
        if isinstance(obj, Ext):
            return self.np.ext_attr(st, obj, name)
        if isinstance(obj, Ref):
            c = st.heap.get(obj.oid)
            if isinstance(c, (InstCell, DictCell)) and c.cls is not None:
                return self.inst_getattr(obj, c, name, st)
            if name in self.np.METHODS.get(obj.kind, ()):
                return Bound(obj, name)
            self.raise_("AttributeError", f"'{obj.kind}' object has no attribute '{name}'")
        if isinstance(obj, Cls):
            if name == "__name__":
                return Known(obj.name)
            v = obj.lookup(name)
            if v is not None:
                return v
            b = obj.builtin_base()
            if b:
                return Ext(b + "." + name)
            self.raise_("AttributeError", f"class {obj.name} has no attribute {name}")
        if isinstance(obj, (Num, Arr)):
            return self.np.arr_attr(st, obj, name)
        if isinstance(obj, Known):
            if obj.v is None:
                self.raise_("AttributeError", f"'NoneType' object has no attribute '{name}'")
            return Bound(obj, name)
        if isinstance(obj, Func):
            if name == "__name__":
                return Known(obj.name)
            v = st.heap.get(("fa", obj.oid, name))
            if v is not None:
                return v
            if name == "__doc__":
                return Known(ast.get_docstring(obj.node) if isinstance(obj.node, ast.FunctionDef) else None)
            return Bound(obj, name)
        if isinstance(obj, self.np.Dt):
            return self.np.dt_attr(obj, name)
        if isinstance(obj, Exc):
            if name == "args":
                return self.unknown("exc.args")
            return Bound(obj, name)
        if isinstance(obj, (Iter, Bound, BoundF)):
            return Bound(obj, name)
        return self.unknown("attr " + name, self.deps(st, obj))

    def inst_getattr(self, obj, c, name, st):
        cls = c.cls
        m = cls.lookup(name)
        if isinstance(m, Func) and "property" in m.deco:
            try:
                return self.call(BoundF(m, obj), [], {}, st)
            except AbsRaise as e:
                ga = cls.lookup("__getattr__")
                if e.exc.name == "AttributeError" and ga is not None:
                    return self.call(BoundF(ga, obj), [Known(name)], {}, st)
                raise
        if isinstance(c, InstCell) and name in c.attrs:
            return c.attrs[name]
        if m is not None:
            if isinstance(m, Func):
                if "staticmethod" in m.deco:
                    return m
                if "classmethod" in m.deco:
                    return BoundF(m, cls)
                return BoundF(m, obj)
            return m
        if isinstance(c, DictCell) and name in self.np.METHODS["dict"]:
            return Bound(obj, name)
        if name == "__class__":
            return cls
        if name == "__dict__":
            return self.unknown("__dict__")
        ga = cls.lookup("__getattr__")
        if ga is not None:
            return self.call(BoundF(ga, obj), [Known(name)], {}, st)
        b = cls.builtin_base()
        if b and not isinstance(c, DictCell):
            return Bound(obj, name)
        self.raise_("AttributeError", f"'{cls.name}' object has no attribute '{name}'")

    def setattr(self, obj, name, v, st):
        obj = self.pick(obj, st)
        if isinstance(obj, Choice):
            for _, x in obj.alts:
                self.setattr(x, name, v, st)
            return
        if isinstance(obj, Mod):
            self.event("global-write", name=f"{obj.name}.{name}")
            st.heap[("g", obj.name, name)] = v
            return
        if isinstance(obj, Ext):
            self.event("ext-write", name=f"{obj.path}.{name}")
            return
        if isinstance(obj, Ref):
            c = st.heap.get(obj.oid)
            if isinstance(c, (InstCell, DictCell)) and c.cls is not None:
                m = c.cls.lookup(name)
                sa = c.cls.lookup("__setattr__")
                if sa is not None:
                    self.call(BoundF(sa, obj), [Known(name), v], {}, st)
                    return
                if isinstance(m, Func) and "property" in m.deco:
                    self.raise_("AttributeError", "can't set attribute " + name)
                self.touch(obj, "set attribute " + name)
                if isinstance(c, InstCell):
                    n = InstCell(c.cls, c.attrs)
                    n.attrs[name] = v
                    st.heap[obj.oid] = n
                return
            self.raise_("AttributeError", f"'{obj.kind}' object has no attribute '{name}'")
        if isinstance(obj, Arr):
            self.np.arr_setattr(st, obj, name, v)
            return
        if isinstance(obj, Func):
            self.event("global-write", name=f"{obj.qual}.{name}")
            st.heap[("fa", obj.oid, name)] = v
            return
        if isinstance(obj, Cls):
            self.event("global-write", name=f"{obj.name}.{name}")
            return
        if isinstance(obj, Known):
            self.raise_("AttributeError", f"cannot set attribute on {obj.v!r}")

    # ------------------------------------------------------------- items
    def getitem(self, obj, idx, st):
        obj = self.pick(obj, st)
        if isinstance(idx, Value):
            idx = self.pick(idx, st)
        if isinstance(obj, Choice):
            return self.over_choice(lambda x: self.getitem(x, idx, st), [obj], st)
        if isinstance(idx, Choice):
            return self.over_choice(lambda x: self.getitem(obj, x, st), [idx], st)
        if isinstance(obj, Ref):
            c = st.heap.get(obj.oid)
            if isinstance(c, (InstCell, DictCell)) and c.cls is not None:
                f = c.cls.lookup("__getitem__")
                if f is not None:
                    return self.call(BoundF(f, obj), [idx], {}, st)
        return self.np.getitem(st, obj, idx)

    def setitem(self, obj, idx, v, st):
        obj = self.pick(obj, st)
        if isinstance(idx, Value):
            idx = self.pick(idx, st)
        if isinstance(obj, Choice):
            for _, x in obj.alts:
                if isinstance(x, (Arr, Ref)):
                    self.setitem(x, idx, v, st)
            return
        if isinstance(obj, Ref):
            c = st.heap.get(obj.oid)
            if isinstance(c, (InstCell, DictCell)) and c.cls is not None:
                f = c.cls.lookup("__setitem__")
                if f is not None:
                    self.call(BoundF(f, obj), [idx, v], {}, st)
                    return
        self.np.setitem(st, obj, idx, v)

    # ------------------------------------------------------------- calls
    def e_Call(self, n, st):
        # super() and zero-arg locals
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            fr = self.frames[-1]
            if fr.func is not None and fr.func.cls is not None:
                slf = st.env.get(fr.func.node.args.args[0].arg)
                return Super(fr.func.cls, slf)
        if isinstance(n.func, ast.Name) and n.func.id == "locals" and not n.args:
            r = Ref("dict")
            st.heap[r.oid] = DictCell(dict(st.env))
            return r
        f = self.ev(n.func, st)
        args, kwargs = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                x = self.pick(self.ev(a.value, st), st)
                items, d = self.iter_items(x, st)
                if items is None or any(i[0] != "v" for i in items):
                    args.append(self.unknown("*args", d))
                else:
                    args += [i[1] for i in items]
            else:
                args.append(self.ev(a, st))
        for k in n.keywords:
            if k.arg is None:
                x = self.pick(self.ev(k.value, st), st)
                if isinstance(x, Ref) and isinstance(st.heap.get(x.oid), DictCell):
                    c = st.heap[x.oid]
                    for kk, vv in c.d.items():
                        if kk in kwargs:
                            self.raise_("TypeError", f"multiple values for keyword argument '{kk}'")
                        kwargs[kk] = vv
                    if c.rest is not None:
                        kwargs["**"] = x
                else:
                    kwargs["**"] = x
            else:
                if k.arg in kwargs:
                    self.raise_("TypeError", f"multiple values for keyword argument '{k.arg}'")
                kwargs[k.arg] = self.ev(k.value, st)
        self.setloc(n)
        return self.call(f, args, kwargs, st, n)

    def call(self, f, args, kwargs, st, node=None):
        f = self.pick(f, st)
        self.stats["calls"] += 1
        if isinstance(f, Choice):
            return self.over_choice(lambda x: self.call(x, args, kwargs, st, node), [f], st)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, st)
        if isinstance(f, BoundF):
            return self.call(f.fn, [f.self_] + list(args), kwargs, st)
        if isinstance(f, Bound):
            if isinstance(f.obj, Ext):
                return self.np.call_ext(st, f.obj.path + "." + f.name, args, kwargs)
            return self.call_method(f.obj, f.name, args, kwargs, st)
        if isinstance(f, Ext):
            return self.np.call_ext(st, f.path, args, kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st)
        if isinstance(f, Super):
            return self.unknown("super call")
        if isinstance(f, Ref):
            r = self.dunder(f, "__call__", args, st)
            if r is not None:
                return r
            self.raise_("TypeError", f"'{f.kind}' object is not callable")
        if isinstance(f, (Num, Arr, Known)):
            self.raise_("TypeError", "object is not callable")
        if isinstance(f, Exc):
            if f.loc is None:  # the class
                a = self.pick(args[0], st) if args else None
                return Exc(f.name, str(a.v) if isinstance(a, Known) else "", self.loc, tuple(args))
            self.raise_("TypeError", "exception instance is not callable")
        d = NONE
        for a in args:
            d = d | self.deps(st, a)
        return self.unknown("call of unknown", d | self.deps(st, f))

    def call_method(self, obj, name, args, kwargs, st):
        return self.np.method(st, obj, name, args, kwargs)

    def instantiate(self, cls, args, kwargs, st):
        base = cls.builtin_base()
        if cls.name in self.user_exc:
            return Exc(cls.name, "", self.loc, tuple(args))
        if base in ("builtins.dict", "collections.OrderedDict"):
            r = Ref("inst")
            st.heap[r.oid] = DictCell(cls=cls)
        elif base in ("builtins.list", "builtins.tuple", "builtins.set"):
            return self.unknown("subclass of " + base)
        else:
            r = Ref("inst")
            st.heap[r.oid] = InstCell(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(BoundF(init, r), args, kwargs, st)
        elif isinstance(st.heap[r.oid], DictCell):
            self.np.method(st, r, "__init__", args, kwargs)
        elif args or kwargs:
            # dataclass-like / namedtuple-like: bind annotated fields in order
            fields = [s.target.id for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
            if fields:
                c = InstCell(cls, {k: v for k, v in cls.ns.items() if k in fields})
                for k, v in zip(fields, args):
                    c.attrs[k] = v
                c.attrs.update(kwargs)
                st.heap[r.oid] = c
            else:
                self.raise_("TypeError", f"{cls.name}() takes no arguments")
        return r

    def bind_params(self, f, args, kwargs, st):
        a = f.node.args
        env = {}
        kwargs = dict(kwargs)
        star = kwargs.pop("**", None)
        pos = a.posonlyargs + a.args
        names = [p.arg for p in pos]
        if len(args) > len(names) and not a.vararg:
            self.raise_("TypeError", f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given")
        for nme, v in zip(names, args):
            env[nme] = v
        if a.vararg:
            r = Ref("tuple")
            st.heap[r.oid] = ListCell([("v", v) for v in args[len(names):]])
            env[a.vararg.arg] = r
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kwargs.items():
            if k in names[len(a.posonlyargs):] or k in kwonly:
                if k in env:
                    self.raise_("TypeError", f"{f.name}() got multiple values for argument '{k}'")
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument '{k}'")
        nd = len(f.defaults)
        for i, nme in enumerate(names):
            if nme not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[nme] = f.defaults[j]
                elif star is not None:
                    env[nme] = self.unknown("**kwargs")
                else:
                    self.raise_("TypeError", f"{f.name}() missing required argument '{nme}'")
        for nme in kwonly:
            if nme not in env:
                if nme in f.kwdefaults:
                    env[nme] = f.kwdefaults[nme]
                else:
                    self.raise_("TypeError", f"{f.name}() missing keyword argument '{nme}'")
        if a.kwarg:
            r = Ref("dict")
            c = DictCell(extra)
            if isinstance(star, Ref) and isinstance(st.heap.get(star.oid), DictCell):
                c.rest = st.heap[star.oid].rest
            st.heap[r.oid] = c
            env[a.kwarg.arg] = r
        return env

    def letbind(self, v):
        """Name large scalar terms so that they stay comparable but small."""
        if isinstance(v, Num) and v.val is NOVAL:
            if any(len(p.m) > 8 for _, p in v.info.term.alts):
                alts = []
                for g, p in v.info.term.alts:
                    if len(p.m) > 8:
                        p = tm.opaque("let", (p,), tuple(sorted(p.axes(), key=tm.ordk)), real=p.all_real())
                    alts.append((g, p))
                return Num(v.dt, v.info.rep(term=tm.mkterm(alts)), v.val, v.lenof, v.unit)
        return v

    def call_func(self, f, args, kwargs, st):
        key = (f.mod.name, f.qual)
        self.stats["funcs"].add(key)
        if len(self.frames) > 60 or sum(1 for fr in self.frames if fr.func is f) > 4:
            d = NONE
            for x in list(args) + list(kwargs.values()):
                d = d | self.deps(st, x)
            return self.unknown("recursion " + f.qual, d)
        args = [self.letbind(self.pick(x, st)) for x in args]
        kwargs = {k: self.letbind(self.pick(x, st)) for k, x in kwargs.items()}
        summ = self.summaries.get(f.qual)
        if summ is not None:
            r = summ(self, f, args, kwargs, st)
            if r is not None:
                return r
        saved_loc = self.loc
        env = self.bind_params(f, args, kwargs, st)
        if "cache" in f.deco:
            self.event("cached-call", func=f.qual)
        hook = self.trace_calls.get(f.qual)
        if hook is not None:
            hook(self, f, env, st)
        fr = Frame(f, f.mod)
        fr.callloc = saved_loc
        self.frames.append(fr)
        sub = State(env, st.heap)
        sub.guards = dict(st.guards)
        sub.gdeps = dict(st.gdeps)
        sub.facts = dict(st.facts)
        sub.absent = st.absent
        fr.st = sub
        saved_cls = getattr(self, "_clsname", None)
        self._clsname = None
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.ev(f.node.body, sub)
                finally:
                    self.frames.pop()
                st.heap = sub.heap
                return v
            isgen = is_generator(f.node)
            if isgen:
                fr.gen = Ref("list")
                sub.heap[fr.gen.oid] = ListCell(())
            try:
                flow = self.block(f.node.body, sub)
            finally:
                self.frames.pop()
        finally:
            self._clsname = saved_cls
            self.loc = saved_loc
        rets = list(flow.rets)
        if flow.normal is not None:
            rets.append((flow.normal, PYNONE))
        if isgen:
            outs = []
            for s, _v in rets:
                outs.append((s, Iter(s.heap[fr.gen.oid].items)))
            rets = outs
        if not rets:
            if flow.raises:
                # keep the caller's heap as the raising path left it
                s, e = flow.raises[0]
                st.heap = s.heap
                raise AbsRaise(e)
            raise AbsRaise(Exc("NonTermination", f.qual, self.loc))
        for s, e in flow.raises:
            self.event("mayraise", exc=e.name, why=e.msg, loc=e.loc or self.loc)
        # exceptions on some paths only: remember them for the rules
        for s, e in flow.raises:
            self.event("partial-raise", exc=e, func=f.qual, guards=dict(s.guards), gdeps=dict(s.gdeps))
        for s, v in rets:
            s.env["%ret"] = v
            if not nested_funcs(f.node):
                for k in [k for k in s.env if k != "%ret"]:
                    del s.env[k]
        res = rets[0][0]
        for s, _v in rets[1:]:
            res = self.join(res, s)
        v = res.env["%ret"]
        if isinstance(v, Unbound):
            v = v.val
        if len(res.env) > 1:
            fr.final = res.env
        st.heap = res.heap
        # facts learnt inside remain valid (they are about values, on the
        # paths that return)
        st.guards.update(res.guards)
        st.gdeps.update(res.gdeps)
        st.facts = dict(res.facts)
        st.absent = res.absent
        return v


class Super(Value):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class PreExist:
    """Arrays allocated before the loop started."""

    def __init__(self, n):
        self.n = n

    def __contains__(self, k):
        return k[0] == "a" and k[1] <= self.n


class ChainEnv(dict):
    def __init__(self, outer):
        super().__init__()
        self.outer = outer

    @property
    def own(self):
        return {k: v for k, v in dict.items(self)}

    def get(self, k, d=None):
        if dict.__contains__(self, k):
            return dict.__getitem__(self, k)
        return self.outer.get(k, d)


_gen = {}
_nested = {}


def nested_funcs(node):
    r = _nested.get(node)
    if r is None:
        r = _nested[node] = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for b in node.body for x in ast.walk(b))
    return r


def is_generator(node):
    r = _gen.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack += list(ast.iter_child_nodes(x))
        _gen[node] = r
    return r


def alias_ext(p):
    return {"scipy.signal": "scipy.signal", "numpy.ma": "numpy.ma"}.get(p, p)


def _targets(n, out):
    if isinstance(n, ast.Name):
        out.add(n.id)
    elif isinstance(n, (ast.Tuple, ast.List)):
        for x in n.elts:
            _targets(x, out)
    elif isinstance(n, ast.Starred):
        _targets(n.value, out)


def _loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}


def _live_in(body, killed, live):
    """Names read before being assigned, along a block; killed is updated."""
    for s in body:
        if isinstance(s, ast.Assign) and not isinstance(s, ast.AugAssign):
            live |= _loads(s.value) - killed
            for t in s.targets:
                live |= _loads(t) - killed
            for t in s.targets:
                _targets(t, killed)
        elif isinstance(s, ast.If):
            live |= _loads(s.test) - killed
            a, b = set(killed), set(killed)
            _live_in(s.body, a, live)
            _live_in(s.orelse, b, live)
            killed |= a & b
        elif isinstance(s, ast.AugAssign):
            live |= (_loads(s) | {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}) - killed
        else:
            live |= _loads(s) - killed
            live |= {x.target.id for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)} - killed


def dead_at_entry(loop):
    """Names a for loop assigns in every iteration before any use of them."""
    if any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in ast.walk(loop)):
        return set()
    killed, live = set(), set()
    _targets(loop.target, killed)
    _live_in(loop.body, killed, live)
    return killed - live


def _real(i):
    return i.im == ((0.0, 0.0),)


def _covers(a, b):
    """a (earlier widened info) already includes b, terms aside."""
    if not b.deps <= a.deps or not b.inv <= a.inv or not b.mk <= a.mk:
        return False
    for x, y in ((a.re, b.re), (a.im, b.im)):
        if x is None:
            continue
        if y is None:
            return False
        if iv_join(x, y) != x:
            return False
    return deg_join(a.deg, b.deg) == a.deg


def _cover(a, b):
    def w(x, y):
        if x is None or y is None:
            return None
        j = iv_join(x, y)
        if j == x:
            return x
        lo = x[0][0] if x and j[0][0] >= x[0][0] else (0.0 if j[0][0] >= 0 else -INF)
        hi = x[-1][1] if x and j[-1][1] <= x[-1][1] else INF
        return ((lo, hi),)

    return Info(a.term, a.deps | b.deps, w(a.re, b.re), w(a.im, b.im), deg_join(a.deg, b.deg), a.inv | b.inv, a.mk | b.mk, None)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Num) and isinstance(b, Num):
        return a.dt == b.dt and (a.val is b.val or (a.val is not NOVAL and b.val is not NOVAL and a.val == b.val)) and a.info.same(b.info)
    if isinstance(a, Known) and isinstance(b, Known):
        return type(a.v) is type(b.v) and a.v == b.v
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.oid == b.oid
    return False


def same_cell(a, b):
    if a is b:
        return True
    if isinstance(a, Info) and isinstance(b, Info):
        return a.same(b)
    if isinstance(a, ListCell) and isinstance(b, ListCell):
        return len(a.items) == len(b.items) and all(x[0] == y[0] and same_value(x[-1], y[-1]) for x, y in zip(a.items, b.items))
    if isinstance(a, DictCell) and isinstance(b, DictCell):
        return list(a.d) == list(b.d) and all(same_value(a.d[k], b.d[k]) for k in a.d) and a.rest is b.rest
    if isinstance(a, InstCell) and isinstance(b, InstCell):
        return list(a.attrs) == list(b.attrs) and all(same_value(a.attrs[k], b.attrs[k]) for k in a.attrs)
    return False


class Joiner:
    """Value-level join of two states."""

    def __init__(self, I, a, b, ga, gb, cdeps, cbad):
        self.I, self.a, self.b, self.ga, self.gb = I, a, b, ga, gb
        self.cdeps, self.cbad = cdeps, cbad
        self.newcells = {}

    def info(self, x, y):
        if x is y:
            return x
        if x.same(y):
            return x
        if self.a is not self.b:
            if self.a.absent and (x.inv & self.a.absent or x.mk & self.a.absent):
                x = x.rep(inv=x.inv - self.a.absent, mk=x.mk - self.a.absent)
            if self.b.absent and (y.inv & self.b.absent or y.mk & self.b.absent):
                y = y.rep(inv=y.inv - self.b.absent, mk=y.mk - self.b.absent)
            if x.term == y.term:
                pass
            else:
                x, y = self.bound(self.a, x), self.bound(self.b, y)
        j = info_join(x, y, self.ga, self.gb)
        if x.term == y.term:
            # same value on both sides
            return j.rep(deps=x.deps | y.deps)
        if x.ok != y.ok and x.ok and y.ok and x.ok[0] == y.ok[0]:
            ax, ay = x.ok[1], y.ok[1]
            if (ax - ay) <= self.b.absent and (ay - ax) <= self.a.absent:
                j = j.rep(ok=(x.ok[0], ax | ay))
        if self.cdeps:
            j = j.rep(deps=j.deps | self.cdeps)
        if self.cbad is not None:
            j = j.rep(deg=self.cbad)
        return j

    @staticmethod
    def bound(s, i):
        """Interval as known from the branch conditions of one side."""
        if s.facts:
            p = i.term.single()
            f = s.facts.get(p) if p is not None else None
            if f:
                return i.rep(re=iv_meet(i.re, f))
        return i

    def val(self, x, y):
        I = self.I
        if x is y:
            return x
        if isinstance(x, Unbound) or isinstance(y, Unbound):
            xv = x.val if isinstance(x, Unbound) else x
            yv = y.val if isinstance(y, Unbound) else y
            if xv is None or yv is None:
                return Unbound(xv or yv)
            return Unbound(self.val(xv, yv))
        if isinstance(x, Num) and isinstance(y, Num):
            if same_value(x, y):
                if x.lenof != y.lenof:
                    return Num(x.dt, x.info, x.val, None, x.unit)
                return x
            if x.dt == y.dt or (x.dt in "bifc" and y.dt in "bifc"):
                dt = x.dt if x.dt == y.dt else max(x.dt, y.dt, key="bifc".index)
                return Num(dt, self.info(x.info, y.info), NOVAL, x.lenof if x.lenof == y.lenof else None, x.unit)
        if isinstance(x, Known) and isinstance(y, Known) and type(x.v) is type(y.v) and x.v == y.v:
            return x if x.deps == y.deps else Known(x.v, x.deps | y.deps)
        if isinstance(x, Arr) and isinstance(y, Arr):
            if x.oid == y.oid:
                return x
            r = self.arrs(x, y)
            if r is not None:
                return r
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.oid == y.oid:
                return x
            r = self.refs(x, y)
            if r is not None:
                return r
        if isinstance(x, Ext) and isinstance(y, Ext) and x.path == y.path:
            return x
        if isinstance(x, BoundF) and isinstance(y, BoundF) and x.fn is y.fn and same_value(x.self_, y.self_):
            return x
        if isinstance(x, Unknown) and isinstance(y, Unknown):
            return Unknown(x.why, x.deps | y.deps)
        if isinstance(x, Slice) and isinstance(y, Slice):
            def c(p, q):
                if p is None and q is None:
                    return None
                if p is None or q is None:
                    return False
                return self.val(p, q)
            z = [c(p, q) for p, q in ((x.lo, y.lo), (x.hi, y.hi), (x.step, y.step))]
            if False not in z:
                return Slice(*z)
        return self.choice(x, y)

    def choice(self, x, y):
        alts = []
        for v, g in ((x, self.ga), (y, self.gb)):
            if isinstance(v, Choice):
                for g2, w in v.alts:
                    if tm.consistent(frozenset(g2), g):
                        alts.append((frozenset(g2) | g, w))
            else:
                alts.append((g, v))
        # merge equal alternatives
        out = []
        for g, v in alts:
            for k, (g2, w) in enumerate(out):
                if same_value(v, w):
                    out[k] = (g & g2, w)
                    break
            else:
                out.append((g, v))
        if len(out) == 1:
            return out[0][1]
        if len(out) > 8:
            d = NONE
            for _, v in out:
                d = d | self.I.deps(self.a, v) | self.I.deps(self.b, v)
            return self.I.unknown("too many alternatives", d | self.cdeps)
        return Choice(out)

    def arrs(self, x, y):
        if len(x.axes) != len(y.axes):
            return None
        I = self.I
        ix = self.a.heap.get(x.oid, x.init)
        iy = self.b.heap.get(y.oid, y.init)
        axes = []
        for p, q in zip(x.axes, y.axes):
            if p == q:
                axes.append(p)
                continue
            u = unify_axis(p, self.a.absent, q, self.b.absent)
            if u is None:
                return None
            axes.append(u)
        ix = ix.rep(term=tm.rename_axes(ix.term, x.axes, axes))
        iy = iy.rep(term=tm.rename_axes(iy.term, y.axes, axes))
        dt = x.dt if x.dt == y.dt else (max(x.dt, y.dt, key="bifc".index) if x.dt in "bifc" and y.dt in "bifc" else None)
        if dt is None:
            return None
        inf = self.info(ix, iy)
        root = (x.root or NONE) | (y.root or NONE) or None
        par = frozenset(x.parents or ()) | frozenset(y.parents or ()) | {x.oid, y.oid}
        I.handles.setdefault(x.oid, x)
        I.handles.setdefault(y.oid, y)
        return I.newarr(axes, dt, inf, root=root, parents=par, unit=x.unit, ma=x.ma or y.ma) if axes else Num(dt, inf)

    def refs(self, x, y):
        cx = self.a.heap.get(x.oid) or self.newcells.get(x.oid)
        cy = self.b.heap.get(y.oid) or self.newcells.get(y.oid)
        if cx is None or cy is None or x.kind != y.kind:
            return None
        if isinstance(cx, ListCell) and isinstance(cy, ListCell) and x.kind in ("tuple", "list"):
            if len(cx.items) == len(cy.items) and all(p[0] == q[0] == "v" for p, q in zip(cx.items, cy.items)) and len(cx.items) <= 12:
                r = Ref(x.kind)
                r.root = x.root or y.root
                self.newcells[r.oid] = ListCell([("v", self.val(p[1], q[1])) for p, q in zip(cx.items, cy.items)], cx.deps | cy.deps | self.cdeps)
                return r
            if len(cx.items) == len(cy.items) and all(p[0] == q[0] for p, q in zip(cx.items, cy.items)) and all(
                    p[0] != "ax" or p[1] == q[1] for p, q in zip(cx.items, cy.items)):
                r = Ref(x.kind)
                r.root = x.root or y.root
                self.newcells[r.oid] = ListCell([tuple(p[:-1]) + (self.val(p[-1], q[-1]),) for p, q in zip(cx.items, cy.items)], cx.deps | cy.deps | self.cdeps)
                return r
        return None

    def cell(self, x, y):
        if same_cell(x, y):
            return x
        if isinstance(x, Info) and isinstance(y, Info):
            return self.info(x, y)
        if isinstance(x, DictCell) and isinstance(y, DictCell):
            d = {}
            maybe = set(x.maybe) | set(y.maybe)
            for k in list(x.d) + [k for k in y.d if k not in x.d]:
                if k in x.d and k in y.d:
                    d[k] = self.val(x.d[k], y.d[k])
                else:
                    d[k] = x.d.get(k, y.d.get(k))
                    maybe.add(k)
            return DictCell(d, x.rest or y.rest, x.cls, frozenset(maybe), x.deps | y.deps | self.cdeps)
        if isinstance(x, InstCell) and isinstance(y, InstCell):
            c = InstCell(x.cls)
            for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
                if k in x.attrs and k in y.attrs:
                    c.attrs[k] = self.val(x.attrs[k], y.attrs[k])
                else:
                    c.attrs[k] = x.attrs.get(k, y.attrs.get(k))
            return c
        if isinstance(x, ListCell) and isinstance(y, ListCell):
            nx, ny = len(x.items), len(y.items)
            n = min(nx, ny)
            items = []
            ok = True
            for p, q in zip(x.items[:n], y.items[:n]):
                if p[0] == q[0] == "v":
                    items.append(("v", self.val(p[1], q[1])))
                elif p[0] == q[0] and p[1] == q[1]:
                    items.append(tuple(p[:-1]) + (self.val(p[-1], q[-1]),))
                else:
                    ok = False
            if ok:
                for z in (x.items[n:] or y.items[n:]):
                    if z[0] == "v":
                        g = self.ga if nx > ny else self.gb
                        key = guard_term(g)
                        items.append(("opt", repr(next(iter(g), None)) if key is None else key, z[1]))
                    else:
                        items.append(z)
                return ListCell(items, x.deps | y.deps | self.cdeps)
            return ListCell([("ax", ("anon", tm.opaque("len", ("join",)), "join"), self.I.unknown("list join", self.cdeps))], x.deps | y.deps | self.cdeps)
        if isinstance(x, Value) and isinstance(y, Value):
            return self.val(x, y)
        return x


def guard_term(g):
    """The path condition as a 0/1 valued term; None when it is not one."""
    out = tm.T(tm.pconst(1))
    for k, v in sorted(g, key=repr):
        if v not in (True, False) or k[0] not in ("c", "ct"):
            return None
        t = tm.T(k[1]) if k[0] == "c" else k[1]
        out = tm.tmap(tm.mul, out, t if v else tm.tmap(lambda p: tm.sub(tm.pconst(1), p), t))
    return out


def tokens(ax):
    if ax[0] == "sel":
        return ax[1], ax[2]
    return ax, NONE


def unify_axis(p, absp, q, absq):
    bp, tp = tokens(p)
    bq, tq = tokens(q)
    if bp != bq:
        return None
    for t in (tp | tq, tp, tq, tp & tq):
        if (t ^ tp) <= absp and (t ^ tq) <= absq:
            return ("sel", bp, t) if t else bp
    return None
