"""Python builtins, small library modules and constants of numpy."""

import math

from . import prelude
from . import terms as tm
from .vals import *
from .vals import NONE
from .npcore import Dt

BUILTINS = {"len", "range", "zip", "enumerate", "min", "max", "sum", "abs", "sorted", "list", "tuple", "dict", "set", "frozenset",
            "str", "repr", "print", "isinstance", "issubclass", "type", "getattr", "hasattr", "setattr", "delattr", "round", "int", "float", "bool",
            "complex", "any", "all", "map", "filter", "reversed", "iter", "next", "open", "exec", "eval", "compile", "id", "hash",
            "callable", "pow", "divmod", "object", "property", "staticmethod", "classmethod", "globals", "vars", "dir", "input",
            "format", "ord", "chr", "slice", "bytes", "bytearray", "memoryview", "__import__", "ascii", "bin", "hex", "oct", "super"}

CONSTS = {"numpy.pi": math.pi, "math.pi": math.pi, "numpy.e": math.e, "math.e": math.e, "numpy.inf": math.inf, "numpy.Inf": math.inf, "math.inf": math.inf,
          "numpy.PINF": math.inf, "numpy.NINF": -math.inf, "math.tau": 2 * math.pi, "numpy.euler_gamma": 0.5772156649015329,
          "sys.maxsize": 2 ** 63 - 1, "sys.float_info.epsilon": 2.0 ** -52}
for _f in ("numpy.finfo()", "numpy.iinfo()"):
    CONSTS.update({_f + ".eps": 2.0 ** -52, _f + ".tiny": 2.2250738585072014e-308, _f + ".max": 1.7976931348623157e308, _f + ".min": -1.7976931348623157e308,
                   _f + ".resolution": 1e-15})
NANS = {"numpy.nan", "numpy.NaN", "numpy.NAN", "math.nan"}

ENVREAD = ("os.environ", "os.getenv", "os.cpu_count", "os.getpid", "os.getcwd", "platform.", "socket.", "locale.", "sys.argv", "os.listdir", "glob.",
           "getpass.", "os.uname", "uuid.", "secrets.", "os.urandom")
CLOCK = ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.localtime", "time.gmtime", "time.strftime", "datetime.datetime.now",
         "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "time.time_ns")


class Builtins:
    def builtin(self, name):
        from .interp import BUILTIN_EXC

        if name in BUILTIN_EXC:
            return Exc(name)
        if name in BUILTINS:
            return Ext("builtins." + name)
        if name == "Ellipsis":
            return Known(Ellipsis)
        if name == "NotImplemented":
            return Known(NotImplemented)
        if name in ("__builtins__",):
            return Ext("builtins")
        if name == "__debug__":
            return num(True)
        return None

    def ext_attr(self, st, e, name):
        p = e.path + "." + name
        if p in CONSTS:
            return num(CONSTS[p])
        if p in NANS:
            return Num("f", Info(tm.T(tm.opaque("const", ("nan",))), NONE, (), deg=ANY))
        if p in ("numpy.newaxis",):
            return PYNONE
        if p in ("numpy.True_",):
            return num(True)
        if p in ("numpy.False_",):
            return num(False)
        if name == "LinAlgError":
            return Exc("LinAlgError")
        if p == "numpy.ma.nomask":
            return num(False)
        if name == "__version__":
            return Known("0", NONE)
        if e.path.startswith("builtins.") and name == "__name__":
            return Known(e.path.split(".")[1])
        if any(p.startswith(x) for x in ENVREAD):
            self.I.event("env", what=p)
        return Ext(p)

    def ext_item(self, st, e, idx):
        if e.path in ("numpy.r_", "numpy.c_"):
            xs = list(idx) if isinstance(idx, tuple) else [idx]
            if any(isinstance(x, Slice) for x in xs):
                return self.unk("r_", st)
            l = self.mktuple(st, xs)
            if e.path == "numpy.c_":
                return self.table["column_stack"](st, l)
            arrs = [self.A(st, x) for x in xs]
            ys = [self.table["atleast_1d"](st, a) for a in arrs]
            return self.table["concatenate"](st, self.mktuple(st, ys))
        if e.path.startswith("os.environ"):
            self.I.event("env", what=e.path)
            return self.str_result(st)
        if e.path in ("numpy.s_", "numpy.index_exp"):
            return self.unk("s_", st)
        return self.I.unknown("item of " + e.path)

    # --------------------------------------------------------- calls
    def call_ext(self, st, path, args, kwargs):
        I = self.I
        args = [I.pick(a, st) if isinstance(a, Value) else a for a in args]
        kwargs = {k: I.pick(v, st) if isinstance(v, Value) else v for k, v in kwargs.items()}
        name = prelude.NAMES.get(path)
        if name is None and kwargs.get("key") is not None and path in ("builtins.max", "builtins.min") and len(args) == 1:
            name = "largest" if path == "builtins.max" else "smallest"
        if name is not None:
            return I.call(I.prelude(name), args, kwargs, st)
        short = None
        if path.startswith("numpy."):
            short = path[6:]
        elif path.startswith("scipy."):
            short = path[6:]
        elif path.startswith("math.") or path.startswith("cmath."):
            short = path.split(".")[1]
        if short is not None:
            for pre in ("core.", "lib.", "_core.", "matlib."):
                if short.startswith(pre):
                    short = short.split(".")[-1]
            alias = {"arctan": "arctan", "atan2": "arctan2", "atan": "arctan", "asin": "arcsin", "acos": "arccos", "radians": "deg2rad" if "deg2rad" in self.table else "radians", "degrees": "rad2deg" if "rad2deg" in self.table else "degrees",
                     "fabs": "abs", "pow": "power", "ma.compressed": "compressed", "linalg.lstsq": "linalg.lstsq"}
            if short in alias and short not in self.table:
                short = alias[short]
            if short == "compressed" and args:
                return self.compressed(st, args[0]) if isinstance(args[0], Arr) else self.unk("compressed", st, *args)
            f = self.table.get(short)
            if f is None:
                f = getattr(self, "x_np_" + short.replace(".", "_"), None)
            if f is None and short.startswith("ma."):
                f = self.table.get(short[3:])
            if f is None and short.startswith("random."):
                f = self.table.get("random.default_rng")
            if f is not None:
                return self.mapped(st, f, args, kwargs)
            e = getattr(self, "num_cast", None)
            if short in self.LET and args:
                return self.cast(st, short, args, kwargs)
        if path.startswith("builtins."):
            b = path[9:]
            if "." in b:
                kind, meth = b.split(".", 1)
                if kind in ("dict", "list", "set", "tuple") and args:
                    return self.container_method(st, args[0], meth, args[1:], kwargs) if isinstance(args[0], Ref) else self.unk(b, st, *args)
                if kind == "dict" and meth == "fromkeys":
                    return self.unk("fromkeys", st, *args)
                if kind == "str":
                    return self.method(st, args[0], meth, args[1:], kwargs)
                return self.unk(b, st, *args)
            f = getattr(self, "b_" + b, None)
            if f is not None:
                return f(st, *args, **kwargs)
            return self.unk(b, st, *args, *kwargs.values())
        f = getattr(self, "x_" + path.replace(".", "_"), None)
        if f is not None:
            return f(st, *args, **kwargs)
        if any(path.startswith(x) for x in ENVREAD):
            I.event("env", what=path)
        if any(path.startswith(x) for x in CLOCK):
            I.event("clock", what=path)
            d = frozenset(["clock"])
            return I.unknown(path, d)
        if path.startswith("random."):
            I.event("rng", what=path)
            return I.unknown(path, frozenset(["rng"]))
        if path.startswith("os.path."):
            return self.os_path(st, path[8:], args)
        if path.startswith(("logging.", "warnings.")):
            I.event("warn", what=path)
            return PYNONE
        if path.startswith("sys.std") and path.endswith(".write"):
            I.event("print", what=path)
            return PYNONE
        if path.startswith("functools.partial"):
            return self.unk("partial", st, *args)
        if isinstance(kwargs.get("out"), Arr):
            self.weak_store(st, kwargs["out"], self.unk("call " + path, st, *args), [])
        return self.unk("call " + path, st, *args, *kwargs.values())

    def mapped(self, st, f, args, kwargs):
        """Call f for every alternative of the Choice arguments."""
        I = self.I
        names = list(kwargs)
        vals = list(args) + [kwargs[k] for k in names]
        if any(isinstance(v, Choice) for v in vals):
            n = len(args)
            return I.over_choice(lambda *xs: self.mapped(st, f, list(xs[:n]), dict(zip(names, xs[n:]))), vals, st)
        try:
            return f(st, *args, **kwargs)
        except TypeError as e:
            if "argument" in str(e) and "positional" in str(e) or "unexpected keyword" in str(e) or "multiple values" in str(e):
                if isinstance(kwargs.get("out"), Arr):
                    self.weak_store(st, kwargs["out"], self.unk("signature", st, *[v for v in vals if isinstance(v, Value)]), [])
                return self.unk("signature", st, *[v for v in vals if isinstance(v, Value)])
            raise

    def cast(self, st, name, args, kwargs):
        d = self.LET[name]
        a = self.A(st, args[0])
        if isinstance(a, Choice):
            return self.I.over_choice(lambda x: self.cast(st, name, [x], kwargs), [a], st)
        if not self.isnum(a):
            return self.unk(name, st, a)
        if d in "Mm":
            return self.datetime_cast(st, d, args, kwargs)
        if isinstance(a, Num) and a.val is not NOVAL and a.dt in "bif" and d in "bif":
            try:
                v = {"b": bool, "i": int, "f": float}[d](a.val)
                return Num(d, const_info(v, a.info.deps), v)
            except (ValueError, OverflowError) as e:
                self.I.raise_(type(e).__name__, str(e))
        return self.astype(st, a, (d, None))

    def datetime_cast(self, st, d, args, kwargs):
        unit = self.known(args[1]) if len(args) > 1 else self.known(kwargs.get("unit"))
        a = self.A(st, args[0])
        if d == "m" and isinstance(a, Num) and a.dt in "bi":
            from .npcore import UNIT_MS

            k = UNIT_MS.get(unit)
            if k is None:
                return self.unk("timedelta64", st, a)
            return Num("m", a.info.rep(term=tm.tmap(lambda p: tm.mul(p, tm.pconst(k)), a.info.term), re=None), unit=unit)
        return self.astype(st, a, (d, unit))

    # ------------------------------------------------------------- numpy
    def x_np_finfo(self, st, *a, **k):
        return Ext("numpy.finfo()")

    def x_np_iinfo(self, st, *a, **k):
        return Ext("numpy.iinfo()")

    def x_np_errstate(self, st, *a, **k):
        return Unknown("np.errstate")

    def x_np_iterable(self, st, v):
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.x_np_iterable(st, x), [v], st)
        if isinstance(v, Arr):
            return num(bool(v.axes))
        if isinstance(v, (Ref, Iter)):
            return num(True)
        if isinstance(v, Num):
            return num(v.dt == "U")
        if isinstance(v, Known):
            return num(isinstance(v.v, (str, bytes)))
        if isinstance(v, Unknown):
            return self.opaque_bool(st, "iterable", v)
        return num(False)

    def x_np_isscalar(self, st, v):
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.x_np_isscalar(st, x), [v], st)
        if isinstance(v, Unknown):
            return self.opaque_bool(st, "isscalar", v)
        return num(isinstance(v, Num) or isinstance(v, Known) and isinstance(v.v, (str, bytes)))

    def x_np_datetime64(self, st, *a, **k):
        return self.datetime_cast(st, "M", list(a), k)

    def x_np_timedelta64(self, st, *a, **k):
        return self.datetime_cast(st, "m", list(a), k)

    def x_np_load(self, st, *a, **k):
        return self.I.unknown("np.load", frozenset(["file"]))

    def x_np_io_loadmat(self, st, *a, **k):
        return self.I.unknown("loadmat", frozenset(["file"]))

    def x_np_dtype(self, st, v, *a, **k):
        r = self.dtype_of(v, st)
        return Dt(*r) if r else self.unk("dtype", st, v)

    def x_np_isclose(self, st, a, b, *r, **k):
        return self.opaque_bool(st, "isclose", a, b)

    def x_np_ndenumerate(self, st, a, *r, **k):
        return self.unk("ndenumerate", st, a)

    def x_np_may_share_memory(self, st, *a, **k):
        return self.opaque_bool(st, "share", *a)

    def x_np_shares_memory(self, st, *a, **k):
        return self.opaque_bool(st, "share", *a)

    # ---------------------------------------------------------- builtins
    def b_len(self, st, v):
        I = self.I
        if isinstance(v, Choice):
            return I.over_choice(lambda x: self.b_len(st, x), [v], st)
        if isinstance(v, Arr):
            if not v.axes:
                I.raise_("TypeError", "len() of unsized object")
            return self.axlen(v.axes[0])
        if isinstance(v, Known):
            if isinstance(v.v, (str, bytes)):
                return num(len(v.v))
            I.raise_("TypeError", f"object of type '{type(v.v).__name__}' has no len()")
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, (InstCell, DictCell)) and c.cls is not None:
                f = c.cls.lookup("__len__")
                if f is not None:
                    return I.call(BoundF(f, v), [], {}, st)
            if isinstance(c, DictCell):
                return self.items_len(st, self.dict_keys(c), c.deps)
            if isinstance(c, ListCell):
                return self.items_len(st, c.items, c.deps)
            I.raise_("TypeError", "object has no len()")
        if isinstance(v, Num):
            if v.dt == "U":
                return Num("i", Info(tm.T(tm.opaque("strlen", (v.info.term,), nonneg=True, integer=True)), v.info.deps, ((0.0, INF),)))
            I.raise_("TypeError", "object of type number has no len()")
        if isinstance(v, (Iter, Func, Bound, BoundF)):
            I.raise_("TypeError", "object has no len()")
        return Num("i", Info(tm.T(tm.opaque("len", ("?", I.where()), nonneg=True, integer=True)), I.deps(st, v), ((0.0, INF),)))

    def intlike(self, st, v, what):
        v = self.I.pick(v, st)
        if isinstance(v, Arr) and all(a == tm.ONEAX for a in v.axes) and v.dt in "bi":
            return Num("i", self.I.info(st, v))
        if isinstance(v, Num) and v.dt not in "bi" or isinstance(v, (Known, Ref)) or isinstance(v, Arr):
            self.I.raise_("TypeError", f"object cannot be interpreted as an integer ({what})")
        return v

    def b_range(self, st, *a):
        I = self.I
        a = [self.intlike(st, x, "range") for x in a]
        if any(not isinstance(x, Num) for x in a):
            return Iter([("ax", ("anon", tm.opaque("len", ("range", I.where())), ("rg",)), I.unknown("range"))], frozenset().union(*[I.deps(st, x) for x in a]))
        if all(x.val is not NOVAL for x in a):
            r = range(*[int(x.val) for x in a])
            last = a[1] if len(a) > 1 else a[0]
            if r.start == 0 and r.step == 1 and len(r) > 1 and isinstance(last.lenof, tuple) and last.lenof and last.lenof[0] == "order":
                # positions of elements whose order is not known
                ax = last.lenof[1]
                return Iter([("ax", ax, Num("i", Info(tm.T(tm.ixsym(ax)), last.info.deps, ((0.0, INF),))))], last.info.deps)
            if len(r) <= 64:
                return Iter([("v", num(k)) for k in r])
            ax = tm.litax(len(r))
        d = NONE
        for x in a:
            d |= x.info.deps
        start = num(0) if len(a) == 1 else a[0]
        stop = a[0] if len(a) == 1 else a[1]
        step = a[2] if len(a) > 2 else num(1)
        zero = start.val is not NOVAL and start.val == 0
        one = step.val is not NOVAL and step.val == 1
        if zero and one:
            ax = self.len_axis(st, stop)
            if ax is None:
                ax = ("anon", tm.opaque("len", ("range", I.where())), ("rg",))
            if ax == tm.ONEAX:
                return Iter([("v", num(0))])
            return Iter([("ax", ax, Num("i", Info(tm.T(tm.ixsym(ax)), d, ((0.0, INF),))))], d)
        if one:
            n = self.binop(st, "Sub", stop, start)
            p = I.info(st, n).term.single()
            lo = I.info(st, start).term.single()
            hi = I.info(st, stop).term.single()
            ax = None
            if isinstance(stop.lenof, tuple) and stop.lenof[0] != "order" and lo is not None and lo.rconst() is not None and lo.rconst() >= 0 and isinstance(start.val, int):
                base = self.len_axis(st, stop)
                r = self.slice_axis(st, base, start, None, None) if base is not None else None
                if r is not None:
                    ax = r[0]
            if ax is None and p is not None and lo is not None:
                c = p.rconst()
                if c is not None and c <= 64:
                    return Iter([("v", self.binop(st, "Add", start, num(k))) for k in range(max(0, int(c)))], d)
                ax = self.axis_of_len(p)
            if ax is None:
                ax = ("anon", p if p is not None else tm.opaque("len", ("range", I.where())), ("rg", lo))
            if ax == tm.ONEAX:
                return Iter([("v", start)])
            off = tm.add(tm.ixsym(ax), lo) if lo is not None else tm.opaque("range", (I.info(st, start).term,), (ax,), integer=True)
            return Iter([("ax", ax, Num("i", Info(tm.T(off), d, iv_add(((0.0, INF),), I.info(st, start).re) if I.info(st, start).re else None)))], d)
        key = tuple(I.info(st, x).term for x in a)
        ax = ("anon", tm.opaque("len", ("range",) + key, nonneg=True, integer=True), ("rg", key))
        return Iter([("ax", ax, Num("i", Info(tm.T(tm.opaque("range", key, (ax,), integer=True)), d)))], d)

    def b_enumerate(self, st, v, start=None):
        I = self.I
        items, d = I.iter_items(v, st)
        if items is None:
            return Iter([("ax", ("anon", tm.opaque("len", ("enum", I.where())), ("en",)), I.unknown("enumerate", d))], d)
        out = []
        off = I.info(st, start).term.single() if isinstance(start, Num) else tm.PZERO
        if off is None:
            off = tm.opaque("start", (), integer=True)
        for it in items:
            if it[0] == "v":
                c = off.rconst() if off is not None else None
                n = num(int(c)) if c is not None else Num("i", Info(tm.T(off), NONE, ((0.0, INF),)))
                out.append(("v", self.mktuple(st, [n, it[1]])))
                off = tm.add(off, tm.PONE)
            elif it[0] == "ax" and it[1][0] != "count":
                n = Num("i", Info(tm.T(tm.add(off, tm.ixsym(it[1]))), NONE, ((0.0, INF),)))
                out.append(("ax", it[1], self.mktuple(st, [n, it[2]])))
                off = tm.add(off, tm.axis_len(it[1]))
            else:
                n = Num("i", Info(tm.T(tm.opaque("enum", (I.where(),), integer=True, nonneg=True)), NONE, ((0.0, INF),)))
                out.append(it[:-1] + (self.mktuple(st, [n, it[-1]]),))
        return Iter(out, d)

    def b_zip(self, st, *vs, strict=None):
        I = self.I
        cols = []
        d = NONE
        for v in vs:
            items, dd = I.iter_items(v, st)
            d |= dd
            if items is None:
                return Iter([("ax", ("anon", tm.opaque("len", ("zip", I.where())), ("zp",)), I.unknown("zip", d))], d)
            cols.append(list(items))
        if not cols:
            return Iter(())
        out = []
        k = [0] * len(cols)
        while all(k[j] < len(c) for j, c in enumerate(cols)):
            its = [c[k[j]] for j, c in enumerate(cols)]
            if all(i[0] == "v" for i in its):
                out.append(("v", self.mktuple(st, [i[1] for i in its])))
            elif all(i[0] == "ax" for i in its):
                axs = [i[1] for i in its]
                ax = axs[0]
                if all(x == ax for x in axs[1:]):
                    out.append(("ax", ax, self.mktuple(st, [i[2] for i in its])))
                else:
                    def unified(x):
                        r = self.unify(st, ax, x)
                        return r is not None and r is not False
                    if all(unified(x) for x in axs[1:]):
                        out.append(("ax", ax, self.mktuple(st, [its[0][2]] + [I.rename_value(i[2], i[1], ax, st) for i in its[1:]])))
                    else:
                        n = ("anon", tm.opaque("len", ("zip",) + tuple(axs), nonneg=True, integer=True), ("zp", tuple(axs)))
                        out.append(("ax", n, self.mktuple(st, [I.rename_value(i[2], i[1], n, st) for i in its])))
                        break
            else:
                n = ("anon", tm.opaque("len", ("zip", I.where()), nonneg=True, integer=True), ("zp", I.loc[1]))
                out.append(("ax", n, self.mktuple(st, [I.unknown("zip", I.deps(st, i[-1])) for i in its])))
                break
            k = [x + 1 for x in k]
        st_ = self.known(strict, False)
        if st_ and any(k[j] < len(c) for j, c in enumerate(cols)):
            I.raise_("ValueError", "zip() arguments have different lengths")
        return Iter(out, d)

    def b_map(self, st, f, *vs):
        I = self.I
        z = self.b_zip(st, *vs)
        out = []
        for it in z.items:
            t = it[-1]
            xs = [i[1] for i in st.heap[t.oid].items] if isinstance(t, Ref) else [t]
            out.append(it[:-1] + (I.call(f, xs, {}, st),))
        return Iter(out, z.deps)

    def b_filter(self, st, f, v):
        items, d = self.I.iter_items(v, st)
        out = []
        for it in items or []:
            t = it[-1]
            r = t if isinstance(f, Known) else self.I.call(f, [t], {}, st)
            b = self.I.truth(r, st)
            if b is True:
                out.append(it)
            elif b is None:
                ax = ("flt", it[1], "filter") if it[0] == "ax" else None
                out.append(("opt", tm.opaque("filter", (self.I.where(),)), t) if ax is None else ("ax", ax, self.I.rename_value(t, it[1], ax, st)))
        return Iter(out, d)

    def b_reversed(self, st, v):
        items, d = self.I.iter_items(v, st)
        if items is None or any(i[0] != "v" for i in items):
            return Iter([("ax", ("anon", tm.opaque("len", ("reversed", self.I.where())), ("rv",)), self.I.unknown("reversed", d))], d)
        return Iter(items[::-1], d)

    def b_iter(self, st, v, *r):
        items, d = self.I.iter_items(v, st)
        if items is None:
            return self.I.unknown("iter", d)
        return Iter(items, d)

    def b_next(self, st, v, *dflt):
        items, d = self.I.iter_items(v, st)
        if items is None:
            return self.I.unknown("next", d)
        if not items:
            if dflt:
                return dflt[0]
            self.I.raise_("StopIteration", "")
        if items[0][0] == "v":
            if isinstance(v, Iter):
                v.items = tuple(items[1:])
            return items[0][1]
        return self.I.unknown("next", d | self.I.deps(st, items[0][-1]))

    def b_sorted(self, st, v, key=None, reverse=None):
        items, d = self.I.iter_items(v, st, ordered=False)
        if items is None:
            return self.I.unknown("sorted", d)
        kw = {}
        if key is not None:
            kw["key"] = key
        if reverse is not None:
            kw["reverse"] = reverse
        return self.mklist(st, self.sorted_items(st, list(items), kw), "list", d)

    def b_list(self, st, v=None, kind="list"):
        I = self.I
        if v is None:
            return self.mklist(st, (), kind)
        if isinstance(v, Choice):
            return I.over_choice(lambda x: self.b_list(st, x, kind), [v], st)
        items, d = I.iter_items(v, st)
        if items is None:
            if isinstance(v, (Func, Mod)):
                I.raise_("TypeError", "object is not iterable")
            u = I.unknown(kind, d)
            return self.mklist(st, [("ax", ("anon", tm.opaque("len", (kind, I.where())), ("ls",)), u)], kind, d)
        return self.mklist(st, items, kind, d)

    def b_tuple(self, st, v=None):
        return self.b_list(st, v, "tuple")

    def b_set(self, st, v=None):
        if v is None:
            return self.mklist(st, (), "set")
        items, d = self.I.iter_items(v, st, ordered=False)
        if items is None:
            return self.I.unknown("set", d)
        return self.mkset(st, items, d)

    b_frozenset = b_set

    def b_dict(self, st, *a, **kw):
        r = Ref("dict")
        st.heap[r.oid] = DictCell()
        self.dict_method(st, r, st.heap[r.oid], "__init__", list(a), kw)
        return r

    x_collections_OrderedDict = b_dict

    def x_collections_defaultdict(self, st, *a, **k):
        return self.unk("defaultdict", st, *a)

    def x_collections_Counter(self, st, *a, **k):
        return self.unk("Counter", st, *a)

    def b_minmax(self, st, name, args, kw):
        I = self.I
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Arr):
                return self.table[name](st, v)
            items, d = I.iter_items(v, st)
            if items is None:
                return I.unknown(name, d)
            if not items:
                if "default" in kw:
                    return kw["default"]
                I.raise_("ValueError", f"{name}() arg is an empty sequence")
            if any(i[0] != "v" for i in items):
                if not any(i[0] == "v" for i in items) and "default" not in kw and any(i[0] == "ax" and i[1][0] in ("flt", "anon") for i in items):
                    I.mayraise(st, "ValueError", f"{name}() arg may be an empty sequence")
                dd = d
                for i in items:
                    dd |= I.deps(st, i[-1])
                x = items[0][-1]
                if isinstance(x, (Num, Known)) and not (isinstance(x, Known)):
                    return Num(x.dt, Info(tm.T(tm.opaque(name, tuple(I.info(st, i[-1]).term for i in items))), dd, I.info(st, x).re, deg=I.info(st, x).deg))
                return I.unknown(name, dd)
            vals = [i[1] for i in items]
        else:
            vals = list(args)
        if "key" in kw:
            return self.unk(name, st, *vals)
        if all(isinstance(v, Known) for v in vals):
            try:
                return Known({"min": min, "max": max}[name](v.v for v in vals))
            except TypeError:
                I.raise_("TypeError", "'<' not supported")
        r = vals[0]
        for v in vals[1:]:
            if isinstance(v, Arr) and any(a != tm.ONEAX for a in v.axes):
                I.raise_("ValueError", "truth value of an array is ambiguous")
            r = self.mapped(st, self.table["maximum" if name == "max" else "minimum"], [r, v], {})
        return r

    def b_min(self, st, *a, **kw):
        return self.b_minmax(st, "min", a, kw)

    def b_max(self, st, *a, **kw):
        return self.b_minmax(st, "max", a, kw)

    def b_sum(self, st, v, start=None):
        I = self.I
        items, d = I.iter_items(v, st)
        if items is None:
            return I.unknown("sum", d)
        r = start if start is not None else num(0)
        for it in items:
            if it[0] == "v":
                r = I.binop("Add", r, it[1], st)
            elif it[0] == "ax" and isinstance(it[2], Num) and it[1][0] != "count":
                i = I.info(st, it[2])
                s = Num(it[2].dt if it[2].dt != "b" else "i", i.rep(term=tm.tsum(i.term, it[1]), re=None if i.re is None or iv_bounds(i.re)[0] < 0 else ((0.0, INF),),
                                                                  im=i.im if i.im == ((0.0, 0.0),) else None, ok=None))
                r = I.binop("Add", r, s, st)
            elif it[0] == "ax" and isinstance(it[2], Arr) and it[1][0] != "count":
                i = I.info(st, it[2])
                s = I.newarr(it[2].axes, it[2].dt, i.rep(term=tm.tsum(i.term, it[1]), re=None, im=i.im if i.im == ((0.0, 0.0),) else None, ok=None))
                r = I.binop("Add", r, s, st)
            else:
                return self.unk("sum", st, v)
        return r

    def b_abs(self, st, v):
        return self.mapped(st, self.table["abs"], [v], {})

    def b_pow(self, st, a, b, *m):
        return self.I.binop("Pow", a, b, st)

    def b_divmod(self, st, a, b):
        return self.mktuple(st, [self.I.binop("FloorDiv", a, b, st), self.I.binop("Mod", a, b, st)])

    def b_round(self, st, v, n=None):
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.b_round(st, x, n), [v], st)
        if isinstance(v, Num) and v.val is not NOVAL:
            return num(round(v.val) if n is None or isinstance(n, Known) else round(v.val, int(n.val)))
        r = self.table["round"](st, v) if n is None or isinstance(n, Known) else self.table["round"](st, v, n)
        if n is None and isinstance(r, Num) and r.dt == "f":
            r = Num("i", r.info)
        return r

    def b_int(self, st, v=None, *base):
        I = self.I
        if v is None:
            return num(0)
        if isinstance(v, Choice):
            return I.over_choice(lambda x: self.b_int(st, x), [v], st)
        if isinstance(v, Known) and isinstance(v.v, str):
            try:
                return num(int(v.v))
            except ValueError as e:
                I.raise_("ValueError", str(e))
        if isinstance(v, Known):
            I.raise_("TypeError", "int() argument must be a string or a number")
        return self.scalar_cast(st, v, "i", "int")

    def scalar_cast(self, st, v, d, name):
        I = self.I
        if isinstance(v, Arr):
            if not all(a == tm.ONEAX for a in v.axes):
                lens = [tm.axis_len(a).rconst() for a in v.axes]
                if any(l is not None and l != 1 for l in lens) or True:
                    I.raise_("TypeError", "only length-1 arrays can be converted to Python scalars")
            v = Num(v.dt, I.info(st, v))
        if isinstance(v, Ref):
            I.raise_("TypeError", f"{name}() argument must be a string or a number")
        if not isinstance(v, Num):
            return self.unk(name, st, v)
        if v.dt == "c" and d != "c":
            I.raise_("TypeError", f"{name}() argument must not be complex")
        if v.dt == "U":
            return Num(d, Info(tm.T(tm.opaque(name, (v.info.term,))), v.info.deps))
        return self.cast(st, {"i": "int", "f": "float", "c": "complex"}[d], [v], {})

    def b_float(self, st, v=None):
        I = self.I
        if v is None:
            return num(0.0)
        if isinstance(v, Choice):
            return I.over_choice(lambda x: self.b_float(st, x), [v], st)
        if isinstance(v, Known) and isinstance(v.v, str):
            try:
                f = float(v.v)
            except ValueError as e:
                I.raise_("ValueError", str(e))
            return num(f)
        if isinstance(v, Known):
            I.raise_("TypeError", "float() argument must be a string or a number")
        return self.scalar_cast(st, v, "f", "float")

    def b_complex(self, st, a=None, b=None):
        if b is None:
            return self.scalar_cast(st, a, "c", "complex") if a is not None else num(0j)
        return self.I.binop("Add", a, self.I.binop("Mult", num(1j), b, st), st)

    def b_bool(self, st, v=None):
        if v is None:
            return num(False)
        t = self.I.truth(v, st)
        if t is not None:
            return num(t)
        if isinstance(v, Num) and v.dt == "b":
            return v
        return self.opaque_bool(st, "bool", v)

    def b_str(self, st, v=None, *r, **k):
        return Known("") if v is None else self.to_str(st, v)

    def b_repr(self, st, v):
        return Known(repr(v.v)) if isinstance(v, Known) else self.str_result(st, v)

    def b_format(self, st, v, *r):
        return self.str_result(st, v, *r)

    def b_print(self, st, *a, **k):
        f = k.get("file")
        self.I.event("print", what="print", args=[repr(x)[:60] for x in a], file=repr(f) if f is not None else None)
        for x in a:
            if isinstance(x, Ref):
                self.to_str(st, x)
        return PYNONE

    TYPES = {"builtins.str": "str", "builtins.dict": "dict", "builtins.list": "list", "builtins.tuple": "tuple", "builtins.set": "set", "builtins.frozenset": "set",
             "builtins.int": "int", "builtins.float": "float", "builtins.bool": "bool", "builtins.complex": "complex", "numpy.ndarray": "ndarray",
             "numbers.Number": "number", "numpy.ma.MaskedArray": "ma", "numpy.ma.core.MaskedArray": "ma", "numpy.number": "number", "numpy.generic": "generic",
             "numpy.integer": "int", "numpy.floating": "float", "numpy.datetime64": "M", "datetime.datetime": "dt", "datetime.date": "dt", "builtins.object": "object",
             "collections.abc.Mapping": "dict", "collections.abc.Sequence": "seq", "collections.abc.Iterable": "iterable", "collections.OrderedDict": "odict",
             "numpy.bool_": "bool", "numpy.float64": "float", "numpy.str_": "str", "numbers.Real": "real", "numbers.Integral": "int"}

    def isa(self, st, v, t):
        """True / False / None."""
        if isinstance(t, Ref):
            rs = [self.isa(st, v, i[-1]) for i in st.heap[t.oid].items]
            return True if True in rs else (None if None in rs else False)
        if isinstance(v, Unknown):
            return None
        if isinstance(t, Cls):
            if isinstance(v, Ref):
                c = self.I.cls_of(v, st)
                return c is not None and t in c.mro()
            return False
        if isinstance(t, Exc):
            return isinstance(v, Exc) and self.I.exc_isa(v.name, t.name)
        if not isinstance(t, Ext):
            return None
        k = self.TYPES.get(t.path)
        if k is None:
            return None
        if k == "object":
            return True
        if isinstance(v, Known):
            if isinstance(v.v, str):
                return k in ("str", "seq", "iterable")
            return False
        if isinstance(v, Num):
            if v.dt == "U":
                return k in ("str", "seq", "iterable", "generic")
            if v.dt == "M":
                return True if k == "M" else (None if k in ("dt", "generic") else False)
            return {"int": v.dt in "ib", "float": v.dt == "f", "bool": v.dt == "b", "complex": v.dt == "c", "number": v.dt in "bifc", "real": v.dt in "bif", "generic": None}.get(k, False)
        if isinstance(v, Arr):
            return {"ndarray": True, "ma": bool(v.ma), "iterable": True}.get(k, False)
        if isinstance(v, Ref):
            if v.kind == "inst":
                return k in ("dict", "iterable") and isinstance(st.heap.get(v.oid), DictCell)
            if v.kind == "dict":
                return None if k == "odict" else k in ("dict", "iterable")
            return k == v.kind or k == "iterable" or k == "seq" and v.kind in ("list", "tuple")
        return False

    def b_isinstance(self, st, v, t):
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.b_isinstance(st, x, t), [v], st)
        r = self.isa(st, v, t)
        return num(r) if r is not None else self.opaque_bool(st, "isinstance", v, t)

    def b_issubclass(self, st, v, t):
        if isinstance(v, Cls) and isinstance(t, Cls):
            return num(t in v.mro())
        return self.opaque_bool(st, "issubclass", v, t)

    def b_callable(self, st, v):
        if isinstance(v, (Func, Bound, BoundF, Cls, Ext)):
            return num(True)
        if isinstance(v, (Known, Num, Arr)):
            return num(False)
        return self.opaque_bool(st, "callable", v)

    def b_type(self, st, v, *r):
        if isinstance(v, Ref):
            c = self.I.cls_of(v, st)
            if c is not None:
                return c
            return Ext("builtins." + v.kind)
        if isinstance(v, Num):
            return Ext({"b": "builtins.bool", "i": "builtins.int", "f": "builtins.float", "c": "builtins.complex", "U": "builtins.str"}.get(v.dt, "builtins.object"))
        if isinstance(v, Arr):
            return Ext("numpy.ma.MaskedArray" if v.ma else "numpy.ndarray")
        if isinstance(v, Known):
            return Ext("builtins." + type(v.v).__name__)
        return self.I.unknown("type")

    def b_getattr(self, st, o, name, *dflt):
        n = self.known(name)
        if not isinstance(n, str):
            return self.I.unknown("getattr", self.I.deps(st, o))
        try:
            return self.I.getattr(o, n, st)
        except AbsRaise as e:
            if dflt and e.exc.name == "AttributeError":
                return dflt[0]
            raise

    def b_hasattr(self, st, o, name):
        n = self.known(name)
        if not isinstance(n, str) or isinstance(o, Unknown):
            return self.opaque_bool(st, "hasattr", o, name)
        if isinstance(o, Choice):
            return self.I.over_choice(lambda x: self.b_hasattr(st, x, name), [o], st)
        if isinstance(o, Known) and not isinstance(o.v, str):
            return num(hasattr(o.v, n))
        try:
            self.I.getattr(o, n, st)
            return num(True)
        except AbsRaise as e:
            if e.exc.name == "AttributeError":
                return num(False)
            raise

    def b_setattr(self, st, o, name, v):
        n = self.known(name)
        if isinstance(n, str):
            self.I.setattr(o, n, v, st)
        return PYNONE

    def b_anyall(self, st, v, isany):
        I = self.I
        if isinstance(v, Arr):
            return self.table["any" if isany else "all"](st, v)
        items, d = I.iter_items(v, st)
        if items is None:
            return self.opaque_bool(st, "any" if isany else "all", v)
        und = []
        for it in items:
            t = I.truth(it[-1], st)
            if it[0] == "v" and t is isany:
                return num(isany)
            if t is not (not isany):
                und.append(it[-1])
        if not und:
            return num(not isany)
        if len(und) == 1 and len(items) and isinstance(und[0], Num) and und[0].dt == "b" and all(i[0] == "v" for i in items):
            return und[0]
        if all(i[0] == "v" for i in items) and all(isinstance(u, Num) and u.dt == "b" for u in und):
            r = und[0]
            for u in und[1:]:
                r = self.boolop(st, "BitOr" if isany else "BitAnd", r, u)
            return r
        return self.opaque_bool(st, "any" if isany else "all", *und)

    def b_any(self, st, v):
        return self.b_anyall(st, v, True)

    def b_all(self, st, v):
        return self.b_anyall(st, v, False)

    def b_id(self, st, v):
        self.I.event("env", what="id")
        return Num("i", Info(tm.T(tm.opaque("id", (self.I.where(),))), frozenset(["id"])))

    def b_hash(self, st, v):
        self.I.event("env", what="hash")
        return Num("i", Info(tm.T(tm.opaque("hash", (self.I.where(),))), frozenset(["hash"])))

    def b_open(self, st, *a, **k):
        self.I.event("file", what="open", args=[repr(x)[:60] for x in a])
        return self.I.unknown("open", frozenset(["file"]))

    def b_exec(self, st, *a, **k):
        self.I.event("exec", what="exec")
        return PYNONE

    def b_globals(self, st):
        self.I.event("exec", what="globals")
        return self.I.unknown("globals")

    def b_slice(self, st, *a):
        a = list(a)
        if len(a) == 1:
            a = [None] + a
        a = [None if x is None or isinstance(x, Known) else x for x in a] + [None] * (3 - len(a))
        return Slice(*a[:3])

    def b_object(self, st):
        r = Ref("inst")
        st.heap[r.oid] = InstCell(None)
        return r

    # ----------------------------------------------------- other modules
    def x_copy_copy(self, st, v):
        if isinstance(v, Arr):
            return self.copy_arr(st, v)
        if isinstance(v, Ref):
            r = Ref(v.kind)
            c = st.heap[v.oid]
            st.heap[r.oid] = c.copy() if isinstance(c, DictCell) else (ListCell(c.items, c.deps) if isinstance(c, ListCell) else InstCell(c.cls, c.attrs))
            return r
        return v

    def x_copy_deepcopy(self, st, v, *r):
        v = self.I.pick(v, st)
        if isinstance(v, Choice):
            return self.I.over_choice(lambda x: self.x_copy_deepcopy(st, x), [v], st)
        v2 = self.x_copy_copy(st, v)
        if isinstance(v2, Ref) and v2 is not v:
            c = st.heap[v2.oid]
            if isinstance(c, ListCell):
                st.heap[v2.oid] = ListCell([i[:-1] + (self.x_copy_deepcopy(st, i[-1]),) for i in c.items], c.deps)
            elif isinstance(c, DictCell):
                n = c.copy()
                n.d = {k: self.x_copy_deepcopy(st, x) for k, x in c.d.items()}
                st.heap[v2.oid] = n
            else:
                st.heap[v2.oid] = InstCell(c.cls, {k: self.x_copy_deepcopy(st, x) for k, x in c.attrs.items()})
        return v2

    def x_warnings_warn(self, st, *a, **k):
        self.I.event("warn", what="warnings.warn")
        return PYNONE

    def x_warnings_filterwarnings(self, st, *a, **k):
        self.I.event("global-setting", what="warnings.filterwarnings")
        return PYNONE

    x_warnings_simplefilter = x_warnings_filterwarnings
    x_warnings_resetwarnings = x_warnings_filterwarnings

    def x_warnings_catch_warnings(self, st, *a, **k):
        return Unknown("catch_warnings")

    def os_path(self, st, name, args):
        vals = [self.known(a) for a in args]
        if all(isinstance(v, str) for v in vals):
            import posixpath

            if name in ("join", "dirname", "basename", "splitext", "normpath"):
                r = getattr(posixpath, name)(*vals)
                return Known(r) if isinstance(r, str) else self.mktuple(st, [Known(x) for x in r])
            if name == "abspath":
                return Known(vals[0])
        if name in ("exists", "isfile", "isdir"):
            self.I.event("env", what="os.path." + name)
            return self.opaque_bool(st, name, *args)
        return self.str_result(st, *args)

    def x_itertools_chain(self, st, *vs):
        out = []
        d = NONE
        for v in vs:
            items, dd = self.I.iter_items(v, st)
            if items is None:
                return self.unk("chain", st, *vs)
            out += list(items)
            d |= dd
        return Iter(out, d)

    def x_functools_reduce(self, st, f, v, *init):
        items, d = self.I.iter_items(v, st)
        if items is None or any(i[0] != "v" for i in items):
            return self.unk("reduce", st, v)
        xs = list(init) + [i[1] for i in items]
        r = xs[0]
        for x in xs[1:]:
            r = self.I.call(f, [r, x], {}, st)
        return r
