"""Model of the libraries: attributes and methods of arrays, dispatch."""

import math

from . import terms as tm
from .vals import *
from .vals import NONE
from .npcore import Core, Dt
from .npindex import Index
from .npfuncs import Funcs, F, RZ, BOOL01
from .npreduce import Reduce
from .npcontain import Containers
from .npbuiltins import Builtins

NAMED = {"array", "asarray", "asanyarray", "ascontiguousarray", "asfortranarray", "copy", "require", "asfarray", "asarray_chkfinite",
         "fft.rfft", "fft.fft", "fft.ifft", "fft.irfft", "random.seed", "random.set_state", "seterr", "seterrcall", "set_printoptions",
         "setbufsize", "ma.zeros", "ma.ones", "ma.empty", "ma.masked_all"}

# array methods that are the numpy function of the same name
SAME = {"sum", "mean", "copy", "argsort", "conj", "conjugate", "dot", "ravel", "squeeze", "any", "all", "max", "min", "transpose", "var",
        "std", "ptp", "prod", "cumsum", "cumprod", "argmax", "argmin", "round", "clip", "nonzero", "reshape", "swapaxes", "diagonal",
        "trace", "take", "repeat", "searchsorted", "filled"}
ARRMETH = SAME | {"astype", "compress", "compressed", "fill", "flatten", "item", "tolist", "sort", "count", "view", "tobytes", "dump",
                  "resize", "put", "partition", "itemset", "setflags", "byteswap", "anom", "harden_mask", "soften_mask", "__len__", "__getitem__",
                  "__setitem__", "__array__", "is_integer", "bit_length", "as_integer_ratio", "hex", "isocalendar", "toordinal"}


class NP(Core, Index, Funcs, Reduce, Containers, Builtins):
    def __init__(self, interp):
        self.I = interp
        self.table = {}
        self.setup_elementwise()
        self.setup_binary()
        for n in ("maximum", "minimum", "fmax", "fmin"):
            r = self.minmax2(n)
            if r is not None:
                self.table[n] = r
        for name, f in F.items():
            self.table[name] = self.bindname(f, name)

    def bindname(self, f, name):
        co = f.__code__
        takes = "_name" in co.co_varnames[: co.co_argcount + co.co_kwonlyargcount]
        if takes:
            return lambda st, *a, **k: f(self, st, *a, _name=name, **k)
        return lambda st, *a, **k: f(self, st, *a, **k)

    Dt = Dt

    def dt_attr(self, d, name):
        if name == "kind":
            return Known(d.letter)
        if name == "char":
            return Known({"f": "d", "c": "D", "i": "l", "b": "?"}.get(d.letter, d.letter))
        if name == "name":
            return Known({"f": "float64", "c": "complex128", "i": "int64", "b": "bool", "O": "object"}.get(d.letter, d.letter))
        if name == "type":
            return Ext({"f": "numpy.float64", "c": "numpy.complex128", "i": "numpy.int64", "b": "numpy.bool_", "M": "numpy.datetime64"}.get(d.letter, "numpy.object_"))
        if name == "itemsize":
            return num({"f": 8, "c": 16, "i": 8, "b": 1}.get(d.letter, 8))
        if name in ("names", "fields", "subdtype", "metadata"):
            return PYNONE
        return self.I.unknown("dtype." + name)

    # --------------------------------------------------------- arrays
    def arr_attr(self, st, obj, name):
        I = self.I
        axes = self.axes(obj)
        if name == "shape":
            return self.mktuple(st, [self.axlen(a) for a in axes])
        if name == "ndim":
            return num(len(axes))
        if name == "size":
            return self.size_of(axes)
        if name == "dtype":
            return Dt(obj.dt, getattr(obj, "unit", None))
        if name == "T":
            return self.table["transpose"](st, obj)
        if name in ("real", "imag"):
            if isinstance(obj, Known) or obj.dt == "U":
                I.raise_("AttributeError", name)
            return self.table[name](st, obj)
        if name == "mask":
            if isinstance(obj, Arr) and obj.ma:
                return self.table["ma.getmask"](st, obj)
            if isinstance(obj, Arr):
                I.raise_("AttributeError", "'numpy.ndarray' object has no attribute 'mask'")
            return self.unk("mask", st, obj)
        if name == "data":
            return self.table["ma.getdata"](st, obj)
        if name == "flat":
            return self.table["ravel"](st, obj)
        if name in ("nbytes", "itemsize", "strides", "flags", "base", "fill_value", "names", "fields"):
            return I.unknown(name, I.deps(st, obj))
        if isinstance(obj, Num) and obj.dt == "U":
            if hasattr(str, name) or name in ARRMETH and name not in ("compressed", "filled", "count", "anom"):
                return Bound(obj, name)
            I.raise_("AttributeError", f"'str' object has no attribute '{name}'")
        if isinstance(obj, Num) and obj.dt == "M" and name in ("year", "month", "day", "hour", "minute", "second", "days"):
            return I.unknown("datetime field", I.deps(st, obj))
        if name in ARRMETH:
            if name in ("compressed", "filled", "count", "anom") and not (isinstance(obj, Arr) and obj.ma):
                I.raise_("AttributeError", f"'numpy.ndarray' object has no attribute '{name}'")
            return Bound(obj, name)
        if name in ("iplus", "__class__"):
            return I.unknown(name)
        I.raise_("AttributeError", f"array or number has no attribute '{name}'")

    def axlen(self, a):
        p = tm.axis_len(a)
        c = p.rconst()
        if c is not None:
            n = num(int(c))
            return Num(n.dt, n.info, n.val, ("order", a)) if a[0] == "perm" else n
        return Num("i", Info(tm.T(p), NONE, ((0.0, INF),)), lenof=a)

    def size_of(self, axes):
        if len(axes) == 1:
            return self.axlen(axes[0])
        p = tm.PONE
        for a in axes:
            p = tm.mul(p, tm.axis_len(a))
        c = p.rconst()
        if c is not None:
            return num(int(c))
        return Num("i", Info(tm.T(p), NONE, ((0.0, INF),)))

    def arr_setattr(self, st, obj, name, v):
        I = self.I
        x = self.A(st, v) if not isinstance(v, (Num, Arr)) else v
        old = I.info(st, obj)
        if name in ("real", "imag") and isinstance(x, (Num, Arr)):
            if obj.dt != "c":
                if name == "real":
                    self.arr_setitem(st, obj, Slice(None, None, None), x)
                    return
                I.raise_("TypeError", "array does not have imaginary part to set")
            tmp = I.newarr(obj.axes, "c", old)
            other = self.table["imag" if name == "real" else "real"](st, tmp)
            if name == "real":
                r = self.binop(st, "Add", x, self.binop(st, "Mult", num(1j), other))
            else:
                r = self.binop(st, "Add", other, self.binop(st, "Mult", num(1j), x))
            self.arr_setitem(st, obj, Slice(None, None, None), r)
            return
        if name == "mask":
            d = I.deps(st, v)
            I.set_info(st, obj, old.rep(deps=old.deps | d, mk=old.mk | {("?", "masked")}), "mask assignment")
            return
        if name == "shape":
            I.event("mutate", root=frozenset(obj.root or ()), what="shape assignment") if obj.root else None
            return
        I.raise_("AttributeError", f"cannot set attribute {name} of an array")

    def arr_items(self, st, a):
        I = self.I
        if not a.axes:
            I.raise_("TypeError", "iteration over a 0-d array")
        ax = a.axes[0]
        i = I.info(st, a)
        if ax == tm.ONEAX or ax[0] == "lit":
            n = 1 if ax == tm.ONEAX else ax[1]
            if n <= 64:
                return [("v", self.arr_getitem(st, a, num(k))) for k in range(n)], NONE
        segs = tm.segments(ax)
        if segs is not None and not tm.has_seg(i.term, ax):
            pass
        if segs is not None:
            out = []
            off = tm.PZERO
            for s in segs:
                if s == tm.ONEAX:
                    p = off
                    out.append(("v", self.arr_getitem(st, a, Num("i", Info(tm.T(p), NONE, ((0.0, INF),))))))
                else:
                    p = tm.add(off, tm.ixsym(s))
                    out.append(("ax", s, self.arr_getitem(st, a, Num("i", Info(tm.T(p), NONE, ((0.0, INF),))))))
                off = tm.add(off, tm.axis_len(s))
            return out, NONE
        rest = a.axes[1:]
        if not rest:
            return [("ax", ax, Num(a.dt, i, unit=a.unit))], NONE
        r = I.view(st, a, rest, i)
        return [("ax", ax, r)], NONE

    def method(self, st, obj, name, args, kwargs):
        I = self.I
        obj = I.pick(obj, st)
        if isinstance(obj, Choice):
            return I.over_choice(lambda x: I.call(I.getattr(x, name, st), args, kwargs, st), [obj], st)
        if isinstance(obj, Ref):
            return self.container_method(st, obj, name, args, kwargs)
        if isinstance(obj, Known):
            return self.str_method(st, obj, name, args, kwargs)
        if isinstance(obj, Num) and obj.dt == "U" and hasattr(str, name):
            return self.str_method(st, obj, name, args, kwargs)
        if isinstance(obj, (Num, Arr)):
            if any(isinstance(I.pick(a, st), Choice) for a in args):
                return I.over_choice(lambda *xs: self.arr_method(st, obj, name, list(xs), kwargs), [I.pick(a, st) for a in args], st)
            return self.arr_method(st, obj, name, [I.pick(a, st) for a in args], {k: I.pick(v, st) for k, v in kwargs.items()})
        if isinstance(obj, Iter):
            if name == "__next__":
                return self.call_ext(st, "builtins.next", [obj], {})
            return I.unknown("iterator method", obj.deps)
        if isinstance(obj, Func):
            if name == "cache_clear":
                return PYNONE
            return I.unknown("function attribute " + name)
        if isinstance(obj, Exc):
            if name in ("with_traceback",):
                return obj
            return I.unknown("exception method")
        d = I.deps(st, obj)
        for a in list(args) + list(kwargs.values()):
            d |= I.deps(st, a)
        if isinstance(obj, Unknown) and obj.root:
            pass
        return I.unknown("method " + name, d)

    def arr_method(self, st, obj, name, args, kwargs):
        I = self.I
        if name == "copy" and isinstance(obj, Arr):
            return self.copy_arr(st, obj)
        if name == "round":
            return self.table["round"](st, obj, *args, **kwargs)
        if name == "filled":
            return self.table["ma.filled"](st, obj, *args, **kwargs)
        if name in SAME:
            return self.table[name](st, obj, *args, **kwargs)
        if name == "__len__":
            return self.axlen(obj.axes[0]) if self.axes(obj) else I.raise_("TypeError", "len() of unsized object")
        if name == "__getitem__":
            return self.arr_getitem(st, obj, args[0])
        if name == "__setitem__":
            self.arr_setitem(st, obj, args[0], args[1])
            return PYNONE
        if name == "astype":
            d = self.dtype_of(args[0] if args else kwargs.get("dtype"), st)
            if d is None:
                return self.unk("astype", st, obj)
            return self.astype(st, obj, d)
        if name == "compress":
            return self.table["compress"](st, args[0], obj, *args[1:], **kwargs)
        if name == "compressed":
            return self.compressed(st, obj)
        if name == "fill":
            self.arr_setitem(st, obj, Slice(None, None, None), args[0])
            return PYNONE
        if name == "flatten":
            r = self.table["ravel"](st, obj)
            return self.copy_arr(st, r) if isinstance(r, Arr) else r
        if name in ("item",):
            if isinstance(obj, Num):
                return obj
            if args:
                return self.arr_getitem(st, obj, args[0])
            if all(a == tm.ONEAX for a in obj.axes):
                return Num(obj.dt, I.info(st, obj), unit=obj.unit)
            n = self.size_of(obj.axes)
            if n.val is not NOVAL:
                I.raise_("ValueError", "can only convert an array of size 1 to a Python scalar")
            I.mayraise(st, "ValueError", "array of size 1 needed")
            return Num(obj.dt, I.info(st, obj).rep(term=tm.T(tm.opaque("item", (I.info(st, obj).term,)))), unit=obj.unit)
        if name == "tolist":
            if isinstance(obj, Num):
                return obj
            items, d = self.arr_items(st, obj)
            if len(obj.axes) > 1:
                items = [it[:-1] + (self.arr_method(st, it[-1], "tolist", [], {}),) for it in items]
            return self.mklist(st, items, "list", d)
        if name == "sort":
            r = self.table["sort"](st, obj, *args, **kwargs)
            self.arr_setitem(st, obj, Slice(None, None, None), r)
            return PYNONE
        if name == "count":
            if isinstance(obj, Arr):
                p = self.size_of(obj.axes)
                i = I.info(st, obj)
                if not i.mk:
                    return p
                if len(obj.axes) == 1:
                    r = self.compressed(st, obj)
                    if isinstance(r, Arr):
                        return self.axlen(r.axes[0])
            return I.unknown("count", I.deps(st, obj))
        if name == "view":
            return obj if not args and not kwargs else self.unk("view", st, obj)
        if name in ("resize", "put", "partition", "itemset", "byteswap"):
            if isinstance(obj, Arr):
                I.set_info(st, obj, Info(tm.T(tm.opaque("unk", (name,), tuple(a for a in obj.axes if a != tm.ONEAX), real=False)), I.deps(st, obj), None, None, None), name)
            return PYNONE
        if name in ("is_integer",):
            return self.opaque_bool(st, name, obj)
        return self.unk("array method " + name, st, obj, *args)

    # ------------------------------------------------------------ contexts
    def enter_ctx(self, st, v):
        v = self.I.pick(v, st)
        if isinstance(v, Ref):
            self.I.dunder(v, "__enter__", [], st)
        if isinstance(v, Unknown) and v.why == "np.errstate":
            pass

    def ctx_value(self, st, v):
        return v

    def exit_ctx(self, st, v):
        v = self.I.pick(v, st)
        if isinstance(v, Ref):
            self.I.dunder(v, "__exit__", [PYNONE, PYNONE, PYNONE], st)
