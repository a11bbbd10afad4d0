"""Python containers and strings: list, tuple, dict, set, str."""

from . import terms as tm
from .vals import *
from .vals import NONE
from .npcore import Dt

SYMKEY = ("name-key",)


class Containers:
    METHODS = {
        "list": {"append", "extend", "index", "sort", "copy", "insert", "pop", "remove", "reverse", "count", "clear",
                 "__getitem__", "__setitem__", "__len__", "__iter__", "__contains__"},
        "tuple": {"index", "count", "__getitem__", "__len__", "__iter__", "__contains__"},
        "dict": {"keys", "values", "items", "get", "update", "pop", "popitem", "setdefault", "copy", "clear", "fromkeys", "__init__",
                 "__getitem__", "__setitem__", "__contains__", "__len__", "__iter__", "__delitem__", "move_to_end"},
        "set": {"add", "update", "discard", "remove", "pop", "copy", "clear", "union", "intersection", "difference",
                "symmetric_difference", "issubset", "issuperset", "isdisjoint", "difference_update", "intersection_update", "__contains__"},
        "dictview": {"isdisjoint", "__contains__", "__len__", "__iter__"},
    }

    # ------------------------------------------------------------ lists
    def mklist(self, st, items, kind="list", deps=NONE):
        r = Ref(kind)
        st.heap[r.oid] = ListCell(items, deps)
        return r

    def list_append(self, st, ref, v):
        c = st.heap[ref.oid]
        self.I.touch(ref, "append")
        st.heap[ref.oid] = ListCell(c.items + (("v", v),), c.deps)

    def list_extend(self, st, ref, v):
        c = st.heap[ref.oid]
        items, d = self.I.iter_items(v, st)
        self.I.touch(ref, "extend")
        if items is None:
            items = [("ax", ("anon", tm.opaque("len", ("extend", self.I.loc[1])), ("ext",)), self.I.unknown("extend", d))]
        st.heap[ref.oid] = ListCell(c.items + tuple(items), c.deps | d)

    def items_len(self, st, items, deps=NONE):
        """Length of a list of items as a Num."""
        p = tm.PZERO
        axs = []
        for it in items:
            if it[0] == "v":
                p = tm.add(p, tm.PONE)
                axs.append(tm.ONEAX)
            elif it[0] == "ax" and it[1] is not None and it[1][0] != "count":
                p = tm.add(p, tm.axis_len(it[1]))
                axs.append(it[1])
            else:
                return Num("i", Info(tm.T(tm.opaque("len", (repr(items)[:80],), nonneg=True, integer=True)), deps, ((0.0, INF),)))
        c = p.rconst()
        if c is not None:
            return num(int(c), deps)
        lo = float(sum(1 for a in axs if a == tm.ONEAX))
        return Num("i", Info(tm.T(p), deps, ((lo, INF),)), lenof=tm.mkcat(axs))

    def seq_getitem(self, st, obj, idx):
        I = self.I
        c = st.heap[obj.oid]
        items = c.items
        allv = all(i[0] == "v" for i in items)
        if isinstance(idx, tuple):
            I.raise_("TypeError", f"{obj.kind} indices must be integers or slices, not tuple")
        if isinstance(idx, Slice):
            b = [self.known(x, "?") if x is not None else None for x in (idx.lo, idx.hi, idx.step)]
            if allv and "?" not in b:
                return self.mklist(st, items[slice(*[None if x is None else int(x) for x in b])], obj.kind, c.deps)
            if b == [None, None, None]:
                return self.mklist(st, items, obj.kind, c.deps)
            return I.unknown("list slice", I.deps(st, obj))
        if isinstance(idx, Known) or (isinstance(idx, Num) and idx.dt not in "bi"):
            I.raise_("TypeError", f"{obj.kind} indices must be integers or slices")
        if isinstance(idx, (Arr, Ref)):
            if isinstance(idx, Ref) or len(idx.axes):
                I.raise_("TypeError", f"{obj.kind} indices must be integers or slices")
        if isinstance(idx, Num):
            k = self.known(idx)
            if k is not None:
                k = int(k)
                if allv:
                    if not -len(items) <= k < len(items):
                        I.raise_("IndexError", f"{obj.kind} index out of range")
                    return items[k][1]
                if k >= 0 and all(i[0] == "v" for i in items[: k + 1]) and k < len(items):
                    return items[k][1]
                if k < 0 and all(i[0] == "v" for i in items[k:]) and -k <= len(items):
                    return items[k][1]
            if len(items) == 1 and items[0][0] == "ax":
                ax, x = items[0][1], items[0][2]
                it = I.info(st, idx).term
                self.bounds_check(st, it, ax)
                return self.elem_at(st, x, ax, it, idx.info.deps)
            if items and allv:
                return self.join_values(st, [i[1] for i in items], idx)
        return I.unknown("list index", I.deps(st, obj) | I.deps(st, idx))

    def elem_at(self, st, x, ax, it, deps):
        if isinstance(x, Num):
            i = self.I.info(st, x)
            if x.val is not NOVAL:
                return x
            return Num(x.dt, i.rep(term=self.take_term(i.term, ax, it), deps=i.deps | deps), unit=x.unit)
        if isinstance(x, Known):
            return x
        p = it.single()
        if p is not None:
            y = tm.ixaxis(p)
            if y[0] != "ix" or True:
                return self.I.subst_value(x, {ax: y}, st)
        return self.unk("list element", st, x)

    def join_values(self, st, vs, idx=None):
        from .interp import Joiner

        v = vs[0]
        for n, x in enumerate(vs[1:]):
            p = self.I.info(st, idx).term if idx is not None else n
            v = Joiner(self.I, st, st, frozenset([(("pick", p), ("not", n + 1))]), frozenset([(("pick", p), n + 1)]),
                       self.I.deps(st, idx) if idx is not None else NONE, None).val(v, x)
        return v

    # ------------------------------------------------------------- dicts
    def rawkey(self, k):
        """(known, raw) of a dictionary key."""
        if isinstance(k, Known):
            return True, k.v
        if isinstance(k, Num) and k.val is not NOVAL:
            return True, k.val
        x = self.const_text(k)
        if x is not None:
            return True, x
        if isinstance(k, (Func, Cls, Ext)):
            return True, ("obj", repr(k))
        return False, None

    def dict_keys(self, c):
        out = []
        for k in c.d:
            kv = Known(k) if not isinstance(k, (int, float)) or isinstance(k, bool) else num(k)
            if k in c.maybe:
                out.append(("opt", tm.opaque("has", (k,)), kv))
            else:
                out.append(("v", kv))
        if c.rest is not None:
            out.append(("ax", c.rest[2], c.rest[0]))
        return out

    def dict_values(self, c):
        out = []
        for k, v in c.d.items():
            out.append(("opt", tm.opaque("has", (k,)), v) if k in c.maybe else ("v", v))
        if c.rest is not None:
            out.append(("ax", c.rest[2], c.rest[1]))
        return out

    def dict_set(self, st, ref, k, v, mutate=True):
        if mutate:
            self.I.touch(ref, "item " + (repr(k.v) if isinstance(k, Known) else "?"))
        c = st.heap[ref.oid].copy()
        ok, raw = self.rawkey(self.I.pick(k, st))
        if isinstance(k, (Ref, Arr)) and (isinstance(k, Arr) or k.kind in ("list", "dict", "set")):
            self.I.raise_("TypeError", "unhashable type")
        if ok:
            c.d[raw] = v
            c.maybe = c.maybe - {raw}
            self.I.keyloc[ref.oid, raw] = self.I.store_loc()
        else:
            axes = [a for a in self.I.info(st, k).term.axes()] if isinstance(k, Num) else []
            ax = axes[0] if len(axes) == 1 else None
            if c.rest is None and ax is not None:
                c.rest = (k, v, ax)
            else:
                c.rest = (k, self.unk("dict", st, v), ax or ("anon", tm.opaque("len", ("dict",)), ("d",)))
        c.deps = c.deps | self.I.deps(st, k) if not isinstance(k, Known) else c.deps
        st.heap[ref.oid] = c

    def dict_update(self, st, ref, x, mutate=True):
        I = self.I
        x = I.pick(x, st)
        if isinstance(x, Known) and x.v is None:
            I.raise_("TypeError", "'NoneType' object is not iterable")
        if mutate:
            I.touch(ref, "update")
        if isinstance(x, Ref) and isinstance(st.heap.get(x.oid), DictCell):
            o = st.heap[x.oid]
            c = st.heap[ref.oid].copy()
            for k, v in o.d.items():
                if k in o.maybe and k in c.d:
                    v = self.join_values(st, [c.d[k], v])
                elif k in o.maybe:
                    c.maybe = c.maybe | {k}
                elif k in c.maybe:
                    c.maybe = c.maybe - {k}
                c.d[k] = v
            if o.rest is not None:
                c.rest = o.rest
            c.deps = c.deps | o.deps
            st.heap[ref.oid] = c
            return
        items, d = I.iter_items(x, st) if not isinstance(x, Unknown) else (None, x.deps)
        if items is None:
            c = st.heap[ref.oid].copy()
            u = I.unknown("dict update", d)
            c.rest = (u, u, ("anon", tm.opaque("len", ("upd",)), ("u",)))
            c.deps = c.deps | d
            st.heap[ref.oid] = c
            return
        for it in items:
            pr = it[-1]
            if isinstance(pr, Ref) and pr.kind in ("tuple", "list"):
                ps = st.heap[pr.oid].items
                if len(ps) == 2 and all(p[0] == "v" for p in ps):
                    if it[0] == "ax":
                        c = st.heap[ref.oid].copy()
                        c.rest = (ps[0][1], ps[1][1], it[1])
                        c.deps = c.deps | d
                        st.heap[ref.oid] = c
                    elif it[0] == "opt":
                        ok, raw = self.rawkey(ps[0][1])
                        if ok:
                            c = st.heap[ref.oid].copy()
                            if raw in c.d:
                                c.d[raw] = self.join_values(st, [c.d[raw], ps[1][1]])
                            else:
                                c.d[raw] = ps[1][1]
                                c.maybe = c.maybe | {raw}
                            st.heap[ref.oid] = c
                    else:
                        self.dict_set(st, ref, ps[0][1], ps[1][1], mutate=False)
                    continue
            I.raise_("TypeError", "cannot convert dictionary update sequence element")

    def dict_lookup(self, st, obj, k, missing):
        """Value for key k; missing() when the key is certainly absent."""
        I = self.I
        c = st.heap[obj.oid]
        k = I.pick(k, st)
        if isinstance(k, (Arr,)) or (isinstance(k, Ref) and k.kind != "tuple") or isinstance(k, Slice):
            I.raise_("TypeError", "unhashable type")
        ok, raw = self.rawkey(k)
        if ok:
            try:
                hash(raw)
            except TypeError:
                I.raise_("TypeError", "unhashable type")
            if raw in c.d:
                if raw in c.maybe:
                    return c.d[raw], True
                return c.d[raw], False
            if c.rest is None:
                return missing(), False
        if c.rest is not None:
            kk, vv, ax = c.rest
            if isinstance(vv, Unknown) or not isinstance(kk, Num):
                return I.unknown("dict item", I.deps(st, vv) | I.deps(st, k)), True
            # key is the element of the key table at some position: same position
            kt = I.info(st, kk).term
            if isinstance(k, Num):
                t = I.info(st, k).term
                pos = self.same_position(t, kt, ax)
                if pos is not None:
                    return self.elem_at(st, vv, ax, tm.T(pos), I.deps(st, k)), False
            kid = I.info(st, k).term if isinstance(k, Num) else raw
            axes = tuple(sorted(kid.axes(), key=tm.ordk)) if isinstance(kid, tm.Term) else ()
            p = tm.opaque("idx", (kt, kid), axes, nonneg=True, integer=True)
            return self.elem_at(st, vv, ax, tm.T(p), I.deps(st, k)), True
        if not ok and c.d:
            if isinstance(k, Num):
                return self.join_values(st, list(c.d.values()), k), True
        return I.unknown("dict item", I.deps(st, obj) | I.deps(st, k)), True

    def same_position(self, t, kt, ax):
        p, q = t.single(), kt.single()
        if p is None or q is None:
            return None
        a, b = self.single_atom(p), self.single_atom(q)
        if a is None or b is None or a.kind != b.kind or len(a.axes) != 1 or len(b.axes) != 1 or a.key != b.key:
            return None
        if b.axes[0] != ax:
            return None
        y = a.axes[0]
        return y[1] if y[0] == "ix" else tm.ixsym(y)

    # ------------------------------------------------------------- items
    def getitem(self, st, obj, idx):
        I = self.I
        if isinstance(obj, Ref):
            c = st.heap.get(obj.oid)
            if isinstance(c, DictCell):
                def miss():
                    k = self.rawkey(idx)[1] if isinstance(idx, Value) else "?"
                    if c.cls is not None:
                        f = c.cls.lookup("__missing__")
                        if f is not None:
                            return I.call(BoundF(f, obj), [idx], {}, st)
                    I.raise_("KeyError", repr(k))

                if isinstance(idx, (tuple, Slice)):
                    return I.unknown("dict key tuple", I.deps(st, obj))
                v, maybe = self.dict_lookup(st, obj, idx, miss)
                if maybe:
                    I.mayraise(st, "KeyError", "key may be absent")
                return v
            if isinstance(c, ListCell):
                if obj.kind in ("set", "dictview"):
                    I.raise_("TypeError", f"'{obj.kind}' object is not subscriptable")
                return self.seq_getitem(st, obj, idx)
            return I.unknown("item", I.deps(st, obj))
        if isinstance(obj, Arr):
            return self.arr_getitem(st, obj, idx)
        if isinstance(obj, Known):
            if isinstance(obj.v, str):
                if isinstance(idx, Slice):
                    b = [self.known(x, "?") if x is not None else None for x in (idx.lo, idx.hi, idx.step)]
                    if "?" not in b:
                        return Known(obj.v[slice(*[None if x is None else int(x) for x in b])], obj.deps)
                elif isinstance(idx, Num) and idx.val is not NOVAL:
                    try:
                        return Known(obj.v[int(idx.val)], obj.deps)
                    except IndexError:
                        I.raise_("IndexError", "string index out of range")
                return self.str_result(st, obj)
            I.raise_("TypeError", f"'{type(obj.v).__name__}' object is not subscriptable")
        if isinstance(obj, Num):
            if obj.dt == "U":
                return self.str_result(st, obj)
            if isinstance(idx, tuple) and all(isinstance(x, Known) and (x.v is None or x.v is Ellipsis) for x in idx) or (
                    isinstance(idx, Known) and idx.v in (None, Ellipsis)):
                n = sum(1 for x in (idx if isinstance(idx, tuple) else (idx,)) if x.v is None)
                return self.I.newarr([tm.ONEAX] * n, obj.dt, I.info(st, obj), unit=obj.unit)
            if isinstance(idx, tuple) and not idx:
                return obj
            I.raise_("TypeError", "scalar is not subscriptable")
        if isinstance(obj, (Func, Bound, BoundF, Mod, Exc, Cls)):
            if isinstance(obj, Cls):
                return I.unknown("class item")
            I.raise_("TypeError", "object is not subscriptable")
        if isinstance(obj, Iter):
            I.raise_("TypeError", "iterator is not subscriptable")
        if isinstance(obj, Ext):
            return self.ext_item(st, obj, idx)
        return I.unknown("item of unknown", I.deps(st, obj) | (I.deps(st, idx) if isinstance(idx, Value) else NONE))

    def setitem(self, st, obj, idx, v):
        I = self.I
        if isinstance(obj, Ref):
            c = st.heap.get(obj.oid)
            if isinstance(c, DictCell):
                if isinstance(idx, (tuple, Slice)):
                    return
                self.dict_set(st, obj, idx, v)
                return
            if isinstance(c, ListCell):
                if obj.kind != "list":
                    I.raise_("TypeError", f"'{obj.kind}' object does not support item assignment")
                I.touch(obj, "item assignment")
                items = list(c.items)
                k = self.known(idx) if isinstance(idx, Num) else None
                if k is not None and all(i[0] == "v" for i in items):
                    k = int(k)
                    if not -len(items) <= k < len(items):
                        I.raise_("IndexError", "list assignment index out of range")
                    items[k] = ("v", v)
                    st.heap[obj.oid] = ListCell(items, c.deps)
                    return
                if isinstance(idx, Num) and len(items) == 1 and items[0][0] == "ax":
                    # items[i] = v inside a loop over the same axis
                    p = I.info(st, idx).term.single()
                    a = self.single_atom(p) if p is not None else None
                    ax = items[0][1]
                    if a is not None and a.key == ("ix",) and tm.untag(a.axes[0]) == tm.untag(ax):
                        st.heap[obj.oid] = ListCell([("ax", ax, I.rename_value(v, a.axes[0], ax, st))], c.deps)
                        return
                d = I.deps(st, v) | I.deps(st, idx) if isinstance(idx, Value) else I.deps(st, v)
                out = []
                for it in items:
                    u = I.unknown("list store", I.deps(st, it[-1]) | d)
                    out.append(it[:-1] + (u,))
                if isinstance(idx, Slice):
                    out = [("ax", ("anon", tm.opaque("len", ("slice-store",)), ("ss",)), I.unknown("list store", d))]
                st.heap[obj.oid] = ListCell(out, c.deps)
                return
            return
        if isinstance(obj, Arr):
            self.arr_setitem(st, obj, idx, v)
            return
        if isinstance(obj, Ext):
            I.event("ext-write", name=obj.path + "[]")
            return
        if isinstance(obj, (Num, Known, Func, Cls, Mod, Exc, Bound, BoundF)):
            I.raise_("TypeError", "object does not support item assignment")
        if isinstance(obj, Unknown) and obj.root:
            I.event("mutate", root=frozenset([obj.root] if isinstance(obj.root, str) else obj.root), what="item assignment")

    def delitem(self, st, obj, idx):
        I = self.I
        obj = I.pick(obj, st)
        if isinstance(obj, Ref):
            c = st.heap.get(obj.oid)
            I.touch(obj, "delete item")
            if isinstance(c, DictCell):
                ok, raw = self.rawkey(idx)
                if ok and raw in c.d:
                    c = c.copy()
                    del c.d[raw]
                    st.heap[obj.oid] = c
                elif ok and c.rest is None:
                    I.raise_("KeyError", repr(raw))
                return
            if isinstance(c, ListCell) and obj.kind == "list":
                k = self.known(idx) if isinstance(idx, Num) else None
                if k is not None and all(i[0] == "v" for i in c.items):
                    items = list(c.items)
                    try:
                        del items[int(k)]
                    except IndexError:
                        I.raise_("IndexError", "list assignment index out of range")
                    st.heap[obj.oid] = ListCell(items, c.deps)
                else:
                    st.heap[obj.oid] = ListCell([("ax", ("anon", tm.opaque("len", ("del",)), ("dl",)), I.unknown("list", I.deps(st, obj)))])

    # ---------------------------------------------------------- contains
    def contains(self, st, a, b):
        I = self.I
        a, b = I.pick(a, st), I.pick(b, st)
        if isinstance(b, Choice) or isinstance(a, Choice):
            return I.over_choice(lambda x, y: self._bnum(self.contains(st, x, y)), [a, b], st)
        if isinstance(b, Known):
            if isinstance(b.v, str):
                if isinstance(a, Known) and isinstance(a.v, str):
                    return a.v in b.v
                if isinstance(a, Num) and a.dt == "U" or isinstance(a, Unknown):
                    return self.opaque_bool(st, "in", a, b)
                I.raise_("TypeError", "'in <string>' requires string as left operand")
            I.raise_("TypeError", f"argument of type '{type(b.v).__name__}' is not iterable")
        if isinstance(b, Ref):
            c = st.heap.get(b.oid)
            if isinstance(c, (InstCell, DictCell)) and c.cls is not None:
                f = c.cls.lookup("__contains__")
                if f is not None:
                    return I.call(BoundF(f, b), [a], {}, st)
            if isinstance(c, DictCell):
                ok, raw = self.rawkey(a)
                if isinstance(a, (Arr,)) or isinstance(a, Ref) and a.kind in ("list", "dict", "set"):
                    I.raise_("TypeError", "unhashable type")
                if ok:
                    if raw in c.d:
                        return True if raw not in c.maybe else self.opaque_bool(st, "has", a, b)
                    if c.rest is None:
                        return False
                if c.rest is not None and isinstance(a, Num) and isinstance(c.rest[0], Num):
                    if self.same_position(I.info(st, a).term, I.info(st, c.rest[0]).term, c.rest[2]) is not None:
                        return True
                return self.opaque_bool(st, "in", a, b)
            if isinstance(c, ListCell):
                res = False
                und = []
                m = self.text_member(st, a, c)
                if m is not None:
                    return m
                for it in c.items:
                    x = it[-1]
                    if it[0] == "ax":
                        if isinstance(x, Num) and isinstance(a, Num) and self.same_position(I.info(st, a).term, I.info(st, x).term, it[1]) is not None:
                            return True
                        und.append(x)
                        continue
                    s = self.same_elem(st, a, x)
                    if s is True and it[0] == "v":
                        return True
                    if s is not False:
                        und.append(x)
                if not und:
                    return res
                return self.opaque_bool(st, "in", a, b)
        if isinstance(b, Iter):
            return self.opaque_bool(st, "in", a, b)
        if isinstance(b, Arr):
            pos = self.known_positions(st, b) if b.dt == "i" else None
            x = I.info(st, a).term.rconst() if pos is not None and isinstance(a, Num) and len(I.info(st, a).term.alts) == 1 else None
            if x is not None:
                return x in pos
            return self.opaque_bool(st, "in", a, b)
        if isinstance(b, Num):
            I.raise_("TypeError", "argument of type number is not iterable")
        return self.opaque_bool(st, "in", a, b)

    def _bnum(self, r):
        return num(r) if isinstance(r, bool) else r

    def text_of(self, v):
        """repr of a text whose characters are known."""
        if isinstance(v, Known) and isinstance(v.v, str):
            return repr(str(v.v))
        if isinstance(v, Num) and v.dt in "OU":
            if isinstance(v.val, str):
                return repr(str(v.val))
            p = v.info.term.single()
            a = self.single_atom(p) if p is not None else None
            if a is not None and a.kind == "op" and a.key[0] == "const" and a.key[1][:1] in "'\"":
                return a.key[1]
        return None

    def text_member(self, st, a, c):
        """Membership of a text that is known for every guarded alternative."""
        if not (isinstance(a, Num) and a.dt in "OU" and a.val is NOVAL) or len(a.info.term.alts) < 2:
            return None
        have = {self.text_of(it[-1]) if it[0] == "v" else None for it in c.items}
        if None in have:
            return None
        alts = []
        for g, p in a.info.term.alts:
            x = self.single_atom(p)
            if x is None or x.kind != "op" or x.key[0] != "const" or x.key[1][:1] not in "'\"":
                return None
            alts.append((g, x.key[1] in have))
        if len({x for _, x in alts}) == 1:
            return alts[0][1]
        t = tm.mkterm([(g, tm.PONE if x else tm.PZERO) for g, x in alts])
        return Num("b", a.info.rep(term=t))

    def same_elem(self, st, a, b):
        """True / False / None: a is b or a == b as container element."""
        if a is b:
            return True
        if isinstance(b, Choice) or isinstance(a, Choice):
            return None
        x, y = self.text_of(a), self.text_of(b)
        if x is not None and y is not None:
            return x == y
        try:
            r = self.compare(st, "Eq", a, b)
        except AbsRaise:
            return None
        if isinstance(r, Num):
            if r.val is not NOVAL:
                return bool(r.val)
            t = self.I.truth(r, st)
            return t
        return None

    # -------------------------------------------------------------- sets
    def set_items(self, st, v):
        items, d = self.I.iter_items(v, st, ordered=False)
        return items, d

    def mkset(self, st, items, deps=NONE, kind="set"):
        out = []
        for it in items:
            if it[0] == "v":
                if isinstance(it[1], (Arr,)) or isinstance(it[1], Ref) and it[1].kind in ("list", "dict", "set"):
                    self.I.raise_("TypeError", "unhashable type")
                if any(o[0] == "v" and self.same_elem(st, o[1], it[1]) is True for o in out):
                    continue
            out.append(it)
        return self.mklist(st, out, kind, deps)

    def setop(self, st, op, a, b):
        x, d1 = self.set_items(st, a)
        y, d2 = self.set_items(st, b)
        if x is None or y is None:
            return self.unk("set operation", st, a, b)
        d = d1 | d2

        def inn(it, other):
            if it[0] != "v":
                return None
            r = False
            for o in other:
                s = self.same_elem(st, it[1], o[-1]) if o[0] == "v" else None
                if s is True:
                    return True
                if s is None:
                    r = None
            return r

        if op == "BitOr":
            return self.mkset(st, list(x) + list(y), d)
        out = []
        for it in x:
            r = inn(it, y)
            keep = {"BitAnd": r, "Sub": None if r is None else not r, "BitXor": None if r is None else not r}[op]
            if keep is True:
                out.append(it)
            elif keep is None:
                if it[0] == "v":
                    out.append(("opt", tm.opaque("setop", (op, repr(it[1])[:60])), it[1]))
                else:
                    out.append(("ax", ("flt", it[1], ("setop", op)), self.I.rename_value(it[2], it[1], ("flt", it[1], ("setop", op)), st)))
        if op == "BitXor":
            for it in y:
                r = inn(it, x)
                if r is None:
                    out.append(("opt", tm.opaque("setop", (op,)), it[-1]))
                elif not r:
                    out.append(it)
        return self.mkset(st, out, d)

    def setcmp(self, st, op, a, b):
        x, _ = self.set_items(st, a)
        y, _ = self.set_items(st, b)
        if x is None or y is None or any(i[0] != "v" for i in list(x) + list(y)):
            return self.opaque_bool(st, "setcmp" + op, a, b)

        def sub(p, q):
            r = True
            for i in p:
                s = [self.same_elem(st, i[1], j[1]) for j in q]
                if any(z is True for z in s):
                    continue
                if any(z is None for z in s):
                    r = None
                else:
                    return False
            return r

        s1, s2 = sub(x, y), sub(y, x)
        v = {"LtE": s1, "GtE": s2}.get(op, "?")
        if v == "?":
            if None in (s1, s2):
                v = None
            else:
                v = {"Eq": s1 and s2, "NotEq": not (s1 and s2), "Lt": s1 and not s2, "Gt": s2 and not s1}[op]
        return num(v) if v is not None else self.opaque_bool(st, "setcmp" + op, a, b)

    def seqcmp(self, st, op, a, b):
        x, y = st.heap[a.oid], st.heap[b.oid]
        if all(i[0] == "v" for i in x.items + y.items):
            if len(x.items) != len(y.items):
                if op in ("Eq", "NotEq"):
                    return num(op == "NotEq")
            elif op in ("Eq", "NotEq"):
                rs = [self.same_elem(st, i[1], j[1]) for i, j in zip(x.items, y.items)]
                if all(r is True for r in rs):
                    return num(op == "Eq")
                if any(r is False for r in rs):
                    return num(op == "NotEq")
                und = [self.compare(st, "Eq", i[1], j[1]) for i, j, r in zip(x.items, y.items, rs) if r is None]
                if all(isinstance(u, Num) for u in und) and und:
                    r = und[0]
                    for u in und[1:]:
                        r = self.boolop(st, "BitAnd", r, u)
                    return self.lognot(st, r) if op == "NotEq" else r
            elif op in ("Lt", "LtE", "Gt", "GtE"):
                for i, j in zip(x.items, y.items):
                    s = self.same_elem(st, i[1], j[1])
                    if s is False:
                        return self.compare(st, op, i[1], j[1])
                    if s is None:
                        return self.opaque_bool(st, "seqcmp", a, b)
                return num(op in ("LtE", "GtE"))
        else:
            def shape(c):
                p = tm.PZERO
                for it in c.items:
                    if it[0] == "v":
                        p = tm.add(p, tm.PONE)
                    elif it[0] == "ax" and it[1] is not None and it[1][0] != "count":
                        p = tm.add(p, tm.axis_len(it[1]))
                    else:
                        return None
                return p

            if self.ident(st, a) == self.ident(st, b) and op in ("Eq", "NotEq"):
                return num(op == "Eq")
        return self.opaque_bool(st, "seqcmp" + op, a, b)

    # ----------------------------------------------------------- methods
    def container_method(self, st, obj, name, args, kwargs):
        I = self.I
        c = st.heap.get(obj.oid)
        k = obj.kind
        if isinstance(c, DictCell):
            return self.dict_method(st, obj, c, name, args, kwargs)
        if name in ("__getitem__",):
            return I.getitem(obj, args[0], st)
        if name == "__setitem__":
            I.setitem(obj, args[0], args[1], st)
            return PYNONE
        if name == "__len__":
            return self.items_len(st, c.items, c.deps)
        if name == "__contains__":
            return self._bnum(self.contains(st, args[0], obj))
        if name == "__iter__":
            return Iter(c.items, c.deps)
        if k in ("set", "dictview"):
            return self.set_method(st, obj, c, name, args)
        if name == "append":
            self.list_append(st, obj, args[0])
            return PYNONE
        if name == "extend":
            self.list_extend(st, obj, args[0])
            return PYNONE
        if name == "copy":
            return self.mklist(st, c.items, k, c.deps)
        if name == "clear":
            I.touch(obj, "clear")
            st.heap[obj.oid] = ListCell(())
            return PYNONE
        if name == "index":
            und = False
            for n, it in enumerate(c.items):
                if it[0] != "v":
                    x = it[-1]
                    if it[0] == "ax" and n == 0 and len(c.items) == 1 and isinstance(x, Num) and isinstance(args[0], Num):
                        pos = self.same_position(I.info(st, args[0]).term, I.info(st, x).term, it[1])
                        if pos is not None:
                            return Num("i", Info(tm.T(pos), I.deps(st, args[0]), ((0.0, INF),)))
                    und = True
                    break
                s = self.same_elem(st, it[1], args[0])
                if s is True and not und:
                    return num(n)
                if s is None:
                    und = True
            if not und:
                I.raise_("ValueError", "value is not in list")
            I.mayraise(st, "ValueError", "value may not be in list")
            key = (self.ident(st, obj), self.ident(st, args[0]))
            axes = set()
            for z in args:
                if isinstance(z, Num):
                    axes |= z.info.term.axes()
            return Num("i", Info(tm.T(tm.opaque("index", key, tuple(sorted(axes, key=tm.ordk)), nonneg=True, integer=True)), I.deps(st, obj) | I.deps(st, args[0]), ((0.0, INF),)))
        if name == "count":
            return Num("i", Info(tm.T(tm.opaque("count", (self.ident(st, obj), self.ident(st, args[0])), nonneg=True, integer=True)), I.deps(st, obj), ((0.0, INF),)))
        I.touch(obj, name)
        items = list(c.items)
        allv = all(i[0] == "v" for i in items)
        if name == "insert":
            p = self.known(args[0])
            if p is not None and (allv or p == 0):
                items.insert(int(p), ("v", args[1]))
            else:
                items = [("ax", ("anon", tm.opaque("len", ("ins",)), ("in",)), I.unknown("list", I.deps(st, obj) | I.deps(st, args[1])))]
            st.heap[obj.oid] = ListCell(items, c.deps)
            return PYNONE
        if name == "pop":
            p = self.known(args[0]) if args else -1
            if not items:
                I.raise_("IndexError", "pop from empty list")
            if allv and p is not None:
                try:
                    v = items.pop(int(p))[1]
                except IndexError:
                    I.raise_("IndexError", "pop index out of range")
                st.heap[obj.oid] = ListCell(items, c.deps)
                return v
            st.heap[obj.oid] = ListCell([("ax", ("anon", tm.opaque("len", ("pop",)), ("po",)), I.unknown("list", I.deps(st, obj)))])
            return I.unknown("pop", I.deps(st, obj))
        if name == "reverse":
            if allv:
                st.heap[obj.oid] = ListCell(items[::-1], c.deps)
            else:
                st.heap[obj.oid] = ListCell([("ax", ("anon", tm.opaque("len", ("rev",)), ("rv",)), I.unknown("list", I.deps(st, obj)))])
            return PYNONE
        if name == "sort":
            st.heap[obj.oid] = ListCell(self.sorted_items(st, items, kwargs), c.deps)
            return PYNONE
        if name == "remove":
            for n, it in enumerate(items):
                s = self.same_elem(st, it[-1], args[0]) if it[0] == "v" else None
                if s is True:
                    items.pop(n)
                    st.heap[obj.oid] = ListCell(items, c.deps)
                    return PYNONE
                if s is None:
                    break
            else:
                I.raise_("ValueError", "list.remove(x): x not in list")
            st.heap[obj.oid] = ListCell([("ax", ("anon", tm.opaque("len", ("rem",)), ("rm",)), I.unknown("list", I.deps(st, obj)))])
            return PYNONE
        return I.unknown("method " + name, I.deps(st, obj))

    def const_text(self, k):
        """Text of a known element of a text array, or None."""
        if isinstance(k, Num) and k.dt in "UO":
            return self.poly_text(k.info.term.single())
        return None

    def poly_text(self, p):
        a = self.single_atom(p) if p is not None else None
        if a is not None and a.kind == "op" and a.key[0] == "const" and len(a.key) == 2 and isinstance(a.key[1], str) and not a.axes:
            x = a.key[1]
            return x[1:-1] if x[:1] in "'\"" and x[-1:] == x[:1] and "\\" not in x else x
        return None

    def sort_key(self, st, v):
        v = self.I.pick(v, st)
        x = self.const_text(v)
        if x is not None:
            return (x,)
        if isinstance(v, Known) and isinstance(v.v, str):
            return (v.v,)
        if isinstance(v, Num) and v.val is not NOVAL and v.dt in "bif":
            return (v.val,)
        if isinstance(v, Ref) and v.kind in ("tuple", "list"):
            its = st.heap[v.oid].items
            if its and its[0][0] == "v":
                k = self.sort_key(st, its[0][1])
                if k is not None:
                    return k
        return None

    def sorted_items(self, st, items, kwargs=None):
        kwargs = kwargs or {}
        rev = self.known(kwargs.get("reverse"), False)
        keyf = kwargs.get("key")
        if len(items) == 1 and items[0][0] == "ax" and items[0][1][0] == "lit" and isinstance(items[0][2], Num):
            # elements of a literal length: one by one
            ax, v = items[0][1], items[0][2]
            arr = self.I.newarr([ax], v.dt, v.info)
            items = [("v", self.arr_getitem(st, arr, (num(k),))) for k in range(ax[1])]
            if not all(self.const_text(x) is not None for _, x in items):
                items = [("ax", ax, v)]
        if all(i[0] == "v" for i in items):
            ks = [self.sort_key(st, self.I.call(keyf, [i[1]], {}, st) if keyf is not None and not (isinstance(keyf, Known) and keyf.v is None) else i[1]) for i in items]
            if all(k is not None for k in ks) and (len(set(ks)) == len(ks) or all(isinstance(i[1], (Known, Num)) for i in items)):
                try:
                    order = sorted(range(len(ks)), key=lambda n: ks[n], reverse=bool(rev))
                    return [items[n] for n in order]
                except TypeError:
                    self.I.raise_("TypeError", "'<' not supported between elements")
        if len(items) == 1 and items[0][0] == "ax":
            ax = items[0][1]
            new = ("perm", ax, ("sorted", bool(rev)))
            return [("ax", new, self.I.rename_value(items[0][2], ax, new, st))]
        d = NONE
        for i in items:
            d |= self.I.deps(st, i[-1])
        if len(items) <= 1:
            return items
        n = self.items_len(st, items)
        return [("ax", n.lenof if n.lenof else ("anon", n.info.term.single() or tm.opaque("len", ("sort",)), ("so",)), self.I.unknown("sorted", d))]

    def set_method(self, st, obj, c, name, args):
        I = self.I
        ops = {"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}
        if name in ops or name in ("update", "difference_update", "intersection_update"):
            op = ops.get(name) or {"update": "BitOr", "difference_update": "Sub", "intersection_update": "BitAnd"}[name]
            r = obj
            for a in args:
                a = I.pick(a, st)
                items, d = self.set_items(st, a)
                if items is None:
                    r = self.unk("set", st, obj, a)
                    break
                r = self.setop(st, op, r, self.mklist(st, items, "set", d))
                if isinstance(r, Unknown):
                    break
            if name in ops:
                return r if r is not obj else self.mklist(st, c.items, "set", c.deps)
            I.touch(obj, name)
            if isinstance(r, Ref):
                st.heap[obj.oid] = st.heap[r.oid]
            return PYNONE
        if name == "copy":
            return self.mklist(st, c.items, "set", c.deps)
        if name in ("issubset", "issuperset", "isdisjoint"):
            items, d = self.set_items(st, args[0])
            if items is None:
                return self.opaque_bool(st, name, obj, args[0])
            b = self.mkset(st, items, d)
            if name == "isdisjoint":
                r = self.setop(st, "BitAnd", obj, b)
                t = self.I.truth(r, st)
                return num(not t) if t is not None else self.opaque_bool(st, name, obj, b)
            return self.setcmp(st, "LtE" if name == "issubset" else "GtE", obj, b)
        I.touch(obj, name)
        if name == "add":
            r = self.mkset(st, list(c.items) + [("v", args[0])], c.deps)
            st.heap[obj.oid] = st.heap[r.oid]
            return PYNONE
        if name in ("discard", "remove"):
            b = self.mklist(st, [("v", args[0])], "set")
            r = self.setop(st, "Sub", obj, b)
            st.heap[obj.oid] = st.heap[r.oid]
            return PYNONE
        if name == "clear":
            st.heap[obj.oid] = ListCell(())
            return PYNONE
        if name == "pop":
            I.event("set-iteration", n=len(c.items))
            return I.unknown("set.pop", I.deps(st, obj))
        return I.unknown("set method", I.deps(st, obj))

    def dict_method(self, st, obj, c, name, args, kwargs):
        I = self.I
        if name == "__init__":
            for a in args:
                self.dict_update(st, obj, a, mutate=False)
            for k, v in kwargs.items():
                if k == "**":
                    self.dict_update(st, obj, v, mutate=False)
                else:
                    self.dict_set(st, obj, Known(k), v, mutate=False)
            return PYNONE
        if name == "keys":
            return self.mklist(st, self.dict_keys(c), "dictview", c.deps)
        if name == "__iter__":
            return Iter(self.dict_keys(c), c.deps)
        if name == "values":
            return self.mklist(st, self.dict_values(c), "list", c.deps)
        if name == "items":
            out = []
            for a, b in zip(self.dict_keys(c), self.dict_values(c)):
                out.append(a[:-1] + (self.mktuple(st, [a[-1], b[-1]]),))
            return self.mklist(st, out, "list", c.deps)
        if name == "__getitem__":
            return self.getitem(st, obj, args[0])
        if name == "__setitem__":
            self.dict_set(st, obj, args[0], args[1])
            return PYNONE
        if name == "__delitem__":
            self.delitem(st, obj, args[0])
            return PYNONE
        if name == "__contains__":
            return self._bnum(self.contains(st, args[0], obj))
        if name == "__len__":
            return self.items_len(st, self.dict_keys(c), c.deps)
        if name in ("get", "pop", "setdefault"):
            dflt = args[1] if len(args) > 1 else kwargs.get("default", PYNONE)

            def miss():
                if name == "pop" and len(args) < 2:
                    I.raise_("KeyError", repr(self.rawkey(args[0])[1]))
                if name == "setdefault":
                    self.dict_set(st, obj, args[0], dflt)
                return dflt

            v, maybe = self.dict_lookup(st, obj, args[0], miss)
            if maybe:
                if name == "pop" and len(args) < 2:
                    I.mayraise(st, "KeyError", "key may be absent")
                else:
                    ok, raw = self.rawkey(I.pick(args[0], st))
                    v = self.join_values(st, [v, dflt]) if not isinstance(v, Unknown) else I.unknown("get", I.deps(st, v) | I.deps(st, dflt))
            if name == "pop":
                ok, raw = self.rawkey(I.pick(args[0], st))
                cur = st.heap[obj.oid]
                if ok and raw in cur.d:
                    I.touch(obj, "pop")
                    cur = cur.copy()
                    del cur.d[raw]
                    cur.maybe = cur.maybe - {raw}
                    st.heap[obj.oid] = cur
            return v
        if name == "update":
            for a in args:
                self.dict_update(st, obj, a)
            for k, v in kwargs.items():
                if k == "**":
                    self.dict_update(st, obj, v)
                else:
                    self.dict_set(st, obj, Known(k), v)
            return PYNONE
        if name == "copy":
            r = Ref("dict")
            st.heap[r.oid] = DictCell(c.d, c.rest, None, c.maybe, c.deps)
            return r
        if name == "clear":
            I.touch(obj, "clear")
            st.heap[obj.oid] = DictCell(cls=c.cls)
            return PYNONE
        if name == "popitem":
            I.touch(obj, "popitem")
            return I.unknown("popitem", I.deps(st, obj))
        return I.unknown("dict method " + name, I.deps(st, obj))

    # ----------------------------------------------------------- strings
    def str_method(self, st, obj, name, args, kwargs):
        I = self.I
        if isinstance(obj, Known) and isinstance(obj.v, str):
            vals = []
            ok = True
            for a in args:
                a = I.pick(a, st)
                if isinstance(a, Known) and isinstance(a.v, (str, type(None))):
                    vals.append(a.v)
                elif isinstance(a, Num) and a.val is not NOVAL and a.dt in "bi":
                    vals.append(int(a.val))
                elif name in ("join", "startswith", "endswith") and isinstance(a, Ref) and all(
                        i[0] == "v" and isinstance(i[1], Known) for i in getattr(st.heap.get(a.oid), "items", [("?",)])):
                    vals.append(tuple(i[1].v for i in st.heap[a.oid].items))
                else:
                    ok = False
            if name == "format":
                return self.str_format(st, obj, args, kwargs)
            if ok and not kwargs and hasattr(str, name):
                try:
                    r = getattr(obj.v, name)(*vals)
                except (TypeError, ValueError, IndexError, KeyError, AttributeError) as e:
                    I.raise_(type(e).__name__, str(e))
                if isinstance(r, str):
                    return Known(r, obj.deps)
                if isinstance(r, bool) or isinstance(r, int):
                    return num(r)
                if isinstance(r, (list, tuple)):
                    return self.mklist(st, [("v", Known(x)) for x in r], "list" if isinstance(r, list) else "tuple")
        if not hasattr(str, name):
            I.raise_("AttributeError", f"'str' object has no attribute '{name}'")
        for a in args:
            if name == "join":
                items, d = I.iter_items(a, st)
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isupper", "islower"):
            return self.opaque_bool(st, "str." + name, obj, *args)
        if name in ("split", "splitlines", "partition", "rsplit"):
            return I.unknown("split", I.deps(st, obj))
        if name in ("find", "index", "count"):
            return Num("i", Info(tm.T(tm.opaque("str." + name, (self.ident(st, obj),))), I.deps(st, obj)))
        if name in ("rstrip", "strip", "lstrip", "upper", "lower", "title", "capitalize") and isinstance(obj, Num):
            # element of a text array: each known text on its own
            ps = [p for _, p in obj.info.term.alts]
            ts = [self.poly_text(p) for p in ps]
            if all(t is not None for t in ts) and all(isinstance(a, Known) and isinstance(a.v, str) for a in args):
                t = tm.tmap(lambda p: tm.opaque("const", (repr(getattr(self.poly_text(p), name)(*[a.v for a in args])),)), obj.info.term)
                return Num(obj.dt, obj.info.rep(term=t))
            if name in ("rstrip", "strip") and not args:
                return obj
        return self.str_result(st, obj, *args, *kwargs.values())

    def str_format(self, st, obj, args, kwargs):
        """str.format: the text when everything is known, and the errors it
        raises for values that do not accept a format specification."""
        import string

        I = self.I
        out = []

        def field(name):
            head = name.split(".")[0].split("[")[0]
            if head != name:
                return I.unknown("format field", I.deps(st, obj))
            if name.isdigit():
                if int(name) >= len(args):
                    I.raise_("IndexError", "Replacement index out of range for positional args tuple")
                return I.pick(args[int(name)], st)
            if name not in kwargs:
                I.raise_("KeyError", name)
            return I.pick(kwargs[name], st)

        def expand(text, depth):
            """Known text or None."""
            parts, auto, ok = [], 0, True
            try:
                items = list(string.Formatter().parse(text))
            except ValueError as e:
                I.raise_("ValueError", str(e))
            for lit, name, spc, conv in items:
                parts.append(lit)
                if name is None:
                    continue
                if name == "":
                    name, auto = str(auto), auto + 1
                v = field(name)
                sp = expand(spc, depth + 1) if spc else ""
                r = self.format_value(st, v, sp, conv)
                if r is None:
                    ok = False
                else:
                    parts.append(r)
            return "".join(parts) if ok else None

        r = expand(obj.v, 0)
        if r is not None:
            return Known(r, obj.deps)
        return self.str_result(st, obj, *args, *kwargs.values())

    def format_value(self, st, v, spec, conv):
        """Text of one formatted value, None when it is not known."""
        I = self.I
        if conv:
            v = self.to_str(st, v) if conv == "s" else self.b_repr(st, v)
        raw = None
        if isinstance(v, Known) and isinstance(v.v, (str, type(None))):
            raw = (v.v,)
        elif isinstance(v, Num) and v.val is not NOVAL and v.dt in "bif" and not (v.dt == "f" and isinstance(v.val, bool)):
            raw = (bool(v.val),) if v.dt == "b" else (v.val,)
        if raw is not None and spec is not None:
            try:
                return format(raw[0], spec)
            except (TypeError, ValueError) as e:
                I.raise_(type(e).__name__, str(e))
        if spec and (isinstance(v, Ref) or isinstance(v, Known) and v.v is None or isinstance(v, Arr) and v.axes):
            I.raise_("TypeError", f"unsupported format string passed to {getattr(v, 'kind', type(v).__name__)}.__format__")
        if spec and isinstance(v, Num) and v.dt in "if" and spec[-1] == "s":
            I.raise_("ValueError", "Unknown format code 's' for a number")
        if spec and isinstance(v, Num) and v.dt == "U" and spec[-1] in "dfgeGExXob%":
            I.raise_("ValueError", f"Unknown format code '{spec[-1]}' for object of type 'str'")
        if isinstance(v, Ref):
            self.to_str(st, v)
        return None

    def to_str(self, st, v):
        v = self.I.pick(v, st)
        if isinstance(v, Known):
            return Known(str(v.v), v.deps)
        if isinstance(v, Num) and v.val is not NOVAL and v.dt in "bi":
            return Known(str(v.val))
        if isinstance(v, Num) and v.dt == "U":
            return v
        if isinstance(v, Ref):
            c = st.heap.get(v.oid)
            if isinstance(c, (InstCell, DictCell)) and c.cls is not None:
                for nm in ("__str__", "__repr__"):
                    r = self.I.dunder(v, nm, [], st)
                    if r is not None:
                        return r
        return self.str_result(st, v)
