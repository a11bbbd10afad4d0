"""numpy and library functions that are defined by other modelled functions: the
definitions are interpreted like the code under analysis."""

NAMES = {
    "numpy.split": "split", "numpy.array_split": "split", "numpy.hsplit": "hsplit", "numpy.vsplit": "split",
    "numpy.block": "block", "numpy.insert": "insert", "numpy.tensordot": "tensordot", "numpy.average": "average", "numpy.ma.average": "average",
    "numpy.quantile": "quantile", "numpy.percentile": "percentile", "numpy.nanquantile": "quantile", "numpy.nanpercentile": "percentile",
    "numpy.diagflat": "diagflat", "numpy.extract": "extract", "numpy.flipud": "flipud", "numpy.fliplr": "fliplr", "numpy.flip": "flip",
    "numpy.heaviside": "heaviside", "numpy.select": "select", "numpy.piecewise": "piecewise", "numpy.fromiter": "fromiter",
    "numpy.tile": "tile", "numpy.repeat": "repeat", "numpy.iscomplexobj": "iscomplexobj", "numpy.isrealobj": "isrealobj", "numpy.issubdtype": "issubdtype",
    "numpy.divmod": "divmod_", "builtins.divmod": "divmod_", "numpy.modf": "modf", "numpy.polyval": "polyval", "numpy.polynomial.polynomial.polyval": "polyval2",
    "numpy.vander": "vander", "numpy.roll": "roll", "numpy.delete": "delete", "numpy.array_equal": "array_equal", "numpy.linalg.multi_dot": "multi_dot",
    "numpy.linalg.norm": "norm", "numpy.linalg.solve": "solve", "scipy.linalg.solve": "solve", "scipy.linalg.norm": "norm", "numpy.argwhere": "argwhere",
    "numpy.meshgrid": "meshgrid", "functools.partial": "partial", "operator.itemgetter": "itemgetter", "operator.attrgetter": "attrgetter",
    "numpy.ma.sum": "masum",
    "numpy.sinc": "sinc", "numpy.outer": "outer", "numpy.triu": "triu", "numpy.tril": "tril", "numpy.vectorize": "vectorize",
    "numpy.nanargsort": "argsort", "numpy.apply_along_axis": "apply_along_axis",
}
for _op, _name in (("add", "+"), ("multiply", "*"), ("subtract", "-"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("equal", "=="), ("less", "<"),
                   ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("logical_and", "&"), ("logical_or", "|")):
    NAMES[f"numpy.{_op}.outer"] = f"outer_{_op}"
for _op, _red in (("add", "sum"), ("multiply", "prod"), ("maximum", "max"), ("minimum", "min"), ("logical_and", "all"), ("logical_or", "any")):
    NAMES[f"numpy.{_op}.reduce"] = f"reduce_{_op}"

SOURCE = '''
def split(a, ind, axis=0):
    if axis != 0:
        return hsplit(a, ind) if axis == 1 else unmodelled(a, ind)
    a = np.asarray(a)
    if isinstance(ind, int):
        n = len(a) // ind
        ind = [n * i for i in range(1, ind)]
    out = []
    last = 0
    for i in ind:
        out.append(a[last:i])
        last = i
    out.append(a[last:])
    return out


def hsplit(a, ind):
    a = np.asarray(a)
    if a.ndim == 1:
        return split(a, ind)
    if isinstance(ind, int):
        n = a.shape[1] // ind
        ind = [n * i for i in range(1, ind)]
    out = []
    last = 0
    for i in ind:
        out.append(a[:, last:i])
        last = i
    out.append(a[:, last:])
    return out


def block(rows):
    if isinstance(rows, list) and isinstance(rows[0], list):
        rows = [np.concatenate(r, axis=1) if len(r) > 1 else r[0] for r in rows]
        return np.concatenate(rows, axis=0) if len(rows) > 1 else rows[0]
    return np.hstack(rows)


def insert(a, i, v, axis=None):
    a = np.asarray(a)
    if a.ndim == 1:
        if isinstance(i, int) and i == 0:
            return np.concatenate((np.atleast_1d(v), a))
        if i is a.shape[0] or isinstance(i, int) and isinstance(a.shape[0], int) and i == a.shape[0]:
            return np.concatenate((a, np.atleast_1d(v)))
        return np.concatenate((a[:i], np.atleast_1d(v), a[i:]))
    if axis == 0 and a.ndim == 2 and np.ndim(v) < 2 and isinstance(i, int):
        new = np.full((1, a.shape[1]), v) if np.ndim(v) == 0 else np.asarray(v)[None, :]
        if i == 0:
            return np.vstack((new, a))
        return np.vstack((a[:i], new, a[i:]))
    if axis == 1 and np.ndim(v) == 0:
        new = np.full((len(a), 1), v)
        if i is a.shape[1] or i == a.shape[1]:
            return np.hstack((a, new))
        return np.hstack((a[:, :i], new, a[:, i:]))
    return unmodelled(a, v)


def tensordot(a, b, axes=2):
    return np.dot(a, b) if isinstance(axes, int) and axes == 1 else unmodelled(a, b)


def average(a, axis=None, weights=None, **kw):
    if weights is None:
        return np.mean(a, axis=axis)
    if axis is None:
        return np.sum(a * np.asarray(weights)) / np.sum(weights)
    return unmodelled(a, weights)


def quantile(a, q, axis=None, **kw):
    if not isinstance(q, (list, tuple)) and q == 0.5:
        return np.median(a, axis=axis)
    return unmodelled(a, q)


def percentile(a, q, axis=None, **kw):
    if not isinstance(q, (list, tuple)) and q == 50:
        return np.median(a, axis=axis)
    return unmodelled(a, q)


def diagflat(a):
    return np.diag(np.ravel(a))


def extract(c, a):
    return np.asarray(a)[np.asarray(c, dtype=bool)]


def flipud(a):
    return np.asarray(a)[::-1]


def fliplr(a):
    return np.asarray(a)[:, ::-1]


def flip(a, axis=None):
    a = np.asarray(a)
    if a.ndim == 1 or axis == 0:
        return a[::-1]
    if axis == 1:
        return a[:, ::-1]
    return unmodelled(a)


def heaviside(x, h):
    return np.where(x < 0, 0.0, np.where(x > 0, 1.0, h))


def select(conds, choices, default=0):
    r = default
    for c, x in list(zip(conds, choices))[::-1]:
        r = np.where(c, x, r)
    return r


def piecewise(x, conds, funcs):
    n = len(conds)
    r = 0 * x
    if len(funcs) > n:
        f = funcs[n]
        r = f(x) if callable(f) else f + 0 * x
    for c, f in list(zip(conds, funcs))[::-1]:
        r = np.where(c, f(x) if callable(f) else f, r)
    return r


def fromiter(it, dtype=None, count=-1):
    return np.array(list(it), dtype=dtype)


def vectorize(f, **kw):
    def g(x):
        if np.ndim(x) == 0:
            return f(x)
        return np.array([f(y) for y in x])

    return g


def apply_along_axis(f, axis, a):
    a = np.asarray(a)
    if a.ndim == 1:
        return f(a)
    return unmodelled(a)


def tile(a, n):
    a = np.asarray(a)
    if isinstance(n, tuple):
        if len(n) == 2 and a.ndim == 1 and n[1] == 1:
            return np.broadcast_to(a, (n[0], len(a))) * 1
        if len(n) == 2 and a.ndim == 2 and n[0] == 1 and a.shape[1] == 1:
            return a * np.ones((1, n[1]), dtype=int)
        return unmodelled(a, n)
    if a.ndim == 0:
        return np.full(n, a)
    if a.ndim == 1:
        return np.concatenate([a] * n)
    return unmodelled(a, n)


def repeat(a, n, axis=None):
    a = np.asarray(a)
    if a.ndim == 0 and np.ndim(n) == 0:
        return np.full(n, a)
    if a.ndim == 1 and np.ndim(n) == 0:
        return np.array([x for x in a for _ in range(n)])
    if a.ndim == 2 and axis == 1 and a.shape[1] == 1 and np.ndim(n) == 0:
        return a * np.ones((1, n), dtype=int)
    if a.ndim == 2 and axis == 0 and a.shape[0] == 1 and np.ndim(n) == 0:
        return a * np.ones((n, 1), dtype=int)
    return unmodelled(a, n)


def iscomplexobj(x):
    return np.asarray(x).dtype.kind == "c"


def isrealobj(x):
    return np.asarray(x).dtype.kind != "c"


def issubdtype(d, t):
    k = np.dtype(d).kind
    if t is np.complexfloating or t is complex or t is np.complex128:
        return k == "c"
    if t is np.floating or t is float or t is np.float64:
        return k == "f"
    if t is np.integer or t is int or t is np.signedinteger or t is np.int64:
        return k == "i"
    if t is np.number:
        return k in "ifc"
    if t is np.inexact:
        return k in "fc"
    if t is np.bool_ or t is bool:
        return k == "b"
    if t is np.datetime64:
        return k == "M"
    if t is np.timedelta64:
        return k == "m"
    if t is np.object_ or t is object:
        return k == "O"
    return unmodelled(d)


def divmod_(a, b):
    return a // b, a % b


def modf(a):
    return np.fmod(a, 1), np.trunc(a)


def polyval(p, x):
    r = 0
    for c in p:
        r = r * x + c
    return r


def polyval2(x, c):
    r = 0
    for k in list(c)[::-1]:
        r = r * x + k
    return r


def vander(x, N=None, increasing=False):
    cols = [x**k for k in range(N)]
    return np.column_stack(cols if increasing else cols[::-1])


def roll(a, n, axis=None):
    a = np.asarray(a)
    if a.ndim == 1 and n != 0:
        return np.concatenate((a[-n:], a[:-n]))
    return unmodelled(a, n)


def delete(a, i, axis=None):
    a = np.asarray(a)
    if a.ndim == 1 and isinstance(i, int):
        if i == -1:
            return a[:-1]
        return np.concatenate((a[:i], a[i + 1:]))
    return unmodelled(a, i)


def array_equal(a, b, **kw):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim != b.ndim:
        return False
    for m, n in zip(a.shape, b.shape):
        if m != n:
            return False
    return bool(np.all(a == b))


def multi_dot(xs):
    r = xs[0]
    for x in xs[1:]:
        r = r @ x
    return r


def norm(x, ord=None, axis=None, **kw):
    x = np.asarray(x)
    if ord is not None and not (ord == 2 and (x.ndim == 1 or axis is not None)) or kw:
        return unmodelled(x)
    return np.sqrt(np.sum(np.abs(x) ** 2, axis=axis))


def solve(a, b, **kw):
    return np.linalg.inv(a) @ b


def argwhere(a):
    a = np.asarray(a)
    return np.nonzero(a)[0][:, np.newaxis] if a.ndim == 1 else unmodelled(a)


def meshgrid(a, b, indexing="xy", **kw):
    a, b = np.asarray(a), np.asarray(b)
    if indexing == "ij":
        return [a[:, np.newaxis] * np.ones(len(b), dtype=int), np.ones((len(a), 1), dtype=int) * b]
    return [np.ones((len(b), 1), dtype=int) * a, b[:, np.newaxis] * np.ones(len(a), dtype=int)]


def partial(f, *a, **k):
    def g(*b, **m):
        return f(*a, *b, **{**k, **m})

    return g


def itemgetter(*ks):
    def g(x):
        return x[ks[0]] if len(ks) == 1 else tuple(x[k] for k in ks)

    return g


def attrgetter(k):
    def g(x):
        return getattr(x, k)

    return g


def masum(a, axis=None, **kw):
    return np.sum(a, axis=axis)


def sinc(x):
    y = np.pi * x
    return np.where(y == 0, 1.0, np.sin(y) / y)


def outer(a, b):
    return np.ravel(a)[:, np.newaxis] * np.ravel(b)


def triu(a, k=0):
    return unmodelled(a)


def tril(a, k=0):
    return unmodelled(a)


def argsort(a):
    return np.argsort(a)


def largest(xs, key=None, default=None):
    best = None
    for x in xs:
        if best is None or key(x) > key(best):
            best = x
    return best


def smallest(xs, key=None, default=None):
    best = None
    for x in xs:
        if best is None or key(x) < key(best):
            best = x
    return best
'''
for _op, _name in (("add", "+"), ("multiply", "*"), ("subtract", "-"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("equal", "=="), ("less", "<"),
                   ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("logical_and", "&"), ("logical_or", "|")):
    SOURCE += f"\n\ndef outer_{_op}(a, b):\n    a, b = np.asarray(a), np.asarray(b)\n    return (a[:, np.newaxis] if a.ndim == 1 and b.ndim == 1 else unmodelled(a, b)) {_name} b\n"
for _op, _red in (("add", "sum"), ("multiply", "prod"), ("maximum", "max"), ("minimum", "min"), ("logical_and", "all"), ("logical_or", "any")):
    SOURCE += f"\n\ndef reduce_{_op}(a, axis=0, **kw):\n    return np.{_red}(np.asarray(a), axis=axis)\n"

import ast as _ast

TREE = _ast.parse(SOURCE)
