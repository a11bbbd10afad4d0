#!/usr/bin/env python3
"""Self-test of the numpy model (maintainer tool): pairs of expressions are compared by the
analysis and by numpy on random arrays; the verdicts have to agree.

tools/idioms.py [-v] [text]   lists pairs that the model does not decide or decides wrongly"""
import os, subprocess, sys, json

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

# result of the first and of the second; both are evaluated after SETUP
PAIRS = """
np.split(m9, np.cumsum([2, 2, 3]))[0] | m9[:2]
np.split(m9, np.cumsum([2, 2, 3]))[2] | m9[4:7]
np.split(m9, [3])[1] | m9[3:]
np.split(m9, 3)[1] | m9[3:6]
np.array_split(m9, 3)[1] | m9[3:6]
np.concatenate([m9[:2], m9[4:7]]) | np.hstack((m9[0:2], m9[4:7]))
np.r_[m9[:2], m9[4:7]] | np.hstack((m9[0:2], m9[4:7]))
np.append(m9[:2], m9[4:7]) | np.hstack((m9[0:2], m9[4:7]))
np.c_[M, np.ones(nt)] | np.hstack((M, np.ones((nt, 1))))
np.column_stack([M, np.ones(nt)]) | np.hstack((M, np.ones((nt, 1))))
np.concatenate([M, np.ones((nt, 1))], axis=-1) | np.hstack((M, np.ones((nt, 1))))
np.stack([t, u], axis=1) | np.column_stack((t, u))
np.stack([t, u], axis=-1)[:, 1] | u
np.vstack([t, u]).T | np.column_stack((t, u))
np.array([t, u]).T | np.column_stack((t, u))
np.block([[M, M.conj()]]) | np.hstack((M, np.conj(M)))
np.append(M, M.conj(), axis=1) | np.hstack((M, np.conj(M)))
np.insert(M, 3, 1, axis=1) | np.hstack((M, np.ones((nt, 1))))
np.full((nt, 1), 1.0) | np.ones((nt, 1))
np.full_like(u, 2) | 2 * np.ones(nt)
np.zeros(nt) + u | u
np.empty_like(u) * 0 + u | u
np.reshape(t, (-1, 1)) | t[:, None]
t.reshape(nt, 1) | t[:, np.newaxis]
t.reshape((-1, 1)) | t[:, np.newaxis]
np.expand_dims(t, 1) | t[:, None]
np.expand_dims(t, axis=-1) | t[:, None]
np.atleast_2d(t).T | t[:, None]
t[None].T | t[:, None]
np.outer(t, a) | t[:, None] * a
np.multiply.outer(t, a) | t[:, None] * a
np.einsum('i,j->ij', t, a) | t[:, None] * a
np.einsum('ij,j->i', M, c) | np.dot(M, c)
np.einsum('ij,j', M, c) | np.dot(M, c)
np.einsum('i,ij,ik->jk', u, M, M) | M.T @ (u[:, None] * M)
np.einsum('i,ij,ik->jk', u, M.conj(), M) | np.dot(M.conj().T, u[:, None] * M)
np.einsum('i,i', z, u) | np.dot(z, u)
np.tensordot(M, c, axes=1) | M @ c
np.tensordot(M, c, 1) | M @ c
np.inner(M, c) | M @ c
np.matmul(M, c) | M.dot(c)
np.vdot(z, u) | (z.conj() * u).sum()
np.inner(z, u) | (z * u).sum()
(M * c).sum(axis=1) | M @ c
(M * c).sum(1) | M @ c
np.sum(M * c, -1) | M @ c
np.sum([M[:, i] * c[i] for i in range(3)], axis=0) | M @ c
sum(M[:, i] * c[i] for i in range(3)) | M @ c
np.add.reduce(M * c, axis=1) | M @ c
np.nansum(M * c, axis=1) | M @ c
M.T.conj() | M.conj().T
np.conjugate(M.transpose()) | M.conj().T
np.swapaxes(M, 0, 1) | M.T
np.moveaxis(M, 0, 1) | M.T
np.transpose(M, (1, 0)) | M.T
np.diag(u) @ M | u[:, None] * M
(M.T * u).T | u[:, None] * M
np.multiply(u[:, None], M) | u[:, None] * M
np.abs(z) | np.sqrt(z.real**2 + z.imag**2)
np.hypot(z.real, z.imag) | np.abs(z)
abs(z)**2 | (z * z.conj()).real
np.abs(z)**2 | z.real**2 + z.imag**2
np.real(z * np.conj(z)) | np.abs(z)**2
np.sqrt((z * np.conj(z)).real) | np.abs(z)
np.angle(z) | np.arctan2(z.imag, z.real)
np.arctan2(np.imag(z), np.real(z)) | np.angle(z)
np.rad2deg(np.angle(z)) | np.angle(z, deg=True)
np.degrees(np.angle(z)) | np.angle(z, deg=True)
np.angle(z) * 180 / np.pi | np.angle(z, deg=True)
np.mod(u, 360) | u % 360
np.remainder(u, 360) | u % 360
u - 360 * np.floor(u / 360) | u % 360
(u + 720) % 360 | u % 360
np.fmod(np.fmod(u, 360) + 360, 360) | u % 360
np.where(u % 360 < 0, u % 360 + 360, u % 360) | u % 360
-np.angle(z, deg=True) % 360 | np.angle(z.conj(), deg=True) % 360
np.exp(1j * u) | np.cos(u) + 1j * np.sin(u)
np.cos(u) | np.exp(1j * u).real
np.sin(u) | np.exp(1j * u).imag
np.exp(1j * (u + t)) | np.exp(1j * u) * np.exp(1j * t)
np.exp(2j * np.pi * u) | np.exp(1j * 2 * np.pi * u)
np.cos(np.deg2rad(u)) | np.cos(u * np.pi / 180)
np.radians(u) | u * np.pi / 180
np.power(u, 2) | u * u
np.square(u) | u**2
np.prod([u, t], axis=0) | u * t
np.multiply.reduce([u, t]) | u * t
pow(u, 2) | u * u
u**0.5 | np.sqrt(u)
np.divide(u, t) | u / t
np.true_divide(u, t) | u / t
u * (1 / t) | u / t
u * t**-1 | u / t
np.reciprocal(t) | 1 / t
np.negative(u) | -u
np.subtract(u, t) | u - t
np.add(u, t) | t + u
np.mean(u) | u.sum() / nt
u.mean() | np.sum(u) / len(u)
np.average(u) | u.mean()
np.average(u, weights=t) | (u * t).sum() / t.sum()
np.var(u) | np.mean((u - u.mean())**2)
np.std(u)**2 | np.var(u)
np.median(u) | np.quantile(u, 0.5)
np.median(u) | np.percentile(u, 50)
np.nanmedian(u) | np.median(u)
np.ptp(t) | t.max() - t.min()
t.ptp() if hasattr(t, 'ptp') else np.ptp(t) | np.max(t) - np.min(t)
np.amax(t) | max(t)
np.min(t) | min(t)
np.max(np.abs(u)) | np.abs(u).max()
np.linalg.norm(z) | np.sqrt(np.sum(np.abs(z)**2))
np.linalg.norm(M, axis=1) | np.sqrt((np.abs(M)**2).sum(axis=1))
np.trace(D) | D[0, 0] + D[1, 1] + D[2, 2]
np.diag(D).sum() | np.trace(D)
np.diagonal(D) | np.diag(D)
D.diagonal() | np.diag(D)
D[np.arange(3), np.arange(3)] | np.diag(D)
np.einsum('ii->i', D) | np.diag(D)
np.einsum('ii', D) | np.trace(D)
np.linalg.inv(D) @ a | np.linalg.solve(D, a)
np.linalg.inv(2 * D) | np.linalg.inv(D) / 2
np.linalg.inv(D.T) | np.linalg.inv(D).T
np.linalg.inv(D).conj() | np.linalg.inv(D.conj())
np.linalg.solve(D, np.eye(3)) | np.linalg.inv(D)
np.eye(3) | np.identity(3)
np.diag(np.ones(3)) | np.eye(3)
np.diag([a[0], a[1]]) | np.array([[a[0], 0], [0, a[1]]])
np.diagflat([a[0], a[1]]) | np.diag(np.array([a[0], a[1]]))
D[:2, :2] | np.array([[D[0, 0], D[0, 1]], [D[1, 0], D[1, 1]]])
D[np.ix_([0, 1], [0, 1])] | D[:2, :2]
D[[0, 1]][:, [0, 1]] | D[:2, :2]
np.array(D[:2, :2]).ravel() | D[:2, :2].flatten()
u[u > 0] | np.compress(u > 0, u)
u[u > 0] | u[np.nonzero(u > 0)]
u[u > 0] | u[np.where(u > 0)[0]]
u[u > 0] | np.extract(u > 0, u)
u[~(u <= 0)] | u[u > 0]
u[np.logical_not(u <= 0)] | u[u > 0]
u[(u > 0) & (t > 0)] | u[np.logical_and(u > 0, t > 0)]
u[(u > 0) & (t > 0)] | u[np.logical_and(t > 0, u > 0)]
np.take(u, [1, 0]) | u[[1, 0]]
u.take([1, 0]) | u[[1, 0]]
np.argsort(u)[::-1] | u.argsort()[::-1]
np.flip(np.argsort(u)) | u.argsort()[::-1]
np.flipud(np.argsort(u)) | u.argsort()[::-1]
np.argsort(-u) | u.argsort()[::-1]
u[np.argsort(u)] | np.sort(u)
np.sort(u)[::-1] | u[u.argsort()[::-1]]
sorted(u) == list(np.sort(u)) | True
np.where(u > 0, u, 0) | np.maximum(u, 0)
np.where(u > 0, u, 0) | np.clip(u, 0, None)
np.where(u > 0, u, 0) | u * (u > 0)
np.where(u > t, u, t) | np.maximum(u, t)
np.where(np.abs(u) < 1, 1, 0) | (np.abs(u) < 1).astype(float)
(np.abs(u) < 1) * 1.0 | np.where(np.abs(u) < 1, 1.0, 0.0)
1.0 * (np.abs(u) < 1) | (np.abs(u) < 1).astype(float)
np.minimum(1, 1 / np.abs(u)) | 1 / np.maximum(1, np.abs(u))
np.sign(u) * np.abs(u) | u
np.copysign(np.abs(u), u) | u
np.heaviside(u, 1) | (u >= 0).astype(float)
np.piecewise(u, [u > 0], [1, 0]) | (u > 0).astype(float)
np.select([u > 0], [u], 0) | np.where(u > 0, u, 0)
np.diff(t) | t[1:] - t[:-1]
np.ediff1d(t) | t[1:] - t[:-1]
t[-1] - t[0] | np.diff(t).sum()
np.cumsum(np.ones(3)) | np.arange(1, 4)
np.linspace(0, 1, 5) | np.arange(5) / 4
np.linspace(a[0], a[1], 3)[1] | (a[0] + a[1]) / 2
np.arange(nt)[0] | 0
np.interp(t, t, u) | u
np.array([x * 2 for x in a]) | 2 * a
np.array(list(map(lambda x: x * 2, a))) | 2 * a
np.fromiter((x * 2 for x in a), dtype=float) | 2 * a
np.vectorize(lambda x: x * 2)(a) | 2 * a
np.array([x * y for x, y in zip(a, c)]) | a * c
np.array([a[i] for i in [2, 0]]) | a[[2, 0]]
np.asarray([a[0], a[1], a[2]]) | a
list(a)[1] | a[1]
a.tolist()[1] | a[1]
tuple(a)[2] | a[2]
np.tile(a, 2) | np.concatenate((a, a))
np.repeat(a, 2)[2] | a[1]
np.broadcast_to(a, (nt, 3)) | np.ones((nt, 1)) * a
np.ma.masked_invalid(u).compressed() | u[np.isfinite(u)]
np.ma.masked_invalid(u).filled(0) | np.where(np.isfinite(u), u, 0)
np.ma.masked_invalid(u).data | u
~np.ma.getmaskarray(np.ma.masked_invalid(u)) | np.isfinite(u)
np.ma.masked_where(u > 0, u).compressed() | u[~(u > 0)]
np.ma.array(u, mask=u > 0).compressed() | u[u <= 0]
np.ma.masked_array(u, u > 0).compressed() | u[u <= 0]
np.isnan(u).any() | np.any(np.isnan(u))
np.count_nonzero(u > 0) | (u > 0).sum()
np.sum(u > 0) | len(u[u > 0])
np.flatnonzero(u > 0) | np.nonzero(u > 0)[0]
np.argwhere(u > 0)[:, 0] | np.nonzero(u > 0)[0]
np.searchsorted(t, t[0]) | 0
np.shape(M)[1] | M.shape[1]
M.shape[0] | len(t)
M.size | 3 * nt
np.size(t) | nt
t.shape[-1] | nt
u.copy() | np.array(u)
u[:] | u
u[...] | u
u.astype(float) | u
u.astype(complex) | u + 0j
np.asarray(u, dtype=complex).imag | 0 * u
np.real_if_close(u + 0j) | u
float(a[0]) | a[0]
complex(c[0]) | c[0]
(u + 1j * t).real | u
(u + 1j * t).conj() | u - 1j * t
np.imag(u + 1j * t) | t
np.iscomplexobj(z) | True
np.isrealobj(u) | True
z.dtype.kind == 'c' | True
np.issubdtype(u.dtype, np.floating) | True
isinstance(u, np.ndarray) | True
np.logical_or(u > 0, t > 0) | (u > 0) | (t > 0)
np.isin([1, 2], [2]) | np.array([False, True])
np.array([n in ('b',) for n in ('a', 'b')]) | np.array([False, True])
np.unique([3, 1, 3]) | np.array([1, 3])
np.round(u, 3) | np.around(u, 3)
np.rint(u) | np.round(u)
np.floor(u) | u // 1
np.divmod(u, 360)[1] | u % 360
divmod(u, 360)[1] | u % 360
np.modf(a)[0] | np.fmod(a, 1)
u - np.trunc(u) | np.fmod(u, 1)
np.fix(u) | np.trunc(u)
np.polyval([a[2], a[1], a[0]], u) | a[0] + u * (a[1] + u * a[2])
np.polynomial.polynomial.polyval(u, a) | a[0] + a[1] * u + a[2] * u**2
np.vander(u, 3, increasing=True) @ a | a[0] + a[1] * u + a[2] * u**2
np.float64(2) * u | 2 * u
np.power(u, a[0]) | u**a[0]
np.exp(a[0] * np.log(np.abs(u))) | np.abs(u)**a[0]
np.log(u**2) | 2 * np.log(np.abs(u))
np.sinc(u) | np.sin(np.pi * u) / (np.pi * u)
np.tan(u) | np.sin(u) / np.cos(u)
np.triu(D) + np.tril(D, -1) | D
np.lib.scimath.sqrt(a) | np.sqrt(a)
np.cumprod([2, 3, 4])[-1] | 24
np.prod([2, 3]) | 6
len(m9[2:5]) | 3
np.roll(a, 1)[0] | a[2]
np.delete(a, 1) | a[[0, 2]]
a[::2] | a[[0, 2]]
a[-2:] | a[1:]
a[::-1] | np.flip(a)
functools.reduce(lambda x, y: x + y, [u, t, u]) | 2 * u + t
itertools.chain([1], [2]).__next__() | 1
dict(zip(('p', 'q'), (u, t)))['q'] | t
{k: v for k, v in (('p', u),)}['p'] | u
any(x > 5 for x in (1, 7)) | True
next(i for i, x in enumerate((4, 7)) if x == 7) | 1
max(('a', 'bbb'), key=len) | 'bbb'
sorted((3, 1, 2), reverse=True)[0] | 3
sorted((3, 1, 2), key=lambda x: -x)[0] | 3
isinstance(3, (int, float)) | True
bool(np.all(np.isfinite([1.0, 2.0]))) | True
np.all(u == u) | True
np.array_equal(u, u) | True
np.allclose(u, u) | True
math.sqrt(4) | 2
math.radians(180) | np.pi
math.cos(0) | 1
np.e | math.e
scipy.linalg.inv(D) | np.linalg.inv(D)
np.linalg.multi_dot([M, D, c]) | M @ (D @ c)
np.kron(np.eye(1), D) | D
np.vstack((np.ones(3), a, a**2))[2] | a**2
np.array([np.ones(3), a, a**2])[1, 2] | a[2]
np.dot(np.vstack((np.ones(nt), u)).T, a[:2]) | a[0] + a[1] * u
np.zeros((nt, 3), dtype=complex) + M | M
np.ma.getdata(np.ma.masked_invalid(u)) | u
np.ma.filled(np.ma.masked_invalid(u), 0) | np.nan_to_num(u, nan=0, posinf=0, neginf=0)
np.isfinite(u) | ~np.isnan(u) & ~np.isinf(u)
np.isfinite(u) | np.logical_not(np.isnan(u) | np.isinf(u))
np.bitwise_and(u > 0, t > 0) | (u > 0) & (t > 0)
np.invert(u > 0) | u <= 0
np.atleast_1d(a[0])[0] | a[0]
np.atleast_1d(u) | u
np.squeeze(u[:, None]) | u
u[:, None].squeeze() | u
u[:, None][:, 0] | u
np.ravel(u[:, None]) | u
u[:, None].flatten() | u
u[:, None].ravel() | u
np.apply_along_axis(np.sum, 1, M) | M.sum(axis=1)
np.broadcast_arrays(u[:, None], M)[0] | u[:, None] * np.ones(3)
np.nan_to_num(a) | a
np.sum(a, keepdims=True)[0] | a.sum()
M.sum(axis=1, keepdims=True)[:, 0] | M.sum(axis=1)
a.sum() | sum(a)
a.dot(a) | np.sum(a**2)
np.linalg.norm(a)**2 | a @ a
np.sqrt(a @ a) | np.linalg.norm(a)
a.max() | np.max(list(a))
a.argmax() | np.argmax(a)
operator.itemgetter(1)((4, 5)) | 5
str(3) + 'a' | '3a'
f"{3:d}" | '3'
'abc'.upper() | 'ABC'
not [] | True
[] or 3 | 3
(1 if u is not None else 2) | 1
# pairs that differ
u % 360 | u % 180
np.angle(z) | np.angle(z.conj())
np.vdot(z, z) | np.dot(z, z)
np.var(u) | np.var(u, ddof=1)
np.maximum(u, 0) | np.abs(u)
u.argsort()[::-1] | u.argsort()
np.fmod(u, 360) | u % 360
np.hypot(z.real, z.imag) | z.real + z.imag
M @ c | M.conj() @ c
M.conj().T | M.T
np.linspace(0, 1, 5) | np.arange(5) / 5
np.floor(u) | np.trunc(u)
np.diff(t)[0] | np.diff(t)[1]
np.where(u > 0, u, 0) | np.where(u < 0, u, 0)
np.sum(u > 0) | np.sum(u > 0.1)
np.average(u, weights=t) | np.mean(u * t)
np.std(u) | np.var(u)
np.ptp(t) | t.max()
np.median(u) | np.mean(u)
np.linalg.inv(D) | D
np.cumsum(a) | a
np.sort(u) | u
u[u > 0] | u[u < 0]
np.interp(t, t, u) | t
np.ma.masked_invalid(u).filled(0) | u
np.split(m9, 3)[1] | m9[2:5]
np.outer(t, a) | np.outer(t, a[::-1])
np.trace(D) | D.sum()
""".strip().splitlines()

NUM = """
import numpy as np, math, functools, itertools, operator, scipy.linalg, sys, json, warnings
warnings.simplefilter("ignore")
rng = np.random.default_rng(1)
def setup():
    nt = 7
    t = np.sort(rng.random(nt)) * 5 + 1; u = rng.standard_normal(nt) * 3; z = rng.standard_normal(nt) + 1j * rng.standard_normal(nt)
    M = rng.standard_normal((nt, 3)) + 1j * rng.standard_normal((nt, 3)); a = rng.random(3) + 0.3; c = rng.random(3) + 1j * rng.random(3)
    D = rng.random((3, 3)); m9 = rng.random(9) + 1j * rng.random(9)
    return dict(nt=nt, t=t, u=u, z=z, M=M, a=a, c=c, D=D, m9=m9)
out = []
for p in json.load(sys.stdin):
    r = []
    for _ in range(3):
        e = dict(globals(), **setup())
        try:
            x, y = (eval(q, e) for q in p)
            r.append(bool(x == y) if isinstance(x, str) else bool(np.shape(x) == np.shape(y) and np.allclose(x, y, equal_nan=True)))
        except Exception as ex:
            r.append(repr(ex))
    r0 = [x for x in r if isinstance(x, str)]
    out.append(r0[0] if r0 else all(r))
print(json.dumps(out))
"""


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, V)
    from sa import world, terms as tm
    from sa.rules.common import spec
    from sa.vals import Arr, Num, Unknown, Known, Ext, Info

    a = sys.argv[1:]
    text = [x for x in a if x != "-v"]
    pairs = [tuple(x.strip() for x in p.split(" | ", 1)) for p in PAIRS if not p.startswith("#")]
    if text:
        pairs = [p for p in pairs if any(x in p[0] + p[1] for x in text)]
    real = json.loads(subprocess.run(["/opt/venv/bin/python", "-c", NUM], input=json.dumps(pairs), capture_output=True, text=True, check=True).stdout)
    I = world.load()
    I = I[0] if isinstance(I, tuple) else I
    L3, L9 = ("lit", 3), ("lit", 9)
    n = {}
    for p, want in zip(pairs, real):
        st = world.fresh_state(I)
        b = lambda name, axes, dt="f", **kw: world.base_arr(name, axes, dt, kw.pop("re", None), **kw)
        bind = dict(t=b("t", [world.TAX], nonneg=True), u=b("u", [world.TAX]), z=b("z", [world.TAX], "c"), M=b("M", [world.TAX, L3], "c"), a=b("a", [L3], nonneg=True),
                    c=b("c", [L3], "c"), D=b("D", [L3, ("pr", L3, "k2")]), m9=b("m9", [L9], "c"))
        bind.update({k: Ext(k) for k in ("math", "functools", "itertools", "operator", "scipy")})
        try:
            s = spec(I, st, f"nt = len(t)\nX = {p[0]}\nY = {p[1]}", **bind)
            if s.exc is not None:
                v = f"raises {s.exc}"
            else:
                x, y = s["X"], s["Y"]
                if isinstance(x, Known) and isinstance(y, Known):
                    v = x.v == y.v
                else:
                    f = lambda v: I.np.to_array(s.st, v) if not isinstance(v, (Num, Arr, Known, Unknown)) else v
                    g = lambda v: I.info(s.st, v).term if isinstance(v, (Num, Arr, Known)) else None
                    x, y = f(x), f(y)
                    tx, ty = g(x), g(y)
                    if isinstance(x, Arr) and isinstance(y, Arr) and len(x.axes) == len(y.axes) and [tm.untag(q) for q in x.axes] == [tm.untag(q) for q in y.axes] and len(set(x.axes)) == len(x.axes):
                        ty = tm.rename_axes(ty, list(y.axes), list(x.axes))
                    v = None if tx is None or ty is None else tm.teq(tx, ty)[0]
                    if v is None:
                        v = f"undecided {type(x).__name__} {type(y).__name__}" + "".join(f" ({q.why})" for q in (x, y) if isinstance(q, Unknown)) + (f" {tm.short(tx)[:60]} / {tm.short(ty)[:60]}" if tx is not None and ty is not None else "")
        except Exception as e:
            v = f"CRASH {e!r}"
        if isinstance(want, str):
            k = "numpy"
            v = want
        else:
            k = "ok" if v is want else "WRONG" if isinstance(v, bool) else "raises" if v.startswith(("raises", "CRASH")) else "undecided"
        n[k] = n.get(k, 0) + 1
        if k != "ok" or "-v" in a:
            print(f"{k}: {p[0]}  |  {p[1]}: {str(v)[:200]}")
    print(n)


main()
