"""The planted bugs (see plant.py)."""
HEAD = '''import sys, copy, io, contextlib, hashlib
import numpy as np
import utide
from utide import solve, reconstruct
from utide.utilities import Bunch


def series(n=24 * 90, step=1 / 24.0, t0=735000.0, two=False, noise=0.05, seed=0, mid=0.0):
    rng = np.random.default_rng(seed)
    t = t0 + step * np.arange(n)
    w = 2 * np.pi * 24
    x = 0.2 + np.cos(w * 0.0805114 * (t - t0) - 1.0) + 0.4 * np.cos(w * 0.0417807 * (t - t0) + 0.3)
    x = x + 0.2 * np.cos(w * 0.0833333 * (t - t0) + 1.3) + 0.15 * np.cos(w * 0.0387307 * (t - t0) - 0.7)
    y = 0.1 + 0.5 * np.cos(w * 0.0805114 * (t - t0) + 0.5) + 0.3 * np.cos(w * 0.0417807 * (t - t0) - 2.0)
    y = y + 0.1 * np.cos(w * 0.0833333 * (t - t0) - 1.3) + 0.2 * np.cos(w * 0.0387307 * (t - t0) + 0.9)
    x = x + noise * rng.standard_normal(n)
    y = y + noise * rng.standard_normal(n)
    return (t, x, y) if two else (t, x)


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


CN = ["M2", "S2", "N2", "K1", "O1"]
'''
BUGS = [
 dict(id="reconstruct-degrees-in-place", property="C01",
  edits=[("_reconstruct.py", '''        ap = 0.5 * (
            (coef["Lsmaj"][ind] + coef["Lsmin"][ind])
            * np.exp(1j * (coef["theta"][ind] - coef["g"][ind]) * rpd)
        )
        am = 0.5 * (
            (coef["Lsmaj"][ind] - coef["Lsmin"][ind])
            * np.exp(1j * (coef["theta"][ind] + coef["g"][ind]) * rpd)
        )
''','''        theta, g = coef["theta"][ind], coef["g"][ind]
        theta *= rpd
        ap = 0.5 * (
            (coef["Lsmaj"][ind] + coef["Lsmin"][ind])
            * np.exp(1j * (theta - g * rpd))
        )
        am = 0.5 * (
            (coef["Lsmaj"][ind] - coef["Lsmin"][ind])
            * np.exp(1j * (theta + g * rpd))
        )
''')],
  needs="a velocity fit reconstructed with min_SNR=0 and min_PE=0 (or without diagnostics), where the selection is a slice and so a view",
  breaks="reconstruct converts coef['theta'] to radians in the caller's coef; the next reconstruct with it is wrong",
  demo='''
t, u, v = series(two=True)
c = solve(t, u, v, lat=45, epoch="python", constit=CN, verbose=False)
th = c.theta.copy()
r1 = reconstruct(t, c, epoch="python", min_SNR=0, verbose=False)
if not np.array_equal(th, c.theta):
    fail("reconstruct changed coef.theta")
'''),
 dict(id="amprat-scaled-in-place", property="C02",
  edits=[("harmonics.py", "    freq = const.freq.copy()\n", "    freq = const.freq\n")],
  needs="any solve; the shared table is compared before and after",
  breaks="linearized_freqs overwrites the package's constituent table with frequencies of the last reference time",
  demo='''
from utide._ut_constants import ut_constants
f = ut_constants.const.freq.copy()
t, u = series(t0=700000.0)
solve(t, u, lat=45, epoch="python", constit=CN, verbose=False)
if not np.array_equal(f, ut_constants.const.freq, equal_nan=True):
    fail("package constituent table changed")
'''),
 dict(id="references-through-a-set", property="C03",
  edits=[("constituent_selection.py", '''        allrefs = list(OrderedDict(zip(_r, [1] * len(_r), strict=False)).keys())
''', '''        allrefs = list(set(_r))
''')],
  needs="inference from two or more reference constituents, in processes with different string hash seeds",
  breaks="the order of the reference and inferred columns, and so of the returned constituents, depends on the hash seed of the process",
  demo='''
import os, subprocess
if len(sys.argv) > 1:
    from utide.constituent_selection import ut_cnstitsel
    inf = Bunch(inferred_names=["P1", "K2", "NU2", "Q1"], reference_names=["K1", "S2", "N2", "O1"], amp_ratios=[0.33, 0.27, 0.19, 0.19], phase_offsets=[1.0, 2.0, 3.0, 4.0])
    print(list(ut_cnstitsel(735000.0, 1e-9, CN, inf)[1].name))
    sys.exit(0)
outs = set()
for seed in range(6):
    p = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), "child"], env=dict(os.environ, PYTHONHASHSEED=str(seed)), capture_output=True, text=True)
    if p.returncode:
        print(p.stderr)
        sys.exit(3)
    outs.add(p.stdout)
if len(outs) > 1:
    fail("results depend on the hash seed: %s" % outs)
'''),
 dict(id="lsmin-ci-not-reordered", property="C07",
  edits=[("_solve.py", 'Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci"', 'Lsmaj Lsmaj_ci Lsmin theta theta_ci"')],
  needs="a velocity fit with confidence intervals in an order other than that of the columns",
  breaks="Lsmin_ci stays in column order while all the other fields are reordered",
  demo='''
t, u, v = series(two=True)
a = solve(t, u, v, lat=45, epoch="python", constit=CN, order_constit=CN, verbose=False)
b = solve(t, u, v, lat=45, epoch="python", constit=CN, order_constit=CN[::-1], verbose=False)
if not np.allclose(a.Lsmin_ci, b.Lsmin_ci[::-1]):
    fail("Lsmin_ci not aligned with name")
'''),
 dict(id="robust-absolute-tolerance", property="C11",
  edits=[("robustfit.py", "            improvement = (oldrmeansq - rmeansq) / oldrmeansq\n", "            improvement = oldrmeansq - rmeansq\n")],
  needs="a robust fit of a series whose units make the mean squared residual small",
  breaks="the stopping rule compares an absolute reduction, so rescaling the data changes the fit",
  demo='''
t, u = series(n=24 * 30)
u[::37] += 3.0
a = solve(t, u, lat=45, epoch="python", constit=CN, method="robust", conf_int="none", verbose=False)
b = solve(t, u * 1e-3, lat=45, epoch="python", constit=CN, method="robust", conf_int="none", verbose=False)
if not np.allclose(a.A, b.A * 1e3, rtol=1e-9):
    fail("amplitudes do not scale with the data")
'''),
 dict(id="progress-for-uneven-times", property="C04",
  edits=[("_solve.py", '''        opt["equi"] = False
        lor = np.ptp(t)
''', '''        opt["equi"] = False
        if len(t) < len(tin):
            print("solve: using only the times of the valid samples")
        lor = np.ptp(t)
''')],
  needs="unevenly spaced times and a missing sample, with verbose=False",
  breaks="a message is printed although verbose is False",
  demo='''
t, u = series(n=24 * 30)
t = np.delete(t, [5, 7, 100]); u = np.delete(u, [5, 7, 100])
u[10] = np.nan
f = io.StringIO()
with contextlib.redirect_stdout(f):
    solve(t, u, lat=45, epoch="python", constit=CN, verbose=False)
if f.getvalue():
    fail("printed %r" % f.getvalue())
'''),

 dict(id="epoch-with-datetimes-ignored", property="C05",
  edits=[("_time_conversion.py", "    if epoch is None:\n", '    if epoch is None or t.dtype.kind == "M":\n')],
  needs="datetime64 times together with an epoch",
  breaks="an epoch given with datetime values is silently ignored instead of refused",
  demo="""
t, u = series(n=24 * 30)
d = np.datetime64("2000-01-01") + np.arange(len(t)) * np.timedelta64(1, "h")
try:
    solve(d, u, lat=45, epoch="matlab", constit=CN, conf_int="none", verbose=False)
except Exception:
    sys.exit(0)
fail("epoch with datetimes accepted")
"""),
 dict(id="white-montecarlo-vector", property="C06",
  edits=[("confidence.py", """                    mCall = np.random.multivariate_normal(
                        (Xu[c], Yu[c], Xv[c], Yv[c]),
                        varcov_mCw[c],
""", """                    mCall = np.random.multivariate_normal(
                        (Xu[c], Yu[c], Xv[c], Yv[c]),
                        varcov_mCc[c],
""")],
  needs="a velocity series with conf_int='MC' and white=True",
  breaks="solve raises NameError: the coloured covariance does not exist with white=True",
  demo="""
t, u, v = series(n=24 * 30, two=True)
try:
    c = solve(t, u, v, lat=45, epoch="python", constit=CN, conf_int="MC", white=True, verbose=False)
    reconstruct(t, c, epoch="python", verbose=False)
except Exception as e:
    fail(repr(e))
"""),
 dict(id="pseudo-covariance-unweighted", property="C08",
  edits=[("confidence.py", "    gamP = np.linalg.inv(np.dot(B.T, _WB))\n", "    gamP = np.linalg.inv(np.dot(B.T, B))\n")],
  needs="a robust fit of a short or gappy record, where the pseudo-covariance is not negligible",
  breaks="the pseudo-covariance of a robust fit ignores the weights",
  demo="""
from utide import confidence
t, u = series(n=24 * 12)
keep = np.ones(len(t), bool); keep[30:140] = False
t, u = t[keep], u[keep]
u[::9] += 2.0
cn = ["M2", "K1", "MM"]
c = solve(t, u, lat=45, epoch="python", constit=cn, method="robust", nodal=False, phase="raw", conf_int="linear", white=True, order_constit=cn, verbose=False)
w = c.weights
f = c.aux.frq; tr = c.aux.reftime; n = len(t)
E = np.exp(2j * np.pi * 24 * (t - tr)[:, None] * f)
B = np.hstack((E, E.conj(), np.ones((n, 1)), ((t - tr) / np.ptp(t))[:, None]))
m = np.linalg.lstsq(w[:, None] * B, w * u, rcond=None)[0]
x = (B @ m).real
s = np.real(u @ (w * u) - x @ (w * u)) / (n - B.shape[1])
C = np.linalg.inv(B.conj().T @ (w[:, None] * B)) * s
P = np.linalg.inv(B.T @ (w[:, None] * B)) * s
G, H = C + P, C - P
for k in range(3):
    i, j = k, k + 3
    vx = np.real(G[i, i] + G[j, j] + 2 * G[i, j]) / 2
    vy = np.real(H[i, i] + H[j, j] - 2 * H[i, j]) / 2
    X = np.real(m[i] + m[j]); Y = -np.imag(m[i] - m[j])
    want = 1.96 * confidence.ut_linci(X, Y, np.sqrt(vx), np.sqrt(vy))[0]
    if abs(want - c.A_ci[k]) > 1e-3 * abs(want):
        fail("interval of %s: %g, from the weighted fit %g" % (cn[k], c.A_ci[k], want))
"""),
 dict(id="infinite-values-kept", property="C09",
  edits=[("_solve.py", "    uin = np.ma.masked_invalid(uin)\n", "    uin = np.ma.masked_where(np.isnan(uin), uin)\n")],
  needs="an infinite sample in u",
  breaks="infinite samples take part in the fit",
  demo="""
t, u = series(n=24 * 30)
w = u.copy(); w[50] = np.nan; u[50] = np.inf
a = solve(t, w, lat=45, epoch="python", constit=CN, conf_int="none", verbose=False)
try:
    b = solve(t, u, lat=45, epoch="python", constit=CN, conf_int="none", verbose=False)
except Exception as e:
    fail(repr(e))
if not np.allclose(a.A, b.A):
    fail("an infinite value is not treated as missing")
"""),
 dict(id="dates-to-the-second", property="C10",
  edits=[("_time_conversion.py", '        date = date.astype("datetime64[ms]")\n', '        date = date.astype("datetime64[s]")\n')],
  needs="datetime values with a fraction of a second",
  breaks="datetime values lose their milliseconds, day numbers do not",
  demo="""
d = np.datetime64("2010-03-01T00:00:00.000") + np.arange(24 * 30 * 4) * np.timedelta64(900250, "ms")
from utide._time_conversion import _normalize_time as num
x = num(d)
want = 733832.0 + np.arange(len(d)) * 900250 / 86400000.0
if np.abs(x - want).max() > 2e-9:
    fail("off by %g days" % np.abs(x - want).max())
"""),
 dict(id="raw-prediction-from-table-frequency", property="C12",
  edits=[("_reconstruct.py", """        coef["aux"]["frq"][ind],
""", """        ut_constants.const.freq[coef["aux"]["lind"][ind]],
"""), ("_reconstruct.py", "from .harmonics import ut_E\n", "from ._ut_constants import ut_constants\nfrom .harmonics import ut_E\n")],
  needs="phase='raw' with nodal=False (the frequencies of the solution are used directly) far from the table's reference time",
  breaks="the prediction uses slightly different frequencies than the fit",
  demo="""
t, u = series(n=24 * 3000, noise=0.0)
c = solve(t, u, lat=45, epoch="python", constit=CN, conf_int="none", phase="raw", nodal=False, trend=False, verbose=False)
h = reconstruct(t, c, epoch="python", verbose=False).h
E = np.exp(2j * np.pi * 24 * (t - c.aux.reftime)[:, None] * c.aux.frq)
m = np.real(E @ (c.A * np.exp(-1j * np.pi / 180 * c.g))) + c.mean
if np.abs(h - m).max() > 1e-7:
    fail("prediction differs from the fitted model by %g" % np.abs(h - m).max())
"""),
 dict(id="nodal-linear-follows-phase", property="C13",
  edits=[("harmonics.py", "        if ngflgs[0]:\n", "        if ngflgs[0] and not ngflgs[3]:\n")],
  needs="nodal='linear_time' with phase='raw'",
  breaks="with raw phases the nodal modulation is evaluated at every time although linear_time was asked for",
  demo="""
from utide.harmonics import FUV
t = 735000.0 + np.arange(0, 4000, 100.0)
l = np.array([utide.constit_index_dict[n] for n in CN])
F, U, V = FUV(t, t[0], l, 45.0, [True, False, False, True])
if np.ptp(F * np.ones((len(t), 1)), axis=0).max() > 1e-12:
    fail("nodal factors vary with time")
"""),
 dict(id="andrews-negative-weights", property="C14",
  edits=[("robustfit.py", "    w = (r < np.pi) * np.sin(r) / r\n", "    w = np.sin(r) / r\n")],
  needs="method='robust' with the andrews weight function and an outlier beyond pi tuning units",
  breaks="outliers get negative weights",
  demo="""
t, u = series(n=24 * 30)
u[100] += 3.0; u[300] -= 4.5; u[333] += 5.7
c = solve(t, u, lat=45, epoch="python", constit=CN, conf_int="none", method="robust", robust_kw=dict(weight_function="andrews"), verbose=False)
if c.weights.min() < 0:
    fail("weight %g" % c.weights.min())
"""),
 dict(id="energy-share-of-the-significant", property="C15",
  edits=[("_reconstruct.py", "        PE = 100 * E / E.sum()\n", "        PE = 100 * E / E[SNR >= min_SNR].sum()\n")],
  needs="both thresholds in use and energetic constituents below min_SNR",
  breaks="the energy threshold is compared with shares of the significant constituents only, not with the reported PE",
  demo="""
t, u = series(n=24 * 60)
c = solve(t, u, lat=45, epoch="python", constit=CN, verbose=False)
k = c.SNR.argsort()
c.A_ci[k[-1]] = 10 * c.A[k[-1]]      # the strongest one is not significant
pe = 100 * c.A**2 / (c.A**2).sum(); snr = (c.A / (c.A_ci / 1.96))**2
lim = pe[k[-3]] * 1.2
want = [n for n, p, s in zip(c.name, pe, snr) if p >= lim and s >= 2]
a = reconstruct(t, c, epoch="python", min_SNR=2, min_PE=lim, verbose=False).h
b = reconstruct(t, c, epoch="python", constit=want, verbose=False).h
if not np.allclose(a, b):
    fail("selected others than %s" % want)
"""),
 dict(id="equator-not-clamped", property="C16",
  edits=[("harmonics.py", "        if abs(lat) < 5:\n", "        if 0 < abs(lat) < 5:\n")],
  needs="latitude exactly 0",
  breaks="nodal factors on the equator are not finite",
  demo="""
t, u = series(n=24 * 30)
try:
    c = solve(t, u, lat=0, epoch="python", constit=CN, conf_int="none", verbose=False)
except Exception as e:
    fail(repr(e))
if not np.isfinite(c.A).all():
    fail("amplitudes %s" % c.A)
"""),
 dict(id="white-not-for-robust", property="C17",
  edits=[("_solve.py", "    oldopts.white = opts.white\n", '    oldopts.white = opts.white and opts.method == "ols"\n')],
  needs="method='robust' with white=True",
  breaks="with a robust fit white=True is ignored and the intervals follow the residual spectrum",
  demo="""
from utide import confidence
def no(*a, **k):
    fail("a residual spectrum was computed although white=True")
confidence.band_psd = no
t, u = series(n=24 * 30)
solve(t, u, lat=45, epoch="python", constit=CN, method="robust", white=True, verbose=False)
"""),
 dict(id="minus-ratios-of-the-first-references", property="C18",
  edits=[("constituent_selection.py", """                        infer.amp_ratios[ilk + nI]
                        * np.exp(-1j * infer.phase_offsets[ilk + nI] * np.pi / 180),
""", """                        infer.amp_ratios[lk + nI]
                        * np.exp(-1j * infer.phase_offsets[lk + nI] * np.pi / 180),
""")],
  needs="a velocity series and inference from two different references",
  breaks="the clockwise component of constituents inferred from the second reference gets the ratio of the first",
  demo="""
t, u, v = series(two=True)
inf = Bunch(inferred_names=["P1", "K2"], reference_names=["K1", "S2"], amp_ratios=[0.33, 0.27, 0.30, 0.2], phase_offsets=[-7.0, -18.0, 12.0, 25.0])
c = solve(t, u, v, lat=45, epoch="python", constit=CN, infer=inf, conf_int="none", verbose=False)
n = list(c.name)
for i, (a, b) in enumerate(zip(inf.inferred_names, inf.reference_names)):
    def am(x):
        k = n.index(x)
        return (c.Lsmaj[k] - c.Lsmin[k]) / 2 * np.exp(1j * np.pi / 180 * (c.theta[k] + c.g[k]))
    want = inf.amp_ratios[i + 2] * np.exp(-1j * np.pi / 180 * inf.phase_offsets[i + 2]) * am(b)
    if abs(am(a) - want) > 1e-9 * abs(want):
        fail("%s is not inferred from %s as asked" % (a, b))
"""),
 dict(id="weights-of-the-rejected-step", property="C19",
  edits=[("robustfit.py", """                b, rsumsq, rank, sing = oldlstsq
                w = oldw
""", """                b, rsumsq, rank, sing = oldlstsq
""")],
  needs="an iteration that ends because the weighted misfit grew",
  breaks="the reported weights are those of the rejected step, not those of the reported coefficients",
  demo="""
from utide.robustfit import robustfit, wfuncdict
for seed in range(400):
    rng = np.random.default_rng(seed)
    n = 40
    X = np.column_stack((np.ones(n), np.arange(n) / n))
    y = X @ [1.0, 2.0] + 0.1 * rng.standard_normal(n)
    y[rng.integers(0, n, 8)] += 3 * rng.standard_normal(8)
    for wf in ("cauchy", "bisquare", "talwar", "welsch"):
        try:
            r = robustfit(X, y, weight_function=wf, tol=0)
        except IndexError:      # not enough points left
            continue
        b = np.linalg.lstsq(r.w[:, None] * X, r.w * y, rcond=1e-12)[0]
        if not np.allclose(b, r.b, rtol=1e-6, atol=1e-8):
            fail("weights do not belong to the coefficients: %s, %s" % (b, r.b))
"""),
 dict(id="cubic-term-of-the-rate", property="C20",
  edits=[("astronomy.py", "2.0e-4 * D, 3.0e-4 * D * D)", "2.0e-4 * D, 3.0e-4 * D)")],
  needs="times away from one ten-thousand-day unit after 1900",
  breaks="the derivative of the cubic term of the mean longitudes is wrong",
  demo="""
from fractions import Fraction as R
from utide import astronomy
from utide.astronomy import ut_astron
c = astronomy._coefs
t = 800000.0
a, d = ut_astron(np.array([t]))
D = (R(t) - R(6935955, 10)) / 10000
for i in range(5):
    k = [R(float(x)) for x in c[i]]
    want = float((k[1] + 2 * k[2] * D / 10000 + 3 * k[3] * D * D / 10000) / 360)
    if abs(d[1 + i, 0] - want) > 1e-15 + 1e-13 * abs(want):
        fail("row %d: %r instead of %r" % (i + 1, d[1 + i, 0], want))
"""),
 dict(id="phase-error-of-v-sine", property="C21",
  edits=[("confidence.py", "    dYv2 = ((rd * Xv + rn * Yv) / den) ** 2\n", "    dYv2 = ((rd * Xv - rn * Yv) / den) ** 2\n")],
  needs="a velocity series, uncertainty in the sine coefficient of v",
  breaks="one of the four contributions to the phase uncertainty has the wrong derivative",
  demo="""
from utide.confidence import ut_linci
from utide.ellipse_params import ut_cs2cep
x = np.array([1.0, 0.4, 0.3, -0.7])
def g(y):
    return ut_cs2cep(*[np.array([q]) for q in y])[3][0]
e = 1e-6
for k in range(4):
    s = np.zeros(4); s[k] = 0.01
    y = x.copy(); y[k] += e; z = x.copy(); z[k] -= e
    want = abs((g(y) - g(z)) / (2 * e)) * 0.01
    got = np.real(ut_linci(x[0] + 1j * x[2], x[1] + 1j * x[3], s[0] + 1j * s[2], s[1] + 1j * s[3])[1])
    if abs(got - want) > 1e-5 * want:
        fail("coefficient %d: %g instead of %g" % (k, got, want))
"""),
 dict(id="update-none-also-empty", property="C22",
  edits=[("utilities.py", "if k in self and self[k] is None}", "if k in self and not self[k]}")],
  needs="an entry that is zero, False or empty",
  breaks="update_None overwrites entries that are false but not None",
  demo="""
b = Bunch(a=0, b=None)
b.update_None(a=5, b=6)
if b.a != 0 or b.b != 6:
    fail(dict(b))
"""),
 dict(id="periods-rounded", property="C23",
  edits=[("_ut_constants.py", "    hours_per_cycle = Bunch(zip(_uc.name, 1 / _uc.freq, strict=False))", "    hours_per_cycle = Bunch(zip(_uc.name, np.round(1 / _uc.freq, 2), strict=False))")],
  needs="use of the table of periods",
  breaks="hours_per_cycle is not the reciprocal of cycles_per_hour",
  demo="""
for k, f in utide.cycles_per_hour.items():
    if f and abs(utide.hours_per_cycle[k] * f - 1) > 1e-12:
        fail("%s: %r * %r" % (k, utide.hours_per_cycle[k], f))
"""),
 dict(id="nodal-at-mean-for-short-requests", property="C24",
  edits=[("harmonics.py", """        else:
            tt = t
        ntt = len(tt)
""", """        elif nt > 1 and np.ptp(t) < 2:
            tt = np.array([t.mean()])
        else:
            tt = t
        ntt = len(tt)
""")],
  needs="several requested times within two days, exact nodal corrections",
  breaks="the prediction for an instant depends on the other instants of a short request",
  demo="""
t, u = series(n=24 * 200)
c = solve(t, u, lat=45, epoch="python", conf_int="none", verbose=False)
x = 735001.0 + np.arange(40) / 24.0
a = reconstruct(x, c, epoch="python", verbose=False).h
b = np.array([reconstruct(x[i : i + 1], c, epoch="python", verbose=False).h[0] for i in range(40)])
if np.abs(a - b).max() > 1e-10:
    fail("differs by %g from the prediction one by one" % np.abs(a - b).max())
"""),
 dict(id="v-slope-per-effective-length", property="C25",
  edits=[("_solve.py", '            coef["vslope"] = np.imag(m[-1]) / lor\n', '            coef["vslope"] = np.imag(m[-1]) / elor\n')],
  needs="a velocity series with a trend in v",
  breaks="the slope of v is divided by the effective record length, that of u by the record length",
  demo="""
t, u = series(n=24 * 20)
u = u + 0.05 * (t - t[0])
c = solve(t, u, u, lat=45, epoch="python", constit=CN, conf_int="none", verbose=False)
s = solve(t, u, lat=45, epoch="python", constit=CN, conf_int="none", verbose=False)
if abs(c.vslope - s.slope) > 1e-9 or abs(c.uslope - s.slope) > 1e-9:
    fail("slopes %g %g, scalar analysis %g" % (c.uslope, c.vslope, s.slope))
"""),
 dict(id="southern-satellites", property="C26",
  edits=[("harmonics.py", "        rr[j] *= 2.59808 * slat\n", "        rr[j] *= 2.59808 * abs(slat)\n")],
  needs="a southern latitude",
  breaks="satellites of the second kind keep their northern sign on the southern hemisphere",
  demo="""
from utide.harmonics import FUV, sat
from utide.astronomy import ut_astron
k = int(sat.iconst[np.nonzero(sat.ilatfac == 2)[0][0]]) - 1
t = np.array([735000.0]); s = np.sin(np.deg2rad(-40.0))
F, U, V = FUV(t, t[0], np.array([k]), -40.0, [False] * 4)
a, d = ut_astron(t)
z = 1
for i in np.nonzero(sat.iconst == k + 1)[0]:
    f = (1, 0.36309 * (1 - 5 * s * s) / s, 2.59808 * s)[sat.ilatfac[i]]
    z = z + sat.amprat[i] * f * np.exp(2j * np.pi * (sat.deldood[i] @ a[3:6, 0] + sat.phcorr[i]))
if abs(F[0, 0] * np.exp(2j * np.pi * U[0, 0]) - z) > 1e-9:
    fail("nodal factor %g, %g instead of %s" % (F[0, 0], U[0, 0], z))
"""),
 dict(id="frequency-table-in-place", property="C02",
  edits=[("harmonics.py", "    freq = const.freq.copy()\n", "    freq = const.freq\n")],
  needs="any analysis; the public table afterwards",
  breaks="the frequencies at the reference time of the last analysis are written into the package's table",
  demo="""
before = utide.ut_constants.const.freq.copy()
t, u = series(n=24 * 30)
solve(t, u, lat=45, epoch="python", constit=CN, conf_int="none", verbose=False)
if not np.array_equal(before, utide.ut_constants.const.freq):
    fail("the table of frequencies changed")
"""),
 dict(id="energy-floor", property="C11",
  edits=[("diagnostics.py", '        PE = 100 * coef["A"] ** 2 / np.sum(coef["A"] ** 2)\n', '        PE = 100 * coef["A"] ** 2 / max(np.sum(coef["A"] ** 2), 1e-12)\n')],
  needs="a series in units that make all amplitudes tiny",
  breaks="percent energy depends on the units of the data",
  demo="""
t, u = series(n=24 * 30)
a = solve(t, u, lat=45, epoch="python", constit=CN, verbose=False)
b = solve(t, u * 1e-8, lat=45, epoch="python", constit=CN, verbose=False)
if not np.allclose(a.PE, b.PE):
    fail("PE %s becomes %s" % (a.PE, b.PE))
"""),
 dict(id="diagnostics-snr-unsorted", property="C15",
  edits=[("diagnostics.py", '    coef["diagn"]["SNR"] = SNR[indPE]\n', '    coef["diagn"]["SNR"] = np.sort(SNR)[::-1]\n')],
  needs="a solution in which SNR and energy order differ",
  breaks="the diagnostics table pairs each name with another constituent's SNR",
  demo="""
rng = np.random.default_rng(3)
for seed in range(20):
    t, u = series(n=24 * 60, seed=seed, noise=0.5)
    c = solve(t, u + 0.3 * np.cumsum(rng.standard_normal(len(t))) / 10, lat=45, epoch="python", constit=CN, verbose=False)
    for n, s in zip(c.diagn["name"], c.diagn["SNR"]):
        w = c.SNR[list(c.name).index(n)]
        if abs(s - w) > 1e-9 * w:
            fail("%s: %g in the diagnostics, %g reported" % (n, s, w))
"""),
 dict(id="mask-shared-with-caller", property="C01",
  edits=[("_solve.py", "    uin = np.ma.masked_invalid(uin)\n", "    uin = np.ma.masked_invalid(uin, copy=False)\n")],
  needs="u given as a masked array that also holds an unmasked NaN",
  breaks="the caller's mask is changed",
  demo="""
t, u = series(n=24 * 30)
u[7] = np.nan
m = np.ma.array(u, mask=np.zeros(len(u), bool)); m[3] = np.ma.masked
k = m.mask.copy()
solve(t, m, lat=45, epoch="python", constit=CN, conf_int="none", verbose=False)
if not np.array_equal(k, np.ma.getmaskarray(m)):
    fail("the mask of u changed")
"""),
 dict(id="eastward-northward-covariance-sign", property="C27",
  edits=[("confidence.py","                covXuXv = np.imag(-H[0, 0] - H[0, 1] - H[1, 0] - H[1, 1]) / 2\n","                covXuXv = np.imag(H[0, 0] + H[0, 1] + H[1, 0] + H[1, 1]) / 2\n")],
  needs="two-dimensional Monte Carlo intervals with noise that is correlated between u and v",
  breaks="the realisations have the wrong correlation between the cosine coefficients of u and v",
  demo="""
draws = []
real = np.random.multivariate_normal
def record(mean, cov, *a, **k):
    draws.append(np.array(cov))
    return real(mean, cov, *a, **k)
np.random.multivariate_normal = record
rng = np.random.default_rng(5)
t, u = series(n=24 * 40)
n = rng.standard_normal((2, len(t)))
solve(t, u + n[0], 0.5 * u + 0.8 * n[0] + 0.3 * n[1], lat=45, epoch="python", constit=["M2", "O1"], conf_int="MC", white=True, verbose=False)
for c in draws:
    if c[0, 2] * c[1, 3] < 0:
        fail("cosine coefficients covary by %g, sine coefficients by %g" % (c[0, 2], c[1, 3]))
"""),
 dict(id='cosine-sine-covariance-sign', property='C27',
  edits=[('confidence.py', '            covXuYu = np.imag(H[0, 0] - H[0, 1] + H[1, 0] - H[1, 1]) / 2\n', '            covXuYu = np.imag(H[0, 0] + H[0, 1] - H[1, 0] - H[1, 1]) / 2\n')],
  needs='Monte Carlo intervals for unevenly sampled data, where cosine and sine coefficients are correlated',
  breaks='the realisations have the wrong correlation between cosine and sine coefficients',
  demo='''
draws = []
real = np.random.multivariate_normal
def record(mean, cov, *a, **k):
    r = real(mean, cov, *a, **k)
    draws.append((np.array(mean), np.array(cov), r.copy()))
    return r
np.random.multivariate_normal = record
rng = np.random.default_rng(5)
t, u = series(n=24 * 40)

keep = (t - t[0]) * 24 % 12.42 < 5
t, u = t[keep], u[keep]
a = solve(t, u + rng.standard_normal(len(t)), lat=45, epoch="python", constit=["M2"], nodal=False, phase="raw", trend=False, conf_int="MC", white=True, verbose=False)
x = 2 * np.pi * a.aux.frq[0] * 24 * (t - t.mean())
m, c, r = draws[0]
import utide._solve
E = np.column_stack((np.cos(2 * np.pi * a.aux.frq[0] * 24 * (t - a.aux.reftime)), np.sin(2 * np.pi * a.aux.frq[0] * 24 * (t - a.aux.reftime)), np.ones(len(t))))
C = np.linalg.inv(E.T @ E)
want = C[0, 1] / np.sqrt(C[0, 0] * C[1, 1]); got = c[0, 1] / np.sqrt(c[0, 0] * c[1, 1])
if abs(want - got) > 0.1:
    fail("correlation %g, expected %g" % (got, want))
'''),
 dict(id='coloured-block-by-sum', property='C27',
  edits=[('confidence.py', '                Duu = Puu[c] * Duu / np.trace(Duu)\n', '                Duu = Puu[c] * Duu / np.abs(Duu).sum()\n')],
  needs='Monte Carlo intervals with coloured noise for unevenly sampled data',
  breaks='the realisations spread less than the noise power around the constituent',
  demo='''
draws = []
real = np.random.multivariate_normal
def record(mean, cov, *a, **k):
    r = real(mean, cov, *a, **k)
    draws.append((np.array(mean), np.array(cov), r.copy()))
    return r
np.random.multivariate_normal = record
rng = np.random.default_rng(5)
t, u = series(n=24 * 40)

import utide.confidence as uc
keep = (t - t[0]) % 2 < 1.4
u = u + rng.standard_normal(len(t)); u[~keep] = np.nan
powers = []
linci = uc.ut_linci
def rec(X, Y, sx, sy):
    powers.append(sx**2 + sy**2)
    return linci(X, Y, sx, sy)
uc.ut_linci = rec
k = dict(lat=45, epoch="python", constit=["M2", "O1", "M4"], white=False, verbose=False)
solve(t[keep], u[keep], conf_int="linear", **k)
solve(t[keep], u[keep], conf_int="MC", **k)
for p, (m, c, r) in zip(powers, draws):
    if abs(np.trace(c) - p) > 1e-6 * p:
        fail("power %g, noise has %g" % (np.trace(c), p))
'''),
 dict(id='minor-axis-deviation-of-size', property='C27',
  edits=[('confidence.py', '                    1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745\n', '                    1.96\n                    * np.median(np.abs(np.abs(Lsmin) - np.median(np.abs(Lsmin))))\n                    / 0.6745\n')],
  needs='an almost rectilinear current ellipse, whose minor axis changes sign between realisations',
  breaks='the interval of the minor axis is too narrow',
  demo='''
draws = []
real = np.random.multivariate_normal
def record(mean, cov, *a, **k):
    r = real(mean, cov, *a, **k)
    draws.append((np.array(mean), np.array(cov), r.copy()))
    return r
np.random.multivariate_normal = record
rng = np.random.default_rng(5)
t, u = series(n=24 * 40)

from utide.confidence import ut_cs2cep
c = solve(t, u + 0.3 * rng.standard_normal(len(t)), 0.5 * u + 0.3 * rng.standard_normal(len(t)), lat=45, epoch="python", constit=["M2", "O1"], conf_int="MC", white=True, verbose=False)
out = []
for m, cov, r in draws:
    b = ut_cs2cep(r)[1]
    out.append(1.96 * np.median(np.abs(b - np.median(b))) / 0.6745)
if not np.allclose(sorted(out), sorted(c.Lsmin_ci)):
    fail("intervals %s, realisations give %s" % (sorted(c.Lsmin_ci), sorted(out)))
'''),
 dict(id='monte-carlo-mean-of-previous', property='C27',
  edits=[('confidence.py', '                        (Xu[c], Yu[c], Xv[c], Yv[c]),\n                        varcov_mCw[c],\n', '                        (Xu[c], Yu[c], Yv[c], Xv[c]),\n                        varcov_mCw[c],\n')],
  needs="two-dimensional data analysed with conf_int='MC' and white noise",
  breaks='the realisations of v are not centred on its coefficients',
  demo='''
draws = []
real = np.random.multivariate_normal
def record(mean, cov, *a, **k):
    r = real(mean, cov, *a, **k)
    draws.append((np.array(mean), np.array(cov), r.copy()))
    return r
np.random.multivariate_normal = record
rng = np.random.default_rng(5)
t, u = series(n=24 * 40)

from utide.confidence import ut_cs2cep
c = solve(t, u + 0.3 * rng.standard_normal(len(t)), 0.5 * np.roll(u, 2) + 0.3 * rng.standard_normal(len(t)), lat=45, epoch="python", constit=["M2", "O1"], conf_int="MC", white=True, verbose=False)
L = sorted(ut_cs2cep(m[None])[0][0] for m, cov, r in draws)
if not np.allclose(L, sorted(c.Lsmaj)):
    fail("centred on major axes %s, solution has %s" % (L, sorted(c.Lsmaj)))
'''),
]
