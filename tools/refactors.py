#!/usr/bin/env python3
"""Edits that keep the behaviour (maintainer tool): every check has to stay quiet.

tools/refactors.py [bundle…]    applies each bundle to a copy of /repo/utide, runs the
tests there and all checks on it; prints the checks that alarm, and how many obligations
become undecided.  -c C01,C02 restricts the checks, -n skips the tests."""
import importlib, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}

B["a"] = [
    # helper extracted: design-matrix columns of inferred constituents
    ("_solve.py", """                # (nt,ni)
                Qsum_p = (Q * ref.I.Rp).sum(axis=1)
                Etilp[:, k] = E[:, 0] * (1 + Qsum_p)
                Qsum_m = (Q * np.conj(ref.I.Rm)).sum(axis=1)
                Etilm[:, k] = E[:, 0] * (1 + Qsum_m)
""", """                Etilp[:, k] = _with_inferred(E[:, 0], Q, ref.I.Rp)
                Etilm[:, k] = _with_inferred(E[:, 0], Q, ref.I.Rm.conj())
"""),
    ("_solve.py", "def _reorder(coef, opt):\n", """def _with_inferred(E, Q, R):
    return E * (1 + np.sum(Q * R, axis=1))


def _reorder(coef, opt):
"""),
    # np.hstack of a list built step by step
    ("_solve.py", """    # Positive and negative frequencies
    B = np.hstack((E, E.conj()))
""", """    # Positive and negative frequencies
    columns = [E, E.conj()]
"""),
    ("_solve.py", "        B = np.hstack((B, Etilp, np.conj(Etilm)))\n", "        columns += [Etilp, np.conj(Etilm)]\n"),
    ("_solve.py", "    B = np.hstack((B, np.ones((nt, 1))))\n", "    columns.append(np.ones((nt, 1)))\n"),
    ("_solve.py", "        B = np.hstack((B, ((t - tref) / lor)[:, np.newaxis]))\n", "        columns.append(((t - tref) / lor).reshape(-1, 1))\n    B = np.concatenate(columns, axis=1)\n"),
    # mean and trend
    ("_solve.py", """    if opt["twodim"]:
        if opt["notrend"]:
            coef["umean"] = np.real(m[-1])
            coef["vmean"] = np.imag(m[-1])
        else:
            coef["umean"] = np.real(m[-2])
            coef["vmean"] = np.imag(m[-2])
            coef["uslope"] = np.real(m[-1]) / lor
            coef["vslope"] = np.imag(m[-1]) / lor
    else:
        if opt["notrend"]:
            coef["mean"] = np.real(m[-1])
        else:
            coef["mean"] = np.real(m[-2])
            coef["slope"] = np.real(m[-1]) / lor
""", """    trend = not opt["notrend"]
    mean = m[-2] if trend else m[-1]
    slope = m[-1] / lor if trend else None
    if opt["twodim"]:
        coef["umean"], coef["vmean"] = mean.real, mean.imag
        if trend:
            coef["uslope"], coef["vslope"] = slope.real, slope.imag
    else:
        coef["mean"] = mean.real
        if trend:
            coef["slope"] = slope.real
"""),
    # reorder: loop rewritten
    ("_solve.py", """    arrays = "name PE SNR A A_ci g g_ci Lsmaj Lsmaj_ci Lsmin Lsmin_ci theta theta_ci"
    reorderlist = [a for a in arrays.split() if a in coef]

    for key in reorderlist:
        coef[key] = coef[key][ind]

    coef["aux"]["frq"] = coef["aux"]["frq"][ind]
    coef["aux"]["lind"] = coef["aux"]["lind"][ind]
    return coef
""", """    names = ["name", "PE", "SNR"]
    for quantity in ("A", "g", "Lsmaj", "Lsmin", "theta"):
        names.extend((quantity, quantity + "_ci"))

    for name in names:
        if name not in coef:
            continue
        coef[name] = np.take(coef[name], ind)

    aux = coef["aux"]
    for name in ("lind", "frq"):
        aux[name] = aux[name][ind]
    return coef
"""),
    # selection criteria of reconstruct in a helper
    ("_reconstruct.py", """        if twodim:
            E = coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2
            N = (coef["Lsmaj_ci"] / 1.96) ** 2 + (coef["Lsmin_ci"] / 1.96) ** 2
        else:
            E = coef["A"] ** 2
            N = (coef["A_ci"] / 1.96) ** 2
        SNR = E / N
        PE = 100 * E / E.sum()
        with np.errstate(invalid="ignore"):
            ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)
""", """        PE, SNR = _energy(coef, twodim)
        with np.errstate(invalid="ignore"):
            ind = (PE >= min_PE) & ~(SNR < min_SNR)
"""),
    ("_reconstruct.py", "def _reconstruct(t, goodmask", """def _energy(coef, twodim):
    axes = ("Lsmaj", "Lsmin") if twodim else ("A",)
    E = sum(coef[k] ** 2 for k in axes)
    N = sum((coef[k + "_ci"] / 1.96) ** 2 for k in axes)
    return E * 100 / np.sum(E), E / N


def _reconstruct(t, goodmask"""),
    # complex coefficients
    ("_reconstruct.py", "    rpd = np.pi / 180\n", ""),
    ("_reconstruct.py", """        ap = 0.5 * (
            (coef["Lsmaj"][ind] + coef["Lsmin"][ind])
            * np.exp(1j * (coef["theta"][ind] - coef["g"][ind]) * rpd)
        )
        am = 0.5 * (
            (coef["Lsmaj"][ind] - coef["Lsmin"][ind])
            * np.exp(1j * (coef["theta"][ind] + coef["g"][ind]) * rpd)
        )
    else:
        ap = 0.5 * coef["A"][ind] * np.exp(-1j * coef["g"][ind] * rpd)
        am = np.conj(ap)
""", """        major, minor = coef["Lsmaj"][ind], coef["Lsmin"][ind]
        theta, g = np.deg2rad(coef["theta"][ind]), np.deg2rad(coef["g"][ind])
        ap = (major + minor) / 2 * np.exp(1j * (theta - g))
        am = (major - minor) / 2 * np.exp(1j * (theta + g))
    else:
        g = np.radians(coef["g"][ind])
        ap = coef["A"][ind] / 2 * (np.cos(g) - 1j * np.sin(g))
        am = ap.conj()
"""),
    # confidence: constants and helper
    ("confidence.py", "                A, _, _, g = ut_cs2cep(mCall)\n", "                A, _, _, g = ut_cs2cep(mCall)\n                spread = _robust_ci\n"),
    ("confidence.py", """                coef.A_ci[c] = (
                    1.96 * np.median(np.abs(A - np.median(A))) / 0.6745
                )  # noqa
                g[0] = coef.g[c]
                g = cluster(g, 360)
                coef.g_ci[c] = (
                    1.96 * np.median(np.abs(g - np.median(g))) / 0.6745
                )  # noqa
            else:
""", """                coef.A_ci[c] = spread(A)
                g[0] = coef.g[c]
                coef.g_ci[c] = spread(cluster(g, 360))
            else:
"""),
    ("confidence.py", "def _is_PD(A):\n", """def _robust_ci(x):
    deviation = np.abs(x - np.median(x))
    return 1.96 * np.median(deviation) / 0.6745


def _is_PD(A):
"""),
    ("confidence.py", """    for i, (lo, hi) in enumerate(ba.fbnd):
        inside = (constits >= lo) & (constits <= hi)
        Puu[inside] = ba.Puu[i]
        if opt.twodim:
            Pvv[inside] = ba.Pvv[i]
            Puv[inside] = ba.Puv[i]
""", """    for i in range(len(ba.fbnd)):
        lo, hi = ba.fbnd[i]
        inside = np.logical_and(lo <= constits, constits <= hi)
        Puu[inside] = ba.Puu[i]
        if not opt.twodim:
            continue
        Pvv[inside] = ba.Pvv[i]
        Puv[inside] = ba.Puv[i]
"""),
    # harmonics
    ("harmonics.py", """        for i0, nshal, k in zip(ishallow, nshallow, kshallow, strict=False):
            ik = i0 + np.arange(nshal)
            j = shallow.iname[ik] - 1
            exp1 = shallow.coef[ik, None]
            exp2 = np.abs(exp1)
            F[k, :] = np.prod(F[j, :] ** exp2, axis=0)
            U[k, :] = np.sum(U[j, :] * exp1, axis=0)
""", """        for n in range(len(kshallow)):
            k = kshallow[n]
            ik = ishallow[n] + np.arange(nshallow[n])
            exp1 = shallow.coef[ik][:, np.newaxis]
            j = shallow.iname[ik] - 1
            U[k] = (U[j] * exp1).sum(axis=0)
            F[k] = (F[j] ** abs(exp1)).prod(axis=0)
"""),
    ("harmonics.py", """        for ii in ind:
            F[ii, :] = 1 + np.sum(mat[iconst == ii], axis=0)
""", """        for ii in ind:
            mine = np.nonzero(iconst == ii)[0]
            F[ii] += mat[mine, :].sum(axis=0)
"""),
    # diagnostics
    ("diagnostics.py", """    if "Lsmaj" in coef:
        E = coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2
        PE = (100 / np.sum(E)) * E
    else:
        PE = 100 * coef["A"] ** 2 / np.sum(coef["A"] ** 2)
    return PE
""", """    E = _energy(coef)
    return E / E.sum() * 100
"""),
    ("diagnostics.py", "def _PE(coef):\n", """def _energy(coef):
    try:
        return coef["A"] ** 2
    except KeyError:
        return coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2


def _PE(coef):
"""),
    # selection
    ("constituent_selection.py", """        allrefs = list(OrderedDict(zip(_r, [1] * len(_r), strict=False)).keys())
""", """        allrefs = []
        for name in _r:
            if name not in allrefs:
                allrefs.append(name)
"""),
    ("constituent_selection.py", "        for _k, name in enumerate(allrefs):\n", "        for name in allrefs:\n"),
    # astronomy
    ("astronomy.py", "    args = np.vstack((np.ones(jd.shape), d, D * D, D**3))\n", "    args = np.array([np.ones_like(d), d, D**2, D * D * D])\n"),
    # periodogram
    ("periodogram.py", """    for k, (f0, f1) in enumerate(fbands):
        i0, i1 = np.searchsorted(freq, [f0, f1])
        i1 = min(nfreq, i1 + 1)
        inband = slice(i0, i1)
        avP[k] = P[inband].mean()
""", """    for k in range(nbands):
        i0 = np.searchsorted(freq, fbands[k, 0])
        i1 = np.searchsorted(freq, fbands[k, 1])
        avP[k] = P[i0 : min(i1 + 1, nfreq)].mean()
"""),
    # robustfit
    ("robustfit.py", """        # Save these values in case the next iteration
        # makes things worse.
        oldlstsq = b, rsumsq, rank, sing
        oldw = w
        oldrsumsq = rsumsq
        oldrmeansq = rmeansq

        # Residuals (unweighted) from latest fit:
        resid = y - np.dot(X, b)
""", """        # Residuals (unweighted) from latest fit:
        resid = y - X @ b

        # Save these values in case the next iteration
        # makes things worse.
        oldrsumsq, oldrmeansq = rsumsq, rmeansq
        oldlstsq, oldw = (b, rsumsq, rank, sing), w
"""),
    # ellipse parameters
    ("ellipse_params.py", """    ap = ((Xu + Yv) + 1j * (Xv - Yu)) / 2
    am = ((Xu - Yv) + 1j * (Xv + Yu)) / 2
    Ap = np.abs(ap)
    Am = np.abs(am)
    Lsmaj = Ap + Am
    Lsmin = Ap - Am
""", """    U = Xu - 1j * Yu
    Vr = Xv - 1j * Yv
    ap = 0.5 * (U + 1j * Vr)
    am = 0.5 * np.conj(U - 1j * Vr)
    Ap, Am = abs(ap), abs(am)
    Lsmin = Ap - Am
    Lsmaj = Ap + Am
"""),
    ("_time_conversion.py", """    if t.dtype.kind in ("if"):
        if epoch == "python":
            return t
        elif epoch == "matlab":
            return t - 366
        else:
            try:
                ofs = _python_gregorian_datenum(epoch)
            except ValueError as err:
                raise ValueError(
                    "Cannot parse epoch as string or date or datetime",
                ) from err
            else:
                return t + ofs
    else:
        raise ValueError("Can not process time array as timestamp or datenum.")
""", """    if t.dtype.kind not in "if":
        raise ValueError("Can not process time array as timestamp or datenum.")
    if epoch == "python":
        return t
    if epoch == "matlab":
        return t - 366
    try:
        ofs = _python_gregorian_datenum(epoch)
    except ValueError as err:
        raise ValueError(
            "Cannot parse epoch as string or date or datetime",
        ) from err
    return t + ofs
"""),
]

B["b"] = [
    # _slvinit: masks handled in a helper
    ("_solve.py", """    tin = np.ma.masked_invalid(tin)
    uin = np.ma.masked_invalid(uin)
    if vin is not None:
        vin = np.ma.masked_invalid(vin)
    if np.ma.is_masked(tin):
        goodmask = ~np.ma.getmaskarray(tin)
        uin = uin.compress(goodmask)
        if vin is not None:
            vin = vin.compress(goodmask)

    tin = tin.compressed()  # No longer masked.
""", """    def masked(x):
        return None if x is None else np.ma.masked_invalid(x)

    tin, uin, vin = masked(tin), masked(uin), masked(vin)
    if np.ma.is_masked(tin):
        goodmask = ~np.ma.getmaskarray(tin)
        if vin is not None:
            vin = vin[goodmask]
        uin = uin[goodmask]

    tin = tin.compressed()  # No longer masked.
"""),
    ("_solve.py", """    v = None
    if np.ma.is_masked(uin) or np.ma.is_masked(vin):
        mask = np.ma.getmaskarray(uin)
        if vin is not None:
            mask = np.ma.mask_or(np.ma.getmaskarray(vin), mask)
        goodmask = ~mask
        t = tin.compress(goodmask)
        u = uin.compress(goodmask).filled()
        if vin is not None:
            v = vin.compress(goodmask).filled()
    else:
        t = tin
        u = uin.filled()
        if vin is not None:
            v = vin.filled()
""", """    v = None
    mask = np.ma.getmaskarray(uin)
    if vin is not None:
        mask = mask | np.ma.getmaskarray(vin)
    if mask.any():
        t = tin[~mask]
        u = uin.data[~mask]
        if vin is not None:
            v = vin.data[~mask]
    else:
        t = tin
        u = uin.filled()
        if vin is not None:
            v = vin.filled()
"""),
    ("_solve.py", """        opt["equi"] = True  # based on times; u/v can still have nans ("gappy")
        lor = np.ptp(tin)
        ntgood = len(tin)
        elor = lor * ntgood / (ntgood - 1)
        tref = 0.5 * (tin[0] + tin[-1])
    else:
        opt["equi"] = False
        lor = np.ptp(t)
        nt = len(t)
        elor = lor * nt / (nt - 1)
        tref = 0.5 * (t[0] + t[-1])
""", """        opt["equi"] = True  # based on times; u/v can still have nans ("gappy")
        tt = tin
    else:
        opt["equi"] = False
        tt = t
    n = tt.size
    lor = tt.max() - tt.min()
    elor = lor * (n / (n - 1))
    tref = (tt[-1] + tt[0]) / 2
"""),
    # defaults as one update
    ("_solve.py", """    opt["conf_int"] = True
    opt["cnstit"] = "auto"
    opt["notrend"] = 0
    opt["prefilt"] = []
    opt["nodsatlint"] = 0
    opt["nodsatnone"] = 0
    opt["gwchlint"] = 0
    opt["gwchnone"] = 0
""", """    opt.update(conf_int=True, cnstit="auto", notrend=0, prefilt=[])
    for flag in ("nodsatlint", "nodsatnone", "gwchlint", "gwchnone"):
        opt[flag] = 0
"""),
    # OLS through a helper
    ("_solve.py", """        # Model coefficients.
        try:
            m = np.linalg.lstsq(B, xraw, rcond=None)[0]
        except TypeError:
            m = np.linalg.lstsq(B, xraw)[0]
        W = np.ones(nt)  # Uniform weighting; we could use a scalar 1, or None.
""", """        # Model coefficients.
        m, _, _, _ = np.linalg.lstsq(B, xraw, rcond=None)
        W = np.ones_like(xraw, dtype=float)
"""),
    ("_solve.py", """    xmod = np.dot(B, m)  # Model fit.

    if not opt["twodim"]:
        xmod = np.real(xmod)

    e = W * (xraw - xmod)  # Weighted residuals.

    nI, nR, nNR = coef.nI, coef.nR, coef.nNR

    ap = np.hstack((m[:nNR], m[2 * nNR : 2 * nNR + nR]))
    i0 = 2 * nNR + nR
    am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))
""", """    xmod = B @ m  # Model fit.
    if not opt["twodim"]:
        xmod = xmod.real

    resid = xraw - xmod
    e = resid * W  # Weighted residuals.

    nI, nR, nNR = coef.nI, coef.nR, coef.nNR

    mNRp, mNRm, mRp, mRm, _ = np.split(m, np.cumsum([nNR, nNR, nR, nR]))
    ap = np.concatenate([mNRp, mRp])
    am = np.concatenate([mNRm, mRm])
"""),
    # inferred coefficients collected in lists
    ("_solve.py", """        apI = np.empty((nI,), dtype=complex)
        amI = np.empty((nI,), dtype=complex)
        ind = 0

        for k, ref in enumerate(cnstit.R):
            apI[ind : ind + ref.nI] = ref.I.Rp * ap[nNR + k]
            amI[ind : ind + ref.nI] = ref.I.Rm * am[nNR + k]
            ind += ref.nI
""", """        apI = np.concatenate([ref.I.Rp * x for ref, x in zip(cnstit.R, ap[nNR:])])
        amI = np.concatenate([ref.I.Rm * x for ref, x in zip(cnstit.R, am[nNR:])])
"""),
    # order by SNR and PE
    ("_solve.py", """        ind = coef["PE"].argsort()[::-1]
""", """        ind = np.flip(np.argsort(coef["PE"]))
"""),
    # reconstruct
    ("_reconstruct.py", """        ind = [i for i, c in enumerate(coef["name"]) if c in constit]
""", """        ind = []
        for i, c in enumerate(coef["name"]):
            if c in constit:
                ind.append(i)
"""),
    ("_reconstruct.py", """    goodmask = ~np.ma.getmaskarray(t)
    t = t.compressed()
""", """    goodmask = np.logical_not(np.ma.getmaskarray(t))
    t = t.data[goodmask]
"""),
    # confidence: variances
    ("confidence.py", """                    den = varXu + varYu
                    varXu = Puu[c] * varXu / den
                    varYu = Puu[c] * varYu / den
                    varcov_mCc[c, :, :] = np.diag(np.array([varXu, varYu]))
                sig1, sig2 = ut_linci(Xu[c], Yu[c], np.sqrt(varXu), np.sqrt(varYu))
""", """                    varXu, varYu = _share(Puu[c], varXu, varYu)
                    varcov_mCc[c] = np.diag([varXu, varYu])
                sig1, sig2 = ut_linci(Xu[c], Yu[c], varXu**0.5, varYu**0.5)
"""),
    ("confidence.py", """                    den = varXu + varYu
                    varXu = Puu[c] * varXu / den
                    varYu = Puu[c] * varYu / den
                    den = varXv + varYv
                    varXv = Pvv[c] * varXv / den
                    varYv = Pvv[c] * varYv / den
""", """                    varXu, varYu = _share(Puu[c], varXu, varYu)
                    varXv, varYv = _share(Pvv[c], varXv, varYv)
"""),
    ("confidence.py", "def _is_PD(A):\n", """def _share(P, a, b):
    total = a + b
    return P * a / total, P * b / total


def _is_PD(A):
"""),
    ("confidence.py", """    gamC = np.linalg.inv(np.dot(B.conj().T, _WB)) * varMSM
""", """    gamC = varMSM * np.linalg.inv(B.conj().T @ _WB)
"""),
    ("confidence.py", """    x = np.array(x)
    ha = ang / 2
    ofs = -x[0] + ha
    y = (x + ofs) % ang - ofs
    return y
""", """    x = np.asarray(x)
    low = x[0] - ang / 2
    return (x - low) % ang + low
"""),
    # selection: comprehension instead of nested loops
    ("constituent_selection.py", """        RIset = set(infer.inferred_names) | set(infer.reference_names)
        RI_index_set = {constit_index_dict[n] for n in RIset}
        cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]
""", """        RI_index_set = set()
        for names in (infer.inferred_names, infer.reference_names):
            RI_index_set.update(constit_index_dict[n] for n in names)
        kept = []
        for ind in cnstit.NR.lind:
            if ind in RI_index_set:
                continue
            kept.append(ind)
        cnstit.NR.lind = kept
"""),
    # harmonics: phases in place
    ("harmonics.py", """    E = F * np.exp(1j * (U + V) * 2 * np.pi)
""", """    phase = 2 * np.pi * (U + V)
    E = F * (np.cos(phase) + 1j * np.sin(phase))
"""),
    ("harmonics.py", """        if ngflgs[0]:
            tt = np.array([tref])
        else:
            tt = t
        ntt = len(tt)

        astro, ader = ut_astron(tt)

        if abs""", """        tt = np.atleast_1d(tref) if ngflgs[0] else t
        ntt = tt.size
        astro = ut_astron(tt)[0]

        if abs"""),
    ("diagnostics.py", """    indPE = PE.argsort()[::-1]

    coef["diagn"]["name"] = coef["name"][indPE]
    coef["diagn"]["PE"] = PE[indPE]
    coef["diagn"]["SNR"] = SNR[indPE]
""", """    order = np.argsort(PE)[::-1]
    coef["diagn"].update(name=coef["name"][order], SNR=SNR[order], PE=PE[order])
"""),
    ("utilities.py", """        dsub = {k: v for (k, v) in newkw.items() if k in self and self[k] is None}
        self.update(dsub)
""", """        for k, v in newkw.items():
            if self.get(k, 0) is None:
                self[k] = v
"""),
    ("robustfit.py", """            if improvement < 0:
                b, rsumsq, rank, sing = oldlstsq
                w = oldw
                iterations = i
                break

            if improvement < tol:
                iterations = i + 1
                break
""", """            if improvement < 0:
                w = oldw
                b, rsumsq, rank, sing = oldlstsq
            if improvement < 0 or improvement < tol:
                iterations = i if improvement < 0 else i + 1
                break
"""),
    ("periodogram.py", """    n = len(t)
    delta_t = (t[-1] - t[0]) / (n - 1)
    reclen = n * delta_t

    nf = n * ofac  # number of "Fourier frequencies" based on oversampling
    # Simplify by ignoring the 0 and Nyquist frequencies.
    # Divide by reclen to convert cycles/record to cycles/time unit.
    freq = np.arange(1, nf // 2) / reclen
    nfreq = len(freq)
""", """    n = t.size
    reclen = n * (t[-1] - t[0]) / (n - 1)

    # Simplify by ignoring the 0 and Nyquist frequencies.
    # Divide by reclen to convert cycles/record to cycles/time unit.
    nf = ofac * n
    freq = np.arange(1, nf // 2) / reclen
    nfreq = freq.size
"""),
]

B["c"] = [
    ('_solve.py', '    if opt["twodim"]:\n        xraw = u + 1j * v\n    else:\n        xraw = u\n\n',
     '    xraw = u if not opt["twodim"] else u + 1j * v\n\n'),
    ('_solve.py', '    ap = np.hstack((m[:nNR], m[2 * nNR : 2 * nNR + nR]))\n    i0 = 2 * nNR + nR\n    am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))\n',
     '    columns = {\n        "plus": [*range(nNR), *range(2 * nNR, 2 * nNR + nR)],\n        "minus": [*range(nNR, 2 * nNR), *range(2 * nNR + nR, 2 * (nNR + nR))],\n    }\n    ap = m[columns["plus"]]\n    am = m[columns["minus"]]\n'),
    ('_solve.py', '    # Mean and trend.\n    if opt["twodim"]:\n        if opt["notrend"]:\n            coef["umean"] = np.real(m[-1])\n            coef["vmean"] = np.imag(m[-1])\n        else:\n            coef["umean"] = np.real(m[-2])\n            coef["vmean"] = np.imag(m[-2])\n            coef["uslope"] = np.real(m[-1]) / lor\n            coef["vslope"] = np.imag(m[-1]) / lor\n    else:\n        if opt["notrend"]:\n            coef["mean"] = np.real(m[-1])\n        else:\n            coef["mean"] = np.real(m[-2])\n            coef["slope"] = np.real(m[-1]) / lor\n',
     '    # Mean and trend.\n    rest = list(m[2 * (nNR + nR) :])\n    parts = (("u", np.real), ("v", np.imag)) if opt["twodim"] else (("", np.real),)\n    for prefix, part in parts:\n        coef[prefix + "mean"] = part(rest[0])\n    if len(rest) > 1:\n        for prefix, part in parts:\n            coef[prefix + "slope"] = part(rest[1]) / lor\n'),
    ('_solve.py', '        apI = np.empty((nI,), dtype=complex)\n        amI = np.empty((nI,), dtype=complex)\n        ind = 0\n\n        for k, ref in enumerate(cnstit.R):\n            apI[ind : ind + ref.nI] = ref.I.Rp * ap[nNR + k]\n            amI[ind : ind + ref.nI] = ref.I.Rm * am[nNR + k]\n            ind += ref.nI\n',
     '        apI = np.concatenate([ref.I.Rp * z for ref, z in zip(cnstit.R, ap[nNR:])])\n        amI = np.concatenate([ref.I.Rm * z for ref, z in zip(cnstit.R, am[nNR:])])\n'),
    ('_solve.py', '            coef.Lsmaj = np.hstack((coef.Lsmaj, Lsmaj))\n            coef.Lsmin = np.hstack((coef.Lsmin, Lsmin))\n            coef.theta = np.hstack((coef.theta, theta))\n            coef.g = np.hstack((coef.g, g))\n',
     '            found = {"Lsmaj": Lsmaj, "Lsmin": Lsmin, "theta": theta, "g": g}\n            for key, value in found.items():\n                coef[key] = np.append(coef[key], value)\n'),
    ('_solve.py', '    for key in reorderlist:\n        coef[key] = coef[key][ind]\n\n    coef["aux"]["frq"] = coef["aux"]["frq"][ind]\n    coef["aux"]["lind"] = coef["aux"]["lind"][ind]\n    return coef',
     '    coef.update({key: np.take(coef[key], ind) for key in reorderlist})\n    for key in ("frq", "lind"):\n        coef["aux"][key] = np.take(coef["aux"][key], ind)\n    return coef'),
    ('_solve.py', '    e = W * (xraw - xmod)  # Weighted residuals.\n',
     '    e = np.multiply(np.subtract(xraw, xmod), W)  # Weighted residuals.\n'),
    ('_reconstruct.py', '        ap = 0.5 * coef["A"][ind] * np.exp(-1j * coef["g"][ind] * rpd)\n',
     '        phase = np.deg2rad(coef["g"][ind])\n        ap = coef["A"][ind] / 2 * (np.cos(phase) - 1j * np.sin(phase))\n'),
    ('_reconstruct.py', '    fit = np.dot(E, ap) + np.dot(np.conj(E), am)\n',
     '    fit = np.hstack((E, E.conj())) @ np.concatenate((ap, am))\n'),
    ('_reconstruct.py', '    u = np.empty(goodmask.shape, dtype=float)\n    u.fill(np.nan)\n    trend = not coef["aux"]["opt"]["notrend"]\n\n    if twodim:\n        v = u.copy()\n        u[goodmask] = np.real(fit) + coef["umean"]\n        v[goodmask] = np.imag(fit) + coef["vmean"]\n        if trend:\n            u[goodmask] += coef["uslope"] * (t - coef["aux"]["reftime"])\n            v[goodmask] += coef["vslope"] * (t - coef["aux"]["reftime"])\n\n    else:\n        u[goodmask] = np.real(fit) + coef["mean"]\n        if trend:\n            u[goodmask] += coef["slope"] * (t - coef["aux"]["reftime"])\n        v = None\n',
     '    trend = not coef["aux"]["opt"]["notrend"]\n\n    def component(part, prefix):\n        x = part + coef[prefix + "mean"]\n        if trend:\n            x = x + coef[prefix + "slope"] * (t - coef["aux"]["reftime"])\n        full = np.full(goodmask.shape, np.nan)\n        full[goodmask] = x\n        return full\n\n    if twodim:\n        u, v = component(fit.real, "u"), component(fit.imag, "v")\n    else:\n        u, v = component(fit.real, ""), None\n'),
    ('_reconstruct.py', '        SNR = E / N\n        PE = 100 * E / E.sum()\n        with np.errstate(invalid="ignore"):\n            ind = np.logical_and(SNR >= min_SNR, PE >= min_PE)\n',
     '        with np.errstate(invalid="ignore"):\n            weak = ~(E / N >= min_SNR) | ~(100 * E / E.sum() >= min_PE)\n        ind = np.flatnonzero(~weak)\n'),
    ('harmonics.py', '            F[ii, :] = 1 + np.sum(mat[iconst == ii], axis=0)\n',
     '            rows = np.nonzero(iconst == ii)[0]\n            F[ii, :] = mat[rows, :].sum(axis=0) + 1\n'),
    ('harmonics.py', '            F[k, :] = np.prod(F[j, :] ** exp2, axis=0)\n            U[k, :] = np.sum(U[j, :] * exp1, axis=0)\n',
     '            F[k, :] = (F[j] ** exp2).prod(axis=0)\n            U[k, :] = (exp1.T @ U[j])[0]\n'),
    ('harmonics.py', '            V = V + 24 * (t[:, None] - tref) * freq[None, lind]\n',
     '            hours = 24 * (t - tref)\n            V = V + np.outer(hours, freq[lind])\n'),
    ('harmonics.py', '        if abs(lat) < 5:\n            lat = np.copysign(5, lat)\n\n        slat = np.sin(np.deg2rad(lat))\n        rr = sat.amprat.copy()\n\n        j = sat.ilatfac == 1\n        rr[j] *= 0.36309 * (1.0 - 5.0 * slat**2) / slat\n\n        j = sat.ilatfac == 2\n        rr[j] *= 2.59808 * slat\n',
     '        if abs(lat) < 5:\n            lat = np.copysign(5, lat)\n\n        slat = np.sin(lat * np.pi / 180)\n        diurnal = 0.36309 * (1.0 - 5.0 * slat * slat) / slat\n        semidiurnal = 2.59808 * slat\n        rr = sat.amprat * np.where(\n            sat.ilatfac == 1,\n            diurnal,\n            np.where(sat.ilatfac == 2, semidiurnal, 1.0),\n        )\n'),
    ('astronomy.py', '    args = np.vstack((np.ones(jd.shape), d, D * D, D**3))\n\n    astro = np.fmod((np.dot(_coefs, args) / 360), 1)\n',
     '    c0, c1, c2, c3 = (_coefs[:, k, None] for k in range(4))\n    astro = np.fmod((c0 + c1 * d + c2 * D**2 + c3 * D**3) / 360, 1)\n'),
    ('ellipse_params.py', '    theta = ((epsp + epsm) / 2) % 180\n    g = (-epsp + theta) % 360\n',
     '    half = 0.5 * (epsp + epsm)\n    theta = half - 180 * np.floor(half / 180)\n    g = np.mod(theta - epsp, 360)\n'),
    ('diagnostics.py', '        SNR = (coef["A"] ** 2) / (coef["A_ci"] / 1.96) ** 2\n',
     '        SNR = np.square(1.96 * coef["A"] / coef["A_ci"])\n'),
    ('confidence.py', '                Duu = Puu[c] * Duu / np.trace(Duu)\n',
     '                Duu = Duu * (Puu[c] / (Duu[0, 0] + Duu[1, 1]))\n'),
    ('confidence.py', '                coef.Lsmaj_ci[c] = (\n                    1.96 * np.median(np.abs(Lsmaj - np.median(Lsmaj))) / 0.6745\n                )  # noqa\n                coef.Lsmin_ci[c] = (\n                    1.96 * np.median(np.abs(Lsmin - np.median(Lsmin))) / 0.6745\n                )  # noqa\n',
     '                for name, x in (("Lsmaj_ci", Lsmaj), ("Lsmin_ci", Lsmin)):\n                    coef[name][c] = 1.96 * np.median(np.abs(x - np.median(x))) / 0.6745\n'),
    ('confidence.py', '                coef["Lsmaj_ci"][c] = 1.96 * np.real(sig1)\n                coef["Lsmin_ci"][c] = 1.96 * np.imag(sig1)\n                coef["g_ci"][c] = 1.96 * np.real(sig2)\n                coef["theta_ci"][c] = 1.96 * np.imag(sig2)\n',
     '                axes, angles = 1.96 * sig1, 1.96 * sig2\n                coef["Lsmaj_ci"][c], coef["Lsmin_ci"][c] = axes.real, axes.imag\n                coef["g_ci"][c], coef["theta_ci"][c] = angles.real, angles.imag\n'),
    ('robustfit.py', '        wX = w[:, np.newaxis] * X\n        wy = w * y\n        b, rsumsq',
     '        wX = (X.T * w).T\n        wy = np.multiply(y, w)\n        b, rsumsq'),
    ('robustfit.py', '            if improvement < tol:\n                iterations = i + 1\n                break\n',
     '            if tol > improvement:\n                iterations = i + 1\n                break\n'),
]

B["d"] = [
    ('constituent_selection.py', '        cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]\n',
     '        kept = []\n        for ind in cnstit.NR.lind:\n            if ind in RI_index_set:\n                continue\n            kept.append(ind)\n        cnstit.NR.lind = kept\n'),
    ('constituent_selection.py', '        cnstit.NR.lind = np.where(const.df >= minres)[0]\n',
     '        (cnstit.NR.lind,) = np.nonzero(~(const.df < minres) & ~np.isnan(const.df))\n'),
    ('constituent_selection.py', '            refstruct.I = Bunch(Rp=[], Rm=[], name=[], lind=[], frq=[])  # noqa\n            for lk, ilk in enumerate(ind):\n                refstruct.I.Rp.append(\n                    infer.amp_ratios[ilk]\n                    * np.exp(1j * infer.phase_offsets[ilk] * np.pi / 180),\n                )\n                if len(infer.amp_ratios) > nI:\n                    refstruct.I.Rm.append(\n                        infer.amp_ratios[ilk + nI]\n                        * np.exp(-1j * infer.phase_offsets[ilk + nI] * np.pi / 180),\n                    )\n                else:\n                    refstruct.I.Rm.append(np.conj(refstruct.I.Rp[lk]))\n\n                iname = infer.inferred_names[ilk]\n                refstruct.I.name.append(iname)\n                lind = constit_index_dict[iname]\n                refstruct.I.lind.append(lind)\n                refstruct.I.frq.append(freqs[lind])\n\n            refstruct.I.Rp = np.array(refstruct.I.Rp)\n            refstruct.I.Rm = np.array(refstruct.I.Rm)\n',
     '\n            def ratio(k, sign):\n                angle = sign * infer.phase_offsets[k] * np.pi / 180\n                return infer.amp_ratios[k] * np.exp(1j * angle)\n\n            names = [infer.inferred_names[i] for i in ind]\n            places = [constit_index_dict[n] for n in names]\n            Rp = np.array([ratio(i, 1) for i in ind])\n            if len(infer.amp_ratios) > nI:\n                Rm = np.array([ratio(i + nI, -1) for i in ind])\n            else:\n                Rm = Rp.conj()\n            refstruct.I = Bunch(\n                Rp=Rp,\n                Rm=Rm,\n                name=names,\n                lind=places,\n                frq=[freqs[p] for p in places],\n            )\n'),
    ('constituent_selection.py', '        # Append reference values, and then inferred values, to the lists.\n        coef.name.extend(allrefs)\n        coef.aux.frq.extend([_ref.frq for _ref in cnstit.R])\n        coef.aux.lind.extend([_ref.lind for _ref in cnstit.R])\n        for ref in cnstit.R:\n            coef.name.extend(ref.I.name)\n            coef.aux.frq.extend(ref.I.frq)\n            coef.aux.lind.extend(ref.I.lind)\n',
     '        # Append reference values, and then inferred values, to the lists.\n        for ref in cnstit.R:\n            coef.name.append(ref.name)\n            coef.aux.frq.append(ref.frq)\n            coef.aux.lind.append(ref.lind)\n        coef.name += [n for ref in cnstit.R for n in ref.I.name]\n        coef.aux.frq += [f for ref in cnstit.R for f in ref.I.frq]\n        coef.aux.lind += [i for ref in cnstit.R for i in ref.I.lind]\n'),
    ('periodogram.py', '    for k, (f0, f1) in enumerate(fbands):\n        i0, i1 = np.searchsorted(freq, [f0, f1])\n        i1 = min(nfreq, i1 + 1)\n        inband = slice(i0, i1)\n        avP[k] = P[inband].mean()\n',
     '    lower, upper = fbands[:, 0], fbands[:, 1]\n    first = np.searchsorted(freq, lower)\n    last = np.minimum(nfreq, np.searchsorted(freq, upper) + 1)\n    for k in range(nbands):\n        avP[k] = P[first[k] : last[k]].mean()\n'),
    ('harmonics.py', '        for i0, nshal, k in zip(ishallow, nshallow, kshallow, strict=False):\n            ik = i0 + np.arange(nshal)\n            j = shallow.iname[ik] - 1\n            exp1 = shallow.coef[ik, None]\n            V[k, :] = np.sum(V[j, :] * exp1, axis=0)\n\n        V = V[lind, :].T\n',
     '        for n, k in enumerate(kshallow):\n            rows = slice(ishallow[n], ishallow[n] + nshallow[n])\n            parents = shallow.iname[rows] - 1\n            V[k] = np.dot(shallow.coef[rows], V[parents])\n\n        V = np.transpose(V[lind])\n'),
    ('harmonics.py', '        F = F[lind, :].T\n        U = U[lind, :].T\n',
     '        F, U = (x[lind, :].T for x in (F, U))\n'),
    ('_reconstruct.py', '        ap = 0.5 * (\n            (coef["Lsmaj"][ind] + coef["Lsmin"][ind])\n            * np.exp(1j * (coef["theta"][ind] - coef["g"][ind]) * rpd)\n        )\n        am = 0.5 * (\n            (coef["Lsmaj"][ind] - coef["Lsmin"][ind])\n            * np.exp(1j * (coef["theta"][ind] + coef["g"][ind]) * rpd)\n        )\n',
     '        major, minor, theta, g = (\n            coef[key][ind] for key in ("Lsmaj", "Lsmin", "theta", "g")\n        )\n        turn = np.exp(1j * theta * rpd) / 2\n        lag = np.exp(1j * g * rpd)\n        ap = turn * (major + minor) / lag\n        am = turn * (major - minor) * lag\n'),
    ('_reconstruct.py', '        ind = [i for i, c in enumerate(coef["name"]) if c in constit]\n',
     '        ind = []\n        for i in range(len(coef["name"])):\n            if coef["name"][i] in constit:\n                ind.append(i)\n'),
    ('confidence.py', '    y = (x + ofs) % ang - ofs\n    return y\n',
     '    return np.mod(x + ofs, ang) - ofs\n'),
    ('confidence.py', '        varXu = np.real(G[0, 0] + G[1, 1] + 2 * G[0, 1]) / 2\n        varYu = np.real(H[0, 0] + H[1, 1] - 2 * H[0, 1]) / 2\n\n        if opt["twodim"]:\n            varXv = np.real(H[0, 0] + H[1, 1] + 2 * H[0, 1]) / 2\n            varYv = np.real(G[0, 0] + G[1, 1] - 2 * G[0, 1]) / 2\n',
     '        half_g = np.real(np.trace(G)) / 2\n        half_h = np.real(np.trace(H)) / 2\n        varXu = half_g + G[0, 1].real\n        varYu = half_h - H[0, 1].real\n\n        if opt["twodim"]:\n            varXv = half_h + H[0, 1].real\n            varYv = half_g - G[0, 1].real\n'),
    ('confidence.py', '                for varX, varY in zip(varXuHH, varYuHH, strict=False):\n                    if not opt.twodim:\n',
     '                for n in range(len(varXuHH)):\n                    varX, varY = varXuHH[n], varYuHH[n]\n                    if not opt.twodim:\n'),
    ('_time_conversion.py', '        if epoch == "python":\n            return t\n        elif epoch == "matlab":\n            return t - 366\n        else:\n',
     '        known = {"python": 0, "matlab": 366}\n        if isinstance(epoch, str) and epoch in known:\n            return t - known[epoch] if known[epoch] else t\n        else:\n'),
    ('astronomy.py', '    dargs = np.vstack(\n        (np.zeros(jd.shape), np.ones(jd.shape), 2.0e-4 * D, 3.0e-4 * D * D),\n    )\n\n    ader = np.dot(_coefs, dargs) / 360.0\n    dtau = 1.0 + ader[1, :] - ader[0, :]\n    ader = np.vstack((dtau, ader))\n',
     '    dargs = np.zeros((4, len(jd)))\n    dargs[1] = 1\n    dargs[2] = 2e-4 * D\n    dargs[3] = 3e-4 * D**2\n\n    rates = _coefs.dot(dargs) / 360.0\n    ader = np.insert(rates, 0, 1.0 + rates[1] - rates[0], axis=0)\n'),
    ('diagnostics.py', '    coef["diagn"]["name"] = coef["name"][indPE]\n    coef["diagn"]["PE"] = PE[indPE]\n    coef["diagn"]["SNR"] = SNR[indPE]\n',
     '    columns = zip(("name", "PE", "SNR"), (coef["name"], PE, SNR))\n    coef["diagn"].update((key, column[indPE]) for key, column in columns)\n'),
    ('_solve.py', '    if opt["ordercnstit"] == "PE":\n        # Default: order by decreasing energy.\n        if "PE" not in coef:\n            coef["PE"] = _PE(coef)\n        ind = coef["PE"].argsort()[::-1]\n\n    elif opt["ordercnstit"] == "frequency":\n        ind = coef["aux"]["frq"].argsort()\n\n    elif opt["ordercnstit"] == "SNR":\n        # If we are here, we should be guaranteed to have SNR already.\n        ind = coef["SNR"].argsort()[::-1]\n    else:\n        namelist = list(coef["name"])\n        ilist = [namelist.index(name) for name in opt["ordercnstit"]]\n        ind = np.array(ilist, dtype=int)\n',
     '    order = opt["ordercnstit"]\n    if order == "PE" and "PE" not in coef:\n        coef["PE"] = _PE(coef)\n    if isinstance(order, str) and order in ("PE", "SNR"):\n        ind = np.flip(np.argsort(coef[order]))\n    elif isinstance(order, str) and order == "frequency":\n        ind = np.argsort(coef["aux"]["frq"])\n    else:\n        places = {name: i for i, name in enumerate(coef["name"])}\n        ind = np.fromiter((places[name] for name in order), dtype=int)\n'),
    ('_solve.py', '            for k, ref in enumerate(cnstit.R):\n                E = ut_E(t, tref, ref.frq, ref.lind, *E_args)\n                # (nt,1)\n                Q = ut_E(t, tref, ref.I.frq, ref.I.lind, *E_args) / E\n                # (nt,ni)\n                Qsum_p = (Q * ref.I.Rp).sum(axis=1)\n                Etilp[:, k] = E[:, 0] * (1 + Qsum_p)\n                Qsum_m = (Q * np.conj(ref.I.Rm)).sum(axis=1)\n                Etilm[:, k] = E[:, 0] * (1 + Qsum_m)\n',
     '            for k, ref in enumerate(cnstit.R):\n                own = ut_E(t, tref, ref.frq, ref.lind, *E_args)[:, 0]\n                others = ut_E(t, tref, ref.I.frq, ref.I.lind, *E_args)\n                Etilp[:, k] = own + np.dot(others, ref.I.Rp)\n                Etilm[:, k] = own + np.dot(others, np.conj(ref.I.Rm))\n'),
    ('robustfit.py', '        if i == 0:\n            rms_resid = np.sqrt(rsumsq / n)\n            out.update({"ols_b": b, "ols_rms_resid": rms_resid})\n',
     '        if "ols_b" not in out:\n            out["ols_b"] = b\n            out["ols_rms_resid"] = (rsumsq / n) ** 0.5\n'),
    ('robustfit.py', '    for i in range(maxit):\n        wX =',
     '    i = -1\n    while i + 1 < maxit:\n        i += 1\n        wX ='),
    ('ellipse_params.py', '    ap = ((Xu + Yv) + 1j * (Xv - Yu)) / 2\n    am = ((Xu - Yv) + 1j * (Xv + Yu)) / 2\n',
     '    x = Xu + 1j * Xv\n    y = Yu + 1j * Yv\n    ap = (x - 1j * y) / 2\n    am = (x + 1j * y) / 2\n'),
]


B["e"] = [
    # 0 shared sub-expression
    ("diagnostics.py", """        PE = 100 * coef["A"] ** 2 / np.sum(coef["A"] ** 2)
    return PE
""", """        energy = np.square(coef["A"])
        PE = energy / energy.sum() * 100.0
    return PE
"""),
    # 1 helper
    ("diagnostics.py", """        SNR = (coef["Lsmaj"] ** 2 + coef["Lsmin"] ** 2) / (
            (coef["Lsmaj_ci"] / 1.96) ** 2 + (coef["Lsmin_ci"] / 1.96) ** 2
        )
""", """        signal = sum(coef[k] ** 2 for k in ("Lsmaj", "Lsmin"))
        noise = sum((coef[k + "_ci"] / 1.96) ** 2 for k in ("Lsmaj", "Lsmin"))
        SNR = signal / noise
"""),
    # 2 bounds of all bands at once
    ("periodogram.py", """    for k, (f0, f1) in enumerate(fbands):
        i0, i1 = np.searchsorted(freq, [f0, f1])
        i1 = min(nfreq, i1 + 1)
        inband = slice(i0, i1)
        avP[k] = P[inband].mean()
""", """    starts = np.searchsorted(freq, fbands[:, 0])
    stops = np.minimum(np.searchsorted(freq, fbands[:, 1]) + 1, nfreq)
    for k in range(nbands):
        avP[k] = P[starts[k] : stops[k]].mean()
"""),
    # 3 inverted condition, append in both arms
    ("periodogram.py", """        inband = slice(i0, i1)
        if i1 - i0 > max_per_band:
            band = np.linspace(freq[i0], freq[i1 - 1], max_per_band)
        else:
            band = freq[inband]
        freqs.append(band)
""", """        nband = i1 - i0
        if nband <= max_per_band:
            freqs.append(freq[i0:i1])
        else:
            freqs.append(np.linspace(freq[i0], freq[i1 - 1], max_per_band))
"""),
    # 4 two-column unpacking
    ("ellipse_params.py", """        Yu = Xu[:, 1]
        if ndim == 4:
            Xv, Yv = Xu[:, 2:].T
        Xu = Xu[:, 0]
""", """        columns = [Xu[:, k] for k in range(ndim)]
        if ndim == 4:
            Xu, Yu, Xv, Yv = columns
        else:
            Xu, Yu = columns
"""),
    # 5 helper for a phase
    ("ellipse_params.py", """        g = -np.angle(ap, deg=True) % 360
        return Lsmaj, Lsmin, theta, g
""", """        phase = np.rad2deg(np.arctan2(ap.imag, ap.real))
        return Lsmaj, Lsmin, theta, np.mod(-phase, 360)
"""),
    # 6 one reference constituent in a function
    ("constituent_selection.py", """                refstruct.I.Rp.append(
                    infer.amp_ratios[ilk]
                    * np.exp(1j * infer.phase_offsets[ilk] * np.pi / 180),
                )
                if len(infer.amp_ratios) > nI:
                    refstruct.I.Rm.append(
                        infer.amp_ratios[ilk + nI]
                        * np.exp(-1j * infer.phase_offsets[ilk + nI] * np.pi / 180),
                    )
                else:
                    refstruct.I.Rm.append(np.conj(refstruct.I.Rp[lk]))
""", """                rp = _ratio(infer, ilk)
                if len(infer.amp_ratios) > nI:
                    rm = np.conj(_ratio(infer, ilk + nI))
                else:
                    rm = np.conj(rp)
                refstruct.I.Rp.append(rp)
                refstruct.I.Rm.append(rm)
"""),
    ("constituent_selection.py", "def ut_cnstitsel(", """def _ratio(infer, k):
    return infer.amp_ratios[k] * np.exp(1j * np.deg2rad(infer.phase_offsets[k]))


def ut_cnstitsel("""),
    # 8 mask of kept constituents
    ("constituent_selection.py", """        RI_index_set = {constit_index_dict[n] for n in RIset}
        cnstit.NR.lind = [ind for ind in cnstit.NR.lind if ind not in RI_index_set]
""", """        kept = []
        for ind in cnstit.NR.lind:
            if const.name[ind] in RIset:
                continue
            kept.append(ind)
        cnstit.NR.lind = kept
"""),
    # 9 Euler
    ("harmonics.py", """    E = F * np.exp(1j * (U + V) * 2 * np.pi)
""", """    angle = 2 * np.pi * (U + V)
    E = F * np.cos(angle) + 1j * F * np.sin(angle)
"""),
    # 10 negated condition
    ("harmonics.py", """    if ngflgs[1] and ngflgs[3]:
        F = np.ones((nt, nc))
        U = np.zeros((nt, nc))
        V = np.dot(24 * (t - tref)[:, None], frq[:, None].T)
    else:
        F, U, V = FUV(t, tref, lind, lat, ngflgs)
""", """    if not ngflgs[1] or not ngflgs[3]:
        F, U, V = FUV(t, tref, lind, lat, ngflgs)
    else:
        V = np.outer(24 * (t - tref), frq)
        F, U = np.ones_like(V), np.zeros_like(V)
"""),
    # 11 multiplication in another place
    ("harmonics.py", """        rr = sat.amprat.copy()

        j = sat.ilatfac == 1
        rr[j] *= 0.36309 * (1.0 - 5.0 * slat**2) / slat

        j = sat.ilatfac == 2
        rr[j] *= 2.59808 * slat
""", """        latfac = np.ones(sat.amprat.shape)
        latfac[sat.ilatfac == 1] = 0.36309 * (1.0 - 5.0 * slat**2) / slat
        latfac[sat.ilatfac == 2] = 2.59808 * slat
        rr = sat.amprat * latfac
"""),
    # 12 slices computed by a helper
    ("_solve.py", """        for k, ref in enumerate(cnstit.R):
            apI[ind : ind + ref.nI] = ref.I.Rp * ap[nNR + k]
            amI[ind : ind + ref.nI] = ref.I.Rm * am[nNR + k]
            ind += ref.nI
""", """        for a_plus, a_minus, ref in zip(ap[nNR:], am[nNR:], cnstit.R):
            stop = ind + ref.nI
            apI[ind:stop] = a_plus * ref.I.Rp
            amI[ind:stop] = a_minus * ref.I.Rm
            ind = stop
"""),
    # 13 offsets named
    ("_solve.py", """    ap = np.hstack((m[:nNR], m[2 * nNR : 2 * nNR + nR]))
    i0 = 2 * nNR + nR
    am = np.hstack((m[nNR : 2 * nNR], m[i0 : i0 + nR]))
""", """    nonref, ref_p, ref_m, _ = np.split(m, [2 * nNR, 2 * nNR + nR, 2 * (nNR + nR)])
    ap = np.hstack((nonref[:nNR], ref_p))
    am = np.hstack((nonref[nNR:], ref_m))
"""),
    # 14 record length of either time base
    ("_solve.py", """        opt["equi"] = True  # based on times; u/v can still have nans ("gappy")
        lor = np.ptp(tin)
        ntgood = len(tin)
        elor = lor * ntgood / (ntgood - 1)
        tref = 0.5 * (tin[0] + tin[-1])
    else:
        opt["equi"] = False
        lor = np.ptp(t)
        nt = len(t)
        elor = lor * nt / (nt - 1)
        tref = 0.5 * (t[0] + t[-1])
""", """        opt["equi"] = True  # based on times; u/v can still have nans ("gappy")
        tbase = tin
    else:
        opt["equi"] = False
        tbase = t
    nbase = tbase.size
    lor = tbase.max() - tbase.min()
    elor = lor * nbase / (nbase - 1)
    tref = (tbase[0] + tbase[-1]) / 2
"""),
    # 15 trend column first in a variable
    ("_solve.py", """    # add the mean
    B = np.hstack((B, np.ones((nt, 1))))

    if not opt["notrend"]:
        B = np.hstack((B, ((t - tref) / lor)[:, np.newaxis]))
""", """    # add the mean and the trend
    columns = [B, np.ones((nt, 1))]
    if not opt["notrend"]:
        columns.append(((t - tref) / lor)[:, None])
    B = np.concatenate(columns, axis=1)
"""),
    # 16 loop over the components
    ("_reconstruct.py", """    if twodim:
        v = u.copy()
        u[goodmask] = np.real(fit) + coef["umean"]
        v[goodmask] = np.imag(fit) + coef["vmean"]
        if trend:
            u[goodmask] += coef["uslope"] * (t - coef["aux"]["reftime"])
            v[goodmask] += coef["vslope"] * (t - coef["aux"]["reftime"])

    else:
        u[goodmask] = np.real(fit) + coef["mean"]
        if trend:
            u[goodmask] += coef["slope"] * (t - coef["aux"]["reftime"])
        v = None
""", """    def component(values, prefix):
        out = u.copy()
        values = values + coef[prefix + "mean"]
        if trend:
            values = values + coef[prefix + "slope"] * (t - coef["aux"]["reftime"])
        out[goodmask] = values
        return out

    if twodim:
        u, v = component(fit.real, "u"), component(fit.imag, "v")
    else:
        u, v = component(fit.real, ""), None
"""),
    # 17 flags by name
    ("_reconstruct.py", """    ngflgs = [
        coef["aux"]["opt"]["nodsatlint"],
        coef["aux"]["opt"]["nodsatnone"],
        coef["aux"]["opt"]["gwchlint"],
        coef["aux"]["opt"]["gwchnone"],
    ]
""", """    flags = ("nodsatlint", "nodsatnone", "gwchlint", "gwchnone")
    ngflgs = [coef["aux"]["opt"][name] for name in flags]
"""),
    # 18 band of each constituent
    ("confidence.py", """        Puu[inside] = ba.Puu[i]
        if opt.twodim:
            Pvv[inside] = ba.Pvv[i]
            Puv[inside] = ba.Puv[i]
""", """        for dest, src in ((Puu, ba.Puu), (Pvv, ba.get("Pvv")), (Puv, ba.get("Puv"))):
            if dest is not None:
                dest[inside] = src[i]
"""),
    # 19 covariance by einsum-free products
    ("confidence.py", """    varMSM = np.real(np.dot(xraw.conj(), _Wx) - np.dot(xmod.conj(), _Wx)) / (nt - nm)
""", """    dof = nt - nm
    misfit = np.vdot(xraw - xmod, _Wx)
    varMSM = misfit.real / dof
"""),
    # 20 shape of the store
    ("confidence.py", """    if opt["twodim"]:
        coef.Lsmaj_ci = coef.g_ci.copy()
        coef.Lsmin_ci = coef.g_ci.copy()
        coef.theta_ci = coef.g_ci.copy()
        varcov_mCw = np.nan * np.ones((nc, 4, 4))
    else:
        coef.A_ci = coef.g_ci.copy()
        varcov_mCw = np.nan * np.ones((nc, 2, 2))
""", """    npar = 4 if opt["twodim"] else 2
    for name in ("Lsmaj", "Lsmin", "theta") if opt["twodim"] else ("A",):
        coef[name + "_ci"] = np.full_like(coef.g_ci, np.nan)
    varcov_mCw = np.full((nc, npar, npar), np.nan)
"""),
    # 21 variances before the branch
    ("confidence.py", """                if not opt["white"]:
                    den = varXu + varYu
                    varXu = Puu[c] * varXu / den
                    varYu = Puu[c] * varYu / den
                    varcov_mCc[c, :, :] = np.diag(np.array([varXu, varYu]))
                sig1, sig2 = ut_linci(Xu[c], Yu[c], np.sqrt(varXu), np.sqrt(varYu))
""", """                if not opt["white"]:
                    scale = Puu[c] / (varXu + varYu)
                    varXu, varYu = scale * varXu, scale * varYu
                    varcov_mCc[c] = np.diag([varXu, varYu])
                sig1, sig2 = ut_linci(Xu[c], Yu[c], varXu**0.5, varYu**0.5)
"""),
]


def run(name, checks, tests):
    d = tempfile.mkdtemp(prefix="refac")
    try:
        shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns(".git"))
        for f, old, new in B[name]:
            p = f"{d}/repo/utide/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{name}: {f}: {old[:60]!r} occurs {s.count(old)} times")
                return
            open(p, "w").write(s.replace(old, new))
        if tests:
            q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider", "tests"], cwd=d + "/repo", env=dict(os.environ, PYTHONPATH=d + "/repo"), capture_output=True, text=True)
            print(name, "tests:", q.stdout.strip().splitlines()[-1] if q.stdout.strip() else q.stderr[-300:])
        world.load.__defaults__ = (d + "/repo",) + world.load.__defaults__[1:]
        os.makedirs(d + "/out/evidence")
        shutil.copy(V + "/known-findings.json", d + "/out")
        harness.VERIF = d + "/out"
        for c in checks:
            out = d + f"/{c}.out"
            old = os.dup(1)
            fd = os.open(out, os.O_WRONLY | os.O_CREAT)
            sys.stdout.flush()
            os.dup2(fd, 1)
            try:
                r = harness.main(c, importlib.import_module("sa.rules." + c.lower()), "quick", 1)
            except BaseException as e:
                r = repr(e)
            sys.stdout.flush()
            os.dup2(old, 1)
            os.close(fd)
            os.close(old)
            s = open(out).read().splitlines()
            ev = json.load(open(d + f"/out/evidence/{c}.json"))
            print(name, c, "rc", r, *[x[:160] for x in s if "configurations" in x], flush=True)
            for x in s:
                if r and "configurations" not in x:
                    print("    ", x[:300], flush=True)
            shutil.copytree(d + "/out/evidence", "/tmp/mutev", dirs_exist_ok=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.dont_write_bytecode = True
    sys.path.insert(0, V)
    from sa import harness, world

    a = sys.argv[1:]
    checks = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    if "-c" in a:
        i = a.index("-c")
        checks = a[i + 1].split(",")
        del a[i : i + 2]
    tests = "-n" not in a
    for name in [x for x in a if x != "-n"] or B:
        run(name, checks, tests)
