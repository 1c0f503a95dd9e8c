"""Independent float64 statement of the Diffstar / DiffstarPop laws (the oracle).

Nothing here calls diffstar or diffmah: all formulas and constants are written out from
the documentation (docstrings, papers, parameter-bound tables), so that a change to a
formula or constant of the code shows up as a difference.
"""

import numpy as np

SFR_MIN = 1e-14
T_BIRTH_MIN = 0.001
LGT0_DEFAULT = np.log10(13.8)
FB_DEFAULT = 0.156
MAH_K = 3.5
INDX_K = 9.0

MS_NAMES = ("lgmcrit", "lgy_at_mcrit", "indx_lo", "indx_hi")
Q_NAMES = ("lg_qt", "qlglgdt", "lg_drop", "lg_rejuv")
NAMES = MS_NAMES + Q_NAMES
BOUNDS = dict(
    lgmcrit=(9.0, 13.5),
    lgy_at_mcrit=(-12.0, -8.0),
    indx_lo=(0.0, 5.0),
    indx_hi=(-5.0, 0.0),
    lg_qt=(0.1, 2.0),
    qlglgdt=(-3.0, -0.01),
    lg_drop=(-3.0, 0.0),
    lg_rejuv=(-3.0, 0.0),
)
MAH_NAMES = ("logm0", "logtc", "early_index", "late_index", "t_peak")
DEFAULT_MAH = (12.0, 0.05, 2.6137643, 0.12692805, 14.0)
DEFAULT_SFH = (12.0, -10.0, 1.0, -1.0, 1.0, -0.50725, -1.01773, -0.212307)


def f64(x):
    return np.asarray(x, dtype=np.float64)


def expit(z):
    z = f64(z)
    with np.errstate(over="ignore"):
        return np.where(z >= 0, 1.0 / (1.0 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1.0 + np.exp(-np.abs(z))))


def sigmoid(x, x0, k, ylo, yhi):
    return f64(ylo) + (f64(yhi) - f64(ylo)) * expit(f64(k) * (f64(x) - f64(x0)))


def inv_sigmoid(y, x0, k, ylo, yhi):
    y, ylo, yhi = f64(y), f64(ylo), f64(yhi)
    return f64(x0) - np.log((yhi - y) / (y - ylo)) / f64(k)


# ----------------------------------------------------------------- halo history
def log_mah(mah, t, lgt0):
    """mah: sequence of 5 (broadcastable against t)."""
    logm0, logtc, early, late, tpk = [f64(x) for x in mah]
    t = np.minimum(f64(t), tpk)
    lgt = np.log10(t)
    idx = sigmoid(lgt, logtc, MAH_K, early, late)
    return idx * (lgt - f64(lgt0)) + logm0


def dmhdt(mah, t, lgt0):
    """Msun/yr; zero strictly after the peak."""
    logm0, logtc, early, late, tpk = [f64(x) for x in mah]
    t = f64(t)
    lgt = np.log10(t)
    s = expit(MAH_K * (lgt - logtc))
    idx = early + (late - early) * s
    didx = (late - early) * MAH_K * s * (1 - s)
    lgm = idx * (lgt - f64(lgt0)) + logm0
    dlgm_dlgt = didx * (lgt - f64(lgt0)) + idx
    rate = 10.0**lgm * dlgm_dlgt / t / 1e9
    return np.where(t > tpk, 0.0, rate)


# ----------------------------------------------------------------- SFH
def tw_cdf(z):
    z = f64(z)
    c = np.clip(z, -3.0, 3.0)
    v = -5 * c**7 / 69984 + 7 * c**5 / 2592 - 35 * c**3 / 864 + 35 * c / 96 + 0.5
    return np.where(z <= -3, 0.0, np.where(z >= 3, 1.0, v))


def lg_qfunc(lgt, lg_qt, qlglgdt, lg_drop, lg_rejuv):
    """log10 of the quenching factor; event duration 10**qlglgdt dex."""
    dur = 10.0 ** f64(qlglgdt)
    return lg_qfunc_dt(lgt, lg_qt, dur, lg_drop, lg_rejuv)


def lg_qfunc_dt(lgt, lg_qt, lg_q_dt, lg_drop, lg_rejuv):
    h = f64(lg_q_dt) / 12.0
    y = (f64(lgt) - f64(lg_qt)) / h
    fall = f64(lg_drop) * tw_cdf(y + 3)
    rise = f64(lg_drop) + (f64(lg_rejuv) - f64(lg_drop)) * tw_cdf(y - 3)
    return np.where(y < 0, fall, rise)


def lg_efficiency(lgm, lgmcrit, lgy, lo, hi):
    slope = sigmoid(lgm, lgmcrit, INDX_K, lo, hi)
    return f64(lgy) + slope * (f64(lgm) - f64(lgmcrit))


def lg_sfh_ms(ms, mah, t, lgt0, fb):
    lgm = log_mah(mah, t, lgt0)
    return np.log10(f64(fb)) + lgm + lg_efficiency(lgm, *ms)


def sfh(params, mah, t, lgt0, fb):
    """params: 8 values (broadcastable against t)."""
    t = f64(t)
    lg = lg_sfh_ms(params[:4], mah, t, lgt0, fb) + lg_qfunc(np.log10(t), *params[4:])
    return np.maximum(10.0**lg, SFR_MIN)


def sfh_band(params, mah, t, lgt0, fb, nulp=3.0):
    """(value, lo, hi): the law with log10(t) allowed to move by a few float32 ulps, the
    conditioning of a narrow quenching event in single precision."""
    t = f64(t)
    lgt = np.log10(t)
    d = nulp * np.maximum(np.abs(lgt), np.maximum(np.abs(f64(params[4])), 0.25)) * 1.2e-7
    base = lg_sfh_ms(params[:4], mah, t, lgt0, fb)
    a = [lg_qfunc(lgt + s * d, *params[4:]) for s in (0.0, -1.0, 1.0, -0.5, 0.5)]
    # the bottom of the event may lie inside the band
    inside = (np.abs(lgt - f64(params[4])) <= d)
    bot = np.where(inside, np.broadcast_to(f64(params[6]), a[0].shape), a[0])
    allv = [np.maximum(10.0 ** (base + x), SFR_MIN) for x in a + [bot]]
    return allv[0], np.minimum.reduce(allv), np.maximum.reduce(allv)


def cumtrapz(x, y):
    x, y = f64(x), f64(y)
    out = np.zeros(np.broadcast_shapes(x.shape, y.shape))
    for i in range(1, x.shape[-1]):
        out[..., i] = out[..., i - 1] + (x[..., i] - x[..., i - 1]) * (y[..., i] + y[..., i - 1]) / 2
    return out


def mstar_formed(t, sfr):
    t, sfr = f64(t), f64(sfr)
    tt = np.concatenate([[T_BIRTH_MIN], t])
    pad = np.full(sfr.shape[:-1] + (1,), SFR_MIN)
    yy = np.concatenate([pad, sfr], axis=-1)
    return cumtrapz(tt, yy)[..., 1:] * 1e9


def dt_array(t):
    t = f64(t)
    n = t.shape[-1]
    mids = 0.5 * (t[..., 1:] + t[..., :-1])
    out = np.zeros(t.shape)
    out[..., 1:-1] = mids[..., 1:] - mids[..., :-1]
    out[..., 0] = mids[..., 0] - (t[..., 0] - (t[..., 1] - t[..., 0]) / 2)
    dt_prev = out[..., n - 2]
    out[..., n - 1] = t[..., -1] + dt_prev / 2 - mids[..., -1]
    return out


def interp(x, xp, fp):
    """np.interp semantics in explicit form (flat extrapolation)."""
    return np.interp(f64(x), f64(xp), f64(fp))


def fstar(t, m, delay):
    t, m = f64(t), f64(m)
    d = (m - interp(t - delay, t, m)) / delay / 1e9
    return np.maximum(d, 0.0)


# ----------------------------------------------------------------- transforms
def bounded(u):
    """8 unbounded -> 8 bounded (columns)."""
    out = []
    for n, x in zip(NAMES[:7], u[:7]):
        lo, hi = BOUNDS[n]
        out.append(sigmoid(x, 0.5 * (lo + hi), 4.0 / (hi - lo), lo, hi))
    out.append(sigmoid(u[7], -1.5, 4.0 / 3.0, out[6], 0.0))
    return out


def unbounded(p):
    out = []
    for n, x in zip(NAMES[:7], p[:7]):
        lo, hi = BOUNDS[n]
        out.append(inv_sigmoid(x, 0.5 * (lo + hi), 4.0 / (hi - lo), lo, hi))
    out.append(inv_sigmoid(p[7], -1.5, 4.0 / 3.0, p[6], 0.0))
    return out


# ----------------------------------------------------------------- population model
def _pop_bounds():
    b = {}
    for q in ("mean_ulgm_{}_xtp", "mean_ulgm_{}_ytp", "mean_ulgy_{}_xtp"):
        for s in ("mseq", "qseq"):
            b[q.format(s)] = (11.0, 14.0)
    for s in ("mseq", "qseq"):
        b[f"mean_ulgy_{s}_ytp"] = (-13.0, -8.0)
        for v in ("ulgm", "ulgy"):
            b[f"mean_{v}_{s}_lo"] = (-1.0, 5.0)
            b[f"mean_{v}_{s}_hi"] = (-5.0, 1.0)
        b[f"mean_ul_{s}_int"] = (-3.0, 5.0)
        b[f"mean_uh_{s}_int"] = (-5.0, 3.0)
        for v in ("ul", "uh"):
            b[f"mean_{v}_{s}_slp"] = (-20.0, 20.0)
        for v, hi in (("ulgm", 1.0), ("ulgy", 1.0), ("ul", 3.0), ("uh", 3.0)):
            b[f"std_{v}_{s}_int"] = (0.01, hi)
            b[f"std_{v}_{s}_slp"] = (-1.0, 1.0)
    b["mean_uqt_xtp"] = (11.0, 14.0)
    b["mean_uqt_ytp"] = (0.0, 2.0)
    b["mean_uqt_lo"] = b["mean_uqt_hi"] = (-1.0, 0.0)
    b["mean_uqs_int"] = (-5.0, 2.0)
    b["mean_udrop_int"] = (-3.0, 2.0)
    b["mean_urej_int"] = (-10.0, 2.0)
    for v, hi in (("uqt", 0.5), ("uqs", 1.0), ("udrop", 2.0), ("urej", 2.0)):
        b[f"std_{v}_int"] = (0.01, hi)
        b[f"std_{v}_slp"] = (-1.0, 1.0)
        if v != "uqt":
            b[f"mean_{v}_slp"] = (-20.0, 20.0)
    for s in ("cen", "sat"):
        p = f"frac_quench_{s}_"
        b[p + "x0_tpeak"] = (1.0, 14.0)
        b[p + "k_tpeak"] = (0.01, 10.0)
        b[p + "x0_ylotpeak"] = b[p + "x0_yhitpeak"] = (11.0, 14.0)
        b[p + "ylo_ylotpeak"] = b[p + "ylo_yhitpeak"] = b[p + "yhi"] = (0.0, 1.0)
        b[p + "k"] = (0.01, 5.0)
    b["delta_uqt_x0"] = (1.0, 14.0)
    b["delta_uqt_k"] = (0.01, 5.0)
    b["delta_uqt_ylo"] = b["delta_uqt_yhi"] = (-1.0, 1.0)
    b["delta_uqt_slope"] = (-0.1, 0.1)
    b["qp_lgmh_crit"] = b["td_lgmhc"] = (11.0, 15.0)
    b["td_mlo"] = b["td_mhi"] = (-5.0, 10.0)
    b["qphi_lgmu_crit"] = (-4.0, -0.1)
    for n in ("lgmu_lo_mh_lo", "lgmu_hi_mh_lo", "lgmu_lo_mh_hi", "lgmu_hi_mh_hi"):
        b[n] = (0.0, 1.0)
    return b


POP_BOUNDS = _pop_bounds()
SAT_NAMES = (
    "qp_lgmh_crit", "td_lgmhc", "td_mlo", "td_mhi", "qphi_lgmu_crit",
    "lgmu_lo_mh_lo", "lgmu_hi_mh_lo", "lgmu_lo_mh_hi", "lgmu_hi_mh_hi",
)
POP_K = 0.1
LINE_LIMITS = dict(
    mean_ul=(-3.0, 5.0), mean_uh=(-5.0, 3.0), mean_uqs=(-5.0, 2.0), mean_udrop=(-3.0, 2.0), mean_urej=(-10.0, 2.0),
    std_ulgm=(0.01, 1.0), std_ulgy=(0.01, 1.0), std_ul=(0.01, 3.0), std_uh=(0.01, 3.0),
    std_uqt=(0.01, 0.5), std_uqs=(0.01, 1.0), std_udrop=(0.01, 2.0), std_urej=(0.01, 2.0),
)


def pop_bounded(name, u):
    lo, hi = POP_BOUNDS[name]
    return sigmoid(u, 0.5 * (lo + hi), POP_K, lo, hi)


def pop_unbounded(name, p):
    lo, hi = POP_BOUNDS[name]
    return inv_sigmoid(p, 0.5 * (lo + hi), POP_K, lo, hi)


def rolling_line(x, xtp, ytp, lo, hi):
    return f64(ytp) + sigmoid(x, xtp, 3.0, lo, hi) * (f64(x) - f64(xtp))


def clipped_line(x, y0, m, ylo, yhi, x0=12.5):
    """Smoothly clipped straight line, written in y (well defined at zero slope)."""
    x, y0, m, ylo, yhi = map(f64, (x, y0, m, ylo, yhi))
    y = y0 + m * (x - x0)
    blo = ylo + (y0 - ylo) / 100.0
    bhi = yhi - (yhi - y0) / 100.0
    k = 2000.0 / (y0 - ylo)
    below = blo + (y - blo) * expit(k * (y - blo))
    return below + (bhi - below) * expit(k * (y - bhi))


def mean_mseq(p, lgm):
    g = lambda v: rolling_line(lgm, p[f"mean_{v}_mseq_xtp"], p[f"mean_{v}_mseq_ytp"], p[f"mean_{v}_mseq_lo"], p[f"mean_{v}_mseq_hi"])
    ln = lambda v: clipped_line(lgm, p[f"mean_{v}_mseq_int"], p[f"mean_{v}_mseq_slp"], *LINE_LIMITS[f"mean_{v}"])
    return [g("ulgm"), g("ulgy"), ln("ul"), ln("uh")]


def mean_qseq(p, lgm, tpk):
    g = lambda v, s="_qseq": rolling_line(lgm, p[f"mean_{v}{s}_xtp"], p[f"mean_{v}{s}_ytp"], p[f"mean_{v}{s}_lo"], p[f"mean_{v}{s}_hi"])
    ln = lambda v, s="": clipped_line(lgm, p[f"mean_{v}{s}_int"], p[f"mean_{v}{s}_slp"], *LINE_LIMITS[f"mean_{v}"])
    shift = sigmoid(tpk, p["delta_uqt_x0"], p["delta_uqt_k"], p["delta_uqt_ylo"], p["delta_uqt_yhi"])
    shift = shift + (f64(lgm) - 12.5) * p["delta_uqt_slope"]
    return [g("ulgm"), g("ulgy"), ln("ul", "_qseq"), ln("uh", "_qseq"), g("uqt", "") + shift, ln("uqs"), ln("udrop"), ln("urej")]


def stds(p, lgm):
    """(mseq ms, qseq ms, qseq q) scatters."""
    ln = lambda v, s: clipped_line(lgm, p[f"std_{v}{s}_int"], p[f"std_{v}{s}_slp"], *LINE_LIMITS[f"std_{v}"])
    ms = ("ulgm", "ulgy", "ul", "uh")
    q = ("uqt", "uqs", "udrop", "urej")
    return [ln(v, "_mseq") for v in ms], [ln(v, "_qseq") for v in ms], [ln(v, "") for v in q]


def frac_q(p, lgm, tpk, s):
    q = f"frac_quench_{s}_"
    x0 = sigmoid(tpk, p[q + "x0_tpeak"], p[q + "k_tpeak"], p[q + "x0_ylotpeak"], p[q + "x0_yhitpeak"])
    ylo = sigmoid(tpk, p[q + "x0_tpeak"], p[q + "k_tpeak"], p[q + "ylo_ylotpeak"], p[q + "ylo_yhitpeak"])
    return sigmoid(lgm, x0, p[q + "k"], ylo, p[q + "yhi"])


def sat_excess(p, lgmu, lgmhost, tinf):
    lo = sigmoid(lgmu, p["qphi_lgmu_crit"], 2.0, p["lgmu_lo_mh_lo"], p["lgmu_hi_mh_lo"])
    hi = sigmoid(lgmu, p["qphi_lgmu_crit"], 2.0, p["lgmu_lo_mh_hi"], p["lgmu_hi_mh_hi"])
    qhi = sigmoid(lgmhost, p["qp_lgmh_crit"], 5.0, lo, hi)
    td = sigmoid(lgmhost, p["td_lgmhc"], 5.0, p["td_mlo"], p["td_mhi"])
    return qhi * expit(5.0 * (f64(tinf) - td))


def qprob_sat(p, lgmu, lgmhost, tinf, base):
    return f64(base) + sat_excess(p, lgmu, lgmhost, tinf) * (1.0 - f64(base))


# ----------------------------------------------------------------- soft histograms
def tw_bin_weight(x, sig, lo, hi):
    """probability that a triweight of width sig centred at x lies in (lo, hi)."""
    x, sig = f64(x), f64(sig)
    return tw_cdf((x - lo) / sig) - tw_cdf((x - hi) / sig)


def tw_hist(xs, sigs, los, his, weights=None):
    """xs, sigs: (n, d); los, his: (b, d) -> (b,)."""
    xs, sigs, los, his = f64(xs), f64(sigs), f64(los), f64(his)
    w = np.ones(xs.shape[0]) if weights is None else f64(weights)
    out = np.zeros(los.shape[0])
    for b in range(los.shape[0]):
        out[b] = np.sum(w * np.prod(tw_bin_weight(xs, sigs, los[b], his[b]), axis=1))
    return out
