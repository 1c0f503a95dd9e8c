"""C19: fit targets, weights and loss follow the documented recipe."""

import itertools

import numpy as np

from . import ref
from .core import Violation, f32

LEVEL = "exploration"
RULE = (
    "Histories from an alphabet of shapes (empty, constant, bursts with gaps, quenched, tiny, huge, model galaxies) x time tables x halo "
    "letters x the lattice of fit options: targets, starting point and averaged-rate peak recomputed in float64. Weights: all words over "
    "mass letters and averaged-rate letters per snapshot x option letters, against the documented rule. Loss: lattice of galaxy parameters x "
    "fit data x options against a float64 loss, including the generating galaxy. Non-trivial = at least one snapshot carries weight."
)
ASSUMPTIONS = ["no snapshot sits within float32 rounding of a cut", "stellar mass and averaged rate carry float32 rounding of the mass difference"]

N = 24


def tables():
    a = f32(np.linspace(0.1, 13.8, N))
    b = f32(np.concatenate([np.geomspace(0.02, 2.0, N // 2), np.linspace(2.5, 13.0, N - N // 2)]))
    c = f32(np.linspace(2.0, 9.0, N))
    return {"lin": a, "log": b, "late": c}


MAHS = {
    "mw": (12.0, 0.05, 2.6137643, 0.12692805, 14.0),
    "dwarf": (10.4, 0.3, 3.5, 0.6, 6.0),
    "cluster": (14.9, -0.1, 2.4, 0.3, 20.0),
    "group": (13.1, 0.4, 4.0, 1.0, 9.0),
}


def histories(t):
    x = np.arange(len(t))
    out = {
        "zero": np.zeros(len(t)),
        "const": np.full(len(t), 3.0),
        "rising": 0.02 * t**2,
        "early": np.where(t < 4, 30.0, 0.0),
        "late": np.where(t > 7, 8.0, 0.0),
        "gap": np.where((t > 4) & (t < 8), 0.0, 5.0),
        "burst": np.where(x == len(t) // 3, 900.0, 0.01),
        "saw": 1.0 + 4.0 * (x % 3),
        "tiny": np.full(len(t), 1e-9),
        "huge": 5e3 * np.exp(-t / 3),
        "first": np.where(x == 0, 50.0, 0.0),
        "last": np.where(x == len(t) - 1, 50.0, 1e-6),
    }
    return {k: f32(v) for k, v in out.items()}


GALP = {
    "ms": (12.0, -10.0, 1.0, -1.0, 1.9, -0.5, -1.0, -0.1),
    "early_q": (11.6, -9.8, 2.0, -0.5, 0.5, -0.3, -2.5, -1.0),
    "rejuv": (12.5, -9.5, 0.5, -2.0, 0.6, -0.5, -1.8, -0.3),
    "late_q": (12.2, -10.2, 3.0, -1.0, 1.05, -0.2, -2.0, -0.6),
    "low": (13.0, -11.0, 4.5, -3.0, 1.2, -0.02, -0.5, -0.2),
}


def recipe(t, sfh, opt):
    """float64 targets."""
    out = dict(sfh=np.maximum(sfh, ref.SFR_MIN))
    m = ref.mstar_formed(t, sfh)
    fs = ref.fstar(t, m, opt["fstar_tdelay"])
    # rounding of the mass difference (float32)
    noise = 4e-7 * m / opt["fstar_tdelay"] / 1e9 + np.abs(np.gradient(m, t)) * 4e-7 * (t + 1) / opt["fstar_tdelay"] / 1e9

    def floor(f):
        s = np.maximum(f / m, opt["ssfrh_floor"]) * m
        return np.log10(np.maximum(s, s.max() / 1000.0))

    out.update(m=m, logm=np.log10(m), lf=floor(fs), lf_lo=floor(np.maximum(fs - noise, 0)) - 1e-5, lf_hi=floor(fs + noise) + 1e-5)
    return out


def weights(t, logm, lf, opt):
    """documented rule; the number of standard weights: inf = negligible."""
    fin = logm[-1]
    cut = min(fin - 0.5, opt["mass_fit_min"])
    off = (logm <= fin - opt["dlogm_cut"]) | (logm <= cut) | (t < opt["t_fit_min"])
    w = np.where(off, np.inf, 1.0)
    w[fin - logm < 0.1] = 0.5
    wf = np.where(off, np.inf, 1.0)
    wf[lf.max() - lf < 0.1] = 0.5
    wf[t < opt["fstar_tdelay"] + 0.01] = np.inf
    return w, wf


def check_weights(ctx, what, got, ex, c):
    got = np.asarray(got, dtype=float)
    if got.shape != ex.shape:
        raise Violation(f"{what}: shape {got.shape}", c)
    g = np.where(got >= 1e6, np.inf, got)
    if not np.array_equal(g, ex):
        i = int(np.argwhere(g != ex)[0][0])
        raise Violation(f"{what}: snapshot {i} has weight {got[i]}, expected {ex[i]}", dict(c, snapshot=i, got=got))


DEF = dict(dlogm_cut=3.5, t_fit_min=1.0, mass_fit_min=7.0, fstar_tdelay=1.0, ssfrh_floor=1e-12)
OPT = dict(dlogm_cut=[0.7, 1.5, 20.0], t_fit_min=[0.0, 3.3, 7.7], mass_fit_min=[-50.0, 9.3, 10.9, 30.0], fstar_tdelay=[0.25, 2.1, 4.3], ssfrh_floor=[1e-13, 1e-11, 1e-9])


def options(thorough):
    out = [dict(DEF)]
    for k, vs in OPT.items():
        out += [dict(DEF, **{k: v}) for v in vs]
    for (a, va), (b, vb) in itertools.combinations(OPT.items(), 2):
        for x, y in itertools.product(va, vb):
            if thorough or (va.index(x) + vb.index(y)) % 3 == 0:
                out.append(dict(DEF, **{a: x, b: y}))
    return out


def _mah(v):
    from diffmah import DEFAULT_MAH_PARAMS

    return DEFAULT_MAH_PARAMS._make([np.float32(x) for x in v])


def start_point(logmp0):
    from diffstar.defaults import DEFAULT_MS_PARAMS, DEFAULT_Q_PARAMS

    p = [float(x) for x in DEFAULT_MS_PARAMS] + [float(x) for x in DEFAULT_Q_PARAMS]
    p[0] = np.clip(0.3 * (logmp0 - 11.0) + 11.4, 11.0, 13.0)
    p[1] = np.clip(0.2 * (logmp0 - 11.0) - 9.7, -10.5, -9.2)
    p[2] = np.clip(0.7 * (logmp0 - 11.0) - 0.3, 0.2, 3.0)
    return np.array(p)


def get(t, sfh, mah, opt, **kw):
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    return dfh.get_loss_data_default(t, sfh, _mah(mah), **opt, **kw)


def check_targets(ctx, t, sfh, mah, opt, c, lgt0=1.14, fb=0.156):
    t0, s0 = t.copy(), sfh.copy()
    (u, err), ld = get(t, sfh, mah, opt, lgt0=lgt0, fb=fb)
    if not (np.array_equal(t, t0) and np.array_equal(sfh, s0)):
        raise Violation("inputs were modified", c)
    if len(ld) != 13:
        raise Violation("loss data does not hold 13 entries", c)
    tt, mm, ms, lms, sf, lf, fd, fl, w, wf, lgm, l0, b = ld
    E = recipe(t, sfh, opt)
    cs = lambda i: dict(c, i=i)
    for nm, x in (("time table", tt), ("mass", ms), ("log mass", lms), ("rate", sf), ("averaged rate", lf), ("weight", w), ("averaged-rate weight", wf)):
        x = np.asarray(x, dtype=float)
        if x.shape != t.shape:
            raise Violation(f"{nm}: shape {x.shape}", c)
        ctx.true(f"{nm} target finite", np.isfinite(x), cs)
    ctx.close("time table", tt, t, 1e-6, case=cs)
    ctx.close("rate target is the floored rate", sf, E["sfh"], 1e-6, 0, case=cs)
    ctx.close("mass target", ms, E["m"], 2e-5, 0, case=cs)
    ctx.close("log mass target", lms, E["logm"], 0, 2e-5, case=cs)
    ctx.close("averaged rate target", lf, E["lf"], 0, 2e-5, case=cs, lo=E["lf_lo"], hi=E["lf_hi"])
    ctx.close("options carried to the loss", [float(fd), float(fl), float(l0), float(b)], [opt["fstar_tdelay"], opt["ssfrh_floor"], lgt0, fb], 1e-6, 0, case=cs)
    ctx.close("halo carried to the loss", [float(x) for x in mm], mah, 1e-6, 0, case=cs)
    L, F = np.asarray(lms, dtype=float), np.asarray(lf, dtype=float)
    edge = min(
        np.abs(L[-1] - L - 0.1).min(), np.abs(F.max() - F - 0.1).min(), np.abs(L - L[-1] + opt["dlogm_cut"]).min(),
        np.abs(L - min(L[-1] - 0.5, opt["mass_fit_min"])).min(),
    )
    n_on = 0
    if edge > 1e-5:
        ew, ewf = weights(t, L, F, opt)
        check_weights(ctx, "mass weight", w, ew, c)
        check_weights(ctx, "averaged-rate weight", wf, ewf, c)
        n_on = int(np.isfinite(ew).sum())
    near = np.isclose(F, F.max(), rtol=0, atol=1e-6)
    if not np.any(np.abs(np.log10(t)[near] - float(lgm)) < 1e-5):
        raise Violation("time of the peak averaged rate is not a peak", dict(c, got=lgm, expected=np.log10(t)[near]))
    lm0 = float(ref.log_mah(mah, t, lgt0)[-1])
    p = start_point(lm0)
    ctx.close("starting point", np.asarray(u, dtype=float), np.array(ref.unbounded(p)), 2e-3, 2e-3, case=cs)
    e = np.asarray(err, dtype=float)
    ctx.true("starting-point scatter finite, non-negative", np.isfinite(e) & (e >= 0), cs)
    if e.shape != (8,) or np.asarray(u).shape != (8,):
        raise Violation("starting point does not hold 8 parameters", c)
    ctx.ev(1, 1 if n_on else 0)
    return (u, err), ld, E


def part_targets(ctx):
    T = tables()
    opts = options(ctx.thorough)
    base = {}
    for tn, t in T.items():
        H = histories(t)
        for (hn, h), (mn, mah) in itertools.product(H.items(), MAHS.items()):
            use = opts if ctx.thorough and mn == "mw" else opts[: 1 + sum(len(v) for v in OPT.values())] if mn == "mw" else opts[:1]
            if not ctx.thorough and mn == "mw":
                use = use + opts[len(use) :][(len(hn) + len(tn)) % 7 :: 7]
            for o in use:
                r = check_targets(ctx, t, h, mah, o, dict(table=tn, history=hn, halo=mn, **o))
                k = (tn, mn)
                if k not in base:
                    base[k] = r[0]
                for a, b in zip(base[k], r[0]):
                    if not np.array_equal(np.asarray(a), np.asarray(b)):
                        ctx.fail("starting point depends on more than the halo", dict(table=tn, history=hn, halo=mn, **o))
    ctx.sample(dict(tables=list(T), histories=list(histories(T["lin"])), options=len(opts)))


def part_start(ctx):
    """starting point over halo masses and times: every clip regime."""
    t = tables()["lin"]
    h = histories(t)["const"]
    for lm in np.arange(9.0, 16.01, 0.25 if ctx.thorough else 0.5):
        for tp in (3.0, 20.0):
            for lgt0 in (1.0, 1.14, 1.2):
                check_targets(ctx, t, h, (float(f32(lm)), 0.1, 2.6, 0.2, tp), DEF, dict(logm0=lm, t_peak=tp, lgt0=lgt0), lgt0=lgt0, fb=0.1 + 0.02 * lgt0)


def part_weights(ctx):
    """get_weights itself: all words."""
    from diffstar.fitting_helpers.diffstar_fitting_helpers import get_weights

    D = 5 if ctx.thorough else 4
    M = [10.2, 10.149, 10.05, 9.4, 8.2, 6.1]
    F = [1.0, 0.93, 0.6, -1.5]
    ops = []
    for dl, tm, mm, fd in itertools.product((0.9, 3.5), (0.0, 2.0), (7.0, 9.0, 12.0), (0.4, 1.0, 3.0)):
        ops.append(dict(dlogm_cut=dl, t_fit_min=tm, mass_fit_min=mm, fstar_tdelay=fd))
    words = list(itertools.product(M, repeat=D - 1))
    fw = list(itertools.product(F, repeat=D))
    t = np.array([0.5, 1.6, 2.4, 5.0, 9.0][:D])
    n = 0
    for i, w in enumerate(words):
        m = np.array(list(w) + [10.2])
        for j, f in enumerate(fw):
            if (i * 7 + j) % (61 if not ctx.thorough else 97):
                continue
            for k, o in enumerate(ops):
                c = dict(logm=m, log_fstar=f, t=t, **o)
                m_, f_, t_ = m.copy(), np.array(f), t.copy()
                a, b = get_weights(t_, m_, f_, o["fstar_tdelay"], o["dlogm_cut"], o["t_fit_min"], o["mass_fit_min"])
                if not (np.array_equal(m_, m) and np.array_equal(f_, f) and np.array_equal(t_, t)):
                    ctx.fail("inputs were modified", c)
                ea, eb = weights(t, m, np.array(f), o)
                check_weights(ctx, "mass weight", a, ea, c)
                check_weights(ctx, "averaged-rate weight", b, eb, c)
                n += 1
    # every mass word x every option with one fstar word, and every fstar word with one mass word
    for w in words:
        m = np.array(list(w) + [10.2])
        for k, o in enumerate(ops[:: 1 if ctx.thorough else 5]):
            f = np.array(fw[(k * 11) % len(fw)])
            a, b = get_weights(t.copy(), m.copy(), f.copy(), o["fstar_tdelay"], o["dlogm_cut"], o["t_fit_min"], o["mass_fit_min"])
            ea, eb = weights(t, m, f, o)
            c = dict(logm=m, log_fstar=f, t=t, **o)
            check_weights(ctx, "mass weight", a, ea, c)
            check_weights(ctx, "averaged-rate weight", b, eb, c)
            n += 1
    ctx.ev(n)
    ctx.sample(dict(mass_words=len(words), fstar_words=len(fw), options=len(ops)))


def ref_loss(p, ld, mah, opt, lgt0, fb):
    """float64 loss for bounded parameters p (8,) against loss data; returns (value, spread due to float32 rounding)."""
    t = np.asarray(ld[0], dtype=float)
    lms, sfT, lf, w, wf = [np.asarray(ld[k], dtype=float) for k in (3, 4, 5, 8, 9)]
    ms = np.asarray(ld[2], dtype=float)
    lgm = float(ld[10])

    def val(scale_f, sf):
        m = ref.mstar_formed(t, sf)
        fs = ref.fstar(t, m, opt["fstar_tdelay"])
        noise = 4e-7 * m / opt["fstar_tdelay"] / 1e9
        fs = np.maximum(np.maximum(fs + scale_f * noise, 0), m * opt["ssfrh_floor"] / 10)
        s = np.maximum(sf, m * opt["ssfrh_floor"] / 10)
        r = np.clip(1e8 * (s - sfT) / ms, -1, 1)
        d = np.log10(fs) - lf
        L = 30 * np.mean(((np.log10(m) - lms) / w) ** 2) + np.mean((d / wf) ** 2) + np.mean((r / w) ** 2) + 0.5 * d[-1] ** 2
        return L

    sf = ref.sfh(p, mah, t, lgt0, fb)
    _, lo, hi = ref.sfh_band(p, mah, t, lgt0, fb)
    vals = [val(0, sf), val(1, sf), val(-1, sf), val(0, lo), val(0, hi)]
    ridge = [100 * ref.expit(-50 * (p[4] - lgm + e)) for e in (0, 1e-6, -1e-6)]
    v = vals[0] + ridge[0]
    return v, min(vals) + min(ridge), max(vals) + max(ridge)


_JIT = {}


def vloss():
    import jax

    from diffstar.fitting_helpers.diffstar_fitting_helpers import loss_default_clipssfrh

    if "l" not in _JIT:
        _JIT["l"] = jax.jit(jax.vmap(loss_default_clipssfrh, in_axes=(0, None)))
    return _JIT["l"]


def ulattice():
    ax = [(11.4, 12.6), (-10.6, -9.6), (0.4, 2.5), (-2.0, -0.5), (0.4, 0.9, 1.3, 1.9), (-0.8, -0.1), (-2.7, -0.6), (0.8, 0.05)]
    full = np.array(list(itertools.product(*ax)))
    full[:, 7] *= full[:, 6]  # the rejuvenation never lies below the drop
    return full


def part_loss(ctx):
    T = tables()
    P = ulattice()
    if not ctx.thorough:
        P = P[::5]
    P = np.concatenate([P, np.array(list(GALP.values()))])
    U = f32(np.array(ref.unbounded(P.T)).T)
    PB = np.array(ref.bounded(U.T)).T
    f = vloss()
    n = 0
    opts = options(False)
    for ti, (tn, t) in enumerate(T.items()):
        H = histories(t)
        for gn, g in GALP.items():
            H["gal_" + gn] = f32(ref.sfh(np.array(g), MAHS["mw"], t, 1.14, 0.156))
        for hi_, (hn, h) in enumerate(H.items()):
            mn = list(MAHS)[hi_ % len(MAHS)] if not hn.startswith("gal_") else "mw"
            use = [opts[0], opts[1 + (hi_ * 5 + ti * 7) % (len(opts) - 1)]]
            if ctx.thorough:
                use += [opts[1 + (hi_ * 3 + ti * 11 + k * 13) % (len(opts) - 1)] for k in range(1, 5)]
            for k, o in enumerate(use):
                lgt0, fb = (1.14, 0.156) if k == 0 else (1.13, 0.2)
                (u, e), ld = get(t, h, MAHS[mn], o, lgt0=lgt0, fb=fb)
                ld = tuple(ld)
                got = np.asarray(f(U.astype(np.float32), ld), dtype=float)
                c = dict(table=tn, history=hn, halo=mn, lgt0=lgt0, fb=fb, **o)
                sub = range(len(U)) if ctx.thorough and k < 2 else range((hi_ + ti + k) % 7, len(U), 7)
                ex = np.array([ref_loss(PB[i], ld, MAHS[mn], o, lgt0, fb) for i in sub])
                ctx.close("loss", got[list(sub)], ex[:, 0], 2e-3, 2e-3, case=lambda i: dict(c, params=PB[list(sub)[i[0]]]) if i else c, lo=ex[:, 1], hi=ex[:, 2])
                ctx.true("loss defined and non-negative everywhere", np.isfinite(got) & (got >= 0), lambda i: dict(c, params=PB[i[0]]))
                n += len(ex)
    ctx.ev(n)
    ctx.sample(dict(parameter_sets=len(U)))


def part_generating(ctx):
    """the galaxy that generated the target: no residuals."""
    from diffstar import calc_sfh_singlegal
    from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS
    from diffstar.fitting_helpers.diffstar_fitting_helpers import loss_default_clipssfrh

    ms = itertools.product((11.6, 12.3), (-10.5, -9.6), (0.5, 2.0), (-1.5, -0.4))
    q = [(1.9, -0.5, -1.0, -0.1), (1.8, -0.05, -2.0, -0.5), (1.25, -0.4, -0.4, -0.05)]
    T = tables()
    n = 0
    for p in itertools.product(ms, q):
        p = p[0] + p[1]
        U = f32(ref.unbounded(np.array(p)))
        pb = np.array(ref.bounded(U))
        for (tn, t), (mn, mah) in itertools.product(T.items(), MAHS.items()):
            o = dict(DEF, fstar_tdelay=(0.5, 1.0, 2.1)[n % 3])
            s = np.asarray(calc_sfh_singlegal(DEFAULT_DIFFSTAR_PARAMS._make(pb.astype(np.float32)), _mah(mah), t, lgt0=1.14, fb=0.156))
            (u, e), ld = get(t, s, mah, o, lgt0=1.14, fb=0.156)
            L = float(loss_default_clipssfrh(U.astype(np.float32), tuple(ld)))
            m = ref.mstar_formed(t, np.asarray(s, dtype=float))
            fs = ref.fstar(t, m, o["fstar_tdelay"])
            # floors inactive where they count
            on = t >= o["fstar_tdelay"] + 0.01
            if (fs[on] < 2e-12 * m[on]).any() or (fs[on] < fs.max() / 900).any():
                continue
            ridge = 100 * ref.expit(-50 * (pb[4] - float(ld[10])))
            n += 1
            ctx.close("loss of the generating galaxy", L, ridge, 1e-3, 2e-4, case=lambda i: dict(params=pb, table=tn, halo=mn, **o))
            # any other galaxy has a larger loss
            for d in range(4):
                V = U.copy()
                V[d] += 0.5
                L2 = float(loss_default_clipssfrh(V.astype(np.float32), tuple(ld)))
                ctx.true("a different galaxy has residuals", L2 > L - 1e-5, lambda i: dict(params=pb, other=V, table=tn, halo=mn, loss=L, loss2=L2))
    ctx.ev(n)
    if n < 50:
        raise Violation("vacuous: too few unfloored galaxies", dict(n=n))


def run(ctx):
    ctx.run_part("targets", part_targets)
    ctx.run_part("start", part_start)
    ctx.run_part("weights", part_weights)
    ctx.run_part("loss", part_loss)
    ctx.run_part("generating", part_generating)
