"""C10: quenched fractions of centrals and satellites."""

import itertools

import numpy as np

from . import pop, ref
from .core import f32

LEVEL = "exploration"
RULE = (
    "Lattice: population parameter sets (calibrations, contrasting sets, every sweep of the quenching parameters, every 4-tuple of the "
    "nested-sigmoid levels, every corner of the satellite levels) x halo mass x peak time x mass ratio x host mass x time since infall. "
    "Non-trivial = resulting fraction strictly inside (0, 1)."
)
_J = {}


def _jit(name):
    import jax

    if name not in _J:
        from diffstar.diffstarpop.kernels import diffstarpop_mgash as dsp
        from diffstar.diffstarpop.kernels import satquenchpop_model as sq

        fn = dict(full=dsp._diffstarpop_means_covs, qsat=sq.get_qprob_sat, frac=sq.predict_sat_frac_delta_qprob, cen=dsp._diffstarpop_means_covs_cen)[name]
        _J[name] = jax.jit(jax.vmap(fn))
    return _J[name]


def _batched(fn, args, nb=16384):
    n = len(args[-1])
    outs = []
    for s in range(0, n, nb):
        def cut(x):
            x = np.asarray(x, dtype=np.float32)[s : s + nb]
            return np.concatenate([x, np.repeat(x[:1], nb - len(x))]) if (len(x) < nb and n > nb) else x
        a = [(x._make([cut(v) for v in x]) if hasattr(x, "_fields") else cut(x)) for x in args]
        k = min(nb, n - s)
        r = fn(*a)
        r = r[:2] if isinstance(r, tuple) else (r,)
        outs.append([np.asarray(v, dtype=np.float64)[:k] for v in r])
    return [np.concatenate([o[i] for o in outs]) for i in range(len(outs[0]))]


QK = [k for k in ref.POP_BOUNDS if k.startswith("frac_quench") or k in ref.SAT_NAMES]
TINF = [-100.0, -10.0, -3.0, -1.0, -0.3, 0.0, 0.2, 0.5, 1.0, 2.0, 4.0, 8.0, 13.0]
MU = [-6.0, -4.0, -2.5, -1.5, -0.8, 0.0]
MH = [0.0, 11.0, 12.5, 13.0, 13.6, 15.0]
LGM = [10.0, 11.2, 12.0, 12.6, 13.3, 14.2, 15.5]
TPK = [0.5, 2.0, 5.0, 9.0, 9.8, 12.0, 14.0, 20.0]


def _grid(ctx, plist, lgm, tpk, mu, mh, tinf, what):
    col = pop.cols(plist)
    g = np.meshgrid(np.arange(len(plist)), f32(lgm), f32(tpk), f32(mu), f32(mh), f32(tinf), indexing="ij")
    shape = g[0].shape
    I = g[0].ravel().astype(int)
    l, t, u, h, ti = [x.ravel() for x in g[1:]]
    C = {k: v[I] for k, v in col.items()}
    P = pop.nt(C)
    fc, fs = _batched(_jit("full"), (P, l, t, u, h, ti))
    rc, rb = ref.frac_q(C, l, t, "cen"), ref.frac_q(C, l, t, "sat")
    case = lambda idx: None if not idx else dict(params={k: float(C[k][idx[0]]) for k in QK}, logmp0=float(l[idx[0]]), tpeak=float(t[idx[0]]), lgmu=float(u[idx[0]]), lgmhost=float(h[idx[0]]), gyr_since_infall=float(ti[idx[0]]))
    ctx.close(f"central fraction ({what})", fc, rc, 0, 2e-5, case=case)
    ctx.close(f"satellite fraction ({what})", fs, ref.qprob_sat(C, u, h, ti, rb), 0, 4e-5, case=case)
    for nm, f in (("central", fc), ("satellite", fs)):
        ctx.true(f"{nm} fraction is a probability", (f >= 0) & (f <= 1 + 1e-6), case)
    ctx.true("satellites only add quenching", fs >= rb - 2e-5, case)
    f6 = fs.reshape(shape)
    order = np.argsort(f32(tinf))
    ctx.true("never decreases with time since infall", np.diff(f6[..., order], axis=-1) >= -2e-7, None)
    if -100.0 in tinf:
        j = list(tinf).index(-100.0)
        ctx.close("vanishes long before infall", f6[..., j], rb.reshape(shape)[..., j], 0, 2e-5)
    ctx.ev(I.size, int(((fs > 1e-6) & (fs < 1 - 1e-6)).sum()))


def part_sets(ctx):
    ps = pop.calibrations() + [pop.default()] + pop.contrast(12, lo=0.0, hi=1.0)
    ps = [pop.interiorise(p, 0) for p in ps]
    if ctx.thorough:
        _grid(ctx, ps, LGM, TPK[1::2], MU[::2], MH[::2], TINF, "parameter sets")
        _grid(ctx, ps, LGM[::3], TPK[2:5], MU, MH, TINF, "parameter sets")
    else:
        _grid(ctx, ps, LGM[1::2], TPK[1::3], MU[::2], MH[1::2], TINF[::2] + [13.0], "parameter sets")
    ctx.sample(dict(sets=len(ps)))


def part_sweeps(ctx):
    fr = [0.0, 0.05, 0.3, 0.5, 0.7, 0.95, 1.0]
    ps = []
    for base in (pop.interiorise(pop.default(), 0), pop.at_frac(0.45)):
        for k in QK:
            for f in fr:
                p = dict(base)
                lo, hi = ref.POP_BOUNDS[k]
                p[k] = lo + f * (hi - lo)
                ps.append(p)
    _grid(ctx, ps, [11.2, 12.4, 14.0], [3.0, 9.6, 13.0], [-3.0, -1.2], [12.2, 13.4], [-100.0, -1.0, 0.7, 6.0] if ctx.thorough else [-100.0, 0.7, 6.0], "sweeps")


def part_levels(ctx):
    """every tuple of extreme and middle levels of the nested sigmoids / satellite corners."""
    ps = []
    for w in itertools.product((0.0, 0.4, 1.0), repeat=3):
        for kk in (0.0, 0.3, 1.0):
            p = pop.at_frac(0.5)
            for s in ("cen", "sat"):
                q = f"frac_quench_{s}_"
                ww = w if s == "cen" else w[::-1]
                p[q + "ylo_ylotpeak"], p[q + "ylo_yhitpeak"], p[q + "yhi"] = ww
                for k in ("k", "k_tpeak"):
                    lo, hi = ref.POP_BOUNDS[q + k]
                    p[q + k] = lo + kk * (hi - lo)
                p[q + "x0_ylotpeak"], p[q + "x0_yhitpeak"] = 11.0 + 3 * w[1], 14.0 - 3 * w[0]
            for c, v in zip(("lgmu_lo_mh_lo", "lgmu_hi_mh_lo", "lgmu_lo_mh_hi", "lgmu_hi_mh_hi"), w + (kk,)):
                p[c] = v
            ps.append(p)
    _grid(ctx, ps, [10.5, 12.0, 12.9, 14.5], [1.0, 7.0, 8.0, 14.0], [-4.0, -1.9, 0.0], [11.5, 13.1, 14.9], [-100.0, 2.4, 4.0, 13.0], "levels")


def part_satellite_fn(ctx):
    """the satellite model itself, for any baseline probability."""
    from diffstar.diffstarpop.kernels import satquenchpop_model as sq

    D = sq.DEFAULT_SATQUENCHPOP_PARAMS
    base = [0.0, 1e-4, 0.3, 0.77, 1.0 - 1e-4, 1.0]
    lv = [0.0, 0.25, 0.9, 1.0] if ctx.thorough else [0.0, 0.6, 1.0]
    rows = []
    for w in itertools.product(lv, repeat=4):
        for td in ((2.0, -0.5), (-5.0, 10.0), (10.0, 1.0), (0.0, 0.0)):
            rows.append(dict(qp_lgmh_crit=12.8, td_lgmhc=13.3, td_mlo=td[0], td_mhi=td[1], qphi_lgmu_crit=-1.5, lgmu_lo_mh_lo=w[0], lgmu_hi_mh_lo=w[1], lgmu_lo_mh_hi=w[2], lgmu_hi_mh_hi=w[3]))
    g = np.meshgrid(np.arange(len(rows)), [-4.0, -1.7, -0.2], [11.5, 12.9, 13.2, 14.8], f32(TINF), base, indexing="ij")
    I = g[0].ravel().astype(int)
    u, h, ti, b = [f32(x.ravel()) for x in g[1:]]
    C = {k: f32(np.array([r[k] for r in rows]))[I] for k in ref.SAT_NAMES}
    P = D._make([C[k] for k in D._fields])
    q = _batched(_jit("qsat"), (P, u, h, ti, b))[0]
    e = _batched(_jit("frac"), (P, u, h, ti))[0]
    case = lambda idx: None if not idx else dict(params={k: float(C[k][idx[0]]) for k in C}, lgmu=float(u[idx[0]]), lgmhost=float(h[idx[0]]), gyr=float(ti[idx[0]]), base=float(b[idx[0]]))
    ex = ref.sat_excess(C, u, h, ti)
    ctx.close("fraction of the remaining unquenched probability", e, ex, 0, 2e-5, case=case)
    ctx.close("satellite probability", q, b + ex * (1 - b), 0, 2e-5, case=case)
    ctx.true("probability", (q >= 0) & (q <= 1 + 1e-6), case)
    ctx.true("never lowers the baseline", q >= b - 1e-6, case)
    full = g[0].shape
    ctx.true("monotone in time since infall", np.diff(q.reshape(full), axis=3) >= -2e-7)
    ctx.true("monotone in baseline", np.diff(q.reshape(full), axis=4) >= -2e-6)
    j = TINF.index(-100.0)
    ctx.close("vanishes long before infall", q.reshape(full)[:, :, :, j], b.reshape(full)[:, :, :, j], 0, 1e-6)
    hi = ref.sat_excess(C, u, h, np.full(I.size, 1e3))
    big = ti >= 8.0
    td = ref.sigmoid(h, C["td_lgmhc"], 5.0, C["td_mlo"], C["td_mhi"])
    done = big & (ti - td > 4)
    ctx.close("asymptote set by host mass and mass ratio", e[done], hi[done], 0, 1e-5)
    ctx.ev(I.size, int(((ex > 1e-4) & (ex < 1)).sum()))


def part_centrals(ctx):
    """centrals-only entry point; infall inputs never touch the central fraction."""
    ps = pop.calibrations() + pop.contrast(8)
    col = pop.cols(ps)
    g = np.meshgrid(np.arange(len(ps)), f32(LGM), f32(TPK), indexing="ij")
    I = g[0].ravel().astype(int)
    l, t = g[1].ravel(), g[2].ravel()
    C = {k: v[I] for k, v in col.items()}
    P = pop.nt(C)
    fc, fs = _batched(_jit("cen"), (P, l, t))
    ctx.close("central fraction", fc, ref.frac_q(C, l, t, "cen"), 0, 2e-5)
    ctx.close("baseline satellite fraction", fs, ref.frac_q(C, l, t, "sat"), 0, 2e-5)
    for inf in ((0.0, 0.0, -100.0), (-1.0, 14.0, 5.0), (-6.0, 11.0, 13.0)):
        one = np.ones(I.size)
        f2, _ = _batched(_jit("full"), (P, l, t, inf[0] * one, inf[1] * one, inf[2] * one))
        ctx.close("central fraction independent of infall", f2, fc, 0, 1e-6)
    ctx.ev(4 * I.size)


def run(ctx):
    ctx.run_part("sets", part_sets)
    ctx.run_part("sweeps", part_sweeps)
    ctx.run_part("levels", part_levels)
    ctx.run_part("satellite_fn", part_satellite_fn)
    ctx.run_part("centrals", part_centrals)
