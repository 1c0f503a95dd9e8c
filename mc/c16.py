"""C16: population loss kernels predict normalised PDFs of the Monte Carlo galaxies."""

import os

import numpy as np

from . import pop, ref
from .core import REPO, f32

LEVEL = "exploration"
RULE = (
    "Lattice: population parameter sets (calibrations, contrasting sets, fractions of the bounds) x galaxy words per epoch x epoch-time "
    "words x key letters x target configurations (stellar-mass bin selections incl. repeats and permutations, epoch groupings, group "
    "weights), plus the repository's own target data and every epoch of it. Every prediction compared with a float64 soft histogram of "
    "the galaxies drawn by the public Monte Carlo generator; every loss with the mean squared difference recomputed from the prediction. "
    "Non-trivial = the predicted PDF has at least two populated bins."
)
ASSUMPTIONS = ["epochs whose model galaxies put less than 2 per cent of their weight inside the bins are outside the contract (nothing to normalise)"]

G = [  # logmp0, upid, lgmu, lgmhost, tinf, halo history (5)
    (12.1, -1, 0.0, 0.0, -100.0, [12.0, 0.05, 2.6137643, 0.12692805, 14.0]),
    (13.4, 3, -1.2, 14.1, 4.0, [13.5, 0.3, 3.5, 0.6, 9.0]),
    (11.6, 7, -2.6, 13.2, 0.6, [11.7, -0.2, 2.2, 0.3, 3.0]),
    (14.2, -1, -0.5, 13.0, 5.0, [14.3, 0.4, 4.2, 1.1, 20.0]),
    (12.8, 12, -0.3, 13.6, 7.0, [12.8, 0.2, 3.0, 0.4, 6.5]),
    (12.5, -1, 0.0, 12.0, 0.0, [12.4, 0.0, 2.8, 0.2, 11.0]),
]
NZ, NG = 3, 5
MB = np.linspace(7.0, 12.6, 8)
SB = np.linspace(-13.0, -8.0, 7)
MBU = np.array([7.0, 8.5, 9.0, 10.1, 10.4, 11.3, 11.6, 12.6])  # bins of unequal width
SBU = np.array([-13.0, -11.5, -10.9, -10.1, -9.8, -9.3, -8.0])
FB, LGT0 = 0.156, 1.13967


def _mod():
    from diffstar.diffstarpop.loss_kernels import mstar_ssfr_loss_mgash_anyz as mod

    return mod


def _flat(p):
    return f32([ref.pop_unbounded(k, p[k]) for k in pop.names()]).astype(np.float32)


def _data(words, tobs, keyseed, lgt0=LGT0, fb=FB):
    from jax import random as jran

    a = [[[G[w][i] for w in word] for word in words] for i in range(5)]
    mah = np.array([[G[w][5] for w in word] for word in words]).transpose(0, 2, 1)
    keys = np.asarray(jran.split(jran.PRNGKey(keyseed), len(words)))
    return (
        mah.astype(np.float32), np.float32(a[0]), np.int32(a[1]), np.float32(a[2]), np.float32(a[3]), np.float32(a[4]),
        keys, np.float32(tobs), lgt0, fb,
    )


def _nd(mb=MB, sb=SB):
    lo = np.array([(m, s) for m in mb[:-1] for s in sb[:-1]])
    hi = np.array([(m, s) for m in mb[1:] for s in sb[1:]])
    return lo, hi


def _galaxies(P, D):
    """per-epoch (log M*, log SFR, weight) of main-sequence then quenched states, from the public generator."""
    import jax.numpy as jnp
    from diffstar.diffstarpop import mc_diffstar_sfh_galpop

    from . import gal

    out = []
    for z in range(len(D[7])):
        tarr = jnp.logspace(-1, jnp.log10(jnp.float32(D[7][z])), 20)
        r = mc_diffstar_sfh_galpop(
            P, gal.nt_mah(list(np.asarray(D[0][z], dtype=np.float32))), D[1][z], D[2][z], D[3][z], D[4][z], D[5][z], D[6][z], tarr,
            lgt0=D[8], fb=D[9],
        )
        t = np.asarray(tarr, dtype=np.float64)
        ms, q = np.asarray(r.sfh_ms, dtype=np.float64), np.asarray(r.sfh_q, dtype=np.float64)
        fq = np.asarray(r.frac_q, dtype=np.float64)
        sm = np.log10(np.concatenate([ref.mstar_formed(t, ms)[:, -1], ref.mstar_formed(t, q)[:, -1]]))
        sf = np.log10(np.concatenate([ms[:, -1], q[:, -1]]))
        out.append((sm, sf, np.concatenate([1 - fq, fq])))
    return out


def _pdf_m(gals, bins):
    sig = np.mean(np.diff(bins))
    out, tot = [], []
    for sm, sf, w in gals:
        h = ref.tw_hist(sm[:, None], np.full((len(sm), 1), sig), bins[:-1, None], bins[1:, None], w)
        out.append(h)
        tot.append(h.sum())
    return np.array(out), np.array(tot)


def _pdf_ms(gals, mb, sb):
    smg, ssg = np.mean(np.diff(mb)), np.mean(np.diff(sb))
    out, tot = [], []
    for sm, sf, w in gals:
        ss = np.maximum(sf - sm, -12.0)
        A = ref.tw_bin_weight(sm[:, None], smg, mb[:-1], mb[1:])
        B = ref.tw_bin_weight(ss[:, None], ssg, sb[:-1], sb[1:])
        h = np.einsum("n,na,nb->ab", w, A, B)
        out.append(h)
        tot.append(h.sum())
    return np.array(out), np.array(tot)


def _check_pdf(ctx, what, got, ex, tol, c):
    got = np.asarray(got, dtype=np.float64)
    ctx.true(f"{what}: finite and non-negative", np.isfinite(got) & (got >= -1e-7), lambda i: dict(c, idx=i))
    ctx.close(f"{what}: sums to one", got.sum(axis=-1), np.ones(got.shape[:-1]), 2e-5, 0, case=lambda i: dict(c, idx=i))
    ctx.close(f"{what}: soft histogram of the Monte Carlo galaxies", got, ex, 1e-3, tol, case=lambda i: dict(c, idx=i))


def _mstar(ctx, flat, P, D, bins, c, losses=None, gals=None):
    mod = _mod()
    gals = gals or _galaxies(P, D)
    raw, tot = _pdf_m(gals, np.asarray(bins, dtype=np.float64))
    ok = tot > 0.02 * np.array([g[2].sum() for g in gals])
    ex = raw[ok] / tot[ok][:, None]
    T = np.zeros((len(gals), len(bins) - 1), dtype=np.float32)
    data = (*D, np.asarray(bins, dtype=np.float32), T)
    pred = np.asarray(mod.get_pred_mstar_data_wrapper(flat, data))
    if pred.shape != T.shape:
        ctx.fail(f"mstar prediction has shape {pred.shape}", c)
    _check_pdf(ctx, "P(M*)", pred[ok], ex, 1e-3, c)
    ctx.ev(len(gals), int((ex > 1e-3).sum(axis=1).__ge__(2).sum()))
    return data, pred, ok.all()


def _ssfr(ctx, flat, P, D, cfg, which, c, gals=None, bins=(MB, SB, None)):
    mod = _mod()
    nmh, indx, ids = cfg
    gals = gals or _galaxies(P, D)
    mb, sb = np.asarray(bins[0], dtype=np.float64), np.asarray(bins[1], dtype=np.float64)
    raw, tot = _pdf_ms(gals, mb, sb)
    wt = np.array([g[2].sum() for g in gals])
    good = tot > 0.02 * wt
    lo, hi = _nd(mb, sb) if bins[2] is None else bins[2]
    T = np.zeros((len(nmh), len(ids), len(sb) - 1), dtype=np.float32)
    data = (*D, np.float32(lo), np.float32(hi), np.float32(mb), np.float32(sb), np.float32(nmh), np.int32(indx), np.int32(ids), T)
    fn = mod.get_pred_mstar_ssfr_data_wrapper if which == "cen" else mod.get_pred_mstar_ssfr_sat_data_wrapper
    pred = np.asarray(fn(flat, data), dtype=np.float64)
    if pred.shape != T.shape:
        ctx.fail(f"ssfr prediction has shape {pred.shape}", c)
    full = True
    n = nn = 0
    for z in range(len(nmh)):
        if not all(good[indx[z][m]] for m in range(len(indx[z])) if nmh[z][m] > 0):
            full = False
            continue
        if any(tot[indx[z][m]] <= 0 for m in range(len(indx[z]))):
            full = False
            continue
        S = sum(nmh[z][m] * raw[indx[z][m]] / tot[indx[z][m]] for m in range(len(indx[z])))
        for b, a in enumerate(ids):
            m = S[a].sum()
            if m < 1e-2 * np.sum(nmh[z]):
                full = False
                continue
            _check_pdf(ctx, f"P(sSFR|M*) {which}", pred[z, b], S[a] / m, 2e-3, dict(c, z=z, bin=int(a)))
            n, nn = n + 1, nn + int((S[a] / m > 1e-3).sum() >= 2)
    ctx.ev(n, nn)
    return data, pred, full


def _losses(ctx, flat, dm, dc, ds, preds, targets, c, fd=False):
    """every loss wrapper against the mean squared difference, on the given targets."""
    mod = _mod()
    datas = [d[:-1] + (np.float32(t),) for d, t in zip((dm, dc, ds), targets)]
    fns = [mod.loss_mstar_kern_tobs_grad_wrapper, mod.loss_mstar_ssfr_kern_tobs_grad_wrapper, mod.loss_mstar_ssfr_sat_kern_tobs_grad_wrapper]
    ls, gs = [], []
    for nm, f, d, p, t in zip(("mstar", "ssfr cen", "ssfr sat"), fns, datas, preds, targets):
        l, g = f(flat, d)
        ex = 1000 * np.mean((np.asarray(p, dtype=np.float64) - np.float64(np.float32(t))) ** 2)
        ctx.close(f"{nm} loss is 1000 x mean squared difference", np.asarray(l), ex, 2e-4, 1e-8, case=lambda i: c)
        g = np.asarray(g, dtype=np.float64)
        if g.shape != (len(pop.names()),):
            ctx.fail(f"{nm} gradient has shape {g.shape}", c)
        ctx.true(f"{nm} gradient finite", np.isfinite(g), lambda i: dict(c, param=pop.names()[i[0]]))
        ls.append(float(l))
        gs.append(g)
    l2, g2 = mod.loss_combined_wrapper(flat, datas[0], datas[1])
    l3, g3 = mod.loss_combined_3loss_wrapper(flat, *datas)
    ctx.close("combined loss is the sum of its parts", np.asarray(l2), ls[0] + ls[1], 2e-5, 1e-8, case=lambda i: c)
    ctx.close("three-part loss is the sum of its parts", np.asarray(l3), sum(ls), 2e-5, 1e-8, case=lambda i: c)
    sc = sum(np.abs(g).max() for g in gs)
    ctx.close("combined gradient is the sum of its parts", g2, gs[0] + gs[1], 1e-3, 1e-3 * sc + 1e-7, case=lambda i: c)
    ctx.close("three-part gradient is the sum of its parts", g3, sum(gs), 1e-3, 1e-3 * sc + 1e-7, case=lambda i: c)
    ctx.ev(5, 5)
    return ls, gs, datas


CFGS = [
    # group weights (2,2), epoch indices (2,2), selected stellar-mass bins
    ([[0.7, 0.3], [0.4, 0.6]], [[0, 1], [1, 2]], [3, 4, 5]),
    ([[1.0, 0.0], [0.2, 0.8]], [[2, 0], [0, 0]], [5, 3, 4]),
    ([[0.5, 0.25], [3.0, 1.0]], [[1, 1], [2, 1]], [4, 4, 3]),
]


def _params(ctx):
    out = [("default", pop.default())] + [(f"cal{i}", p) for i, p in enumerate(pop.calibrations())]
    out += [("mid", pop.at_frac(0.5))]
    out += [(f"contrast{i}", p) for i, p in enumerate(pop.contrast(16 if ctx.thorough else 4, 5, 0.2, 0.8))]
    return [(n, pop.interiorise(p)) for n, p in out]


def part_synth(ctx):
    PL = _params(ctx)
    zw = [
        ([(0, 1, 2, 3, 4), (5, 0, 4, 1, 3), (1, 1, 0, 5, 5)], (13.8, 6.0, 3.0)),
        ([(0, 0, 0, 0, 0), (1, 1, 1, 1, 1), (3, 3, 3, 3, 3)], (13.7, 10.0, 8.0)),
        ([(1, 4, 1, 4, 1), (4, 3, 2, 1, 0), (0, 5, 0, 5, 0)], (3.5, 13.8, 5.0)),
    ]
    i = 0
    for pn, p in PL:
        flat = _flat(p)
        P = pop.nt({k: float(ref.pop_bounded(k, f)) for k, f in zip(pop.names(), flat.astype(np.float64))})
        for zi, (words, tobs) in enumerate(zw):
            if not ctx.thorough and pn.startswith("cal") and (zi + int(pn[3:])) % 3:
                continue
            for ks in (0, 7) if ctx.thorough else ((zi * 3 + i) % 5,):
                D = _data(words, tobs, ks)
                gals = _galaxies(P, D)
                cf = CFGS if ctx.thorough else [CFGS[i % 3], CFGS[(i + 1) % 3]]
                for cj, cfg in enumerate(cf):
                    c = dict(params=pn, words=words, tobs=tobs, key=ks, cfg=cfg)
                    dm, pm, okm = _mstar(ctx, flat, P, D, MB, c, gals=gals)
                    dc, pc, okc = _ssfr(ctx, flat, P, D, cfg, "cen", c, gals=gals)
                    ds, ps, oks = _ssfr(ctx, flat, P, D, cfg, "sat", c, gals=gals)
                    if cj == 0:  # the same galaxies on bins of unequal width, in either or both quantities
                        mb, sb = ((MBU, SBU), (MB, SBU), (MBU, SB))[(i + zi) % 3]
                        cu = dict(c, mstar_bins=mb, ssfr_bins=sb)
                        _mstar(ctx, flat, P, D, MBU, cu, gals=gals)
                        _ssfr(ctx, flat, P, D, cfg, ("cen", "sat")[(i + zi) % 2], cu, gals=gals, bins=(mb, sb, None))
                    if okm and okc and oks and cj == 0:
                        z = _losses(ctx, flat, dm, dc, ds, (pm, pc, ps), (pm, pc, ps), c)
                        ctx.close("losses vanish when the prediction equals the target", np.array(z[0]), np.zeros(3), 0, 1e-8, case=lambda i: c)
                        t = [np.roll(x, 1, axis=-1) * 0.5 + 0.1 for x in (pm, pc, ps)]
                        _losses(ctx, flat, dm, dc, ds, (pm, pc, ps), t, c)
                        t[2] = ps
                        _losses(ctx, flat, dm, dc, ds, (pm, pc, ps), t, c)
            i += 1
    ctx.sample(dict(param_sets=len(PL), epoch_words=len(zw), cfgs=len(CFGS)))


def part_gradient(ctx):
    """directional derivatives of each loss against central differences of the prediction-based loss."""
    p = pop.interiorise(pop.default())
    flat = _flat(p)
    words, tobs = [(0, 1, 2, 3, 4), (5, 0, 4, 1, 3), (1, 1, 0, 5, 5)], (13.8, 6.0, 3.0)
    D = _data(words, tobs, 3)
    mod = _mod()
    P = pop.nt({k: float(ref.pop_bounded(k, f)) for k, f in zip(pop.names(), flat.astype(np.float64))})
    dm, pm, _ = _mstar(ctx, flat, P, D, MB, {})
    dc, pc, _ = _ssfr(ctx, flat, P, D, CFGS[0], "cen", {})
    ds, ps, _ = _ssfr(ctx, flat, P, D, CFGS[0], "sat", {})
    t = [np.roll(x, 1, axis=-1) for x in (pm, pc, ps)]
    ls, gs, datas = _losses(ctx, flat, dm, dc, ds, (pm, pc, ps), t, {})
    preds = [mod.get_pred_mstar_data_wrapper, mod.get_pred_mstar_ssfr_data_wrapper, mod.get_pred_mstar_ssfr_sat_data_wrapper]
    h = 0.05
    n = len(pop.names())
    dirs = [np.ones(n), (-1.0) ** np.arange(n), np.where(np.arange(n) % 3 == 0, 1.0, 0.0)]
    dirs += [np.where((np.arange(n) // 8) == j, 1.0, 0.0) for j in range((n + 7) // 8)]
    for v in dirs:
        for nm, f, d, tt, g in zip(("mstar", "cen", "sat"), preds, datas, t, gs):
            L = []
            for s in (-2, -1, 1, 2):
                q = np.asarray(f((flat + np.float32(s * h) * v.astype(np.float32)), d), dtype=np.float64)
                L.append(1000 * np.mean((q - np.float64(np.float32(tt))) ** 2))
            fd = (8 * (L[2] - L[1]) - (L[3] - L[0])) / (12 * h)
            fd1 = (L[2] - L[1]) / (2 * h)
            ctx.close(f"{nm} gradient along a direction", np.dot(g, v), fd, 0.02, 3 * abs(fd - fd1) + 0.01, case=lambda i: dict(direction=v))
            ctx.ev(1)


def part_repo_data(ctx):
    """the repository's own targets: default parameters and the calibrations."""
    fn = os.path.join(REPO, "diffstar", "diffstarpop", "loss_kernels", "tests", "testing_data", "loss_kernels_testing_data_10halos.h5")
    from diffstar.diffstarpop.loss_kernels.tests.load_loss_data import load_loss_data_h5

    m, s, q = load_loss_data_h5(fn)
    m, s, q = [tuple(np.asarray(x) for x in t) for t in (m, s, q)]
    PL = [("default", pop.default())] + [(f"cal{i}", p) for i, p in enumerate(pop.calibrations())][: None if ctx.thorough else 1]
    for pn, p in PL:
        p = pop.interiorise(p)
        flat = _flat(p)
        P = pop.nt({k: float(ref.pop_bounded(k, f)) for k, f in zip(pop.names(), flat.astype(np.float64))})
        c = dict(params=pn)
        dm, pm, _ = _mstar(ctx, flat, P, m[:8] + (float(m[8]), float(m[9])), m[10], dict(c, data="mstar"))
        out = []
        for d, w in ((s, "cen"), (q, "sat")):
            D = d[:8] + (float(d[8]), float(d[9]))
            out.append(_ssfr(ctx, flat, P, D, (d[14], d[15], d[16]), w, dict(c, data=w), bins=(d[12], d[13], (d[10], d[11]))))
        if pn == "default" and ctx.thorough:  # compiling the gradients for 52 epochs takes a minute
            (dc, pc, _), (ds, ps, _) = out
            _losses(ctx, flat, dm, dc, ds, (pm, pc, ps), (m[-1], s[-1], q[-1]), c)
    ctx.sample(dict(epochs=m[7].shape, tobs=m[7][:12]))


def run(ctx):
    _mod()  # imported first: diffsky switches JAX to float64 on import, so every reference draw uses the same precision
    ctx.run_part("synthetic", part_synth)
    ctx.run_part("gradient", part_gradient)
    ctx.run_part("repo_data", part_repo_data)
