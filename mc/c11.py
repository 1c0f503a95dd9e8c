"""C11: one Monte Carlo galaxy is a faithful draw from the population model."""

import numpy as np

from . import pop, ref
from .core import Violation, f32

LEVEL = "exploration"
RULE = (
    "All combinations of random key (every key of an enumerated set) x population parameters x halo properties x host id x infall "
    "history; deviates are recovered from each draw with the documented means and scatters and must be the same for a key everywhere. "
    "The quenched flag is enumerated over a ladder of quenched fractions for every key. Non-trivial = drawn with scatter > 0."
)
ASSUMPTIONS = [
    "The set of enumerated keys is fixed by VERIF_SEED; normality/uniformity of the deviates is checked on that whole set with thresholds "
    "far outside what a correct generator can give (|mean| < 5/sqrt(n), KS < 2.5/sqrt(n))."
]
_J = {}


def _keys(ctx, n):
    from jax import random as jran

    return jran.split(jran.PRNGKey(ctx.seed), n)


def _jit(kind):
    import jax

    if kind not in _J:
        from diffstar.diffstarpop.kernels import diffstarpop_mgash as dsp
        from diffstar.diffstarpop.mc_diffstarpop_mgash import mc_diffstar_params_singlegal, mc_diffstar_u_params_singlegal

        fn = dict(u=dsp.mc_diffstar_u_params_singlegal_kernel, cen=dsp.mc_diffstar_u_params_singlegal_kernel_cen, p=mc_diffstar_params_singlegal, u2=mc_diffstar_u_params_singlegal)[kind]
        _J[kind] = jax.jit(jax.vmap(fn))
    return _J[kind]


def _draw(kind, P, l, t, upid, inf, keys, nb=8192):
    """rows of draws through the real single-galaxy function."""
    n = len(l)
    outs = []
    for s in range(0, n, nb):
        def cut(x):
            x = np.asarray(x)[s : s + nb]
            return np.concatenate([x, np.repeat(x[:1], nb - len(x), axis=0)]) if len(x) < nb and n > nb else x
        Pc = P._make([cut(v) for v in P])
        a = (cut(f32(l).astype(np.float32)), cut(f32(t).astype(np.float32)))
        if kind == "cen":
            r = _jit(kind)(Pc, *a, cut(keys))
        else:
            r = _jit(kind)(Pc, *a, cut(upid), *[cut(f32(x).astype(np.float32)) for x in inf], cut(keys))
        k = min(nb, n - s)
        outs.append((np.array([np.asarray(v)[:k] for v in r[0]]), np.array([np.asarray(v)[:k] for v in r[1]]), np.asarray(r[2])[:k], np.asarray(r[3])[:k]))
    return [np.concatenate([o[i] for o in outs], axis=-1) for i in range(4)]


def _sets():
    ps = [pop.interiorise(p, 5e-3) for p in [pop.default()] + pop.calibrations() + pop.contrast(9, lo=0.08, hi=0.92)]
    p = pop.at_frac(0.5)
    for k in p:
        if k.endswith("_slp"):
            p[k] = 0.0
    return ps + [p]


HALOS = [  # lgm, tpeak, upid, lgmu, lgmhost, tinf
    (11.3, 13.8, -1, 0.0, 0.0, -100.0),
    (12.6, 8.0, -1, -2.0, 14.0, 6.0),
    (13.9, 10.5, 0, -1.0, 13.2, 4.0),
    (12.1, 4.0, 17, -3.0, 14.5, 0.3),
    (14.8, 13.0, 2000000000, -0.2, 15.0, 9.0),
    (10.7, 2.0, -2, -1.5, 12.0, -100.0),
]


def part_affine(ctx):
    ps, halos = _sets(), HALOS
    nk = 512 if ctx.thorough else 128
    keys = np.asarray(_keys(ctx, nk))
    col = pop.cols(ps)
    g = np.meshgrid(np.arange(len(ps)), np.arange(len(halos)), np.arange(nk), indexing="ij")
    I, H, K = [x.ravel() for x in g]
    hv = np.array([[h[0], h[1], h[3], h[4], h[5]] for h in halos])
    upid = np.array([h[2] for h in halos], dtype=np.int32)[H]
    l, t, u, mh, ti = [f32(hv[:, j])[H] for j in range(5)]
    C = {k: v[I] for k, v in col.items()}
    P = pop.nt(C)
    ums, uq, fq, isq = _draw("u", P, l, t, upid, (u, mh, ti), keys[K])
    case = lambda idx: None if not idx else dict(params=ps[I[idx[-1]]], halo=halos[H[idx[-1]]], key=K[idx[-1]])
    # main sequence carries the unquenched settings
    ctx.true("main-sequence draw carries the unquenched quenching values", np.abs(ums[4:] - 5.0) < 1e-5, case)
    ctx.true("draws are finite", np.isfinite(ums) & np.isfinite(uq), case)
    # affine structure
    s_ms, s_qms, s_q = [np.array(x) for x in ref.stds(C, l)]
    m_ms = np.array(ref.mean_mseq(C, l))
    m_q = np.array(ref.mean_qseq(C, l, t))
    Z, TOL = [], []
    for got, mean, std in ((ums[:4], m_ms, s_ms), (uq[:4], m_q[:4], s_qms), (uq[4:], m_q[4:], s_q)):
        z = (got.astype(np.float64) - mean) / std
        Z.append(z)
        TOL.append((1.2e-4 + 4e-7 * np.abs(mean)) / std + 1e-3 * (1 + np.abs(z)))
    z = np.concatenate(Z).reshape(12, len(ps) * len(halos), nk)
    tol = np.concatenate(TOL).reshape(z.shape)
    best = np.argmin(tol[:, :, :1], axis=1)  # the best conditioned cell fixes the key's deviate
    z0 = np.take_along_axis(z, np.broadcast_to(best[:, :, None], (12, 1, nk)), axis=1)
    t0 = np.take_along_axis(tol, np.broadcast_to(best[:, :, None], (12, 1, nk)), axis=1)
    bad = np.abs(z - z0) > tol + t0
    if bad.any():
        i = np.argwhere(bad)[0]
        flat = i[1] * nk + i[2]
        raise Violation(f"deviate of parameter {i[0]} is not the same for a key whatever the parameters and masses: {z[tuple(i)]:.5f} vs {z0[i[0], 0, i[2]]:.5f}", case((flat,)))
    # quenched fraction and flag
    fc, fs = ref.frac_q(C, l, t, "cen"), ref.qprob_sat(C, u, mh, ti, ref.frac_q(C, l, t, "sat"))
    ex = np.where(upid == -1, fc, fs)
    ctx.close("quenched fraction is central iff host id is -1", fq, ex, 0, 5e-5, case=case)
    fqk, qk = fq.reshape(-1, nk).astype(np.float64), isq.reshape(-1, nk).astype(bool)
    lo = np.where(~qk, fqk, -1).max(axis=0)  # largest fraction not quenched <= u
    hi = np.where(qk, fqk, 2).min(axis=0)  # smallest fraction quenched > u
    ctx.true("one threshold per key decides quenching", lo < hi, lambda idx: dict(key=idx, lo=lo[idx], hi=hi[idx]))
    ctx.ev(I.size)
    ctx.sample(case((0,)))


def part_flag(ctx):
    """ladder of quenched fractions 0..1 for every key: flag is a threshold on one uniform number in [0, 1)."""
    nk = 4096 if ctx.thorough else 1024
    keys = np.asarray(_keys(ctx, nk))
    ladder = np.linspace(0, 1, 41)
    ps = []
    for f in ladder:
        p = pop.at_frac(0.5)
        for s in ("cen", "sat"):
            q = f"frac_quench_{s}_"
            p[q + "ylo_ylotpeak"] = p[q + "ylo_yhitpeak"] = p[q + "yhi"] = f
        for k in ("lgmu_lo_mh_lo", "lgmu_hi_mh_lo", "lgmu_lo_mh_hi", "lgmu_hi_mh_hi"):
            p[k] = 0.0
        ps.append(p)
    col = pop.cols(ps)
    g = np.meshgrid(np.arange(2), np.arange(len(ps)), np.arange(nk), indexing="ij")
    S, I, K = [x.ravel() for x in g]
    P = pop.nt({k: v[I] for k, v in col.items()})
    n = I.size
    upid = np.where(S == 0, -1, 5).astype(np.int32)
    ums, uq, fq, isq = _draw("u", P, np.full(n, 12.3), np.full(n, 9.0), upid, (np.full(n, -1.0), np.full(n, 13.0), np.full(n, 2.0)), keys[K])
    fq, isq = fq.reshape(2, len(ladder), nk), isq.reshape(2, len(ladder), nk).astype(bool)
    ctx.close("quenched fraction", fq, np.broadcast_to(ladder[None, :, None], fq.shape), 0, 2e-6)
    ctx.true("flag grows with the quenched fraction", np.diff(isq.astype(int), axis=1) >= 0, lambda idx: dict(key=idx))
    ctx.true("never quenched at fraction 0", ~isq[:, 0], lambda idx: dict(key=idx))
    ctx.true("always quenched at fraction 1", isq[:, -1], lambda idx: dict(key=idx))
    ctx.true("centrals and satellites use the same number", isq[0] == isq[1], lambda idx: dict(key=idx))
    frac = isq[0].mean(axis=1)
    ctx.true("quenched flags occur with the quenched fraction", np.abs(frac - ladder) < 2.5 / np.sqrt(nk), lambda idx: dict(fraction=ladder[idx], got=frac[idx]))
    # deviates over the keys: standard normal, mutually independent, independent of the flag
    c = {k: v[:1] for k, v in col.items()}
    s = np.concatenate([np.array(x)[:, 0] for x in ref.stds(c, f32(12.3))])
    m = np.concatenate([np.array(ref.mean_mseq(c, f32(12.3)))[:, 0], np.array(ref.mean_qseq(c, f32(12.3), 9.0))[:, 0]])
    sel = slice(0, nk)
    z = (np.concatenate([ums[:4, sel], uq[:, sel]]).astype(np.float64) - m[:, None]) / s[:, None]
    rn = np.sqrt(nk)
    from scipy.stats import norm

    ctx.true("deviates have zero mean", np.abs(z.mean(axis=1)) < 5 / rn, lambda idx: dict(param=idx, mean=z.mean(axis=1)[idx]))
    ctx.true("deviates have unit scatter", np.abs(z.std(axis=1) - 1) < 5 / rn, lambda idx: dict(param=idx, std=z.std(axis=1)[idx]))
    zz = np.sort(z, axis=1)
    ks = np.abs(norm.cdf(zz) - (np.arange(nk) + 0.5) / nk).max(axis=1)
    ctx.true("deviates are normal", ks < 2.5 / rn, lambda idx: dict(param=idx, ks=ks[idx]))
    uu = isq[0].sum(axis=0) / len(ladder)  # 1 - uniform, to ladder resolution
    cc = np.corrcoef(np.concatenate([z, uu[None]]))
    off = cc - np.eye(13)
    ctx.true("deviates of different parameters are independent", np.abs(off) < 6 / rn, lambda idx: dict(pair=idx, corr=off[idx]))
    ctx.ev(n)


def part_generators(ctx):
    """bounded/unbounded/centrals-only generators describe the same draw; in bounds; deterministic."""
    import jax
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as dsp
    from diffstar.diffstarpop.mc_diffstarpop_mgash import mc_diffstar_params_singlegal

    ps, halos = _sets(), HALOS
    nk = 64 if ctx.thorough else 16
    keys = np.asarray(_keys(ctx, nk))
    col = pop.cols(ps)
    g = np.meshgrid(np.arange(len(ps)), np.arange(len(halos)), np.arange(nk), indexing="ij")
    I, H, K = [x.ravel() for x in g]
    hv = np.array([[h[0], h[1], h[3], h[4], h[5]] for h in halos])
    upid = np.array([h[2] for h in halos], dtype=np.int32)[H]
    l, t, u, mh, ti = [f32(hv[:, j])[H] for j in range(5)]
    C = {k: v[I] for k, v in col.items()}
    P = pop.nt(C)
    case = lambda idx: None if not idx else dict(params=ps[I[idx[-1]]], halo=halos[H[idx[-1]]], key=K[idx[-1]])
    a = _draw("u", P, l, t, upid, (u, mh, ti), keys[K])
    b = _draw("p", P, l, t, upid, (u, mh, ti), keys[K])
    e = _draw("u2", P, l, t, upid, (u, mh, ti), keys[K])
    for x, y in zip(a, e):
        ctx.close("unbounded generators agree", y, x, 1e-5, 1e-5, case=case)
    for j, nm in ((0, "main sequence"), (1, "quenched")):
        ex = np.array(ref.bounded(a[j].astype(np.float64)))
        got = b[j].astype(np.float64)
        for i, n_ in enumerate(ref.NAMES):
            lo, hi = ref.BOUNDS[n_]
            ctx.close(f"{nm} {n_} is the bounded value of the unbounded draw", got[i], ex[i], 1e-5, 1e-5 * (hi - lo), case=case)
            ctx.true(f"{nm} {n_} in bounds", (got[i] >= lo - 1e-6) & (got[i] <= hi + 1e-6), case)
        ctx.true(f"{nm} rejuvenation never below drop", got[7] >= got[6] - 1e-6, case)
    ctx.close("quenched fractions agree", b[2], a[2], 1e-6, 1e-7, case=case)
    # (a uniform number within rounding of the fraction may fall on either side)
    ctx.true("flags agree", int((b[3] != a[3]).sum()) <= 2)
    # centrals-only generator
    cen = upid == -1
    c = _draw("cen", P._make([np.asarray(v)[cen] for v in P]), l[cen], t[cen], None, None, keys[K][cen])
    ctx.close("centrals-only main sequence", c[0], a[0][:, cen], 1e-6, 1e-6)
    ctx.close("centrals-only quenched", c[1], a[1][:, cen], 1e-6, 1e-6)
    ctx.close("centrals-only fraction", c[2], a[2][cen], 1e-6, 1e-7)
    # flags may only differ where the uniform number is within rounding of the fraction
    ctx.true("centrals-only flags", int((c[3] != a[3][cen]).sum()) <= 2)
    # infall irrelevant for centrals
    for inf in ((0.0, 0.0, -100.0), (-5.0, 15.0, 13.0)):
        n = int(cen.sum())
        d = _draw("u", P._make([np.asarray(v)[cen] for v in P]), l[cen], t[cen], upid[cen], tuple(np.full(n, v) for v in inf), keys[K][cen])
        for x, y in zip(d, a):
            ctx.close("infall properties irrelevant for a central", x, y[..., cen], 1e-6, 1e-6)
    # direct scalar calls, repeated: bitwise deterministic, equal to the vectorised ones
    for r in range(0, I.size, I.size // (200 if ctx.thorough else 60)):
        Pr = P._make([v[r] for v in P])
        args = (Pr, np.float32(l[r]), np.float32(t[r]), int(upid[r]), np.float32(u[r]), np.float32(mh[r]), np.float32(ti[r]), keys[K[r]])
        x1, x2 = mc_diffstar_params_singlegal(*args), mc_diffstar_params_singlegal(*args)
        for p1, p2 in zip(jax.tree_util.tree_leaves(x1), jax.tree_util.tree_leaves(x2)):
            ctx.same("deterministic", p1, p2, case((r,)))
        ctx.close("scalar call ms", np.array(list(x1[0])), b[0][:, r], 1e-5, 1e-5, case=lambda i: case((r,)))
        ctx.close("scalar call q", np.array(list(x1[1])), b[1][:, r], 1e-5, 1e-5, case=lambda i: case((r,)))
        y1, y2 = dsp.mc_diffstar_u_params_singlegal_kernel(*args), dsp.mc_diffstar_u_params_singlegal_kernel(*args)
        for p1, p2 in zip(jax.tree_util.tree_leaves(y1), jax.tree_util.tree_leaves(y2)):
            ctx.same("deterministic", p1, p2, case((r,)))
    ctx.ev(4 * I.size)


def run(ctx):
    ctx.run_part("affine", part_affine)
    ctx.run_part("flag", part_flag)
    ctx.run_part("generators", part_generators)
