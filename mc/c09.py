"""C09: means and covariances of the population model."""

import itertools

import numpy as np

from . import pop, ref
from .core import f32

LEVEL = "exploration"
RULE = (
    "Lattice: population parameter sets (calibrations, contrasting sets, every single-parameter sweep, every (intercept, slope) pair "
    "including slope zero for every clipped line, every 4-tuple of the rolling lines) x halo masses x peak times; all means, scatters and "
    "covariances compared with the documented trends. Non-trivial = a parameter differs from the base."
)

LGM = [10.0, 10.8, 11.3, 11.7, 12.0, 12.3, 12.5, 12.8, 13.2, 13.7, 14.2, 15.0, 15.8]
TPK = [0.5, 2.0, 6.0, 9.7, 13.8, 20.0]


def _eval(colx, lgm, tpk):
    """batched real kernel: rows of (params, lgm, tpk)."""
    import jax
    from diffstar.diffstarpop.kernels import sfh_pdf_mgash as qs

    p = {k: v for k, v in colx.items()}
    q = qs.SFH_PDF_QUENCH_PARAMS._make([np.asarray(p[k], dtype=np.float32) for k in qs.SFH_PDF_QUENCH_PARAMS._fields])
    return _JIT()(q, np.asarray(lgm, dtype=np.float32), np.asarray(tpk, dtype=np.float32))


_J = []


def _JIT():
    import jax
    from diffstar.diffstarpop.kernels import sfh_pdf_mgash as qs

    if not _J:
        _J.append(jax.jit(jax.vmap(qs._sfh_pdf_scalar_kernel)))
    return _J[0]


MSN = ("ulgm", "ulgy", "ul", "uh")
QN = ("uqt", "uqs", "udrop", "urej")


def _check(ctx, plist, lgms, tpks, batch=20000):
    col = pop.cols(plist)
    g = np.meshgrid(np.arange(len(plist)), np.arange(len(lgms)), np.arange(len(tpks)), indexing="ij")
    I, J, T = [x.ravel() for x in g]
    lgms, tpks = f32(lgms), f32(tpks)
    for s in range(0, I.size, batch):
        ii, jj, tt = I[s : s + batch], J[s : s + batch], T[s : s + batch]
        n = ii.size
        if n < batch and I.size > batch:
            pad = batch - n
            ii = np.concatenate([ii, np.repeat(ii[:1], pad)])
            jj = np.concatenate([jj, np.repeat(jj[:1], pad)])
            tt = np.concatenate([tt, np.repeat(tt[:1], pad)])
        c = {k: v[ii] for k, v in col.items()}
        l, t = lgms[jj], tpks[tt]
        fc, fs, mm, mq, cm, cq, cqq = _eval(c, l, t)
        case = lambda idx: None if not idx else dict(params={k: float(v[idx[0]]) for k, v in c.items()}, logmp0=float(l[idx[0]]), tpeak=float(t[idx[0]]))
        for nm, got, ex in zip(MSN, mm, ref.mean_mseq(c, l)):
            ctx.close(f"mean {nm} (main sequence)", got, ex, 3e-6, 6e-5, case=case)
        for nm, got, ex in zip(MSN + QN, mq, ref.mean_qseq(c, l, t)):
            ctx.close(f"mean {nm} (quenched)", got, ex, 3e-6, 6e-5, case=case)
        for i, nm in ((2, "ul"), (3, "uh")):
            for m in (mm, mq):
                lo, hi = ref.LINE_LIMITS["mean_" + nm]
                v = np.asarray(m[i], dtype=np.float64)
                ctx.true(f"mean {nm} within its limits", (v >= lo - 2e-4 * (hi - lo)) & (v <= hi + 2e-4 * (hi - lo)), case)
        for i, nm in ((5, "uqs"), (6, "udrop"), (7, "urej")):
            lo, hi = ref.LINE_LIMITS["mean_" + nm]
            v = np.asarray(mq[i], dtype=np.float64)
            ctx.true(f"mean {nm} within its limits", (v >= lo - 2e-4 * (hi - lo)) & (v <= hi + 2e-4 * (hi - lo)), case)
        for what, cov, ex, nms in zip(("main-sequence", "quenched ms", "quenched q"), (cm, cq, cqq), ref.stds(c, l), (MSN, MSN, QN)):
            cov = np.asarray(cov, dtype=np.float64)
            if cov.shape != (ii.size, 4, 4):
                ctx.fail(f"{what} covariance shape {cov.shape}")
            e = np.zeros(cov.shape)
            tol = np.full(cov.shape, 1e-7)
            for i, nm in enumerate(nms):
                e[:, i, i] = ex[i] ** 2
                tol[:, i, i] = 2 * ex[i] * 4e-5 + 1e-7
                sd = np.sqrt(np.maximum(cov[:, i, i], 0))
                lo, hi = ref.LINE_LIMITS["std_" + nm]
                ctx.true(f"{what} scatter of {nm} within its limits", (sd >= lo * 0.999) & (sd <= hi + 2e-4 * (hi - lo)), case)
            ctx.close(f"{what} covariance", cov, e, 1e-5, tol, case=case)
            ctx.true(f"{what} covariance symmetric, diagonal", (np.abs(cov - np.swapaxes(cov, 1, 2)) <= 1e-7), case)
        ctx.ev(n)


def part_lattice(ctx):
    ps = [pop.interiorise(p, 2e-3) for p in pop.calibrations() + [pop.default()] + pop.contrast(20)]
    ps += [pop.at_frac(f) for f in (0.01, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 0.99)]
    _check(ctx, ps, np.linspace(9.5, 16, 53 if ctx.thorough else 27), TPK)
    ctx.sample(ps[0])


def part_sweeps(ctx):
    bases = [pop.interiorise(pop.default(), 2e-3), pop.at_frac(0.37)]
    fr = [0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99] if ctx.thorough else [0.02, 0.3, 0.7, 0.98]
    ps, _ = pop.sweeps(bases, fr)
    _check(ctx, ps, LGM if ctx.thorough else [10.8, 12.5, 12.9, 15.0], [2.0, 13.8] if not ctx.thorough else TPK[::2])


def part_pairs(ctx):
    """every pair of parameters at contrasting values."""
    K = list(ref.POP_BOUNDS)
    base = pop.at_frac(0.41)
    ps = []
    vals = [(0.05, 0.9), (0.9, 0.05), (0.95, 0.85), (0.1, 0.15)] if ctx.thorough else [(0.05, 0.9)]
    for a, b in vals:
        for i, j in itertools.combinations(K, 2):
            p = dict(base)
            p[i] = ref.POP_BOUNDS[i][0] + a * (ref.POP_BOUNDS[i][1] - ref.POP_BOUNDS[i][0])
            p[j] = ref.POP_BOUNDS[j][0] + b * (ref.POP_BOUNDS[j][1] - ref.POP_BOUNDS[j][0])
            ps.append(p)
    _check(ctx, ps, [11.4, 13.6] if not ctx.thorough else [10.8, 11.9, 12.5, 13.6, 15.0], [5.0, 13.0])


def part_lines(ctx):
    """every (intercept, slope) for every clipped line at once, slope zero included."""
    fi = [0.01, 0.03, 0.1, 0.25, 0.5, 0.75, 0.9, 0.97, 0.99]
    fsl = [0.01, 0.2, 0.4, 0.45, 0.49, 0.495, 0.4999, 0.5, 0.5001, 0.505, 0.51, 0.55, 0.6, 0.8, 0.99]
    ps = []
    for a, b in itertools.product(fi, fsl):
        p = pop.at_frac(0.5)
        for k in p:
            lo, hi = ref.POP_BOUNDS[k]
            if k.endswith("_int"):
                p[k] = lo + a * (hi - lo)
            elif k.endswith("_slp"):
                p[k] = lo + b * (hi - lo)
        ps.append(p)
    # slopes exactly zero one line at a time as well
    for k in ref.POP_BOUNDS:
        if k.endswith("_slp"):
            for base in (pop.at_frac(0.37), pop.interiorise(pop.default(), 2e-3)):
                p = dict(base)
                p[k] = 0.0
                ps.append(p)
    _check(ctx, ps, np.concatenate([np.linspace(10, 15.5, 34), [12.5]]) if ctx.thorough else LGM + [12.49, 12.51], [9.0])


def part_rolling(ctx):
    f4 = [0.01, 0.35, 0.7, 0.99]
    ps = []
    for w in itertools.product(f4, repeat=4):
        p = pop.at_frac(0.5)
        for q in ("mean_ulgm_mseq", "mean_ulgy_mseq", "mean_ulgm_qseq", "mean_ulgy_qseq", "mean_uqt"):
            for s, f in zip(("xtp", "ytp", "lo", "hi"), w):
                lo, hi = ref.POP_BOUNDS[f"{q}_{s}"]
                p[f"{q}_{s}"] = lo + f * (hi - lo)
        for s, f in zip(("x0", "k", "ylo", "yhi"), w[::-1]):
            lo, hi = ref.POP_BOUNDS[f"delta_uqt_{s}"]
            p[f"delta_uqt_{s}"] = lo + f * (hi - lo)
        p["delta_uqt_slope"] = -0.1 + 0.2 * w[0]
        ps.append(p)
    _check(ctx, ps, LGM, TPK if ctx.thorough else TPK[::2])


def part_line_fn(ctx):
    """the clipped line itself, for every line in bounds."""
    import jax
    from diffstar.diffstarpop.utils import smoothly_clipped_line

    f = jax.jit(jax.vmap(smoothly_clipped_line))
    rows = []
    lims = sorted(set(ref.LINE_LIMITS.values())) + [(0.0, 1.0), (-2.0, 10.0)]
    xs = np.linspace(9, 16, 141 if ctx.thorough else 29)
    for lo, hi in lims:
        for fy in (0.01, 0.05, 0.3, 0.5, 0.8, 0.95, 0.99):
            for m in (-20.0, -5.0, -1.0, -0.1, -1e-3, -1e-6, 0.0, 1e-6, 1e-3, 0.1, 1.0, 5.0, 20.0):
                for x0 in (12.5, 11.0):
                    rows.append((x0, lo + fy * (hi - lo), m, lo, hi))
    R = f32(np.array(rows))
    R = np.repeat(R, len(xs), axis=0)
    X = f32(np.tile(xs, len(rows)))
    got = np.asarray(f(*[a.astype(np.float32) for a in (X, R[:, 0], R[:, 1], R[:, 2], R[:, 3], R[:, 4])]), dtype=np.float64)
    case = lambda idx: dict(x=float(X[idx]), x0=R[idx][0], y0=R[idx][1], m=R[idx][2], lo=R[idx][3], hi=R[idx][4]) if idx else None
    exp = ref.clipped_line(X, R[:, 1], R[:, 2], R[:, 3], R[:, 4], x0=R[:, 0])
    ctx.close("clipped line", got, exp, 3e-6, 2e-5 * (R[:, 4] - R[:, 3]), case=case)
    sw = 2e-4 * (R[:, 4] - R[:, 3])  # smoothing width of the soft clip
    ctx.true("within limits", (got >= R[:, 3] - sw) & (got <= R[:, 4] + sw), case)
    y = R[:, 1] + R[:, 2] * (X - R[:, 0])
    mid = (y > R[:, 3] + 0.1 * (R[:, 1] - R[:, 3])) & (y < R[:, 4] - 0.1 * (R[:, 4] - R[:, 1]))
    ctx.close("a straight line away from the limits", got[mid], y[mid], 1e-5, 2e-4 * (R[:, 4] - R[:, 3])[mid])
    flat = R[:, 2] == 0
    ctx.close("flat line", got[flat], R[flat, 1], 1e-5, 2e-4 * (R[:, 4] - R[:, 3])[flat], case=lambda idx: dict(row=idx))
    d = np.diff(got.reshape(len(rows), len(xs)), axis=1)
    m = R[:: len(xs), 2]
    ctx.true("monotone in x with the sign of the slope", (d * np.sign(m)[:, None] >= -4e-4 * (R[:: len(xs), 4] - R[:: len(xs), 3])[:, None]), lambda idx: dict(row=rows[idx[0]]))
    ctx.ev(X.size)


def part_public(ctx):
    """the per-galaxy entry point agrees (infall inputs must not change means or covariances)."""
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as dsp

    ps = [pop.interiorise(p, 2e-3) for p in [pop.default()] + pop.calibrations() + pop.contrast(6)]
    for i, p in enumerate(ps):
        P = pop.nt(pop.cols([p]))
        P = P._make([x[0] for x in P])
        c = {k: float(v[0]) for k, v in pop.cols([p]).items()}
        for l in (11.0, 12.5, 14.5):
            for t in (3.0, 13.8):
                for inf in ((0.0, 0.0, -100.0), (-2.0, 13.5, 3.0)):
                    _, _, mm, mq, cm, cq, cqq = dsp._diffstarpop_means_covs(P, l, t, *inf)
                    ctx.close("means", np.array(mm, dtype=float), np.array(ref.mean_mseq(c, f32(l))), 3e-6, 6e-5)
                    ctx.close("means", np.array(mq, dtype=float), np.array(ref.mean_qseq(c, f32(l), f32(t))), 3e-6, 6e-5)
                    for cov, ex in zip((cm, cq, cqq), ref.stds(c, f32(l))):
                        ctx.close("covariance", np.asarray(cov), np.diag(np.array(ex) ** 2), 1e-3, 1e-6)
                        np.linalg.cholesky(np.asarray(cov, dtype=np.float64))
                    r2 = dsp._diffstarpop_means_covs_cen(P, l, t)
                    ctx.close("centrals-only means", np.array(r2[3], dtype=float), np.array(mq, dtype=float), 1e-6, 1e-6)
                    ctx.close("centrals-only means", np.array(r2[2], dtype=float), np.array(mm, dtype=float), 1e-6, 1e-6)
                    for a, b in zip(r2[4:], (cm, cq, cqq)):
                        ctx.close("centrals-only covariance", np.asarray(a), np.asarray(b), 1e-5, 1e-8)
                    ctx.ev(1)


def run(ctx):
    ctx.run_part("lattice", part_lattice)
    ctx.run_part("sweeps", part_sweeps)
    ctx.run_part("pairs", part_pairs)
    ctx.run_part("lines", part_lines)
    ctx.run_part("rolling", part_rolling)
    ctx.run_part("line_function", part_line_fn)
    ctx.run_part("public", part_public)
