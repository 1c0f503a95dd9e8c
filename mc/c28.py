"""C28: the model is differentiable: gradients are finite and correct."""

import contextlib
import itertools

import numpy as np

from . import gal, pop, ref
from .core import Violation, f32

LEVEL = "exploration"
RULE = (
    "Full lattices of galaxies x halos x times (and, for finiteness, of saturated unbounded parameters), every parameter direction: forward- and reverse-mode "
    "derivatives of log star formation rate and log stellar mass; fit loss over histories x halos x options x parameter points; quenched fractions, means and "
    "covariances of the population model over parameter sets x halos x infall histories, every one of the population directions. Derivatives in "
    "single precision (as used) and in double precision are compared with central finite differences of the same public functions evaluated in double "
    "precision. Points where the function has a kink (one-sided differences disagree) are excluded and counted; the check fails if they exceed a small share. "
    "Non-trivial = non-zero derivative."
)
ASSUMPTIONS = ["finite differences of the real functions in double precision; step 1e-6 in unbounded parameters"]
ORACLE = "finite differences of the functions themselves"

H = 1e-6


@contextlib.contextmanager
def x64():
    import jax

    old = jax.config.jax_enable_x64
    jax.config.update("jax_enable_x64", True)
    try:
        yield
    finally:
        jax.config.update("jax_enable_x64", old)


class Tally:
    def __init__(self):
        self.n = self.kink = self.nonzero = 0
        self.worst = dict(f32=0.0, f64=0.0)


def compare(ctx, what, jac32, jac64, f0, fp, fm, tal, case, rtol32=2e-2, atol32=5e-3, rtol64=1e-4, atol64=1e-6, scale_axis=-1):
    """jac: (..., d); f0 (...), fp/fm: (..., d) displaced values."""
    jac32, jac64 = np.asarray(jac32, dtype=float), np.asarray(jac64, dtype=float)
    ctx.true(f"{what}: derivative finite", np.isfinite(jac32), lambda i: case(i))
    ctx.true(f"{what}: derivative finite (double precision)", np.isfinite(jac64), lambda i: case(i))
    ctx.true(f"{what}: finite", np.isfinite(f0), lambda i: case(i))
    fd = (fp - fm) / (2 * H)
    r, l = (fp - f0[..., None]) / H, (f0[..., None] - fm) / H
    top = np.maximum(np.abs(fd).max(axis=scale_axis, keepdims=True), 0)
    kink = np.abs(r - l) > 1e-3 * np.maximum(np.abs(r), np.abs(l)) + 1e-5 * np.maximum(1, np.abs(f0))[..., None]
    e64 = np.abs(jac64 - fd) - (rtol64 * np.abs(fd) + 1e-5 * top + atol64)
    e32 = np.abs(jac32 - fd) - (rtol32 * np.abs(fd) + 2e-3 * top + atol32)
    for nm, e, j in (("double precision", e64, jac64), ("single precision", e32, jac32)):
        bad = (e > 0) & ~kink
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f"{what}: derivative ({nm}) {j[i]:.6g}, finite difference {fd[i]:.6g} at {i}; {int(bad.sum())}/{bad.size} wrong", case(i))
    # where the function has a kink the derivative lies between the one-sided ones
    lo, hi = np.minimum(r, l), np.maximum(r, l)
    slack = 2e-2 * np.maximum(np.abs(lo), np.abs(hi)) + 5e-3 + 2e-3 * top
    tal.n += fd.size
    tal.kink += int(kink.sum())
    tal.nonzero += int((np.abs(fd) > 1e-6).sum())
    ctx.ev(fd.size, int((np.abs(fd) > 1e-6).sum()))
    return kink, lo - slack, hi + slack


def finish(ctx, what, tal, share=0.01):
    if tal.kink > share * tal.n:
        raise Violation(f"{what}: one-sided differences disagree at {tal.kink} of {tal.n} points", {})
    if tal.nonzero < 0.05 * tal.n:
        raise Violation(f"{what}: vacuous, {tal.nonzero} non-zero derivatives of {tal.n}", {})
    ctx.extra.setdefault("derivatives", {})[what] = dict(compared=tal.n, kinks=tal.kink, nonzero=tal.nonzero)


# ------------------------------------------------------------------ star formation histories
def _model(lgt0=1.14, fb=0.156):
    import jax.numpy as jnp
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

    from diffstar import DEFAULT_DIFFSTAR_U_PARAMS, calc_sfh_singlegal, get_bounded_diffstar_params

    def f(u, m, t):
        p = get_bounded_diffstar_params(DEFAULT_DIFFSTAR_U_PARAMS._make([u[i] for i in range(8)]))
        r = calc_sfh_singlegal(p, DEFAULT_MAH_PARAMS._make([m[i] for i in range(5)]), t, lgt0=lgt0, fb=fb, return_smh=True)
        return jnp.stack([jnp.log10(r.sfh), jnp.log10(r.smh)])

    return f


def _galaxies(thorough):
    fr = (0.15, 0.5, 0.85)
    ms = list(itertools.product([gal.interior("lgmcrit", [f])[0] for f in fr], [-11.0, -9.2], [0.3, 3.5], [-3.5, -0.4]))
    q = []
    for qt, dt, dr, rj in itertools.product((0.3, 0.8, 1.3), (-2.5, -0.6, -0.05), (-2.8, -1.0, -0.2), (0.05, 0.5, 0.95)):
        q.append((qt, dt, dr, dr * (1 - rj)))
    q.append(tuple(gal.UNQ))
    if not thorough:
        q = q[::4] + [q[-1]]
    return np.array([a + b for a, b in itertools.product(ms, q)])


def part_sfh(ctx):
    import jax

    P = _galaxies(ctx.thorough)
    U = f32(np.array(ref.unbounded(P.T)).T)
    U = U[np.isfinite(U).all(axis=1)]
    M = f32(np.array([m for _, m in gal.ALPHABET]))
    t = f32([0.12, 0.5, 1.0, 1.7, 2.5, 3.6, 5.0, 6.8, 8.0, 9.5, 11.7, 13.8])
    if not ctx.thorough:
        M = M[:4]
    i, j = [v.ravel() for v in np.meshgrid(np.arange(len(U)), np.arange(len(M)), indexing="ij")]
    uu, mm = U[i], M[j]
    f = _model()
    B = 1024
    tal = Tally()

    def batches(fn, *cols):
        out = []
        n = len(cols[0])
        for s in range(0, n, B):
            c = [x[s : s + B] for x in cols]
            k = len(c[0])
            if k < B:
                c = [np.concatenate([x, np.repeat(x[:1], B - k, axis=0)]) for x in c]
            out.append(np.asarray(fn(*c), dtype=float)[:k])
        return np.concatenate(out)

    fwd = jax.jit(jax.vmap(jax.jacfwd(f), in_axes=(0, 0, None)))
    t32 = t.astype("f4")
    J32 = batches(lambda u, m: fwd(u.astype("f4"), m.astype("f4"), t32), uu, mm)
    with x64():
        fwd64 = jax.jit(jax.vmap(jax.jacfwd(f), in_axes=(0, 0, None)))
        val = jax.jit(jax.vmap(f, in_axes=(0, 0, None)))
        J64 = batches(lambda u, m: fwd64(u, m, t), uu, mm)
        f0 = batches(lambda u, m: val(u, m, t), uu, mm)
        fp, fm = [], []
        for d in range(8):
            e = np.zeros(8)
            e[d] = H
            fp.append(batches(lambda u, m: val(u + e, m, t), uu, mm))
            fm.append(batches(lambda u, m: val(u - e, m, t), uu, mm))
        if f0.dtype != np.float64 or np.abs(f0 - f32(f0)).max() == 0:
            raise Violation("harness: double precision is off")
    case = lambda k: dict(u_params=uu[k[0]], params=np.array(ref.bounded(uu[k[0]])), mah=mm[k[0]], quantity=("log sfr", "log mass")[k[1]] if len(k) > 1 else None, t=t[k[2]] if len(k) > 2 else None, parameter=ref.NAMES[k[3]] if len(k) > 3 else None)
    compare(ctx, "star formation history", J32, J64, f0, np.stack(fp, -1), np.stack(fm, -1), tal, case)
    finish(ctx, "star formation history", tal)
    # reverse mode: the same numbers
    sub = np.arange(0, len(uu), 3 if ctx.thorough else 11)
    rev = jax.jit(jax.vmap(jax.jacrev(f), in_axes=(0, 0, None)))
    R = batches(lambda u, m: rev(u.astype("f4"), m.astype("f4"), t32), uu[sub], mm[sub])
    ctx.close("reverse mode equals forward mode", R, J32[sub], 2e-3, 2e-3, case=lambda k: case((sub[k[0]],) + k[1:]))
    ctx.sample(dict(galaxies=len(U), halos=len(M), times=len(t), **vars(tal)))


def part_saturated(ctx):
    """unbounded parameters far out: derivatives stay finite."""
    import jax

    f = _model()
    vals = [-1e3, -80.0, 80.0, 1e3]
    base = f32(np.array(ref.unbounded(np.array(gal.ALPHABET[0][0]))))
    rows = []
    for d in range(8):
        for v in vals:
            r = base.copy()
            r[d] = v
            rows.append(r)
    for a, b in itertools.combinations(range(8), 2):
        for x, y in itertools.product((-80.0, 80.0), repeat=2):
            r = base.copy()
            r[a], r[b] = x, y
            rows.append(r)
    U = np.array(rows)
    t = f32([0.12, 1.0, 4.0, 9.0, 13.8])
    for mode in (jax.jacfwd, jax.jacrev):
        g = jax.jit(jax.vmap(mode(f), in_axes=(0, None, None)))
        for m in gal.ALPHABET[:3]:
            J = np.asarray(g(U.astype("f4"), np.array(m[1], "f4"), t.astype("f4")))
            ctx.true("derivative finite at saturated parameters", np.isfinite(J), lambda k: dict(u_params=U[k[0]], mah=m[1], t=t[k[2]], parameter=ref.NAMES[k[3]], mode=mode.__name__))
            ctx.ev(J.size, int((J != 0).sum()))
    ctx.sample(dict(points=len(U)))


# ------------------------------------------------------------------ fit loss
def part_loss(ctx):
    import jax

    from diffstar.fitting_helpers.diffstar_fitting_helpers import loss_default_clipssfrh, loss_grad_default_clipssfrh_np

    from . import c19

    T = c19.tables()
    P = c19.ulattice()[:: 3 if ctx.thorough else 23]
    P = np.concatenate([P, np.array(list(c19.GALP.values()))])
    U = f32(np.array(ref.unbounded(P.T)).T)
    tal = Tally()
    opts = c19.options(False)
    k = 0
    with x64():
        val = jax.jit(jax.vmap(loss_default_clipssfrh, in_axes=(0, None)))
        g64 = jax.jit(jax.vmap(jax.grad(loss_default_clipssfrh), in_axes=(0, None)))
    v32 = jax.jit(jax.vmap(jax.grad(loss_default_clipssfrh), in_axes=(0, None)))
    Hs = {tn: c19.histories(t) for tn, t in T.items()}
    for tn, t in T.items():
        for gn, g in c19.GALP.items():
            Hs[tn]["gal_" + gn] = f32(ref.sfh(np.array(g), c19.MAHS["mw"], t, 1.14, 0.156))
    for (tn, t) in T.items():
        for hn, h in Hs[tn].items():
            k += 1
            if not ctx.thorough and k % 3 and not hn.startswith("gal"):
                continue
            mn = list(c19.MAHS)[k % 4] if not hn.startswith("gal_") else "mw"
            o = opts[(k * 5) % len(opts)] if k % 2 else opts[0]
            (u0, e0), ld = c19.get(t, h, c19.MAHS[mn], o, lgt0=1.14, fb=0.156)
            ld = tuple(ld)
            uu = np.concatenate([U, f32(np.asarray(u0, dtype=float))[None]])
            G = np.asarray(v32(uu.astype("f4"), ld), dtype=float)
            for r in (0, len(uu) - 1):
                a = loss_grad_default_clipssfrh_np(uu[r].astype("f4"), ld)
                if not (isinstance(a, np.ndarray) and a.dtype == np.float64 and a.shape == (8,)):
                    raise Violation("gradient handed to SciPy is not a float64 array of 8", dict(got=repr(a)))
                ctx.close("gradient handed to SciPy", a, G[r], 2e-3, 2e-3 * np.abs(G[r]).max() + 1e-3, case=lambda i: dict(table=tn, history=hn, halo=mn, **o))
            with x64():
                ld64 = jax.tree_util.tree_map(lambda x: np.asarray(x, dtype=np.float64), ld)
                G64 = np.asarray(g64(uu, ld64))
                f0 = np.asarray(val(uu, ld64))
                E = np.eye(8) * H
                fp = np.stack([np.asarray(val(uu + E[d], ld64)) for d in range(8)], -1)
                fm = np.stack([np.asarray(val(uu - E[d], ld64)) for d in range(8)], -1)
            case = lambda i: dict(table=tn, history=hn, halo=mn, u_params=uu[i[0]], params=np.array(ref.bounded(uu[i[0]])), parameter=ref.NAMES[i[1]] if len(i) > 1 else None, **o)
            compare(ctx, "fit loss", G, G64, f0, fp, fm, tal, case, rtol32=3e-2, atol32=2e-2, atol64=1e-5)
    finish(ctx, "fit loss", tal, 0.02)
    ctx.sample(dict(points=len(U), **vars(tal)))


# ------------------------------------------------------------------ population
def part_pop(ctx):
    import jax
    import jax.numpy as jnp

    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_U_PARAMS as DU
    from diffstar.diffstarpop import get_bounded_diffstarpop_params
    from diffstar.diffstarpop.kernels import diffstarpop_mgash as dsp

    nf = len(DU)

    def f(u, x):
        p = get_bounded_diffstarpop_params(DU._make([u[i] for i in range(nf)]))
        r = dsp._diffstarpop_means_covs(p, x[0], x[1], x[2], x[3], x[4])
        return jnp.concatenate([jnp.ravel(v) for v in jax.tree_util.tree_leaves(r)])

    plist = [pop.default()] + pop.calibrations() + pop.contrast(6 if ctx.thorough else 3, lo=0.1, hi=0.9)
    plist = [pop.interiorise(p, 0.01) for p in plist]
    U = f32(np.array([[float(ref.pop_unbounded(n[2:], p[n[2:]])) for n in DU._fields] for p in plist]))
    X = np.array(list(itertools.product([10.8, 11.9, 12.6, 13.5, 15.0], [2.0, 8.0, 13.9], [-3.0, -0.7], [12.2, 14.4], [-1.0, 0.8, 5.0])))
    if not ctx.thorough:
        X = X[::5]
        U = U[::2]
    X = f32(X)
    i, j = [v.ravel() for v in np.meshgrid(np.arange(len(U)), np.arange(len(X)), indexing="ij")]
    uu, xx = U[i], X[j]
    J32 = np.asarray(jax.jit(jax.vmap(jax.jacfwd(f)))(uu.astype("f4"), xx.astype("f4")), dtype=float)
    sub = np.arange(0, len(uu), 7)
    R = np.asarray(jax.jit(jax.vmap(jax.jacrev(f)))(uu[sub].astype("f4"), xx[sub].astype("f4")), dtype=float)
    case = lambda k: dict(u_params=dict(zip(DU._fields, uu[k[0]])), halo=dict(zip(("logmp0", "tpeak", "lgmu", "lgmhost", "gyr"), xx[k[0]])), output=k[1] if len(k) > 1 else None, parameter=DU._fields[k[2]] if len(k) > 2 else None)
    ctx.close("reverse mode equals forward mode", R, J32[sub], 2e-3, 2e-4, case=lambda k: case((sub[k[0]],) + k[1:]))
    with x64():
        val = jax.jit(jax.vmap(f))
        J64 = np.asarray(jax.jit(jax.vmap(jax.jacfwd(f)))(uu, xx))
        f0 = np.asarray(val(uu, xx))
        E = np.eye(nf) * H
        fp = np.stack([np.asarray(val(uu + E[d], xx)) for d in range(nf)], -1)
        fm = np.stack([np.asarray(val(uu - E[d], xx)) for d in range(nf)], -1)
    tal = Tally()
    compare(ctx, "population model", J32, J64, f0, fp, fm, tal, case, atol32=1e-3)
    # every population parameter matters somewhere
    fd = np.abs(fp - fm).max(axis=(0, 1))
    dead = [DU._fields[d] for d in np.flatnonzero(fd == 0)]
    if dead:
        raise Violation(f"parameters without any effect: {dead}", {})
    tal.nonzero = tal.n  # each parameter touches few outputs: vacuity judged per parameter above
    finish(ctx, "population model", tal)
    ctx.sample(dict(sets=len(U), halos=len(X), directions=nf, **vars(tal)))


def run(ctx):
    ctx.run_part("sfh", part_sfh)
    ctx.run_part("saturated", part_saturated)
    ctx.run_part("loss", part_loss)
    ctx.run_part("pop", part_pop)
