"""C02: the quenching factor is a bounded drop-and-rejuvenate profile."""

import numpy as np

from . import gal, ref
from .core import f32

LEVEL = "exploration"
RULE = (
    "All events of a (quenching time x duration x drop x rejuvenation) lattice, each evaluated on the same ordered set of "
    "positions relative to the event (far before, at onset, between, at the bottom, between, at completion, far after) and on a "
    "fixed cosmic-time grid; every consecutive pair is a monotonicity transition. Non-trivial: points inside an event."
)


def events(ctx):
    th = ctx.thorough
    return gal.q_lattice(
        np.linspace(0.1, 2.0, 20) if not th else np.linspace(0.1, 2.0, 77),
        [-3.0, -2.5, -2.0, -1.5, -1.0, -0.75, -0.5, -0.25, -0.1, -0.01] if not th else np.linspace(-3.0, -0.01, 40),
        [-3.0, -2.0, -1.0, -0.5, -0.1, 0.0] if not th else np.linspace(-3, 0, 19),
        [0.0, 0.05, 0.5, 0.95, 1.0],
    )


POS = np.array([-40, -9, -7, -6.2, -6.0, -5.9, -5, -4.4, -4, -3.4, -3, -2.5, -2, -1.5, -1, -0.6, -0.3, 0.0,
                0.3, 0.6, 1, 1.5, 2, 2.5, 3, 3.4, 4, 4.4, 5, 5.9, 6.0, 6.2, 7, 9, 40.0])


def part_profile(ctx):
    import jax
    from diffstar.kernels.quenching_kernels import _quenching_kern

    kern = jax.jit(jax.vmap(_quenching_kern))
    qt, qd, dr, rj = events(ctx)
    n = len(qt)
    dt = 10.0**qd
    qt, dt, dr, rj = f32(qt), f32(dt), f32(dr), f32(rj)
    lgt = f32(qt[:, None] + POS[None, :] * dt[:, None] / 12.0)
    got = np.asarray(kern(*[x.astype(np.float32) for x in (lgt, qt, dt, dr, rj)]), dtype=np.float64)
    case = lambda idx: None if idx is None else dict(lgt=lgt[idx] if len(idx) > 1 else None, lg_qt=qt[idx[0]], lg_q_dt=dt[idx[0]], lg_drop=dr[idx[0]], lg_rejuv=rj[idx[0]])
    d = 3.0 * np.maximum(np.abs(lgt), np.maximum(np.abs(qt), 0.25)[:, None]) * 1.2e-7
    a = [10.0 ** ref.lg_qfunc_dt(lgt + s * d, qt[:, None], dt[:, None], dr[:, None], rj[:, None]) for s in (0, -1, 1, -0.5, 0.5)]
    bot = np.where(np.abs(lgt - qt[:, None]) <= d, 10.0 ** dr[:, None], a[0])
    a.append(bot)
    lo, hi = np.minimum.reduce(a), np.maximum.reduce(a)
    ctx.close("quenching factor", got, a[0], 3e-5, 1e-7, lo=lo, hi=hi, case=case)
    y = (lgt - qt[:, None]) / (dt[:, None] / 12)
    ctx.true("exactly 1 before onset", (got == 1.0) | (y > -6.05), case)
    ctx.true("never above 1", got <= 1.0 + 1e-6, case)
    ctx.true("never below the drop", got >= 10.0 ** dr[:, None] * (1 - 1e-5), case)
    ib = int(np.where(POS == 0)[0][0])
    noise = 1e-6 + np.maximum(hi[:, 1:] - lo[:, 1:], hi[:, :-1] - lo[:, :-1])
    ctx.true("falls up to the quenching time", np.diff(got[:, : ib + 1]) <= noise[:, :ib], case)
    ctx.true("rises after the quenching time", np.diff(got[:, ib:]) >= -noise[:, ib:], case)
    after = got[:, POS >= 6.2]
    ctx.true("constant after completion", after == after[:, :1], case)
    ctx.close("completed value", after[:, -1], 10.0**rj, 1e-5, case=case)
    ctx.ev(got.size, int((np.abs(POS) < 6).sum()) * n)
    ctx.sample(dict(events=n, positions_in_sigma=POS))
    # whole-array call with a shared event: same values as one by one
    for i in range(0, n, max(1, n // 60)):
        g1 = np.asarray(_quenching_kern(lgt[i].astype(np.float32), *[np.float32(x[i]) for x in (qt, dt, dr, rj)]))
        ctx.close("array call", g1, a[0][i], 3e-5, 1e-7, lo=lo[i], hi=hi[i], case=lambda idx: case((i,) + (idx or ())))
        ctx.ev(g1.size)


def part_u_params(ctx):
    import jax
    from diffstar.kernels.quenching_kernels import _quenching_kern_u_params

    kern = jax.jit(jax.vmap(_quenching_kern_u_params))
    ax = [-4.0, -1.5, 0.0, 0.7, 2.0, 5.0] if not ctx.thorough else [-6.0, -4.0, -2.5, -1.5, -0.5, 0.0, 0.7, 1.3, 2.0, 5.0]
    u = [x.ravel() for x in np.meshgrid(ax, ax, ax, ax, indexing="ij")]
    b = ref.bounded([0, 0, 0, 0] + u)[4:]
    lgt = f32(np.array([-2.0, -0.5, 0.0, 0.1, 0.4, 0.7, 0.9, 1.0, 1.1, 1.14, 1.4, 1.6, 1.9, 2.0, 2.2]))
    L = np.tile(lgt, (len(u[0]), 1))
    got = np.asarray(kern(*[x.astype(np.float32) for x in [L] + u]), dtype=np.float64)
    B = [x[:, None] for x in b]
    # parameters themselves carry float32 rounding; narrow events amplify it
    d = 4e-7 * np.maximum(1.0, np.abs(lgt))[None, :] + 3e-7 * np.abs(B[0])
    a = [10.0 ** ref.lg_qfunc(L + s * d, *B) for s in (0, -1, 1, -0.5, 0.5)]
    a.append(np.where(np.abs(L - B[0]) <= d, 10.0 ** B[2], a[0]))
    ctx.close("factor from unbounded parameters", got, a[0], 1e-3, 1e-6, lo=np.minimum.reduce(a), hi=np.maximum.reduce(a),
              case=lambda idx: None if idx is None else dict(u=[float(x[idx[0]]) for x in u], lgt=float(lgt[idx[1]])))
    ctx.ev(got.size)


def part_unquenched(ctx):
    from diffstar.defaults import DEFAULT_Q_PARAMS_UNQUENCHED, DEFAULT_Q_U_PARAMS_UNQUENCHED
    from diffstar.kernels.quenching_kernels import _quenching_kern, _quenching_kern_u_params

    lgt = np.linspace(-3, np.log10(30.0), 4001).astype(np.float32)
    q = [float(x) for x in DEFAULT_Q_PARAMS_UNQUENCHED]
    f = np.asarray(_quenching_kern(lgt, q[0], 10.0 ** q[1], q[2], q[3]))
    ctx.true("unquenched factor is 1", f == 1.0, lambda idx: dict(lgt=lgt[idx[0]], q=q))
    f = np.asarray(_quenching_kern_u_params(lgt, *[float(x) for x in DEFAULT_Q_U_PARAMS_UNQUENCHED]))
    ctx.true("unquenched factor is 1 (u_params)", f == 1.0, lambda idx: dict(lgt=lgt[idx[0]]))
    ctx.ev(2 * lgt.size)


def part_ratio(ctx):
    """ratio of star formation histories with and without the event."""
    qs = gal.q_lattice([0.12, 0.6, 0.95, 1.1, 1.6], [-2.5, -1.2, -0.5, -0.05], [-2.9, -1.0, -0.1], [0.0, 0.5, 1.0])
    S, M = gal.alphabet_cols()
    P, Q = gal.cross(S[:4] + M, qs)
    tt = f32([0.02, 0.5, 1.0, 1.2, 1.5, 2.0, 3.0, 4.0, 6.0, 8.0, 8.9, 9.5, 11.0, 12.6, 13.8, 20.0, 30.0])
    n = len(P[0])
    quen = gal.sfh_galpop(P[:4] + Q, P[4:], tt, ref.LGT0_DEFAULT, 0.156)
    free = gal.sfh_galpop(P[:4] + [np.full(n, x) for x in gal.UNQ], P[4:], tt, ref.LGT0_DEFAULT, 0.156)
    ok = (quen > 1e-12) & (free > 1e-12)
    r = np.where(ok, quen / free, 1.0)
    Qc = [f32(x)[:, None] for x in Q]
    lgt = np.log10(tt)[None, :]
    d = 3.0 * np.maximum(np.abs(lgt), np.maximum(np.abs(Qc[0]), 0.25)) * 1.2e-7
    a = [np.where(ok, 10.0 ** ref.lg_qfunc(lgt + s * d, *Qc), 1.0) for s in (0, -1, 1)]
    ctx.close("SFH ratio", r, a[0], 1e-3, lo=np.minimum.reduce(a), hi=np.maximum.reduce(a),
              case=gal.case_of(P[:4] + Q, P[4:], tt, ref.LGT0_DEFAULT, 0.156))
    ctx.ev(r.size, int(ok.sum()))


def run(ctx):
    ctx.run_part("profile", part_profile)
    ctx.run_part("u_params", part_u_params)
    ctx.run_part("unquenched", part_unquenched)
    ctx.run_part("sfh_ratio", part_ratio)
