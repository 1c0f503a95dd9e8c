"""C03: galaxy parameter transforms."""

import itertools

import numpy as np

from . import ref
from .core import f32

LEVEL = "exploration"
RULE = (
    "All vectors of a 3^8 lattice of unbounded values, all one-coordinate scans over a long value ladder (incl. +-1000) from "
    "several base points, all pairwise (drop, rejuvenation) combinations; the same for interior bounded vectors. "
    "Non-trivial: the value is strictly inside its bounds."
)


def cols(vecs):
    return list(np.asarray(vecs, dtype=np.float64).T)


def _apis():
    import jax
    from diffstar import DiffstarParams, DiffstarUParams, get_bounded_diffstar_params, get_unbounded_diffstar_params
    from diffstar.kernels.main_sequence_kernels import _get_bounded_sfr_params_vmap, _get_unbounded_sfr_params_vmap
    from diffstar.kernels.quenching_kernels import _get_bounded_q_params_vmap, _get_unbounded_q_params_vmap

    def b(c):
        r = get_bounded_diffstar_params(DiffstarUParams(**{"u_" + n: np.asarray(x, np.float32) for n, x in zip(ref.NAMES, c)}))
        return [np.asarray(getattr(r, n), dtype=np.float64) for n in ref.NAMES]

    def u(c):
        r = get_unbounded_diffstar_params(DiffstarParams(**{n: np.asarray(x, np.float32) for n, x in zip(ref.NAMES, c)}))
        return [np.asarray(getattr(r, "u_" + n), dtype=np.float64) for n in ref.NAMES]

    def bp(c):
        m = np.array(c, np.float32).T
        return list(np.concatenate([np.asarray(_get_bounded_sfr_params_vmap(m[:, :4])), np.asarray(_get_bounded_q_params_vmap(m[:, 4:]))], axis=1).astype(np.float64).T)

    def up(c):
        m = np.array(c, np.float32).T
        return list(np.concatenate([np.asarray(_get_unbounded_sfr_params_vmap(m[:, :4])), np.asarray(_get_unbounded_q_params_vmap(m[:, 4:]))], axis=1).astype(np.float64).T)

    return b, u, bp, up


def u_vectors(ctx):
    ax = [-3.0, 0.4, 2.7]
    v = [list(x) for x in itertools.product(ax, repeat=8)]
    ladder = [-1000.0, -100.0, -30.0, -10.0, -5.0, -3.0, -2.0, -1.0, -0.5, 0.0, 0.3, 1.0, 1.7, 3.0, 5.0, 10.0, 12.0, 30.0, 100.0, 1000.0]
    bases = [[0.0] * 8, [11.25, -10.0, 2.5, -2.5, 1.05, -1.5, -1.5, -1.5], [12.0, -9.5, 1.0, -0.5, 1.2, -0.7, -2.5, -2.5]]
    for b in bases:
        for j in range(8):
            for x in ladder:
                w = list(b)
                w[j] = x
                v.append(w)
        for x in ladder:
            for y in ladder:
                w = list(b)
                w[6], w[7] = x, y
                v.append(w)
    return v


def part_bounded(ctx):
    b, u, bp, up = _apis()
    V = u_vectors(ctx)
    c = [f32(x) for x in cols(V)]
    r = ref.bounded(c)
    for nm, f in (("single", b), ("population", bp)):
        got = f(c)
        for j, n in enumerate(ref.NAMES):
            lo, hi = ref.BOUNDS[n]
            case = lambda idx: None if not idx else dict(u=[x[idx[0]] for x in c])
            ctx.close(f"bounded {n} ({nm})", got[j], r[j], 2e-6, 2e-5, case=case)
            # near the bounds the distance to the bound itself is a property of the map: check it relatively
            ctx.true(f"{n} inside bounds ({nm})", (got[j] >= lo - 1e-6) & (got[j] <= hi + 1e-6), case)
        ctx.true(f"rejuvenation >= drop ({nm})", got[7] >= got[6] - 1e-7, lambda idx: dict(u=[x[idx[0]] for x in c]))
        ctx.ev(len(V) * 8, int(sum(((x > ref.BOUNDS[n][0] + 1e-6) & (x < ref.BOUNDS[n][1] - 1e-6)).sum() for x, n in zip(r, ref.NAMES))))
    ctx.sample(dict(vectors=len(V), first=V[0], last=V[-1]))


def part_monotone(ctx):
    b, u, bp, up = _apis()
    bases = [[0.0] * 8, [11.0, -10.0, 2.0, -2.0, 1.0, -1.5, -1.5, -1.5], [5.0, -5.0, 5.0, 3.0, -3.0, 2.0, -4.0, 2.0]]
    for base in bases:
        for j, n in enumerate(ref.NAMES):
            lo, hi = ref.BOUNDS[n]
            mid, w = 0.5 * (lo + hi), (hi - lo) / 4
            xs = mid + w * np.linspace(-8, 8, 161)
            m = np.tile(np.array(base), (161, 1))
            m[:, j] = xs
            c = [f32(x) for x in m.T]
            got = b(c)
            ctx.true(f"{n} non-decreasing in its own coordinate", np.diff(got[j]) >= -2e-7, lambda idx: dict(base=base, u=xs[idx[0]]))
            ctx.true(f"{n} strictly increasing in the centre", np.diff(got[j][40:121]) > 0, lambda idx: dict(base=base, u=xs[40 + idx[0]]))
            for k in range(8):
                if k != j and not (j == 6 and k == 7):
                    ctx.true(f"{ref.NAMES[k]} unaffected by {n}", got[k] == got[k][0], lambda idx: dict(base=base, u=xs[idx[0]]))
            ctx.ev(161 * 8)


def part_roundtrip(ctx):
    b, u, bp, up = _apis()
    fr = [0.02, 0.5, 0.9] if not ctx.thorough else [0.005, 0.3, 0.7, 0.99]
    V = []
    for f in itertools.product(fr, repeat=8):
        p = [ref.BOUNDS[n][0] + x * (ref.BOUNDS[n][1] - ref.BOUNDS[n][0]) for n, x in zip(ref.NAMES, f)]
        p[7] = p[6] + f[7] * (0.0 - p[6])
        V.append(p)
    c = [f32(x) for x in cols(V)]
    ru = ref.unbounded(c)
    for nm, fb, fu in (("single", b, u), ("population", bp, up)):
        gu = fu(c)
        back = fb([f32(x) for x in gu])
        for j, n in enumerate(ref.NAMES):
            case = lambda idx: None if not idx else dict(p=[x[idx[0]] for x in c])
            ctx.close(f"unbounded {n} ({nm})", gu[j], ru[j], 5e-4, 1e-3, case=case)
            ctx.close(f"round trip {n} ({nm})", back[j], c[j], 1e-5, 3e-5, case=case)
        ctx.ev(len(V) * 16)
    # reverse: unbounded -> bounded -> unbounded, within 2.5 widths of the centre
    st = [-2.0, -0.4, 1.5]
    U = []
    for f in itertools.product(st, repeat=8):
        U.append([0.5 * sum(ref.BOUNDS[n]) + x * (ref.BOUNDS[n][1] - ref.BOUNDS[n][0]) / 4 for n, x in zip(ref.NAMES, f)])
    c = [f32(x) for x in cols(U)]
    for nm, fb, fu in (("single", b, u), ("population", bp, up)):
        back = fu([f32(x) for x in fb(c)])
        for j, n in enumerate(ref.NAMES):
            ctx.close(f"reverse round trip {n} ({nm})", back[j], c[j], 2e-4, 5e-4, case=lambda idx: None if not idx else dict(u=[x[idx[0]] for x in c]))
        ctx.ev(len(U) * 8)
    ctx.sample(dict(vectors=len(V), first=V[0], last=V[-1]))


def part_scalar_rows(ctx):
    """single-galaxy scalar calls agree with the rows of the stacked ones, one row at a time."""
    b, u, bp, up = _apis()
    V = u_vectors(ctx)[::61]
    c = [f32(x) for x in cols(V)]
    stack = bp(c)
    for i in range(len(V)):
        one = b([x[i] for x in c])
        for j, n in enumerate(ref.NAMES):
            ctx.close(f"row {i} {n}", one[j], stack[j][i], 1e-6, 1e-7, case=lambda idx: dict(u=V[i]))
        ctx.ev(8)


def run(ctx):
    ctx.run_part("bounded", part_bounded)
    ctx.run_part("monotone", part_monotone)
    ctx.run_part("roundtrip", part_roundtrip)
    ctx.run_part("scalar_rows", part_scalar_rows)
    # declared defaults
    ctx.run_part("defaults", part_defaults)


def part_defaults(ctx):
    import diffstar
    from diffstar import defaults as d

    ctx.true("field order", diffstar.DEFAULT_DIFFSTAR_PARAMS._fields == ref.NAMES)
    ctx.true("u field order", diffstar.DEFAULT_DIFFSTAR_U_PARAMS._fields == tuple("u_" + n for n in ref.NAMES))
    dp = [float(x) for x in diffstar.DEFAULT_DIFFSTAR_PARAMS]
    ctx.true("default params inside bounds", [ref.BOUNDS[n][0] < x < ref.BOUNDS[n][1] for n, x in zip(ref.NAMES, dp)])
    ctx.close("default unbounded params", [float(x) for x in diffstar.DEFAULT_DIFFSTAR_U_PARAMS], ref.unbounded(dp), 1e-4, 1e-4)
    ctx.close("unquenched", [float(x) for x in d.DEFAULT_Q_PARAMS_UNQUENCHED], ref.bounded([0, 0, 0, 0, 5.0, 5.0, 5.0, 5.0])[4:], 1e-4, 1e-5)
    ctx.ev(20)
