"""C07: delay-averaged star formation rate."""

import itertools

import numpy as np

from . import ref
from .core import f32

LEVEL = "model_checking"
RULE = (
    "All words of (time step, mass step) letters up to the bound x delays (shorter than, equal to and longer than steps and table); "
    "each word is replayed on compute_fstar and compared with the piecewise-linear model."
)


def tol(t, m, delay):
    """float32 rounding of t - delay against table points (slopes) and of the mass difference."""
    eps = 1.2e-7
    n = t.size
    slope = np.zeros(n)
    if n > 1:
        s = np.abs(np.diff(m) / np.diff(t))
        slope = np.full(n, s.max())
    return (6 * eps * np.abs(m).max() + slope * 3 * eps * (t + delay)) / delay / 1e9


def check(ctx, fn, t, m, delay):
    got = np.asarray(fn(t.astype(np.float32), m.astype(np.float32), np.float32(delay)), dtype=np.float64)
    r = ref.fstar(t, m, float(np.float32(delay)))
    ctx.close("fstar", got, r, 1e-5, tol(t, m, delay), case=lambda idx: dict(t=t, m=m, delay=delay, i=idx))
    ctx.true("never negative", got >= 0, lambda idx: dict(t=t, m=m, delay=delay))


def part_words(ctx):
    import jax

    from diffstar.utils import compute_fstar

    DT = [0.125, 0.5, 1.0, 2.0]  # exactly representable: delays that land on table points are exact
    DM = [0.0, 1e6, 3e9, 1e11, -2e9]
    DEL = [0.125, 0.5, 1.0, 1.5, 3.0, 20.0]
    vf = jax.jit(jax.vmap(jax.vmap(compute_fstar, in_axes=(None, 0, None)), in_axes=(None, None, 0)))
    L = 5 if ctx.thorough else 4
    dl = np.array(DEL, dtype=np.float32)
    for n in range(1, L + 1):
        W = f32(np.array([np.cumsum([5e9] + list(w)) for w in itertools.product(DM, repeat=n - 1)]))
        for t0 in (0.125, 1.0):
            for dts in itertools.product(DT, repeat=n - 1):
                t = f32(np.cumsum([t0] + list(dts)))
                got = np.asarray(vf(t.astype(np.float32), W.astype(np.float32), dl), dtype=np.float64)
                for k, d in enumerate(DEL):
                    # explicit model: linear interpolation, flat before the table
                    tl = t - d
                    j = np.clip(np.searchsorted(t, tl, side="right") - 1, 0, max(n - 2, 0))
                    if n > 1:
                        f = np.clip((tl - t[j]) / (t[j + 1] - t[j]), 0, None)
                        low = W[:, j] + f * (W[:, j + 1] - W[:, j])
                        low = np.where(tl <= t[0], W[:, :1], low)
                    else:
                        low = W
                    r = np.maximum((W - low) / d / 1e9, 0.0)
                    at = 2e-6 * np.abs(W).max(axis=1, keepdims=True) / d / 1e9
                    ctx.close("fstar", got[k], r, 1e-5, at, case=lambda idx: dict(t=t, m=W[idx[0]] if idx else None, delay=d))
                    ctx.true("never negative", got[k] >= 0, lambda idx: dict(t=t, m=W[idx[0]], delay=d))
                ctx.st(states=len(W) * len(DEL), transitions=len(W) * len(DEL) * n, traces=len(W) * len(DEL))
    ctx.sample(dict(max_length=L, dt=DT, dm=DM, delays=DEL))


def part_direct(ctx):
    from diffstar.utils import compute_fstar

    for n in (1, 2, 5, 40, 100):
        for kind in range(3):
            t = f32([np.linspace(0.1, 13.8, n), np.logspace(-1, np.log10(13.8), n), np.linspace(0.3, 3.7, n) ** 2][kind])
            for m in (1e10 * (t / 13.8) ** 2, 1e10 * np.ones(n), 1e11 / (1 + np.exp(-3 * (t - 4))), 1e10 * (1 + 0.3 * np.sin(3 * t))):
                for d in (0.05, 0.3, 1.0, 2.5, 13.7, 40.0):
                    check(ctx, compute_fstar, t, f32(m), d)
                    ctx.st(states=n, transitions=n, traces=1)


def run(ctx):
    ctx.run_part("words", part_words)
    ctx.run_part("direct", part_direct)
