"""Population-parameter lattices and batched evaluation of the real population kernels."""

import numpy as np

from . import ref
from .core import f32

SIMS = ("smdpl_dr1_nomerging", "smdpl_dr1", "tng", "galacticus_in_situ", "galacticus_in_plus_ex_situ")


def names():
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS

    return DEFAULT_DIFFSTARPOP_PARAMS._fields


def default():
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS

    return {k: float(v) for k, v in DEFAULT_DIFFSTARPOP_PARAMS._asdict().items()}


def at_frac(fr):
    """all parameters at the same fraction of their bounds; fr scalar or dict."""
    out = {}
    for k, (lo, hi) in ref.POP_BOUNDS.items():
        f = fr.get(k, 0.5) if isinstance(fr, dict) else fr
        out[k] = lo + f * (hi - lo)
    return out


def calibrations():
    from diffstar.diffstarpop.kernels.params import (
        DiffstarPop_Params_Diffstarfits_mgash as A,
        DiffstarPop_Params_Diffstarpopfits_mgash as B,
    )

    return [{k: float(v) for k, v in T[s]._asdict().items()} for T in (A, B) for s in T]


def interiorise(p, eps=1e-3):
    """clip every parameter to [lo+eps*range, hi-eps*range]"""
    out = {}
    for k, (lo, hi) in ref.POP_BOUNDS.items():
        d = eps * (hi - lo)
        out[k] = min(max(p[k], lo + d), hi - d)
    return out


def cols(plist):
    """list of dicts -> dict of float32-exact float64 columns"""
    return {k: f32(np.array([p[k] for p in plist])) for k in ref.POP_BOUNDS}


def nt(col):
    """dict of columns (or scalars) -> DiffstarPopParams of float32"""
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS as D

    return D._make([np.asarray(col[k], dtype=np.float32) for k in D._fields])


def contrast(n, nlev=5, lo=0.02, hi=0.98):
    """n contrasting parameter sets: low-discrepancy-free, purely combinatorial fractions (i*(k+1)+k mod nlev)."""
    lev = np.linspace(lo, hi, nlev)
    out = []
    for i in range(n):
        out.append(at_frac({k: lev[(i * (j % (nlev - 1) + 1) + j) % nlev] for j, k in enumerate(ref.POP_BOUNDS)}))
    return out


def sweeps(bases, fracs):
    """every single-parameter deviation from each base."""
    out, tag = [], []
    for b, base in enumerate(bases):
        for k, (lo, hi) in ref.POP_BOUNDS.items():
            for f in fracs:
                p = dict(base)
                p[k] = lo + f * (hi - lo)
                out.append(p)
                tag.append((b, k, f))
    return out, tag
