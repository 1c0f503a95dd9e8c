"""C22: partial loads equal slices of the full load; unfit halos are marked."""

import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np

from . import ref
from .core import Violation

LEVEL = "model_checking"
RULE = (
    "Model of a flat table = its columns; every table length up to the bound x every (start, end) pair including omitted, negative-free "
    "empty and beyond-the-end ones x every subset of requested columns, and every partition of the rows into consecutive blocks. Halo fits: all words over fit letters "
    "(good fit, negative loss, too few points, both, exactly enough points, zero loss) x thresholds x epochs, loaded whole and by every block."
)
ORACLE = "the table itself; float64 halo mass law"

FIT = {  # loss, n_points (relative to threshold), mah params
    "g": (0.01, 10, (12.3, 0.05, 2.6, 0.2, 13.0)),
    "h": (2.5, 3, (14.1, 0.4, 4.0, 1.0, 20.0)),
    "e": (0.3, 0, (11.2, -0.3, 3.1, 0.3, 4.0)),  # exactly enough points
    "z": (0.0, 1, (13.3, 0.2, 2.2, 0.1, 9.0)),  # loss exactly zero
    "n": (-1.0, 7, (-1.0, -1.0, -1.0, -1.0, -1.0)),  # no fit
    "f": (0.02, -1, (12.9, 0.1, 3.0, 0.4, 11.0)),  # too few points
    "b": (-1.0, -4, (0.0, 0.0, 0.0, 0.0, 0.0)),
    "s": (-1e-6, 5, (12.0, 0.1, 2.0, 0.5, 8.0)),  # slightly negative loss
}
NAMES = ("logm0", "logtc", "early_index", "late_index", "t_peak")


def _cols(n):
    i = np.arange(n)
    return {
        "a": i.astype("i8") * 7 + 2**40,
        "b": (np.sin(i) * 10).astype("f4"),
        "vec": np.stack([i * 1.5, -i], axis=1).reshape(n, 2),
        "flag": (i % 3 == 0),
    }


def part_slices(ctx, d):
    from diffstar.data_loaders import load_flat_hdf5

    N = 7 if ctx.thorough else 5
    keys = ["a", "b", "vec", "flag"]
    for n in range(0, N + 1):
        C = _cols(n)
        fn = os.path.join(d, f"t{n}.h5")
        with h5py.File(fn, "w") as f:
            for k, v in C.items():
                f[k] = v
        sets = [None] + [list(s) for r in range(0, 5) for s in itertools.combinations(keys, r)] + [["vec", "a"]]
        for s, e, ks in itertools.product([None] + list(range(0, n + 3)), [None, "omit"] + list(range(0, n + 3)), sets):
            kw = {}
            if s is not None:
                kw["istart"] = s
            if e != "omit":
                kw["iend"] = e
            if ks is not None:
                kw["keys"] = ks
            c = dict(rows=n, **kw)
            r = load_flat_hdf5(fn, **kw)
            if set(r) != set(keys if ks is None else ks):
                raise Violation(f"columns {sorted(r)} returned", c)
            for k in r:
                ex = C[k][(s or 0) : (None if e in (None, "omit") else e)]
                g = np.asarray(r[k])
                if g.shape != ex.shape or g.dtype != ex.dtype or not np.array_equal(g, ex):
                    raise Violation(f"column {k}: {g!r}, expected {ex!r}", c)
            ctx.st(states=1, transitions=1, traces=1)
        for cuts in itertools.chain.from_iterable(itertools.combinations(range(1, n), r) for r in range(0, n)) if n else []:
            ed = (0,) + cuts + (n,)
            blocks = [load_flat_hdf5(fn, istart=a, iend=b) for a, b in zip(ed[:-1], ed[1:])]
            for k in keys:
                if not np.array_equal(np.concatenate([b[k] for b in blocks]), C[k]):
                    raise Violation(f"consecutive blocks do not concatenate to column {k}", dict(rows=n, cuts=cuts))
            ctx.st(states=1, transitions=len(blocks), traces=1)
    for n in (1000, 5003) if ctx.thorough else (1000,):  # tables of realistic size
        C = _cols(n)
        fn = os.path.join(d, "big.h5")
        with h5py.File(fn, "w") as f:
            for k, v in C.items():
                f[k] = v
        cuts = [0, 1, 2, 127, 128, 129, 499, 500, 501, n - 1, n, n + 1, None]
        for s, e in itertools.product([None] + cuts[:-1], cuts):
            r = load_flat_hdf5(fn, istart=s or 0, iend=e)
            for k in keys:
                if not np.array_equal(np.asarray(r[k]), C[k][(s or 0) : e]):
                    raise Violation(f"column {k} of a slice", dict(rows=n, istart=s, iend=e))
            ctx.st(states=1, transitions=1, traces=1)
    ctx.sample(dict(max_rows=N, key_sets=len(sets)))


def _write_fits(fn, word, thr, dtype="f8"):
    rows = [FIT[w] for w in word]
    with h5py.File(fn, "w") as f:
        for j, k in enumerate(NAMES):
            # small per-row offset so that rows are distinct
            f[k] = np.array([r[2][j] + (0.001 * i if r[0] >= 0 else 0.0) for i, r in enumerate(rows)], dtype=dtype)
        f["loss"] = np.array([r[0] for r in rows], dtype=dtype)
        f["n_points_per_fit"] = np.array([thr + r[1] for r in rows], dtype="i8")
        f["halo_id"] = np.arange(len(rows)) * 11
        return [np.array(f[k]) for k in NAMES], np.array(f["loss"]), np.array(f["n_points_per_fit"])


def check_fits(ctx, res, P, loss, npts, thr, t0, c):
    if len(res) != 4:
        raise Violation("result is not (parameters, mass, loss, number of points)", c)
    mah, lm, l, n = res
    if tuple(mah._fields) != NAMES:
        raise Violation(f"halo parameters named {mah._fields}", c)
    if not np.array_equal(np.asarray(l), loss) or not np.array_equal(np.asarray(n), npts):
        raise Violation("loss or number of points changed", c)
    bad = (loss < 0) | (npts < thr)
    lm = np.asarray(lm, dtype=float)
    if lm.shape != loss.shape:
        raise Violation(f"present-day mass of shape {lm.shape}", c)
    for k, g, p in zip(NAMES, mah, P):
        g = np.asarray(g)
        if g.shape != loss.shape:
            raise Violation(f"{k} of shape {g.shape}", c)
        if not (g[bad] == -1).all():
            raise Violation(f"{k} of an unfit halo is not -1", dict(c, got=g))
        if not np.array_equal(g[~bad], p[~bad]):
            raise Violation(f"{k} of a fit halo changed", dict(c, got=g, expected=p))
    if not np.isfinite(lm).all():
        raise Violation("present-day mass is not finite", dict(c, got=lm))
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

    blank = float(ref.log_mah(list(DEFAULT_MAH_PARAMS), np.array([t0]), np.log10(t0))[0])
    if not (np.abs(lm[bad] - blank) <= 2e-5).all():
        raise Violation(f"present-day mass of unfit halos {lm[bad]}, the default history gives {blank}", c)
    for i in np.argwhere(~bad)[:, 0]:
        ex = float(ref.log_mah([p[i] for p in P], np.array([t0]), np.log10(t0))[0])
        if abs(lm[i] - ex) > 2e-5:
            raise Violation(f"present-day mass {lm[i]}, history of this halo gives {ex}", dict(c, row=int(i)))


def part_fits(ctx, d):
    from diffstar.data_loaders.load_smah_data import load_precomputed_diffmah_fits, load_smdpl_diffmah_fits

    D = 4 if ctx.thorough else 3
    n = 0
    fn = os.path.join(d, "fits.h5")
    for m in range(1, D + 1):
        for i, word in enumerate(itertools.product(FIT, repeat=m)):
            if m == 4 and i % 5:
                continue
            thr = (5, 5, 1, 12)[i % 4]
            t0 = (13.82, 13.8, 10.0, 2.5)[(i // 4) % 4]
            P, loss, npts = _write_fits(fn, word, thr, "f4" if i % 7 == 3 else "f8")
            c = dict(word=word, npts_fit_min=thr, t0=t0)
            kw = {} if thr == 5 and i % 2 else dict(npts_fit_min=thr)
            res = load_precomputed_diffmah_fits(fn, t0, **kw)
            check_fits(ctx, res, P, loss, npts, thr, t0, c)
            r2 = load_smdpl_diffmah_fits("fits.h5", data_drn=d, t0=t0, **kw)
            check_fits(ctx, r2, P, loss, npts, thr, t0, c)
            n += 2
            for a in range(0, m + 1):
                for b in list(range(a + 1, m + 2)) + [None]:
                    if (a == 0 and b is None) or a >= m:
                        continue
                    if not ctx.thorough and m == 3 and (i + a) % 3:
                        continue
                    sl = slice(a, b)
                    r3 = load_precomputed_diffmah_fits(fn, t0, istart=a, iend=b, **kw)
                    check_fits(ctx, r3, [p[sl] for p in P], loss[sl], npts[sl], thr, t0, dict(c, istart=a, iend=b))
                    n += 1
            ctx.st(states=1, transitions=m, traces=1)
    for m in (900, 4001) if ctx.thorough else (900,):
        L = list(FIT)
        P, loss, npts = _write_fits(fn, [L[(k * 7 + k // 11) % len(L)] for k in range(m)], 5)
        for a, b in ((0, None), (0, m), (1, m - 1), (257, 600), (m - 1, None)):
            sl = slice(a, b)
            check_fits(ctx, load_precomputed_diffmah_fits(fn, 13.8, istart=a, iend=b, npts_fit_min=5), [p[sl] for p in P], loss[sl], npts[sl], 5, 13.8, dict(rows=m, istart=a, iend=b))
            ctx.st(states=1, transitions=m, traces=1)
    # default epoch of the SMDPL loader
    P, loss, npts = _write_fits(fn, "ghezn", 5)
    check_fits(ctx, load_smdpl_diffmah_fits("fits.h5", data_drn=d), P, loss, npts, 5, 13.820002, dict(word="ghezn", t0="default"))
    ctx.extra["loads"] = n
    ctx.sample(dict(letters=list(FIT), depth=D))


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c22_")
    try:
        ctx.run_part("slices", part_slices, d)
        ctx.run_part("fits", part_fits, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
