"""Galaxy lattices shared by the SFH checks; evaluates the real code in fixed-size batches."""

import numpy as np

from . import ref
from .core import f32, product_array

BATCH = 8192


def interior(name, fracs):
    lo, hi = ref.BOUNDS[name]
    return [lo + f * (hi - lo) for f in fracs]


def q_lattice(qts, qdts, drops, rejs):
    """quenching lattice; rejs are fractions of the way from drop to 0."""
    a, b, c, r = product_array(qts, qdts, drops, rejs)
    return a, b, c, c + r * (0.0 - c)


UNQ = [float(x) for x in ref.bounded([0, 0, 0, 0, 5.0, 5.0, 5.0, 5.0])[4:]]


def cross(*blocks):
    """Cartesian product of column blocks: blocks are lists of equal-length columns."""
    ns = [len(b[0]) for b in blocks]
    idx = np.meshgrid(*[np.arange(n) for n in ns], indexing="ij")
    out = []
    for b, i in zip(blocks, idx):
        i = i.ravel()
        out.append([np.asarray(c, dtype=np.float64)[i] for c in b])
    return out


def sfh_galpop(sfh_cols, mah_cols, tarr, lgt0, fb, return_smh=False, batch=BATCH):
    """Real code, in padded batches. Returns float64 arrays."""
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

    from diffstar import DEFAULT_DIFFSTAR_PARAMS, calc_sfh_galpop

    n = len(sfh_cols[0])
    P = np.array(sfh_cols, dtype=np.float32)
    M = np.array(mah_cols, dtype=np.float32)
    out, out2 = [], []
    for i in range(0, n, batch):
        p, m = P[:, i : i + batch], M[:, i : i + batch]
        k = p.shape[1]
        if k < batch:
            p = np.concatenate([p, np.repeat(p[:, :1], batch - k, axis=1)], axis=1)
            m = np.concatenate([m, np.repeat(m[:, :1], batch - k, axis=1)], axis=1)
        r = calc_sfh_galpop(
            DEFAULT_DIFFSTAR_PARAMS._make(list(p)),
            DEFAULT_MAH_PARAMS._make(list(m)),
            np.asarray(tarr, dtype=np.float32),
            lgt0=np.float32(lgt0),
            fb=np.float32(fb),
            return_smh=return_smh,
        )
        if return_smh:
            out.append(np.asarray(r.sfh, dtype=np.float64)[:k])
            out2.append(np.asarray(r.smh, dtype=np.float64)[:k])
        else:
            out.append(np.asarray(r, dtype=np.float64)[:k])
    if return_smh:
        return np.concatenate(out), np.concatenate(out2)
    return np.concatenate(out)


def case_of(sfh_cols, mah_cols, tarr, lgt0, fb):
    def f(idx):
        if idx is None or len(idx) == 0:
            return None
        i = idx[0]
        d = dict(
            sfh_params=dict(zip(ref.NAMES, [float(c[i]) for c in sfh_cols])),
            mah_params=dict(zip(ref.MAH_NAMES, [float(c[i]) for c in mah_cols])),
            lgt0=float(lgt0),
            fb=float(fb),
        )
        if len(idx) > 1:
            d["t"] = float(tarr[idx[1]])
        return d

    return f


def check_law(ctx, what, sfh_cols, mah_cols, tarr, lgt0, fb, rtol=1e-3, got=None, chunk=20000):
    """SFH of every lattice galaxy against the law; returns the SFHs."""
    tarr = f32(tarr)
    if got is None:
        got = sfh_galpop(sfh_cols, mah_cols, tarr, lgt0, fb)
    n = len(sfh_cols[0])
    for i in range(0, n, chunk):
        s = [f32(c[i : i + chunk])[:, None] for c in sfh_cols]
        m = [f32(c[i : i + chunk])[:, None] for c in mah_cols]
        v, lo, hi = ref.sfh_band(s, m, tarr[None, :], float(f32(lgt0)), float(f32(fb)))
        ctx.close(
            what, got[i : i + chunk], v, rtol, 1e-20, lo=lo, hi=hi,
            case=case_of([c[i : i + chunk] for c in sfh_cols], [c[i : i + chunk] for c in mah_cols], tarr, lgt0, fb),
        )
        nontriv = int(((v > 2 * ref.SFR_MIN)).sum())
        ctx.ev(v.size, nontriv)
    return got


# A small alphabet of contrasting galaxies (8 + 5 values each)
ALPHABET = [
    # lgmcrit lgy lo hi   lg_qt qlglgdt drop rejuv      logm0 logtc early late tpeak
    ([12.0, -10.0, 1.0, -1.0, 1.0, -0.50725, -1.01773, -0.212307], [12.0, 0.05, 2.6137643, 0.12692805, 14.0]),
    ([11.5, -9.2, 2.5, -0.3] + UNQ, [13.5, 0.3, 3.5, 0.6, 20.0]),
    ([12.6, -10.7, 0.2, -3.0, 0.6, -1.0, -2.5, -2.4], [14.8, 0.4, 2.2, 1.1, 9.0]),
    ([11.0, -8.5, 4.0, -0.1, 0.9, -0.1, -0.4, -0.05], [10.8, -0.4, 5.0, 0.2, 3.0]),
    ([13.2, -11.5, 1.4, -4.5, 0.3, -2.0, -1.5, -0.01], [11.6, -0.2, 1.8, 0.3, 6.5]),
    ([9.8, -9.8, 0.6, -0.8, 1.4, -0.6, -2.9, -1.5], [15.4, 0.7, 4.2, 2.0, 14.0]),
]


def alphabet_cols(idx=None):
    idx = range(len(ALPHABET)) if idx is None else idx
    S = np.array([ALPHABET[i][0] for i in idx], dtype=np.float64)
    M = np.array([ALPHABET[i][1] for i in idx], dtype=np.float64)
    return list(S.T), list(M.T)


def nt_sfh(v):
    from diffstar import DEFAULT_DIFFSTAR_PARAMS

    return DEFAULT_DIFFSTAR_PARAMS._make([np.asarray(x, dtype=np.float32) for x in v])


def nt_mah(v):
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS

    return DEFAULT_MAH_PARAMS._make([np.asarray(x, dtype=np.float32) for x in v])
