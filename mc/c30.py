"""C30: the data sets the population model is fitted to are made of the measured statistics and of halos of the right epoch, bin and kind."""

import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import types

import h5py
import numpy as np

from . import popenv, ref
from .core import Violation, f32

LEVEL = "model_checking"
RULE = (
    "State = (epoch, halo-mass bin), letter = how many central and satellite halos were sampled there, relative to the minimum of fifty and to the "
    "number of halos asked for; a word over all cells of a small grid of epochs and bins is a catalogue. All words up to the bound are written to the three "
    "measurement files, rows in shuffled order, and every builder is run on them; each returned column is compared with a reference builder that walks "
    "the cells, every sampled halo being identified by its parameters. The saving routine is run on the builders' results and on all words of "
    "list shapes, and read back."
)
ASSUMPTIONS = ["at least one cell qualifies", "every epoch with sampled halos of a kind has counted halos of that kind (as the measuring scripts write them)"]
ORACLE = "reference builder over the cells of the catalogue"

NSM, NSS = 25, 9
MSB = np.linspace(7, 13, NSM + 1)
SSB = np.linspace(-13, -8, NSS + 1)
TARGET = [8, 10, 13, 16, 19]
MINH = 50
# letter: (centrals, satellites)
LET = {
    ".": (0, 0), "c": (50, 0), "s": (0, 50), "b": (49, 50), "d": (50, 49), "h": (25, 25), "l": (24, 25), "B": (63, 58), "x": (49, 49),
}


class Cat:
    """sampled halos and measured tables of a word (one string per epoch)."""

    def __init__(self, rows, seed=1, neg=False):
        self.rows, self.neg = tuple(rows), neg
        self.nz, self.nm = len(rows), len(rows[0])
        rng = np.random.RandomState(17 * seed + 5)
        z, j, u = [], [], []
        for a, r in enumerate(rows):
            for b, w in enumerate(r):
                nc, ns = LET[w]
                z += [a] * (nc + ns)
                j += [b] * (nc + ns)
                u += [-1] * nc + [(0, 7, -2, 123456789)[k % 4] for k in range(ns)]
        n = len(z)
        p = rng.permutation(n)
        self.z, self.j, self.u = [np.array(x, dtype="i8")[p] for x in (z, j, u)]
        k = np.arange(n)[p]
        self.mah = f32(np.array([11.2 + 0.3 * self.j + 0.0007 * k, 0.05 + 0.0003 * k, 2.6 + 0.0011 * (k % 97), 0.2 + 0.001 * (k % 31), np.where(k % 3 == 2, 6.0, 20.0) + 0.01 * (k % 7)]))
        self.ids = {tuple(np.float32(c)): i for i, c in enumerate(self.mah.T)}
        self.ages = np.array([13.79, 8.6, 5.9, 4.2])[: self.nz]
        self.reds = np.array([0.0, 0.5, 1.0, 1.5])[: self.nz]
        self.mhb = np.linspace(11, 14.75, self.nm + 1)
        has = np.array([[LET[w] for w in r] for r in rows]).reshape(self.nz, self.nm, 2)
        mult = rng.randint(2, 40, size=has.shape)
        self.cc, self.cs = [(has[..., i] * mult[..., i]).astype(float) for i in range(2)]
        self.counts = self.cc + self.cs
        self.hist = self.counts * rng.uniform(9, 11, self.counts.shape)
        with np.errstate(all="ignore"):
            self.smhm = self.hist / self.counts
        self.mw = rng.uniform(0, 5, (self.nz, self.nm, NSM)) * (self.counts > 0)[..., None]
        sh = (self.nz, self.nm, NSM, NSS)
        self.wc = rng.uniform(0, 5, sh) * (self.cc > 0)[..., None, None]
        self.wsat = rng.uniform(0, 5, sh) * (self.cs > 0)[..., None, None]
        for w in (self.wc, self.wsat):
            w[:, :, 8] = 0  # nobody in this target bin
            w[:, 0, 10] = 0
            if neg:
                w[:, :, 13, 2] = -1e-7  # rounding of the soft histogram
        self.perm = p

    def write(self, d):
        with h5py.File(os.path.join(d, "smdpl_smhm.h5"), "w") as f:
            f["redshift_targets"], f["age_targets"], f["logmh_bins"] = self.reds, self.ages, self.mhb
            f["smhm"], f["smhm_diff"] = self.smhm, self.smhm + 0.25
            f["hist"], f["counts"], f["counts_cen"], f["counts_sat"] = self.hist, self.counts, self.cc, self.cs
            f["counts_diff"], f["hist_diff"] = self.counts + 0.5, self.hist + 0.5
        with h5py.File(os.path.join(d, "smdpl_smhm_samples_haloes.h5"), "w") as f:
            f["logmh_id"], f["tobs_id"], f["upid_samp"], f["mah_params_samp"] = self.j, self.z, self.u, self.mah
            f["logmh_val"], f["tobs_val"], f["redshift_val"] = 0.5 * (self.mhb[1:] + self.mhb[:-1])[self.j], self.ages[self.z], self.reds[self.z]
            f["ms_params_samp"], f["q_params_samp"] = self.mah[:4], self.mah[1:5]
        with h5py.File(os.path.join(d, "smdpl_mstar_ssfr.h5"), "w") as f:
            f["mstar_wcounts"], f["mstar_counts"] = self.mw, self.mw + 1
            f["mstar_ssfr_wcounts_cent"], f["mstar_ssfr_wcounts_sat"] = self.wc, self.wsat
            f["logmstar_bins_pdf"], f["logssfr_bins_pdf"], f["logmh_bins"] = MSB, SSB, self.mhb
            f["redshift_targets"], f["age_targets"] = self.reds, self.ages

    def sel(self, z, j, kind):
        m = (self.z == z) & (self.j == j)
        if kind == "cen":
            m &= self.u == -1
        if kind == "sat":
            m &= self.u != -1
        return np.flatnonzero(m)

    def cells(self, kind, least):
        return [(z, j) for z in range(self.nz) for j in range(self.nm) if len(self.sel(z, j, kind)) >= least]


BUILD = {
    "get_loss_data_pdfs_mstar": ("mstar", "any"), "get_loss_data_pdfs_mstar_cen": ("mstar", "cen"), "get_loss_data_pdfs_mstar_sat": ("mstar", "sat"),
    "get_loss_data_pdfs_ssfr_central": ("ssfr", "cen"), "get_loss_data_pdfs_ssfr_satellite": ("ssfr", "sat"), "get_loss_data_smhm": ("smhm", "any"),
}


def _halos(cat, cells, kind, mah, logmp0, upid, lgmu, lgmh, gyr, tobs, nh, lgt0, what, c):
    n = len(cells)
    for nm, v, sh in (("halo parameters", mah, (n, 5, nh)), ("peak masses", logmp0, (n, nh)), ("infall masses", lgmu, (n, nh)), ("host masses", lgmh, (n, nh)), ("infall times", gyr, (n, nh)), ("epochs", tobs, (n,))) + ((("host ids", upid, (n, nh)),) if upid is not None else ()):
        if np.shape(v) != sh:
            raise Violation(f"{what}: {nm} have shape {np.shape(v)}, expected {sh} (cells {cells})", c)
    for nm, v, e in (("infall masses", lgmu, -1.0), ("host masses", lgmh, 13.0), ("infall times", gyr, -99.0)):
        if not np.all(np.asarray(v) == e):
            raise Violation(f"{what}: {nm} are not {e}", c)
    for k, (z, j) in enumerate(cells):
        cc = dict(c, entry=k, epoch=z, bin=j)
        if not np.isclose(tobs[k], cat.ages[z], rtol=1e-6, atol=0):
            raise Violation(f"{what}: entry {k} is for age {tobs[k]}, expected {cat.ages[z]}", cc)
        rows = [cat.ids.get(tuple(np.float32(x)), -1) for x in np.asarray(mah[k]).T]
        own = cat.sel(z, j, kind)
        if -1 in rows or not set(rows) <= set(own):
            raise Violation(f"{what}: entry {k} holds halos of another epoch, bin or kind", cc)
        if len(own) >= nh and len(set(rows)) != nh:
            raise Violation(f"{what}: {nh} halos drawn from {len(own)} are not distinct", cc)
        if nh >= 1000 and len(set(rows)) != len(own):
            raise Violation(f"{what}: {nh} draws from {len(own)} halos leave some out", cc)
        if upid is not None and not np.array_equal(upid[k], cat.u[rows]):
            raise Violation(f"{what}: host ids of entry {k} belong to other halos", cc)
        e = cat.lmp0(lgt0)[rows]
        if not np.allclose(logmp0[k], e, rtol=0, atol=2e-4):
            i = int(np.argmax(np.abs(logmp0[k] - e)))
            raise Violation(f"{what}: halo mass {logmp0[k][i]}, expected {e[i]}", cc)


def _lmp0(self, lgt0):
    memo = self.__dict__.setdefault("_memo", {})
    if lgt0 not in memo:
        memo[lgt0] = ref.log_mah([x[:, None] for x in self.mah], np.array([10.0 ** lgt0]), lgt0)[:, 0]
    return memo[lgt0]


Cat.lmp0 = _lmp0


def _keys(k, n, what, c):
    k = np.asarray(k)
    if k.shape != (n, 2) or len({tuple(x) for x in k}) != n:
        raise Violation(f"{what}: {n} entries need {n} distinct random keys, got {k.shape}", c)


def _close(what, got, ex, c, at=1e-9):
    got = np.asarray(got)
    if got.shape != np.shape(ex):
        raise Violation(f"{what}: shape {got.shape}, expected {np.shape(ex)}", c)
    ok = np.isclose(got, ex, rtol=2e-6, atol=at, equal_nan=True)
    if not ok.all():
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Violation(f"{what}{list(i)}: {got[i]}, expected {np.asarray(ex)[i]}", c)


def _mstar_target(cat, cells, kind):
    w = dict(any=cat.mw, cen=cat.wc.sum(axis=3), sat=cat.wsat.sum(axis=3))[kind]
    return np.array([w[z, j] / w[z, j].sum() for z, j in cells])


def _ssfr_target(cat, kind):
    w = np.maximum(cat.wc if kind == "cen" else cat.wsat, 0)
    n = cat.cc if kind == "cen" else cat.cs
    out = np.zeros((cat.nz, len(TARGET), NSS))
    for z in range(cat.nz):
        if n[z].sum() == 0:
            continue
        tot = sum(n[z, m] / n[z].sum() * (w[z, m] / w[z, m].sum() if w[z, m].sum() > 0 else 0 * w[z, m]) for m in range(cat.nm))
        for a, b in enumerate(TARGET):
            if tot[b].sum() > 0:
                out[z, a] = tot[b] / tot[b].sum()
    return out


def _check(ctx, util, cat, d, fn, nh, lgt0, fb):
    typ, kind = BUILD[fn]
    c = dict(builder=fn, cells=cat.rows, nhalos=nh, lgt0=lgt0, fb=fb, negative_rounding=cat.neg)
    least = nh if typ == "smhm" else MINH
    cells = cat.cells(kind, least)
    if not cells:
        return None
    np.random.seed(3)
    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
        try:
            data, plot = getattr(util, fn)(d + os.sep, nh, lgt0=lgt0, fb=fb)
        except Exception as e:
            raise Violation(f"{fn}: {type(e).__name__}: {e}", c)
    n = len(cells)
    if typ == "smhm":
        if len(data) != 8:
            raise Violation(f"{fn}: {len(data)} columns", c)
        mah, lm, lgmu, lgmh, gyr, keys, tobs, tgt = data
        _halos(cat, cells, kind, mah, lm, None, lgmu, lgmh, gyr, tobs, nh, lgt0, fn, c)
        _keys(keys, n, fn, c)
        _close("target masses", tgt, [cat.smhm[z, j] for z, j in cells], c)
        for i, e in ((0, cat.ages), (1, 0.5 * (cat.mhb[1:] + cat.mhb[:-1])), (2, cat.z), (3, cat.j), (9, cat.reds), (10, cat.smhm), (11, cat.mah), (12, cat.u)):
            _close(f"plot data {i}", plot[i], e, c)
        ctx.st(states=cat.nz * cat.nm, transitions=n, traces=1)
        return data
    sets = [(data, nh)]
    sets.append((plot[7], 10000) if typ == "mstar" else (plot[3], 10000))
    for D, m in sets:
        what = fn + (" (plot)" if m == 10000 else "")
        if len(D) != (12 if typ == "mstar" else 18):
            raise Violation(f"{what}: {len(D)} columns", c)
        mah, lm, upid, lgmu, lgmh, gyr, keys, tobs, l0, f0 = D[:10]
        _halos(cat, cells, kind, mah, lm, upid, lgmu, lgmh, gyr, tobs, m, lgt0, what, c)
        _keys(keys, n, what, c)
        if float(l0) != lgt0 or float(f0) != fb:
            raise Violation(f"{what}: cosmology {float(l0)}, {float(f0)}", c)
        if typ == "mstar":
            _close(what + " bins", D[10], MSB, c)
            _close(what + " target", D[11], _mstar_target(cat, cells, kind), c)
            continue
        lo = np.array([(a, b) for a in MSB[:-1] for b in SSB[:-1]])
        hi = np.array([(a, b) for a in MSB[1:] for b in SSB[1:]])
        for i, e in ((10, lo), (11, hi), (12, MSB), (13, SSB), (16, TARGET)):
            _close(f"{what} column {i}", D[i], e, c)
        per = [[k for k, (z, j) in enumerate(cells) if z == zz] for zz in range(cat.nz)]
        mx = max(len(p) for p in per)
        cnt = cat.cc if kind == "cen" else cat.cs
        ix, w = np.zeros((cat.nz, mx), dtype=int), np.zeros((cat.nz, mx))
        for z, p in enumerate(per):
            ix[z, : len(p)] = p
            w[z, : len(p)] = [cnt[z, cells[k][1]] / cnt[z].sum() for k in p]
        _close(what + " weights", D[14], w, c, 1e-7)
        # entries that carry no weight may point anywhere inside the list
        got = np.asarray(D[15])
        if got.shape != ix.shape or np.any(got[w > 0] != ix[w > 0]) or got.min() < 0 or got.max() >= n:
            raise Violation(f"{what}: entries of each epoch {got.tolist()}, expected {ix.tolist()}", c)
        _close(what + " target", D[17], _ssfr_target(cat, kind), c, 1e-7)
    if typ == "mstar":
        for i, e in ((0, MSB), (1, cat.mw), (2, cat.ages), (3, cat.reds), (4, cat.z), (5, cat.j), (6, 0.5 * (cat.mhb[1:] + cat.mhb[:-1]))):
            _close(f"plot data {i}", plot[i], e, c)
    else:
        for i, e in ((0, TARGET), (1, 0.5 * (SSB[1:] + SSB[:-1])), (2, _ssfr_target(cat, kind))):
            _close(f"plot data {i}", plot[i], e, c, 1e-7)
    ctx.st(states=cat.nz * cat.nm, transitions=2 * n, traces=1)
    return data


def _grids(thorough):
    al = "cs.bdhlBx"
    for n in (1, 2):
        for w in itertools.product(al, repeat=n):
            yield ("".join(w),)
    for w in itertools.product(al if thorough else "cs.B", repeat=2):
        yield w
    for w in itertools.product("cs.B" if thorough else "B.", repeat=4):
        yield "".join(w[:2]), "".join(w[2:])
    for w in itertools.product("c.B" if thorough else "cB", repeat=3):
        yield "".join(w), "sB."
    for w in itertools.product("c.B", repeat=3):
        yield tuple(w)
    if thorough:
        for w in itertools.product("cB.", repeat=4):
            yield "".join(w[:2]) + "d", "".join(w[2:]) + "s", "Bh."


def part_cells(ctx, util, d):
    names = list(BUILD)
    opts = [(50, 1.1397, 0.156), (10, 1.1, 0.17), (60, 1.1397, 0.156), (25, 1.1397, 0.2)]
    k = 0
    for rows in _grids(ctx.thorough):
        cat = Cat(rows, seed=1 + k % 3, neg=k % 2 == 1)
        cat.write(d)
        for i, fn in enumerate(names):
            if not ctx.thorough and len(rows) * len(rows[0]) > 2 and (k + i) % 2:
                continue
            _check(ctx, util, cat, d, fn, *opts[(k + i) % len(opts)])
        k += 1
    for fn in names:  # every option with every builder
        cat = Cat(("BcB", "sBd"), neg=True)
        cat.write(d)
        for o in itertools.product((1, 49, 50, 51, 58, 63, 200), (1.1397, 1.0), (0.156, 0.1)):
            _check(ctx, util, cat, d, fn, *o)
    ctx.sample(dict(catalogues=k, builders=names))


def part_ragged(ctx, util, d):
    """the helper that makes dense arrays, for every number of entries per epoch."""
    for nz in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
        for m in itertools.product(range(4), repeat=nz):
            if max(m) == 0:
                continue
            st = np.concatenate([[0], np.cumsum(m)])
            ix = [np.arange(a, b) for a, b in zip(st[:-1], st[1:])]
            for off in (0, 1):
                im = [np.arange(x, dtype=int)[::-1] + off for x in m]
                P = np.arange(nz * 4, dtype=float).reshape(nz, 4) + 1
                c = dict(entries=m, offset=off)
                try:
                    a, w = util.prepare_ragged(ix, P, im)
                except Exception as e:
                    raise Violation(f"prepare_ragged: {type(e).__name__}: {e}", c)
                a, w = np.asarray(a), np.asarray(w)
                if a.shape != (nz, max(m)) or w.shape != a.shape:
                    raise Violation(f"prepare_ragged: shapes {a.shape}, {w.shape}", c)
                for z in range(nz):
                    if list(a[z, : m[z]]) != list(ix[z]) or not np.allclose(w[z, : m[z]], P[z, im[z]]) or np.any(w[z, m[z] :] != 0):
                        raise Violation(f"prepare_ragged: row {z} is {a[z]}, {w[z]}", c)
                ctx.st(states=nz, transitions=sum(m), traces=1)


def _same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")


def part_files(ctx, util, d):
    """results saved and read back."""
    import jax.numpy as jnp

    cat = Cat(("BcB", "sBd"))
    cat.write(d)
    calls = []
    m = types.ModuleType("fit_get_loss_helpers_mgash")

    def wrap(fn):
        def f(indir, nhalos, *a, **k):
            out = getattr(util, fn)(d + os.sep, nhalos, *a, **k)
            calls.append((fn, nhalos, out[0]))
            return out

        return f

    for fn in BUILD:
        setattr(m, fn, wrap(fn))
    cwd = os.getcwd()
    keep = sys.modules.get("fit_get_loss_helpers_mgash")
    sys.modules["fit_get_loss_helpers_mgash"] = m
    os.chdir(d)
    try:
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
            mod = popenv.fresh("save_loss_data")
    finally:
        os.chdir(cwd)
        if keep is None:
            sys.modules.pop("fit_get_loss_helpers_mgash", None)
        else:
            sys.modules["fit_get_loss_helpers_mgash"] = keep
    order = ["get_loss_data_pdfs_mstar", "get_loss_data_pdfs_ssfr_central", "get_loss_data_pdfs_ssfr_satellite"]
    for nh in (10, 100):
        got = {fn: x for fn, n, x in calls if n == nh}
        T = mod.load_loss_data_h5(os.path.join(d, f"loss_kernels_testing_data_{nh}halos.h5"))
        for fn, t in zip(order, T):
            if not _same(got[fn], t):
                raise Violation(f"{fn}: data read back differ from the data saved", dict(nhalos=nh))
            ctx.st(states=len(t), transitions=len(t), traces=1)
    base = [tuple(got[fn]) for fn in order]
    arr = lambda n: np.arange(float(n)) + n
    forms = [1.5, 7, np.float64(2.5), np.int32(3), np.zeros((2, 0)), jnp.arange(3), np.arange(6).reshape(2, 3), [1, 2, 3], (4.0, 5.0), None, "text", np.array([arr(1), arr(2)], dtype=object)]
    forms += [[arr(n) for n in w] for k in (1, 2, 3) for w in itertools.product((0, 1, 2), repeat=k)]
    forms += [[arr(n % 3) for n in range(12)], [np.ones((2, 2)), np.ones((3, 2))], [jnp.arange(2), jnp.arange(3)]]
    for i, v in enumerate(forms):
        for which in range(3):
            b = [list(x) for x in base]
            pos = (i * 5 + which) % len(b[which])
            b[which][pos] = v
            fn = os.path.join(d, "x.h5")
            c = dict(table=which, column=pos, value=v if not isinstance(v, list) else [x.tolist() for x in map(np.asarray, v)])
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    mod.save_loss_data_h5(fn, *b)
                    T = mod.load_loss_data_h5(fn)
            except Exception as e:
                raise Violation(f"saving and loading: {type(e).__name__}: {e}", c)
            for x, y in zip(b, T):
                for p, q in zip(x, y):
                    ok = p == q if p is None or isinstance(p, str) else _same(list(p) if isinstance(p, np.ndarray) and p.dtype == object else p, q)
                    if not ok:
                        raise Violation("data read back differ from the data saved", c)
            ctx.st(states=1, transitions=2, traces=1)
    for which in range(3):
        for ch in (-1, 1):
            b = [list(x) for x in base]
            b[which] = b[which][:-1] if ch < 0 else b[which] + [1.0]
            fn = os.path.join(d, "y.h5")
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    mod.save_loss_data_h5(fn, *b)
            except ValueError:
                if os.path.exists(fn):
                    raise Violation("a table of the wrong length was partly written", dict(table=which))
                continue
            raise Violation("a table of the wrong length was accepted", dict(table=which))


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c30_")
    try:
        with popenv.installed({}, ["x"], quiet=False):
            util = popenv.fresh("fit_get_loss_helpers_mgash")
            ctx.run_part("cells", part_cells, util, d)
            ctx.run_part("ragged", part_ragged, util, d)
            ctx.run_part("files", part_files, util, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
