"""C23: Galacticus histories: extraction and loading by blocks equals the whole."""

import itertools
import os
import runpy
import shutil
import sys
import tempfile

import h5py
import numpy as np

from .core import REPO, Violation

LEVEL = "model_checking"
RULE = (
    "Model of a raw Galacticus output = list of galaxies, each empty or holding (total, in-situ) histories per metallicity group. All words "
    "over galaxy letters up to the bound x numbers of groups x numbers of time steps are written as raw files; every block (start, end) and "
    "every partition into consecutive blocks is extracted and compared with the model; the command-line extraction, the derived rates and "
    "the write/load of blocks are replayed end to end. Files in which no galaxy has a history are outside the contract."
)
ORACLE = "the list of galaxies itself"

COMP = {"disk": "diskStarFormationHistoryMass", "bulge": "spheroidStarFormationHistoryMass"}


def gal(letter, i, nmet, nt, comp):
    """rows of the raw table: nmet groups of total, then nmet groups of in-situ mass formed per step."""
    if letter == "o":
        return None
    base = {"A": 1e7, "B": 3e9, "Z": 0.0}[letter]
    s = {"disk": 1.0, "bulge": 0.25}[comp]
    k, t = np.arange(nmet)[:, None], np.arange(nt)[None, :]
    tot = s * base * (1 + i + 0.1 * k) * (t + 1) ** (k + 1)
    ins = 0.5 * tot + (k + 1) * s * 10.0 * (base > 0)
    return np.concatenate([tot, ins])


def write_raw(fn, word, nmet, nt, comps=("disk", "bulge")):
    n = len(word)
    with h5py.File(fn, "w") as f:
        g = f.create_group("Outputs/Output1/nodeData")
        t = {"disk": np.cumsum(0.3 + 0.2 * np.arange(nt)), "bulge": np.cumsum(0.3 + 0.2 * np.arange(nt))}
        for c in comps:
            ds = g.create_dataset(COMP[c], (n,), dtype=h5py.vlen_dtype(h5py.vlen_dtype(np.dtype("f8"))))
            for i, w in enumerate(word):
                X = gal(w, i, nmet, nt, c)
                if X is not None:
                    a = np.empty(len(X), dtype=object)
                    for j in range(len(X)):
                        a[j] = X[j]
                    ds[i] = a
            ds.attrs["time"] = t[c]
        g["nodeIsIsolated"] = (np.arange(n) * 5 % 3 != 1).astype("i4")
        g["basicTimeLastIsolated"] = np.arange(n) * 0.5 + 1.0
        for k in ("Mass", "Time"):
            ds = g.create_dataset("haloAccretionHistory" + k, (n,), dtype=h5py.vlen_dtype(np.dtype("f8")))
            for i in range(n):
                ds[i] = np.arange(i + 1) * (1.0 if k == "Time" else 1e11)
    return t


def model(word, nmet, nt, comp):
    tot, ins = np.zeros((len(word), nt)), np.zeros((len(word), nt))
    for i, w in enumerate(word):
        X = gal(w, i, nmet, nt, comp)
        if X is not None:
            for j in range(nmet):
                tot[i] += X[j]
                ins[i] += X[nmet + j]
    return tot, ins


def same(what, got, ex, c):
    got = np.asarray(got, dtype=float)
    if got.shape != ex.shape:
        raise Violation(f"{what}: shape {got.shape}, expected {ex.shape}", c)
    if not np.allclose(got, ex, rtol=1e-12, atol=0):
        i = tuple(int(v) for v in np.argwhere(~np.isclose(got, ex, rtol=1e-12, atol=0))[0])
        raise Violation(f"{what}: {got[i]} at {i}, expected {ex[i]}", c)


def part_extract(ctx, d):
    from diffstar.data_loaders import extract_galacticus_sfh_data as ex

    D = 5 if ctx.thorough else 4
    fn = os.path.join(d, "raw.h5")
    for n in range(1, D + 1):
        for wi, word in enumerate(itertools.product("oABZ" if n <= 3 or ctx.thorough else "oAB", repeat=n)):
            if set(word) == {"o"} or (n == 5 and wi % 4):
                continue
            shapes = [(1, 1), (2, 3), (3, 2)] if n <= 2 else [[(2, 3), (1, 4), (3, 2)][wi % 3]]
            for nmet, nt in shapes:
                t = write_raw(fn, word, nmet, nt)
                c = dict(word="".join(word), groups=nmet, steps=nt)
                if int(ex.get_nhalos_tot(fn)) != n:
                    raise Violation("number of halos", c)
                for comp in COMP if n <= 3 else (("disk", "bulge")[wi % 2],):
                    T, I = model(word, nmet, nt, comp)
                    full = ex.extract_galacticus_sfh_tables(fn, COMP[comp])
                    same("total", full[0], T, c)
                    same("in-situ", full[1], I, c)
                    same("time table", full[2], t[comp], c)
                    for a in range(0, n):
                        for b in list(range(a, n + 1)) + [None]:
                            r = ex.extract_galacticus_sfh_tables(fn, COMP[comp], **_block(a, b))
                            cc = dict(c, component=comp, istart=a, iend=b)
                            same("total of a block", r[0], T[a:b], cc)
                            same("in-situ of a block", r[1], I[a:b], cc)
                            same("time table", r[2], t[comp], cc)
                            ctx.st(states=1, transitions=(n if b is None else b) - a, traces=1)
                m = ex.extract_galacticus_mah_tables(fn)
                iso = np.arange(n) * 5 % 3 != 1
                for a in range(0, n):
                    for b in list(range(a, n + 1)) + [None]:
                        r = ex.extract_galacticus_mah_tables(fn, **_block(a, b))
                        cc = dict(c, istart=a, iend=b)
                        for nm, x, f in (("mass", r[0], lambda i: np.arange(i + 1) * 1e11), ("time", r[1], lambda i: np.arange(i + 1) * 1.0)):
                            ids = range(n)[a:b]
                            if len(x) != len(ids) or not all(np.array_equal(v, f(i)) for v, i in zip(x, ids)):
                                raise Violation(f"halo {nm} histories of a block", cc)
                        same("isolated flag of a block", r[2], iso[a:b].astype(float), cc)
                        same("isolation time of a block", r[3], (np.arange(n) * 0.5 + 1.0)[a:b], cc)
    ctx.sample(dict(depth=D))


def _block(a, b):
    """arguments of a block; those at their documented default are left out."""
    return {k: v for k, v, skip in (("istart", a, a == 0), ("iend", b, b is None)) if not skip}


def _pipeline(ctx, d, word, nmet, nt, c):
    """extraction script for both components, derived rates, write and load by block."""
    from diffstar.data_loaders import load_galacticus_sfh as lg

    n = len(word)
    t = write_raw(os.path.join(d, lg.BN_GALCUS), word, nmet, nt)
    for comp in COMP:
        _script([comp, "-indrn", d, "-bname", lg.BN_GALCUS, "-outdrn", d])
    R = {}
    for k, j in (("sfh_tot", 0), ("sfh_in_situ", 1)):
        m = model(word, nmet, nt, "disk")[j] + model(word, nmet, nt, "bulge")[j]
        dt = np.diff(np.concatenate([[0.0], t["bulge"]]))
        R[k] = m / dt / 1e9
    R["is_cen"] = (np.arange(n) * 5 % 3 != 1).astype(float)
    R["tarr"] = t["bulge"]
    r = lg.load_galacticus_sfh_target_data(d)
    if set(r) != set(R):
        raise Violation(f"columns {sorted(r)}", c)
    for k in R:
        same(k, r[k], R[k], c)
    lg.write_galacticus_sfh_data_block(d)
    fn = os.path.join(d, lg.BNAME_SFH_DATA)
    for a in range(0, n):
        for b in range(a, n + 2):
            r = lg.load_galacticus_sfh_data_block(fn, a, b)
            cc = dict(c, istart=a, iend=b)
            if set(r) != set(R):
                raise Violation(f"block columns {sorted(r)}", cc)
            for k in R:
                same(f"block {k}", r[k], R[k] if k == "tarr" else R[k][a:b], cc)
            ctx.st(states=1, transitions=b - a, traces=1)
    r = lg.load_galacticus_sfh_data_block(fn, 0, None)
    for k in R:
        same(f"full {k}", r[k], R[k], c)


def _script(argv):
    fn = os.path.join(REPO, "diffstar", "data_loaders", "extract_galacticus_sfh_data.py")
    old, out = sys.argv, sys.stdout
    sys.argv = [fn] + argv
    try:
        with open(os.devnull, "w") as nul:
            sys.stdout = nul
            runpy.run_path(fn, run_name="__main__")
    finally:
        sys.argv, sys.stdout = old, out


def part_pipeline(ctx, d):
    for n in range(1, 5 if ctx.thorough else 4):
        for wi, word in enumerate(itertools.product("oABZ", repeat=n)):
            if set(word) == {"o"}:
                continue
            nmet, nt = [(2, 3), (1, 4), (3, 1)][wi % 3]
            _pipeline(ctx, d, word, nmet, nt, dict(word="".join(word), groups=nmet, steps=nt))


def part_script_blocks(ctx, d):
    """command-line extraction of every block."""
    word, nmet, nt = "AoBZA", 2, 3
    fn = "raw.h5"
    write_raw(os.path.join(d, fn), word, nmet, nt)
    for comp in COMP:
        T, I = model(word, nmet, nt, comp)
        for a in range(len(word)):
            for b in list(range(a + 1, len(word) + 1)) + [-1]:
                _script([comp, "-indrn", d, "-bname", fn, "-outdrn", d]
                        + [x for k, v in _block(a, b).items() if v != -1 for x in ("-" + k, str(v))])
                c = dict(component=comp, istart=a, iend=b)
                sl = slice(a, None if b == -1 else b)
                same("total written by the script", np.load(os.path.join(d, f"delta_mstar_tot_{comp}.npy")), T[sl], c)
                same("in-situ written by the script", np.load(os.path.join(d, f"delta_mstar_in_situ_{comp}.npy")), I[sl], c)
                ctx.st(states=1, transitions=1, traces=1)


def part_bundle(ctx, d):
    """the bundle of halo fits, both galaxy fits and histories."""
    from diffstar.data_loaders import load_galacticus_sfh as lg

    _pipeline(ctx, d, "AoB", 2, 3, dict(word="AoB"))
    data = {}
    for j, bn in enumerate((lg.BN_DIFFMAH, lg.BN_DIFFSTAR_IN_SITU, lg.BN_DIFFSTAR_IN_PLUS_EX_SITU)):
        sub = os.path.join(d, "mah" if j == 0 else "star")
        os.makedirs(sub, exist_ok=True)
        data[bn] = {f"c{k}": np.arange(3) * 10.0 + k + 100 * j for k in range(2)}
        with h5py.File(os.path.join(sub, bn), "w") as f:
            for k, v in data[bn].items():
                f[k] = v
    r = lg.load_galacticus_diffstar_data(d, diffstar_drn=os.path.join(d, "star"), diffmah_drn=os.path.join(d, "mah"))
    for fld, bn in (("diffmah_fit_data", lg.BN_DIFFMAH), ("diffstar_in_situ_fit_data", lg.BN_DIFFSTAR_IN_SITU), ("diffstar_in_plus_ex_situ_fit_data", lg.BN_DIFFSTAR_IN_PLUS_EX_SITU)):
        g = getattr(r, fld)
        if set(g) != set(data[bn]):
            raise Violation(f"{fld}: columns {sorted(g)}")
        for k in g:
            same(f"{fld} {k}", g[k], data[bn][k], dict(field=fld))
    ex = lg.load_galacticus_sfh_target_data(d)
    for k in ex:
        same(f"bundle {k}", r.galcus_sfh_data[k], np.asarray(ex[k], dtype=float), dict(field=k))
    ctx.st(states=1, transitions=4, traces=1)


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c23_")
    try:
        ctx.run_part("extract", part_extract, d)
        ctx.run_part("pipeline", part_pipeline, d)
        ctx.run_part("script_blocks", part_script_blocks, d)
        ctx.run_part("bundle", part_bundle, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
