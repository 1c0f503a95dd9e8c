"""C24: simulation loaders return consistent, unit-corrected histories."""

import itertools
import os
import shutil
import tempfile

import numpy as np

from . import ref
from .core import Violation, f32

LEVEL = "exploration"
RULE = (
    "Catalogues from all words over galaxy letters (steady, empty, burst with gaps, tiny, huge) x halo-mass letters (growing, shrinking, below "
    "the threshold and back, never above the threshold) x time tables, written as the files each loader reads (or, for the binary reader, "
    "served by a stand-in that records what it was asked for); every loader x every galaxy type replayed and compared with the catalogue. "
    "Non-trivial = at least one galaxy forms stars."
)
ASSUMPTIONS = ["the binary reader of UniverseMachine is replaced by a stand-in returning the catalogue"]
ORACLE = "the catalogue itself; float64 mass-formed and running-maximum laws"

NT = 6
TABLES = {"a": f32(np.linspace(0.5, 13.8, NT)), "b": f32([0.05, 0.4, 1.0, 3.0, 3.1, 12.0])}
SFR = {
    "s": np.full(NT, 2.0),
    "o": np.zeros(NT),
    "g": np.array([0.0, 5.0, 0.0, 0.0, 80.0, 0.0]),
    "t": np.full(NT, 1e-10),
    "H": 1e4 / (1 + np.arange(NT)),
}
MAH = {
    "G": np.array([1e8, 1e9, 1e10, 1e11, 5e11, 1e12]),
    "D": np.array([1e9, 1e11, 3e12, 1e12, 2e12, 9e11]),
    "L": np.array([0.0, 9.9e6, 1.1e7, 5e6, 1e10, 2e10]),
    "N": np.array([0.0, 0.0, 1e5, 2e6, 9.99e6, 1e6]),
    "E": np.array([1e7, 1e7, 1e7, 1e7, 1e7, 1e7]),
    "B": np.array([9.0e6, 3e13, 0.0, 1e14, 0.0, 3e6]),
}


def words(thorough):
    g, h = "sogtH", "GDLNEB"
    out = [((a, b),) for a in g for b in h]
    if thorough:
        out += [(x[0], y[0]) for x in out[:30] for y in out[:30]]
        out += [tuple((g[(i * k + j) % 5], h[(i + j * k) % 6]) for i in range(n)) for n in (3, 5, 8) for k in (1, 2, 3) for j in range(30)]
    else:
        out += [((g[i % 5], h[i % 6]), (g[(i * 3 + 1) % 5], h[(i * 5 + 2) % 6])) for i in range(30)]
        out += [tuple((g[(i * k + j) % 5], h[(i + j * k) % 6]) for i in range(n)) for n in (3, 5) for k in (1, 2) for j in range(6)]
    n = 4001 if thorough else 1201  # one catalogue of realistic size
    out.append(tuple((g[(i * 7 + i // 5) % 5], h[(i * 5 + i // 3) % 6]) for i in range(n)))
    return out


def check(ctx, name, r, n_out, ids, sfr, t, c, lmah=None):
    if len(r) != n_out:
        raise Violation(f"{name}: {len(r)} results", c)
    c = dict(c, loader=name)
    if not np.array_equal(np.asarray(r[0]), ids):
        raise Violation(f"{name}: ids {np.asarray(r[0])}, expected {ids}", c)
    if not np.array_equal(np.asarray(r[2]), sfr):
        raise Violation(f"{name}: rates changed", c)
    if not np.array_equal(np.asarray(r[3]), t):
        raise Violation(f"{name}: times changed", c)
    ex = np.log10(ref.mstar_formed(t, np.asarray(sfr, dtype=float)))
    ctx.close(f"{name}: log stellar mass", r[1], ex, 0, 3e-5, case=lambda i: dict(c, idx=i))
    if lmah is not None:
        g = np.asarray(r[4], dtype=float)
        ctx.close(f"{name}: log halo mass", g, lmah, 0, 2e-5, case=lambda i: dict(c, idx=i))
        ctx.true(f"{name}: halo mass never decreases", np.diff(g, axis=1) >= 0, lambda i: dict(c, idx=i))
        if not np.array_equal(np.asarray(r[5], dtype=float), g[:, -1]):
            raise Violation(f"{name}: reported present-day mass is not the end of the history", c)
    ctx.ev(1, int(np.any(np.asarray(sfr) > 0)))


def part_flat(ctx, d):
    """Bolshoi and MultiDark files."""
    from diffstar.data_loaders import load_smah_data as ls

    loaders = [
        (ls.load_bolshoi_data, "bpl_diffmah_{}.npy", "bpl_cosmic_time.npy"),
        (ls.load_bolshoi_small_data, "um_histories_subsample_dr1_bpl_{}_diffmah.npy", "bpl_cosmic_time.npy"),
        (ls.load_mdpl_data, "mdpl2_diffmah_{}.npy", "mdpl2_cosmic_time.npy"),
        (ls.load_mdpl_small_data, "um_histories_dr1_mdpl2_small_{}.npy", "mdpl2_cosmic_time.npy"),
    ]
    for wi, w in enumerate(words(ctx.thorough)):
        if not ctx.thorough and wi < 30 and w[0][1] != "G":
            continue
        for li, (fn, bn, tb) in enumerate(loaders):
            t = TABLES["ab"[(wi + li) % 2]]
            cats = {}
            for gi, gt in enumerate(("cens", "sats", "orphans")):
                rows = w[gi:] + w[:gi]
                a = np.zeros(len(rows), dtype=[("halo_id", "i8"), ("sfr_history_main_prog", "f4", (NT,)), ("sfr_history_all_prog", "f4", (NT,)), ("mpeak_history_main_prog", "f4", (NT,))])
                a["halo_id"] = 2**40 + 17 * np.arange(len(rows))[::-1] + gi
                a["sfr_history_main_prog"] = [SFR[x[0]] * (1 + gi) for x in rows]
                a["sfr_history_all_prog"] = 7.0
                np.save(os.path.join(d, bn.format(gt)), a)
                cats[gt] = a
            np.save(os.path.join(d, tb), t)
            for gt, a in cats.items():
                r = fn(gt, data_drn=d)
                check(ctx, fn.__name__, r, 4, a["halo_id"], a["sfr_history_main_prog"], t, dict(word=w, gal_type=gt))
    ctx.sample(dict(loaders=len(loaders)))


def part_tng(ctx, d):
    from diffstar.data_loaders import load_smah_data as ls

    for wi, w in enumerate(words(ctx.thorough)):
        t = TABLES["ab"[wi % 2]]
        n = len(w)
        lm = np.array([np.log10(np.maximum(MAH[x[1]], 1.0)) for x in w])  # may decrease
        a = np.zeros(n, dtype=[("sfh", "f4", (NT,)), ("mpeakh", "f8", (NT,)), ("mpeak", "f8")])
        a["sfh"] = [SFR[x[0]] * (1 + 0.1 * i) for i, x in enumerate(w)]
        a["mpeakh"] = lm
        a["mpeak"] = lm.max(axis=1)
        for bn in ("tng_diffmah.npy", "tng_small.npy"):
            np.save(os.path.join(d, bn), a)
        np.save(os.path.join(d, "tng_cosmic_time.npy"), t)
        ex = np.maximum.accumulate(lm - np.log10(0.6774), axis=1)
        r = ls.load_tng_data(data_drn=d)
        check(ctx, "load_tng_data", r, 6, np.arange(n), a["sfh"], t, dict(word=w), lmah=ex)
        r = ls.load_tng_small_data("cens", data_drn=d)
        check(ctx, "load_tng_small_data", r, 4, np.arange(n), a["sfh"], t, dict(word=w))


def part_smdpl(ctx, d):
    from diffstar.data_loaders import load_smah_data as ls

    had, old = ls.HAS_UM_LOADER, getattr(ls, "load_mock_from_binaries", None)
    rec = {}

    def stub(subvols, root_dirname=None, galprops=None, **kw):
        rec.update(subvols=subvols, root=root_dirname, galprops=list(galprops), kw=kw)
        return {k: rec["cat"][k].copy() for k in galprops}

    try:
        ls.load_mock_from_binaries = stub
        ls.HAS_UM_LOADER = True
        for wi, w in enumerate(words(ctx.thorough)):
            t = TABLES["ab"[wi % 2]]
            np.savetxt(os.path.join(d, "smdpl_cosmic_time.txt"), t)
            n = len(w)
            cat = dict(
                halo_id=2**41 + 5 * np.arange(n)[::-1],
                sfr_history_main_prog=np.array([SFR[x[0]] for x in w], dtype="f4"),
                sfr_history_all_prog=np.array([SFR[x[0]] * 1.5 + 0.25 for x in w], dtype="f4"),
                mpeak_history_main_prog=np.array([MAH[x[1]] * (1 + 0.25 * i * (MAH[x[1]] > 1.2e7)) for i, x in enumerate(w)], dtype="f4"),
            )
            rec["cat"] = cat
            m = cat["mpeak_history_main_prog"].astype(float)
            ex = np.maximum.accumulate(np.log10(np.where(m < 1e7, 1.0, m)), axis=1)
            for fn, col in ((ls.load_SMDPL_nomerging_data, "sfr_history_main_prog"), (ls.load_SMDPL_DR1_data, "sfr_history_all_prog")):
                sub = [[0], [3, 1], list(range(5))][wi % 3]
                c = dict(word=w)
                r = fn(sub, data_drn=d)
                check(ctx, fn.__name__, r, 6, cat["halo_id"], cat[col], t, c, lmah=ex)
                if rec["subvols"] != sub or rec["root"] != d:
                    ctx.fail(f"{fn.__name__}: asked the reader for other subvolumes or another directory", dict(c, asked=rec["subvols"], root=rec["root"]))
        ls.HAS_UM_LOADER = False
        for fn in (ls.load_SMDPL_nomerging_data, ls.load_SMDPL_DR1_data):
            try:
                fn([0], data_drn=d)
            except ImportError:
                ctx.ev(1)
                continue
            ctx.fail(f"{fn.__name__}: missing reader not reported as an import error", {})
    finally:
        ls.HAS_UM_LOADER = had
        if old is None:
            if hasattr(ls, "load_mock_from_binaries"):
                del ls.load_mock_from_binaries
        else:
            ls.load_mock_from_binaries = old
    if not had:  # the reader is really absent here
        for fn in (ls.load_SMDPL_nomerging_data, ls.load_SMDPL_DR1_data):
            try:
                fn([0], data_drn=d)
            except ImportError:
                ctx.ev(1)
                continue
            ctx.fail(f"{fn.__name__}: missing reader not reported as an import error", {})


def part_constants(ctx):
    """documented cosmologies used by the fitting scripts."""
    from diffstar.data_loaders import load_galacticus_sfh as lg
    from diffstar.data_loaders import load_smah_data as ls

    for nm, got, ex in (
        ("FB_SMDPL", ls.FB_SMDPL, 0.048206 / 0.307115), ("H_SMDPL", ls.H_SMDPL, 0.6777), ("OM0_SMDPL", ls.OM0_SMDPL, 0.307115), ("T0_SMDPL", ls.T0_SMDPL, 13.820002),
        ("FB_TNG", ls.FB_TNG, 0.0486 / 0.3089), ("H_TNG", ls.H_TNG, 0.6774), ("Galacticus FB", lg.FB, 0.04930 / 0.31530),
    ):
        ctx.close(nm, got, ex, 1e-9)
        ctx.ev(1)


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c24_")
    try:
        ctx.run_part("flat", part_flat, d)
        ctx.run_part("tng", part_tng, d)
        ctx.run_part("smdpl", part_smdpl, d)
        ctx.run_part("constants", part_constants)
    finally:
        shutil.rmtree(d, ignore_errors=True)
