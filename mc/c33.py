"""C33: the fit-quality tables average data and fit over the same galaxies, each fitted galaxy once, in the bin of its peak mass."""

import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np

from . import c29, popenv, ref
from .core import Violation

LEVEL = "model_checking"
RULE = (
    "The script that compares fits with their target histories is run on catalogues that are all words up to a length over an alphabet of galaxies (with and without a usable fit, "
    "every peak-mass class including outside the bins, complete / late-forming / quiescent / nearly quiescent target histories), spread over sub-volumes and chunks. "
    "The saved table is compared, bin by bin and time by time, with averages over the galaxies of the catalogue computed from the reference laws."
)
ASSUMPTIONS = [
    "the target histories of SMDPL and TNG come from stand-ins for the loaders (C24 decides the loaders); those of Galacticus are files read by the real loader",
    "astropy, umachine_pyio and diffsky.diffndhist are stand-ins, as in C29; the full SMDPL catalogue has sub-volumes 0 to 575",
]
ORACLE = "averages over the galaxies of the catalogue, from the reference laws"

NAME = "calculate_quality_diffstar_fits_mgash.py"
BINS = np.arange(11.25, 14.5, 0.50)
FILES = {"smdpl": "diffstar_quality_smdpl.h5", "smdpl_dr1": "diffstar_quality_smdpl_dr1.h5", "tng": "diffstar_quality_tng.h5", "galcus_insitu": "diffstar_quality_galcus_insitu.h5", "galcus_inplusexsitu": "diffstar_quality_galcus_inplusexsitu.h5"}
# letter: (letter of C29, kind of target history, peak mass)
LET = {
    "a": ("c", "full", 12.0),
    "b": ("s", "late", 12.6),
    "c": ("m", "full", 13.9),
    "d": ("q", "quiet", 12.1),
    "e": ("c", "slow", 13.0),
    "f": ("t", "full", 10.2),  # below the bins
    "g": ("u", "full", 12.2),  # no halo fit
    "h": ("v", "late", 13.1),  # no convergence
    "i": ("w", "full", 12.7),  # no stellar fit
    "j": ("m", "full", 14.6),  # above the bins
}


class Cat:
    """galaxies of one sub-volume: the fits (files of C29) and their target histories."""

    def __init__(self, word, num, t):
        self.word = word
        self.fit = c29.Sub("".join(LET[w][0] for w in word), num)
        k = np.arange(len(word)) + 7 * num
        self.logmp0 = np.array([LET[w][2] for w in word]) + 0.003 * (k % 17)
        self.t = t
        n = len(word)
        sfr = np.zeros((n, len(t)))
        for i, w in enumerate(word):
            s = (2.0 + 0.3 * (k[i] % 11)) * (t / 5.0) ** 1.5 * np.exp(-t / (3.0 + 0.1 * (k[i] % 5))) * 10 ** (0.5 * (self.logmp0[i] - 12))
            kind = LET[w][1]
            if kind == "late":
                s[t < 2.5] = 0.0
            if kind == "quiet":
                s[t > 6] = 0.0
            if kind == "slow":
                s[t > 6] *= 1e-7
            sfr[i] = s
        self.sfr = sfr
        m = np.cumsum(sfr * np.diff(np.concatenate(([0.0], t))), axis=1) * 1e9
        with np.errstate(divide="ignore"):
            self.log_m = np.where(m > 0, np.log10(m), 0.0)

    def data(self):
        return np.arange(len(self.word)), self.log_m, self.sfr, self.t, np.zeros_like(self.sfr), self.logmp0


def targets(log_m, sfr):
    """mass and rate of the target histories that enter an average; 0 where the history is not defined."""
    m = np.where(log_m == 0, 0.0, 10.0**log_m)
    with np.errstate(all="ignore"):
        s = np.where(m > 0, np.maximum(sfr / m, 1e-12) * m, sfr)
    return m, np.where(sfr > 0, s, 0.0)


def expected(cats):
    """cats: (fit, use, log_m, sfr, logmp0, t)"""
    t = cats[0][5]
    nb = len(BINS) - 1
    acc, n = np.zeros((4, nb, len(t))), np.zeros(nb)
    for fit, use, log_m, sfr, mp, _ in cats:
        if not np.any(use):
            continue
        _, ls, lss = fit.hist()
        for i in np.nonzero(use)[0]:
            b = np.searchsorted(BINS, mp[i]) - 1
            if not 0 <= b < nb:
                continue
            m, s = targets(log_m[i], sfr[i])
            fm, fs = 10 ** np.interp(t, c29.T_TAB, ls[i]), 10 ** np.interp(t, c29.T_TAB, (ls + lss)[i])
            acc[:, b] += [m, fm, s, np.maximum(fs / fm, 1e-12) * fm]
            n[b] += 1
    with np.errstate(all="ignore"):
        return acc / n[:, None], t


T117 = np.linspace(0.11, 13.79, 117)


class Bench:
    def __init__(self, d):
        self.d = d
        self.root = os.path.join(d, "root")
        self.out = os.path.join(d, "out")
        self.fn, self.code = popenv.script(NAME)
        self.clear()

    def clear(self):
        for x in (self.root, self.out):
            shutil.rmtree(x, ignore_errors=True)
            os.makedirs(x)
        self.smdpl, self.tngcat, self.galcat = {}, None, None

    # ---- catalogues on disk
    def put_smdpl(self, sim, words, nums, width):
        dst, dma, bindir, pst, pma = c29.SDIRS[sim]
        os.makedirs(os.path.join(self.root, dst), exist_ok=True)
        os.makedirs(os.path.join(self.root, dma), exist_ok=True)
        cats = {}
        for w, num in zip(words, nums):
            c = cats[num] = Cat(w, num, T117)
            n = f"{num:0{width}d}"
            c.fit.write(os.path.join(self.root, dma, pma.format(n)), os.path.join(self.root, dst, pst.format(n)))
        self.smdpl[sim] = (cats, bindir)
        return [(c.fit, c.fit.fit, c.log_m, c.sfr, c.logmp0, c.t) for c in cats.values()]

    def put_tng(self, word, t):
        c = self.tngcat = Cat(word, 3, t)
        use = c.fit.fit & (c.fit.sloss > 0)
        m, s = [os.path.join(self.root, x.lstrip("/")) for x in self.tng_drn]
        c.fit.write(os.path.join(m, "diffmah_tng_fits.hdf5"), os.path.join(s, "diffstar_tng_fits.hdf5"))
        return [(c.fit, use, c.log_m, c.sfr, c.logmp0, c.t)]

    def put_gal(self, word, t, kind):
        """target histories in files; the peak mass is that of the halo fit."""
        out = {}
        main = os.path.join(self.root, "lcrc/project/halotools/Galacticus/diffstarpop_data")
        sfh = os.path.join(self.root, "lcrc/project/halotools/alarcon/results/mgash/Galacticus")
        fits = {k: Cat(word, num, t) for k, num in (("in_situ", 5), ("in_plus_ex_situ", 8))}
        decoy = Cat(word[::-1], 2, t)
        for k, c in fits.items():
            c.fit.mah, c.fit.mloss = fits["in_situ"].fit.mah, fits["in_situ"].fit.mloss
            decoy.fit.write(os.path.join(main, "decoy.h5"), os.path.join(main, f"diffstar_fits_{k}.hdf5"))
            c.fit.write(os.path.join(main, "diffmah_fits.h5"), os.path.join(sfh, f"diffstar_fits_{k}.hdf5"))
        dt = np.diff(np.concatenate(([0.0], t)))
        np.save(os.path.join(main, "tarr_bulge.npy"), t)
        np.save(os.path.join(main, "tarr_disk.npy"), t)
        for x, k in (("in_situ", "in_situ"), ("tot", "in_plus_ex_situ")):
            dm = fits[k].sfr * dt * 1e9
            np.save(os.path.join(main, f"delta_mstar_{x}_bulge.npy"), 0.25 * dm)
            np.save(os.path.join(main, f"delta_mstar_{x}_disk.npy"), 0.75 * dm)
        with h5py.File(os.path.join(main, "galacticus_11To14.2Mhalo_SFHinsitu_AHearin.hdf5"), "w") as f:
            f["Outputs/Output1/nodeData/nodeIsIsolated"] = fits["in_situ"].fit.cen.astype("i8")
        for k, c in fits.items():
            use = c.fit.fit & (c.fit.sloss > 0)
            m = ref.mstar_formed(t, c.sfr) if len(word) else np.zeros((0, len(t)))
            with np.errstate(divide="ignore"):
                lm = np.log10(m)
            mp = ref.log_mah([x[:, None] for x in c.fit.mah], t, ref.LGT0_DEFAULT)[:, -1]
            out[k] = [(c.fit, use, lm, c.sfr, mp, t)]
        return out[kind]

    # ---- one run of the script
    def load_smdpl(self, sim):
        def f(subvols, root_dirname, *a, **k):
            cats, bindir = self.smdpl[sim]
            if root_dirname != bindir:
                raise Violation(f"target histories of {sim} read from {root_dirname}", dict(sim=sim))
            (i,) = np.atleast_1d(subvols)
            return cats[int(i)].data()

        return f

    def run(self, sim):
        import diffstar.data_loaders.load_smah_data as ls

        keep = {}
        new = dict(load_SMDPL_nomerging_data=self.load_smdpl("DR1_nomerging"), load_SMDPL_DR1_data=self.load_smdpl("DR1"), load_tng_data=lambda drn, *a, **k: self.tngcat.data())
        try:
            for k, v in new.items():
                keep[k] = getattr(ls, k)
                setattr(ls, k, v)
            with popenv.Redirect(self.root), popenv.installed(popenv.modules(None), [NAME, "-sim_name", sim, "-outdir", self.out]), np.errstate(all="ignore"):
                for m in ("tng", "galacticus", "smdpl"):
                    u = popenv.fresh(f"smhm_utils_{m}_mgash")
                exec(self.code, {"__name__": "__main__", "__file__": self.fn, "__builtins__": __builtins__})
        finally:
            for k, v in keep.items():
                setattr(ls, k, v)

    @property
    def tng_drn(self):
        if not hasattr(self, "_tng"):
            with popenv.Redirect(self.root), popenv.installed(popenv.modules(None), [NAME]):
                u = popenv.fresh("smhm_utils_tng_mgash")
                self._tng = (u.BEBOP_TNG_MAH, u.BEBOP_TNG_SFH)
        return self._tng

    def compare(self, sim, cats, c):
        with h5py.File(os.path.join(self.out, FILES[sim]), "r") as f:
            tab = {k: f[k][...] for k in f}
        if set(tab) != {"tarr", "mpeak_bins", "mpeak_binsc", "mstar_data_mean", "mstar_fit_mean", "sfr_data_mean", "sfr_fit_mean"}:
            raise Violation(f"columns {sorted(tab)}", c)
        exp, t = expected(cats)
        if not np.allclose(tab["mpeak_bins"], BINS) or not np.allclose(tab["mpeak_binsc"], 0.5 * (BINS[1:] + BINS[:-1])):
            raise Violation("peak-mass bins", c)
        if not np.allclose(tab["tarr"], t):
            raise Violation("times", c)
        for k, e in zip(("mstar_data_mean", "mstar_fit_mean", "sfr_data_mean", "sfr_fit_mean"), exp):
            g = tab[k]
            if g.shape != e.shape:
                raise Violation(f"{k}: shape {g.shape}, expected {e.shape}", c)
            bad = np.isnan(g) != np.isnan(e)
            bad |= np.abs(np.nan_to_num(g) - np.nan_to_num(e)) > 4e-4 * np.abs(np.nan_to_num(e)) + 1e-30
            if np.any(bad):
                i, j = np.argwhere(bad)[0]
                raise Violation(f"{k} of bin {BINS[i]:.2f} at {t[j]:.2f} Gyr is {g[i, j]:.6g}, average over its galaxies {e[i, j]:.6g}", c)


def check(ctx, b, sim, cats, c):
    try:
        b.run(sim)
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{type(e).__name__}: {e}", c)
    want = set(FILES.values()) if sim == "all" else {FILES[sim]}
    left = set(os.listdir(b.out))
    if left != want:
        raise Violation(f"files {sorted(left)}, expected {sorted(want)}", c)
    for s, x in (cats if sim == "all" else {sim: cats}).items():
        b.compare(s, x, dict(c, table=s))
        ctx.st(states=sum(len(q[1]) for q in x), transitions=4 * len(BINS), traces=1)


def part_dr1(ctx, b):
    """all words of up to two galaxies in one sub-volume; words spread over sub-volumes with gaps in their numbers."""
    al = "abcdefghij"
    for n in (1, 2):
        for w in itertools.product(al if n == 1 or ctx.thorough else "abdeghj", repeat=n):
            w = "".join(w)
            b.clear()
            cats = b.put_smdpl("DR1", [w], [0], 1)
            check(ctx, b, "smdpl_dr1", cats, dict(sim="DR1", galaxies=w))
    for words, nums, width in (
        (("ab", "ca"), (0, 1), 1),
        (("ab", "ca", "bd"), (0, 3, 12), 1),
        (("ab", "ga", "bd"), (2, 9, 131), 3),
        (("ghi", "abc", "eda"), (0, 1, 2), 2),
        (("gab", "agb", "abg"), (1, 10, 100), 1),
        (("aabb", "cdef", "ghij", "abde"), (5, 6, 7, 8), 1),
    ):
        b.clear()
        cats = b.put_smdpl("DR1", words, nums, width)
        check(ctx, b, "smdpl_dr1", cats, dict(sim="DR1", galaxies=dict(zip(nums, words)), width=width))


def part_tng(ctx, b):
    t = np.linspace(0.3, 13.75, 9)
    base = "abcde" * 9
    for n in (20, 21, 23, 39, 40) if not ctx.thorough else range(20, 46):
        b.clear()
        cats = b.put_tng(base[:n], t)
        check(ctx, b, "tng", cats, dict(sim="tng", galaxies=base[:n]))
        if n > 23:
            continue
        for i in range(n):  # every galaxy in turn without a fit, or with another history
            for x in "gh" if ctx.thorough else "h" if i % 2 else "g":
                w = base[:i] + x + base[i + 1 : n]
                if not ctx.thorough and n != 23 and i not in (0, n - 1):
                    continue
                b.clear()
                cats = b.put_tng(w, t)
                check(ctx, b, "tng", cats, dict(sim="tng", galaxies=w))


def part_gal(ctx, b):
    t = np.linspace(0.4, 13.7, 11)
    al = "abcdefghij"
    for s, k in (("galcus_insitu", "in_situ"), ("galcus_inplusexsitu", "in_plus_ex_situ")):
        for n in (1, 2, 3) if ctx.thorough else (1, 2):
            for w in itertools.product(al if n == 1 else "abcdghi" if n == 2 else "abdgh", repeat=n):
                w = "".join(w)
                b.clear()
                cats = b.put_gal(w, t, k)
                check(ctx, b, s, cats, dict(sim=s, galaxies=w))
        for w in ("abgcdhae", "iabcdefgha"):
            b.clear()
            check(ctx, b, s, b.put_gal(w, t, k), dict(sim=s, galaxies=w))


def part_all(ctx, b):
    """the complete run: 576 sub-volumes of the main catalogue, and the four others."""
    b.clear()
    al = "abcdefghij"
    words = [al[(7 * i + i // 10) % 10] + al[(3 * i + 1 + i // 7) % 10] for i in range(576)]
    cats = dict(smdpl=b.put_smdpl("DR1_nomerging", words, range(576), 1), smdpl_dr1=b.put_smdpl("DR1", ("ab", "gc", "be"), (0, 4, 10), 1))
    cats["tng"] = b.put_tng("abcde" * 5, np.linspace(0.3, 13.75, 9))
    t = np.linspace(0.4, 13.7, 11)
    cats["galcus_insitu"] = b.put_gal("abgcd", t, "in_situ")
    cats["galcus_inplusexsitu"] = b.put_gal("abgcd", t, "in_plus_ex_situ")
    check(ctx, b, "all", cats, dict(sim="all"))
    if ctx.thorough:
        for x in list(FILES.values()):
            os.remove(os.path.join(b.out, x))
        check(ctx, b, "smdpl", cats["smdpl"], dict(sim="smdpl"))


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c33_")
    try:
        b = Bench(d)
        ctx.run_part("dr1", part_dr1, b)
        ctx.run_part("tng", part_tng, b)
        ctx.run_part("gal", part_gal, b)
        ctx.run_part("all", part_all, b)
    finally:
        shutil.rmtree(d, ignore_errors=True)
