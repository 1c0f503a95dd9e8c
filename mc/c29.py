"""C29: summary statistics measured over many sub-volumes count every fitted galaxy once, in its own bin, epoch and kind."""

import contextlib
import io
import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np

from . import popenv, ref, sched
from .core import Violation, f32

LEVEL = "model_checking"
RULE = (
    "The three measuring scripts run as ranks under a controlled scheduler (switch points: communicator calls, opening and closing of every "
    "file of the output directory, existence tests, listings, removals). Small rank counts: every reachable state; others: all schedules with a bounded number of "
    "deviations. Catalogues are all words up to a length over an alphabet of galaxies (central / satellite, with and without a usable fit, outside the mass bins, "
    "quenched) spread over sub-volumes, some of them without halo data. After every complete execution the three tables on disk are compared "
    "with statistics computed from the catalogue and the documented laws, galaxy by galaxy."
)
ASSUMPTIONS = [
    "astropy, umachine_pyio and diffsky.diffndhist (not installed) are replaced by stand-ins: flat LCDM age(z), a dictionary, a numpy soft histogram",
    "TNG is run with one rank per chunk and Galacticus with one rank, as the scripts require",
    "ranks share one file system in which a closed file is visible to every rank",
]
ORACLE = "sums over the galaxies of the catalogue, from the reference laws"

T_TAB = np.linspace(0.01, 13.8, 200)
STEP = T_TAB[1] - T_TAB[0]
SDIRS = dict(
    DR1_nomerging=(
        "lcrc/project/halotools/alarcon/results/mgash/UniverseMachine/DR1_nomerging/", "lcrc/project/halotools/SMDPL/dr1_no_merging_upidh/diffmah_tpeak_fits/",
        "/lcrc/project/halotools/SMDPL/dr1_no_merging_upidh/sfh_binary_catalogs/a_1.000000/", "diffstar_fits_subvol_{}.hdf5", "subvol_{}_diffmah_fits.h5",
    ),
    DR1=(
        "lcrc/project/halotools/alarcon/results/mgash/UniverseMachine/DR1/", "lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/diffmah_tpeak_fits/",
        "/lcrc/project/halotools/UniverseMachine/SMDPL/sfh_binaries_dr1_bestfit/a_1.000000/", "diffstar_fits_subvol_{}.hdf5", "diffmah_fits_subvol_{}.hdf5",
    ),
)
TNG = ("lcrc/project/halotools/alarcon/data/",)

# letter: (logm0, central, halo loss, sfh loss, success, sfh parameters)
_MS = [12.0, -10.0, 1.0, -1.0, 1.0, -0.50725, -1.01773, -0.212307]
_Q = [11.6, -9.8, 1.4, -1.6, 0.7, -0.9, -2.6, -2.0]
_A = [12.4, -9.4, 2.2, -0.5, 1.6, -0.3, -0.6, -0.1]
LET = {
    "c": (12.05, 1, 0.01, 0.2, 1, _MS),
    "s": (12.55, 0, 0.02, 0.1, 1, _MS),
    "m": (13.95, 1, 0.5, 0.3, 1, _A),
    "q": (12.62, 0, 0.01, 0.4, 1, _Q),
    "t": (10.3, 1, 0.01, 0.2, 1, _MS),  # below every mass bin
    "u": (12.1, 1, -1.0, 0.2, 1, _MS),  # no halo fit
    "v": (12.2, 0, 0.01, 0.2, 0, _A),  # no convergence
    "w": (12.7, 1, 0.01, -1.0, -1, _MS),  # no stellar fit
    "x": (12.45, 1, 0.01, 0.2, -1, _Q),  # failed with a loss
}
MAHN = ("logm0", "logtc", "early_index", "late_index", "t_peak")


class Sub:
    """the galaxies of one sub-volume, in catalogue order."""

    def __init__(self, word, num, nudge=0.0):
        self.word, self.num, self.n = word, num, len(word)
        L = [LET[w] for w in word]
        k = np.arange(self.n) + 11 * num
        col = lambda i: np.array([x[i] for x in L], dtype=float)
        self.logm0 = col(0) + 0.011 * (k % 9) + nudge
        self.mah = f32(np.array([self.logm0, 0.05 + 0.01 * (k % 7), 2.6 + 0.02 * (k % 13), 0.2 + 0.01 * (k % 5), np.where(k % 4 == 3, 8.0, 20.0)]).reshape(5, -1))
        self.cen = np.array([x[1] for x in L], dtype=int).reshape(-1)
        self.mloss, self.sloss, self.succ = col(2), col(3), np.array([x[4] for x in L], dtype=int).reshape(-1)
        P = np.array([x[5] for x in L], dtype=float).reshape(-1, 8)
        P[:, 0] += 0.01 * (k % 5)
        P[:, 1] -= 0.013 * (k % 7)
        self.sfh = f32(P.T)
        self.upid = np.where(self.cen == 1, -1, 5000 + 17 * k).astype("i8")
        self.fit = (self.mloss > 0) & (self.succ == 1)
        self._hist = None

    def hist(self):
        """log halo mass, log stellar mass, log sSFR on the time table."""
        if self._hist is None:
            if self.n == 0:
                z = np.zeros((0, len(T_TAB)))
                self._hist = z, z, z
            else:
                m, p = [x[:, None] for x in self.mah], [x[:, None] for x in self.sfh]
                lm = ref.log_mah(m, T_TAB, ref.LGT0_DEFAULT)
                s = ref.sfh(p, m, T_TAB, ref.LGT0_DEFAULT, ref.FB_DEFAULT)
                ls = np.log10(ref.mstar_formed(T_TAB, s))
                self._hist = lm, ls, np.log10(s) - ls
        return self._hist

    def write(self, fn_mah, fn_sfh):
        for fn in (fn_mah, fn_sfh):
            os.makedirs(os.path.dirname(fn), exist_ok=True)
        if fn_mah:
            with h5py.File(fn_mah, "w") as f:
                for k, v in zip(MAHN, self.mah):
                    f[k] = v
                f["loss"] = self.mloss
                f["halo_id"] = np.arange(self.n)
        with h5py.File(fn_sfh, "w") as f:
            for k, v in zip(ref.NAMES, self.sfh):
                f[k] = v
            f["loss"], f["success"] = self.sloss, self.succ
            f["halo_id"] = np.arange(self.n)


def edge(lm, ls, mb, sb):
    return np.min(np.abs(lm[:, None] - mb)) < 3e-5 or np.min(np.abs(ls[:, None] - sb)) < 3e-4


class World:
    def __init__(self, d, kind, words, nums=None, zs=(0.0,), sim="DR1_nomerging", width=1, missing=(), limit=None, sfh_type="in_situ"):
        self.d, self.kind, self.words, self.zs, self.sim = d, kind, list(words), list(zs), sim
        self.missing, self.limit, self.sfh_type = tuple(missing), limit, sfh_type
        self.nums = list(range(len(words))) if nums is None else list(nums)
        self.skipped = 0
        self.nudge = next(x for x in 0.0037 * np.arange(40) if not self.on_edge(x))
        self.subs = [Sub(w, n, self.nudge) for w, n in zip(words, self.nums)]
        self.root = os.path.join(d, "root")
        self.out = os.path.join(d, "out")
        if os.path.exists(self.root):
            shutil.rmtree(self.root)
        self.width = width
        self.by = {"notes.txt": b"keep me\n", "tmp_subvol_0.h5": b"someone else's", "subvol_old.h5": b"x"}
        getattr(self, "_" + kind)()

    def desc(self):
        return dict(script=self.name, galaxies=dict(zip(self.nums, self.words)), redshifts=self.zs, sim=self.sim, without_halo_data=self.missing, sfh_type=self.sfh_type, limit=self.limit)

    def on_edge(self, x):
        """would a galaxy of this catalogue sit on a bin edge at one of the epochs (or a neighbouring table time)?"""
        subs = {"smdpl": zip(self.words, self.nums), "tng": [("".join(self.words), 3)], "gal": [("".join(self.words), 5), ("".join(self.words), 8)]}[self.kind]
        mb = np.linspace(11, 14.50 if self.kind == "gal" else 14.75, 12)
        t = np.searchsorted(T_TAB, np.minimum(popenv.age(self.zs), 13.8))
        t = np.unique(np.clip(np.concatenate([t - 1, t, t + 1]), 0, len(T_TAB) - 1))
        for w, n in subs:
            h = Sub(w, n, x).hist()
            if len(w) and edge(h[0][:, t].ravel(), h[1][:, t].ravel(), mb, np.linspace(7, 13, 26)):
                return True
        return False

    def _smdpl(self):
        self.name, self.util, self.tmp = "measure_smhm_smdpl_script_mpi_mgash.py", "smhm_utils_smdpl_mgash", "_smdpl"
        dst, dma, self.bindir, pst, pma = SDIRS[self.sim]
        for s in self.subs:
            n = f"{s.num:0{self.width}d}"
            a, b = os.path.join(self.root, dma, pma.format(n)), os.path.join(self.root, dst, pst.format(n))
            s.write(a, b)
            if s.num in self.missing:
                _rm(a)
        # neighbours that are not sub-volume files
        for nm in ("diffstar_fits_subvol_1234.hdf5", "diffstar_fits_subvol_.hdf5", "old_diffstar_fits_subvol_2.hdf5", "diffstar_fits_subvol_3.hdf5.bak", "diffstar_fits_subvol_4xhdf5"):
            with open(os.path.join(self.root, dst, nm), "w") as f:
                f.write("x")
        self.argv = ["-sim_name", self.sim]
        self.used = [s for s in self.subs if s.num not in self.missing]

    def _tng(self):
        self.name, self.util = "measure_smhm_tng_script_mpi_mgash.py", "smhm_utils_tng_mgash"
        word = "".join(self.words)
        whole = Sub(word, 3, self.nudge)
        whole.fit &= whole.sloss > 0
        mahd, sfhd = os.path.join(self.root, "lcrc/mah"), os.path.join(self.root, "lcrc/sfh")
        whole.write(os.path.join(mahd, "diffmah_tng_fits.hdf5"), os.path.join(sfhd, "diffstar_tng_fits.hdf5"))
        td = os.path.join(self.root, TNG[0])
        os.makedirs(td)
        a = np.zeros(whole.n, dtype=[("cen1_sat0", "i4", (4,)), ("mpeak", "f8")])
        a["cen1_sat0"][:, -1] = whole.cen
        a["cen1_sat0"][:, :3] = 1 - whole.cen[:, None]  # status at earlier times differs
        np.save(os.path.join(td, "tng_diffmah.npy"), a)
        np.save(os.path.join(td, "tng_cosmic_time.npy"), np.array([3.0, 6.0, 9.0, 13.79]))
        self.argv = ["-diffmah_drn", "/lcrc/mah", "-diffstar_drn", "/lcrc/sfh"]
        whole.upid = np.where(whole.cen == 1, -1, 0)
        self.used = [whole]

    def _gal(self):
        self.name, self.util = "measure_smhm_galacticus_script_mpi_mgash.py", "smhm_utils_galacticus_mgash"
        word = "".join(self.words)
        s = Sub(word, 5, self.nudge)
        o = Sub(word, 8, self.nudge)  # the other star formation histories
        o.mah, o.mloss = s.mah, s.mloss
        mahd, sfhd = os.path.join(self.root, "lcrc/mah"), os.path.join(self.root, "lcrc/sfh")
        nm = ("diffstar_fits_in_situ.hdf5", "diffstar_fits_in_plus_ex_situ.hdf5")
        if self.sfh_type != "in_situ":
            nm = nm[::-1]
        s.write(os.path.join(mahd, "diffmah_fits.h5"), os.path.join(sfhd, nm[0]))
        o.write(os.path.join(mahd, "diffmah_fits.h5"), os.path.join(sfhd, nm[1]))
        s.write(os.path.join(mahd, "diffmah_fits.h5"), os.path.join(sfhd, nm[0]))
        td = os.path.join(self.root, "lcrc/project/halotools/Galacticus/diffstarpop_data/")
        os.makedirs(td)
        t = np.array([3.0, 6.0, 9.0, 13.79])
        np.save(os.path.join(td, "tarr_bulge.npy"), t)
        np.save(os.path.join(mahd, "tarr_disk.npy"), t)
        np.save(os.path.join(td, "tarr_disk.npy"), t)
        for x in ("in_situ", "tot"):
            for y in ("bulge", "disk"):
                np.save(os.path.join(td, f"delta_mstar_{x}_{y}.npy"), np.ones((s.n, 4)))
        with h5py.File(os.path.join(td, "galacticus_11To14.2Mhalo_SFHinsitu_AHearin.hdf5"), "w") as f:
            f["Outputs/Output1/nodeData/nodeIsIsolated"] = s.cen.astype("i8")
        self.argv = ["-sfh_type", self.sfh_type, "-diffmah_drn", "/lcrc/mah", "-diffstar_drn", "/lcrc/sfh"]
        s.fit &= s.sloss > 0
        s.upid = np.where(s.cen == 1, -1, 0)
        self.used = [s]

    # ---- stand-ins
    def load_mock(self, subvols, root_dirname=None, galprops=("halo_id", "upid"), **k):
        if root_dirname != self.bindir:
            raise Violation(f"catalogue read from {root_dirname}", self.desc())
        out = {}
        for i in np.atleast_1d(subvols):
            s = self.subs[self.nums.index(int(i))]
            for g in galprops:
                v = {"upid": s.upid, "halo_id": np.arange(s.n)}[g]
                out[g] = np.concatenate([out[g], v]) if g in out else v
        return out

    @contextlib.contextmanager
    def installed(self):
        argv = [self.name, "-outdrn", self.out, "-z_bins"] + [str(z) for z in self.zs] + self.argv
        with popenv.Redirect(self.root):
            with popenv.installed({**popenv.modules(self.load_mock), **sched.stub_mpi()}, argv):
                util = popenv.fresh(self.util)
                self.fn, self.code = popenv.script(self.name)
                if self.kind == "tng":
                    util.NCHUNKS = self.nranks
                if self.limit is not None:
                    util.N_HALOS_MAX = self.limit
                    util.N_HALOS_PER_SUBVOL = self.limit
                memo = {}

                def keep(nm):
                    """same arguments, same result: explored schedules need not recompute it."""
                    real = getattr(util, nm, None)
                    if real is None:
                        return

                    def f(*a, **k):
                        key = (nm, repr(a), repr(sorted(k.items())))
                        if key not in memo:
                            try:
                                memo[key] = (real(*a, **k), None)
                            except FileNotFoundError as e:
                                memo[key] = (None, e)
                        r, e = memo[key]
                        if e is not None:
                            raise e
                        return r

                    setattr(util, nm, f)

                keep("create_target_data")
                keep("create_pdf_target_data")
                yield

    def body(self, r):
        exec(self.code, {"__name__": "__main__", "__file__": self.fn, "__builtins__": __builtins__})

    def reset(self):
        if os.path.exists(self.out):
            shutil.rmtree(self.out)
        os.makedirs(self.out)
        for k, v in self.by.items():
            with open(os.path.join(self.out, k), "wb") as f:
                f.write(v)

    # ---- oracle
    def check(self, run):
        c = dict(self.desc(), ranks=run.n, schedule=[f"{r}:{l}" for r, l in run.trace])
        left, want = set(os.listdir(self.out)), set(self.by) | {"smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5"}
        if left != want:
            raise Violation(f"files after the run: missing {sorted(want - left)}, unexpected {sorted(left - want)}", c)
        for k, v in self.by.items():
            with open(os.path.join(self.out, k), "rb") as f:
                if f.read() != v:
                    raise Violation(f"file {k} of someone else was changed", c)
        tab = {}
        for nm in ("smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5"):
            with h5py.File(os.path.join(self.out, nm), "r") as f:
                tab[nm] = {k: f[k][...] for k in f}
        self.compare(tab, c)

    def compare(self, tab, c):
        a, s, b = tab["smdpl_smhm.h5"], tab["smdpl_smhm_samples_haloes.h5"], tab["smdpl_mstar_ssfr.h5"]
        mb, sb, rb = a["logmh_bins"], b["logmstar_bins_pdf"], b["logssfr_bins_pdf"]
        for nm, v in (("halo mass", mb), ("stellar mass", sb), ("sSFR", rb)):
            if not np.all(np.diff(v) > 0):
                raise Violation(f"{nm} bins are not increasing", c)
        for t in (a, b):
            if not np.array_equal(t["redshift_targets"], self.zs):
                raise Violation(f"redshifts {t['redshift_targets']}", c)
            if not np.array_equal(t["logmh_bins"], mb):
                raise Violation("tables disagree on the halo mass bins", c)
            if len(t["age_targets"]) != len(self.zs) or np.any(np.abs(t["age_targets"] - np.minimum(popenv.age(self.zs), 13.8)) > STEP * 1.01):
                raise Violation(f"ages {t['age_targets']} for redshifts {self.zs}", c)
        ages = a["age_targets"]
        tids = [int(np.argmin(np.abs(T_TAB - t))) for t in ages]
        if np.any(np.abs(T_TAB[tids] - ages) > 1e-4):
            raise Violation(f"ages {ages} are not on the time table", c)
        if self.kind == "smdpl":
            u = np.zeros(len(a["subvol_used"]), dtype=int)
            for x in self.used:
                u[x.num] = 1
            if not np.array_equal(a["subvol_used"], u):
                raise Violation(f"sub-volumes used {np.flatnonzero(a['subvol_used'])}, data exist for {np.flatnonzero(u)}", c)
        nz, nm = len(self.zs), len(mb) - 1
        G = {k: np.concatenate(v) if v else np.zeros(0) for k, v in dict(fit=[x.fit for x in self.used], cen=[x.cen for x in self.used], upid=[x.upid for x in self.used]).items()}
        fit = G["fit"].astype(bool)
        H = [np.concatenate([x.hist()[i] for x in self.used])[fit] for i in range(3)]
        cen, upid = G["cen"][fit] == 1, G["upid"][fit]
        par = np.concatenate([np.concatenate([x.mah, x.sfh]).T for x in self.used])[fit]
        W = np.mean(np.diff(mb))
        ws, wr = np.mean(np.diff(sb)), np.mean(np.diff(rb))
        ex = {k: np.zeros((nz, nm)) for k in ("counts_diff", "hist_diff", "counts", "hist", "counts_cen", "counts_sat")}
        mw, mc = np.zeros((nz, nm, len(sb) - 1)), np.zeros((nz, nm, len(sb) - 1))
        pc, ps = np.zeros((nz, nm, len(sb) - 1, len(rb) - 1)), np.zeros((nz, nm, len(sb) - 1, len(rb) - 1))
        own = {}
        for z, ti in enumerate(tids):
            lm, ls, lr = H[0][:, ti], H[1][:, ti], np.maximum(H[2][:, ti], -12.0)
            if len(lm) and edge(lm, ls, mb, sb):
                self.skipped += 1
                return
            cls = np.digitize(lm, mb) - 1
            wm = np.array([[ref.tw_bin_weight(x, W, lo, hi) for lo, hi in zip(mb[:-1], mb[1:])] for x in lm]).reshape(-1, nm)
            wms = np.array([[ref.tw_bin_weight(x, ws, lo, hi) for lo, hi in zip(sb[:-1], sb[1:])] for x in ls]).reshape(-1, len(sb) - 1)
            wsr = np.array([[ref.tw_bin_weight(x, wr, lo, hi) for lo, hi in zip(rb[:-1], rb[1:])] for x in lr]).reshape(-1, len(rb) - 1)
            ex["counts_diff"][z], ex["hist_diff"][z] = wm.sum(0), (wm * ls[:, None]).sum(0)
            for g in range(len(lm)):
                j = cls[g]
                if not 0 <= j < nm:
                    continue
                ex["counts"][z, j] += 1
                ex["hist"][z, j] += ls[g]
                ex["counts_cen" if cen[g] else "counts_sat"][z, j] += 1
                mw[z, j] += wms[g]
                i = np.digitize(ls[g], sb) - 1
                if 0 <= i < len(sb) - 1:
                    mc[z, j, i] += 1
                (pc if cen[g] else ps)[z, j] += wms[g][:, None] * wsr[g][None, :]
                own.setdefault((z, j), []).append(g)
        with np.errstate(all="ignore"):
            ex["smhm_diff"], ex["smhm"] = ex["hist_diff"] / ex["counts_diff"], ex["hist"] / ex["counts"]
            bad_ratio = ex["counts_diff"] < 1e-3  # soft counts at the very edge of the kernel
        self.cmp("counts", a, ex, c, 1e-9, 1e-9, ("counts", "counts_cen", "counts_sat"))
        self.cmp("sums", a, ex, c, 2e-5, 2e-4, ("hist",))
        self.cmp("soft counts", a, ex, c, 1e-3, 3e-4, ("counts_diff",))
        self.cmp("soft sums", a, ex, c, 1e-3, 5e-3, ("hist_diff",))
        self.cmp("mean mass", a, ex, c, 1e-4, 0, ("smhm",))
        self.cmp("soft mean mass", {"smhm_diff": np.where(bad_ratio, 0, a["smhm_diff"])}, {"smhm_diff": np.where(bad_ratio, 0, ex["smhm_diff"])}, c, 1e-3, 0, ("smhm_diff",))
        self.cmp("stellar mass distribution", b, dict(mstar_wcounts=mw, mstar_ssfr_wcounts_cent=pc, mstar_ssfr_wcounts_sat=ps), c, 2e-3, 2e-3, ("mstar_wcounts", "mstar_ssfr_wcounts_cent", "mstar_ssfr_wcounts_sat"))
        self.cmp("stellar mass counts", b, dict(mstar_counts=mc), c, 0, 1e-9, ("mstar_counts",))
        self.samples(s, own, par, upid, mb, ages, c)

    def cmp(self, what, got, want, c, rt, at, keys):
        for k in keys:
            g, w = got[k], want[k]
            if g.shape != w.shape:
                raise Violation(f"{what}: {k} has shape {g.shape}, expected {w.shape}", c)
            ok = np.isclose(g, w, rtol=rt, atol=at, equal_nan=True)
            if not ok.all():
                i = tuple(int(x) for x in np.argwhere(~ok)[0])
                raise Violation(f"{what}: {k}{list(i)} is {g[i]}, the catalogue gives {w[i]}", c)

    def samples(self, s, own, par, upid, mb, ages, c):
        n = len(s["tobs_id"])
        P = np.concatenate([s["mah_params_samp"], s["ms_params_samp"], s["q_params_samp"]])
        if P.shape != (13, n) or any(len(s[k]) != n for k in ("logmh_id", "logmh_val", "upid_samp", "tobs_val", "redshift_val")):
            raise Violation(f"sample columns disagree: {P.shape}, {[len(s[k]) for k in s]}", c)
        got = {}
        for i in range(n):
            z, j = int(s["tobs_id"][i]), int(s["logmh_id"][i])
            hit = [g for g in own.get((z, j), []) if np.allclose(par[g], P[:, i], rtol=1e-6, atol=1e-6)]
            if not hit:
                raise Violation(f"sampled halo {i} (epoch {z}, bin {j}) is not one of the fitted galaxies of that bin: {P[:, i]}", c)
            g = hit[0]
            if g in got.setdefault((z, j), []):
                raise Violation(f"halo {g} sampled twice in epoch {z}, bin {j}", c)
            got[z, j].append(g)
            for k, v in (("upid_samp", upid[g]), ("logmh_val", 0.5 * (mb[j] + mb[j + 1])), ("tobs_val", ages[z]), ("redshift_val", self.zs[z])):
                if not np.isclose(s[k][i], v, rtol=1e-6, atol=1e-9):
                    raise Violation(f"sampled halo {i}: {k} is {s[k][i]}, expected {v}", c)
        for k, v in own.items():
            if self.limit is None:
                m = len(v)
            elif self.kind == "smdpl":
                m = sum(min(self.limit // len(self.subs), x) for x in self.per_sub(v))
            else:
                m = min(self.limit, len(v)) if self.kind == "gal" or self.nranks == 1 else None
            if m is not None and len(got.get(k, [])) != m:
                raise Violation(f"{len(got.get(k, []))} halos sampled in epoch {k[0]}, bin {k[1]}: {m} expected of {len(v)}", c)

    def per_sub(self, gs):
        edges = np.cumsum([0] + [int(x.fit.sum()) for x in self.used])
        return [int(np.sum((np.array(gs) >= a) & (np.array(gs) < b))) for a, b in zip(edges[:-1], edges[1:])]


def _rm(p):
    os.remove(p)


def explore(ctx, w, nranks, budget=None, prefer="low"):
    import gc

    w.nranks = nranks
    w.reset()
    np.random.seed(7)
    collect, gc.collect = gc.collect, lambda *a: 0  # only costs time
    try:
        with w.installed(), sched.Hooks(w.d, w.out, h5=True), contextlib.redirect_stdout(io.StringIO()):
            ex = sched.Explorer(nranks, w.body, w.out, w.reset, w.check, budget, prefer)
            ex.explore()
    except Violation:
        raise
    except Exception as e:
        tb = [t for t in getattr(e, "rank_tb", []) if t]
        raise Violation(
            f"{type(e).__name__}: {e}", dict(w.desc(), ranks=nranks, schedule=[f"{r}:{l}" for r, l in getattr(e, "schedule", [])], traceback=tb[-1][-1500:] if tb else None)
        )
    finally:
        gc.collect = collect
    ctx.st(states=ex.states, transitions=ex.trans, traces=ex.full)
    ctx.ev(ex.full * len(w.zs), ex.full - w.skipped)
    ctx.extra["skipped_on_bin_edge"] = ctx.extra.get("skipped_on_bin_edge", 0) + w.skipped
    return ex


def part_schedules(ctx, d):
    """every reachable state of small runs; two-digit ranks and larger boxes on bounded deviations."""
    tot = []
    for nr, words in ((1, ("cs", "q")), (2, ("cs", "m")), (2, ("cs", "qt", "m")), (2, ("c",)), (3, ("c", "s", "q"))):
        w = World(d, "smdpl", words)
        e = explore(ctx, w, nr, None if nr < 3 or ctx.thorough else 2)
        tot.append(("smdpl", nr, words, e.runs, e.states))
    for miss in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2)):
        e = explore(ctx, World(d, "smdpl", ("cs", "q", "m"), missing=miss), 2, None if ctx.thorough else 1)
        tot.append(("missing", miss, e.runs, e.states))
    for nr in (1, 2, 3) if ctx.thorough else (1, 2):
        e = explore(ctx, World(d, "tng", ("csq", "mt", "sc")), nr)
        tot.append(("tng", nr, e.runs, e.states))
    for st in ("in_situ", "in_plus_ex_situ"):
        e = explore(ctx, World(d, "gal", ("csqmt",), sfh_type=st), 1)
        tot.append(("gal", st, e.runs, e.states))
    ctx.sample(dict(explored=tot))


def part_box(ctx, d):
    G = 6 if ctx.thorough else 4
    base = ["c", "sq", "m", "cv", "", "qs", "tu"]
    for n in range(1, G + 1):
        for nr in range(1, G + 2):  # also more ranks than sub-volumes
            for p in ("low", "high"):
                explore(ctx, World(d, "smdpl", base[:n]), nr, budget=1 if ctx.thorough and nr <= 3 else 0, prefer=p)
    for p in ("low", "high"):
        explore(ctx, World(d, "smdpl", ["c", "s"] * 6), 11, budget=0, prefer=p)
        explore(ctx, World(d, "tng", ["cs", "mq", "vuw", "xs", "cc", "tq", "sm", "c"]), 8, budget=0, prefer=p)
    for nr in (4, 5) if ctx.thorough else (4,):
        explore(ctx, World(d, "tng", ["csq", "mvs", "uux", "qtc", "sc"]), nr, budget=1 if ctx.thorough else 0, prefer="high")
    explore(ctx, World(d, "tng", ["csqm"] * 5), 20, budget=0)  # as shipped


def part_words(ctx, d):
    """all words of galaxies."""
    al = "csqmtuvwx"
    k = 0
    for n in range(0, 4 if ctx.thorough else 3):
        for wd in itertools.product(al if n < 3 else "csquvx", repeat=n):
            wd = "".join(wd)
            k += 1
            if n:
                w = World(d, ("gal", "tng")[k % 2], (wd,), sfh_type=("in_situ", "in_plus_ex_situ")[k // 2 % 2])
                if any(x.fit[i] and wd[i] != "t" for x in w.used for i in range(n)):  # at least one halo to sample
                    explore(ctx, w, 1, budget=0)
            explore(ctx, World(d, "smdpl", ("c", wd, "s"), sim=("DR1", "DR1_nomerging")[k % 2]), 1, budget=0)
    ctx.sample(dict(words=k))


def part_epochs(ctx, d):
    """redshifts, file names, sampling limit."""
    zz = [(0.0, 0.5, 1.0, 1.5, 2.0), (0.5,), (2.0, 0.0), (1.0, 1.0), (0.1, 0.2, 0.3), (3.0, 5.0)]
    for i, z in enumerate(zz if ctx.thorough else zz[:4]):
        for kind in ("smdpl", "tng", "gal"):
            explore(ctx, World(d, kind, ("csqmt", "mqsv", "ccss"), zs=z, sim=("DR1", "DR1_nomerging")[i % 2]), 1, budget=0)
    for sim in SDIRS:
        for nums, width in (((0, 1, 2), 3), ((7, 12, 105), 1), ((7, 12, 105), 3), ((10, 11, 57), 2), ((98, 99, 100), 1), ((100, 101, 575), 3)):
            explore(ctx, World(d, "smdpl", ("cs", "q", "mt"), nums=nums, width=width, sim=sim), 2, budget=0)
    for lim in (3, 4, 6, 9):
        explore(ctx, World(d, "smdpl", ("csccs", "qqss", "ssssc"), limit=lim), 1, budget=0)
        explore(ctx, World(d, "gal", ("csccsqqss",), limit=lim), 1, budget=0)
        explore(ctx, World(d, "tng", ("csccsqqss",), limit=lim), 1, budget=0)


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c29_")
    try:
        ctx.run_part("schedules", part_schedules, d)
        ctx.run_part("box", part_box, d)
        ctx.run_part("words", part_words, d)
        ctx.run_part("epochs", part_epochs, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
