"""C25: a distributed fitting run fits every galaxy once, in order, at any rank count and under any interleaving."""

import contextlib
import inspect
import io
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np

from . import ref, sched
from .core import REPO, Violation, f32

LEVEL = "model_checking"
RULE = (
    "The fitting scripts themselves run as ranks under a controlled scheduler (threads, one at a time; switch points at every communicator "
    "call, file open, write, read, existence test, listing and removal; both with every write reaching the disk at once and with buffers that reach it at close). All (galaxies, ranks) in a small box x words of qualifying and "
    "non-qualifying galaxies x command lines. For small rank counts every reachable state and transition is visited (a state = what each rank has "
    "observed and will do next + the bytes of all files); for larger ones every schedule with a bounded number of deviations from two "
    "default orders. After every complete execution the table on disk is compared with the catalogue, row by row; the fitter is a stand-in "
    "that identifies the galaxy it was given and checks everything it received."
)
ASSUMPTIONS = [
    "the fitter, the binary reader and the removal command are replaced by stand-ins (their own behaviour: C17, C24; removal acts in the scratch directory only)",
    "ranks share one file system in which a completed write is visible to every rank",
]
ORACLE = "the catalogue: one row per galaxy, in order, with the result of fitting that galaxy"

SCRIPTS = {
    "um": "diffstar_fitting_script_umachine_mgash.py",
    "tng": "history_fitting_script_TNG_mgash.py",
    "gal": "galacticus_diffstar_fitter_script_mgash.py",
    # the earlier versions, still working
    "um0": "diffstar_fitting_script_umachine.py",
    "gal0": "galacticus_diffstar_fitter_script.py",
}
NT = 6
T = f32(np.linspace(1.0, 13.8, NT))
# letter -> (diffmah loss, points, log halo mass scale, sfh scale total, sfh scale in situ)
LET = {
    "g": (0.01, 60, 12.3, 20.0, 12.0),
    "h": (2.0, 90, 13.9, 80.0, 11.0),
    "s": (0.02, 60, 10.3, 3.0, 2.0),  # below the mass threshold
    "j": (0.02, 60, 10.65, 3.0, 2.0),  # just above
    "n": (-1.0, 60, 12.8, 9.0, 5.0),  # no halo fit
    "f": (0.03, 1, 12.6, 9.0, 5.0),  # too few points in the halo fit
    "z": (0.0, 60, 12.1, 9.0, 5.0),  # degenerate halo fit
    "e": (0.04, 60, 12.2, 2e-3, 1e-3),  # little stellar mass
    "i": (0.05, 60, 12.4, 9.0, 1e-3),  # little in-situ stellar mass
}


class Catalogue:
    def __init__(self, word, sub=0):
        self.word = word
        n = self.n = len(word)
        k = np.arange(n) + 20 * sub
        L = [LET[w] for w in word]
        self.loss = np.array([x[0] for x in L])
        self.npts = np.array([x[1] for x in L])
        self.mah = [
            np.array([x[2] for x in L]) + 0.004 * (k % 20),
            0.05 + 0.01 * (k % 7),
            2.6 + 0.02 * k,
            0.2 + 0.01 * (k % 5),
            20.0 + 0.1 * k,
        ]
        shape = np.exp(-np.linspace(0, 2, NT))[None, :] * (1 + 0.05 * k[:, None])
        self.sfh = {"tot": f32(np.array([x[3] for x in L])[:, None] * shape), "in": f32(np.array([x[4] for x in L])[:, None] * shape)}
        self.ids = 2**33 + 1000 * sub + 7 * np.arange(n)[::-1]

    def logm0(self, t0):
        return np.array([float(ref.log_mah([np.float64(p[i]) for p in self.mah], np.array([float(t0)]), np.log10(float(t0)))[0]) for i in range(self.n)])

    def write_diffmah(self, fn):
        with h5py.File(fn, "w") as f:
            for nm, v in zip(("logm0", "logtc", "early_index", "late_index", "t_peak"), self.mah):
                f[nm] = v
            f["loss"] = self.loss
            f["n_points_per_fit"] = self.npts
            f["halo_id"] = self.ids


def result(c, i):
    """what the stand-in fitter returns for galaxy i of catalogue c."""
    p = np.array([11.0 + 0.01 * i, -9.0 - 0.01 * i, 1.0 + i * 0.1, -1.0, 0.9 + 0.02 * i, -0.5, -1.0 - 0.01 * i, -0.2])
    p = p + 0.001 * (c.ids[i] % 13)
    return p, 0.25 + i, [1, 0, -1][i % 3] if i != 3 else 1


class Case:
    """one program run: script, ranks, catalogues, options."""

    def __init__(self, kind, words, nranks, opts=(), sfh_type="in_situ", sim="DR1", test=False, subs=(0,), outdir_exists=True):
        self.kind, self.fam = kind, kind.rstrip("0")
        self.words, self.nranks, self.opts = words, nranks, list(opts)
        self.sfh_type, self.sim, self.test, self.subs, self.outdir_exists = sfh_type, sim, test, subs, outdir_exists

    def desc(self):
        return dict(script=SCRIPTS[self.kind], galaxies=self.words, ranks=self.nranks, options=self.opts, sfh_type=self.sfh_type, sim=self.sim, test=self.test, subvolumes=self.subs)

    def opt(self, name, default):
        return float(self.opts[self.opts.index(name) + 1]) if name in self.opts else default


class World:
    """scratch inputs + stand-ins for one case; `body` runs the script as one rank."""

    def __init__(self, ctx, case, d):
        from diffstar.data_loaders import load_galacticus_sfh as lg
        from diffstar.data_loaders import load_smah_data as ls
        from diffstar.defaults import DEFAULT_DIFFSTAR_PARAMS
        from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

        self.ctx, self.case, self.dfh, self.ls = ctx, case, dfh, ls
        self.make = DEFAULT_DIFFSTAR_PARAMS._make
        self.indir, self.outdir = os.path.join(d, "in"), os.path.join(d, "out")
        for x in (self.indir, self.outdir):
            if os.path.exists(x):
                shutil.rmtree(x)
            os.makedirs(x)
        self.cats = [Catalogue(w, s) for w, s in zip(case.words, case.subs)]
        self.fits = []
        fn = os.path.join(REPO, "scripts", SCRIPTS[case.kind])
        with open(fn) as f:
            self.code = compile(f.read(), fn, "exec")
        self.fn = fn
        k = case.fam
        n = 3 if case.test else None
        c0 = self.cats[0]
        by = {"notes.dat": b"keep me\n", "older.hdf5": b"not really"}
        if k == "um":
            self.t0, self.fb, self.col = 13.820002, 0.048206 / 0.307115, "tot"
            self.argv = [self.outdir, case.sim] + case.opts
            w = len(str(int(case.opt("-num_subvols_tot", 576))))
            if case.test:
                self.argv += ["-test", "1"]
            else:
                self.argv += ["-istart", str(case.subs[0]), "-iend", str(case.subs[-1] + 1)]
            self.outs = [f"diffstar_fits_subvol_{s}.hdf5" for s in case.subs]
            o = case.subs[-1] + 1
            by[f"subvol_{o:0{w}d}_tmp_sfh_fits_rank_0.dat"] = b"another run\n"
            by["tmp_sfh_fits_rank_0.dat"] = b"another script\n"
            by[f"diffstar_fits_subvol_{o}.hdf5"] = b"another output"
        elif k == "tng":
            self.t0, self.fb, self.col = float(T[-1]), 0.0486 / 0.3089, "tot"
            self.argv = [self.outdir, "-indir", self.indir, "-indir_diffmah", self.indir] + case.opts
            a = np.zeros(c0.n, dtype=[("sfh", "f4", (NT,)), ("mpeakh", "f8", (NT,)), ("mpeak", "f8")])
            a["sfh"] = c0.sfh["tot"]
            a["mpeakh"] = np.linspace(10, 12, NT)
            a["mpeak"] = 12.0
            np.save(os.path.join(self.indir, "tng_diffmah.npy"), a)
            np.save(os.path.join(self.indir, "tng_cosmic_time.npy"), T.astype("f4"))
            c0.ids = np.arange(c0.n)
            c0.write_diffmah(os.path.join(self.indir, "diffmah_tng_fits.hdf5"))
            self.outs = ["diffstar_tng_fits.hdf5"]
            by["subvol_001_tmp_sfh_fits_rank_0.dat"] = b"another script\n"
            if case.test:
                self.argv += ["-test", "1"]
        else:
            self.t0, self.fb = float(T[-1]), 0.04930 / 0.31530
            self.col = "in" if case.sfh_type == "in_situ" else "tot"
            other = "in_plus_ex_situ" if case.sfh_type == "in_situ" else "in_situ"
            self.argv = [case.sfh_type, "-indir", self.indir, "-inbn", "block.hdf5", "-outdir", self.outdir] + case.opts
            with h5py.File(os.path.join(self.indir, "block.hdf5"), "w") as f:
                f["sfh_in_situ"], f["sfh_tot"] = c0.sfh["in"], c0.sfh["tot"]
                f["is_cen"] = np.arange(c0.n) % 2
                f["tarr"] = T
            c0.ids = np.arange(c0.n)
            c0.write_diffmah(os.path.join(self.indir, "diffmah_fits.h5"))
            self.outs = [f"diffstar_fits_{case.sfh_type}.hdf5"]
            for r in range(case.nranks + 1):
                by[f"tmp_sfh_fits_rank_{r}_{other}.dat"] = b"the other run in the same directory\n"
            by[f"diffstar_fits_{other}.hdf5"] = b"the other output"
        self.by = by
        self.want = [self.expected(c) for c in self.cats]

    # ---- catalogue side
    def qualifies(self, c):
        if self.case.fam == "tng":
            return np.ones(c.n, dtype=bool)
        thr = self.case.opt("-logmp0_min", 10.5)
        bad = (c.loss <= 0) | (c.npts < self.ls.NPTS_FIT_MIN)
        lm = c.logm0(self.t0)
        if np.any(np.abs(lm - thr) < 1e-3):
            raise RuntimeError("harness: mass at threshold")
        q = ~bad & (lm > thr)
        if self.case.fam == "gal":
            lsm = np.log10(ref.mstar_formed(T, c.sfh[self.col])[:, -1])
            if np.any(np.abs(lsm - 8.0) < 1e-2):
                raise RuntimeError("harness: stellar mass at threshold")
            q &= lsm > 8.0
        return q

    def nrows(self, c):
        return 5 * self.case.nranks if self.case.test and self.case.fam != "gal" else c.n

    def expected(self, c):
        q = self.qualifies(c)
        rows = []
        for i in range(self.nrows(c)):
            if q[i]:
                p, l, s = result(c, i)
                rows.append([c.ids[i], *p, l, s])
            else:
                rows.append([c.ids[i]] + [-99.0] * 8 + [-1.0, -1])
        return np.array(rows, dtype=float), q

    # ---- stand-ins
    def fitter(self, sig):
        def diffstar_fitter(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            v = b.arguments
            sfh = np.asarray(v["sfh_table"], dtype=float)
            mah = [float(x) for x in v["mah_params"]]
            case = self.case
            for c in self.cats:
                for i in range(c.n):
                    if np.allclose(sfh, c.sfh[self.col][i], rtol=1e-6, atol=0):
                        cc = dict(case.desc(), galaxy=i, subvolume=int(self.cats.index(c)))
                        if tuple(getattr(v["mah_params"], "_fields", ())) != ("logm0", "logtc", "early_index", "late_index", "t_peak"):
                            raise Violation("halo parameters handed to the fitter are not named", cc)
                        if not np.allclose(mah, [p[i] for p in c.mah], rtol=1e-6, atol=1e-7):
                            raise Violation(f"galaxy fitted with another halo: {mah}", cc)
                        if not np.allclose(np.asarray(v["t_table"], dtype=float), T, rtol=1e-6):
                            raise Violation("galaxy fitted with other times", cc)
                        ex = dict(
                            lgt0=np.log10(self.t0), fb=self.fb, fstar_tdelay=case.opt("-fstar_tdelay", 1.0),
                            mass_fit_min=case.opt("-mass_fit_min", 7.0), ssfrh_floor=case.opt("-ssfrh_floor", 1e-12),
                        )
                        for nm, e in ex.items():
                            if not np.isclose(float(v[nm]), e, rtol=1e-6, atol=0):
                                raise Violation(f"fitter called with {nm}={float(v[nm])}, expected {e}", cc)
                        for nm in ("dlogm_cut", "t_fit_min"):
                            if float(v[nm]) != float(sig.parameters[nm].default):
                                raise Violation(f"fitter called with {nm}={float(v[nm])}", cc)
                        if not self.qualifies(c)[i]:
                            raise Violation("a galaxy that does not qualify was fitted", cc)
                        self.fits.append((self.cats.index(c), i))
                        p, l, s = result(c, i)
                        return self.make([np.float32(x) for x in p]), l, s
            raise Violation("fitter called with a history that is not in the catalogue", dict(case.desc(), sfh=sfh))

        return diffstar_fitter

    def loader(self, which):
        def load(subvols, data_drn=None, **k):
            if which != self.case.sim:
                raise Violation("histories of another simulation loaded", self.case.desc())
            sub = [int(s) for s in subvols]
            c = self.cats[list(self.case.subs).index(sub[0])]
            self.load_dirs.add(("sfh", data_drn))
            lm = np.log10(ref.mstar_formed(T, c.sfh["tot"]))
            logm = np.tile(np.linspace(9, 12, NT), (c.n, 1))
            return c.ids.copy(), lm, c.sfh["tot"].copy(), T.copy(), logm, logm[:, -1]

        return load

    def diffmah_loader(self):
        def load(bn, data_drn=None, **k):
            pats = {"DR1": "diffmah_fits_subvol_{}.hdf5", "DR1_nomerging": "{}_diffmah_fits.h5" if self.case.kind == "um0" else "subvol_{:03d}_diffmah_fits.h5"}
            for c, s in zip(self.cats, self.case.subs):
                if bn == pats[self.case.sim].format(s):
                    self.load_dirs.add(("mah", data_drn))
                    fn = os.path.join(self.indir, f"dm{s}.h5")
                    if not os.path.exists(fn):
                        c.write_diffmah(fn)
                    return self.real_dm(f"dm{s}.h5", data_drn=self.indir, **k)
            raise Violation(f"halo fits loaded from {bn}", self.case.desc())

        return load

    # ---- explorer side
    def body(self, r):
        exec(self.code, {"__name__": "__main__", "__file__": self.fn, "__builtins__": __builtins__})

    def reset(self):
        if os.path.exists(self.outdir):
            shutil.rmtree(self.outdir)
        if self.case.outdir_exists:
            os.makedirs(self.outdir)
            for k, v in self.by.items():
                with open(os.path.join(self.outdir, k), "wb") as f:
                    f.write(v)
        self.fits = []
        self.load_dirs = set()

    def check(self, run):
        case = self.case
        c = dict(case.desc(), schedule=[f"{r}:{l}" for r, l in run.trace])
        by = self.by if case.outdir_exists else {}
        left = set(os.listdir(self.outdir))
        want = set(by) | set(self.outs)
        if left != want:
            raise Violation(f"files after the run: missing {sorted(want - left)}, unexpected {sorted(left - want)}", c)
        for k, v in by.items():
            with open(os.path.join(self.outdir, k), "rb") as f:
                if f.read() != v:
                    raise Violation(f"file {k} of another run was changed", c)
        for o, (rows, q), cat in zip(self.outs, self.want, self.cats):
            with h5py.File(os.path.join(self.outdir, o), "r") as f:
                cols = ("halo_id",) + ref.NAMES + ("loss", "success")
                if set(f) != set(cols):
                    raise Violation(f"columns {sorted(f)}", c)
                tab = {k: f[k][:] for k in cols}
            for j, k in enumerate(cols):
                if tab[k].shape != (len(rows),):
                    raise Violation(f"{o}: {tab[k].shape[0]} rows, expected {len(rows)}", c)
                if k in ("halo_id", "success"):
                    ok = tab[k] == rows[:, j].astype("i8")
                else:
                    ok = np.isclose(tab[k], rows[:, j], rtol=2e-5, atol=0)
                if not ok.all():
                    i = int(np.flatnonzero(~ok)[0])
                    raise Violation(f"{o}: {k} of row {i} is {tab[k][i]}, expected {rows[i, j]}", c)
        exf = sorted((ci, i) for ci, (rows, q) in enumerate(self.want) for i in range(len(rows)) if q[i])
        if sorted(self.fits) != exf:
            raise Violation(f"galaxies fitted {sorted(self.fits)}, expected each of {exf} once", c)
        if case.fam == "um" and len(self.load_dirs) != 2:
            raise Violation(f"inputs read from {self.load_dirs}", c)

    @contextlib.contextmanager
    def installed(self):
        ls, dfh = self.ls, self.dfh
        sig = inspect.signature(dfh.diffstar_fitter)
        saved = [(dfh, "diffstar_fitter", dfh.diffstar_fitter)]
        if self.case.fam == "um":
            self.real_dm = ls.load_smdpl_diffmah_fits
            saved += [(ls, k, getattr(ls, k)) for k in ("load_SMDPL_DR1_data", "load_SMDPL_nomerging_data", "load_smdpl_diffmah_fits")]
            ls.load_SMDPL_DR1_data = self.loader("DR1")
            ls.load_SMDPL_nomerging_data = self.loader("DR1_nomerging")
            ls.load_smdpl_diffmah_fits = self.diffmah_loader()
        dfh.diffstar_fitter = self.fitter(sig)
        argv, mods = sys.argv, {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
        sys.modules.update(sched.stub_mpi())
        sys.argv = [self.fn] + self.argv
        import glob

        rg = glob.glob
        if self.case.test and self.case.fam == "um":
            glob.glob = lambda p, *a, **k: [p.replace("*", "7"), p.replace("*", "3"), p.replace("*", "12")] if p.endswith("subvol_*") else rg(p, *a, **k)
        try:
            yield
        finally:
            sys.argv = argv
            glob.glob = rg
            for k, v in mods.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            for o, k, v in saved:
                setattr(o, k, v)


def explore(ctx, case, d, budget=None, prefer="low", max_runs=None, lazy=False):
    w = World(ctx, case, d)
    w.reset()
    with w.installed(), sched.Hooks(d, w.outdir, lazy=lazy), contextlib.redirect_stdout(io.StringIO()):
        ex = sched.Explorer(case.nranks, w.body, w.outdir, w.reset, w.check, budget, prefer, max_runs)
        try:
            ex.explore()
        except Violation as e:
            if isinstance(e.case, dict):
                e.case.setdefault("schedule", [f"{r}:{l}" for r, l in getattr(e, "schedule", [])])
            raise
        except Exception as e:
            tb = [t for t in getattr(e, "rank_tb", []) if t]
            raise Violation(
                f"{type(e).__name__}: {e}", dict(case.desc(), schedule=[f"{r}:{l}" for r, l in getattr(e, "schedule", [])], traceback=tb[-1][-1500:] if tb else None)
            )
    if ex.capped:
        ctx.exhaustive = False
    ctx.st(states=ex.states, transitions=ex.trans, traces=ex.full)
    return ex


KINDS = ("tng", "gal", "um", "gal0", "um0")
# galaxies alternate so that ranks hold qualifying and non-qualifying ones in every position
PATTERN = "ghgsnjfgzehigsgj"


def _words(n, kind, shift=0):
    base = PATTERN if kind != "tng" else "ghjeghisghjeghis"
    return "".join((base * 3)[shift : shift + n])


def _mk(kind, word, nranks, **k):
    return Case(kind, [word], nranks, **k)


def part_full(ctx, d):
    """two ranks (thorough: also three): every reachable state."""
    tot = []
    for kind in KINDS:
        for nr in (1, 2):
            for n in range(nr, 5 if ctx.thorough else 3 if kind.endswith("0") else 4):
                ex = explore(ctx, _mk(kind, _words(n, kind, n + nr), nr, sfh_type=["in_situ", "in_plus_ex_situ"][n % 2]), d)
                lz = explore(ctx, _mk(kind, _words(n, kind, n + nr), nr, sfh_type=["in_situ", "in_plus_ex_situ"][n % 2]), d, lazy=True)
                tot.append((kind, n, nr, ex.runs, ex.states, lz.runs, lz.states))
    if ctx.thorough:
        for kind in KINDS:
            ex = explore(ctx, _mk(kind, _words(3, kind), 3), d)
            lz = explore(ctx, _mk(kind, _words(3, kind), 3), d, lazy=True)
            tot.append((kind, 3, 3, ex.runs, ex.states, lz.runs, lz.states))
    ctx.sample(dict(explored=tot))


def part_words(ctx, d):
    """all words of galaxies over two ranks, default schedules."""
    letters = {"tng": "gse", "gal": "gsnfzei", "um": "gsjnfze", "gal0": "gsnfi", "um0": "gsjnf"}
    k = 0
    for kind, al in letters.items():
        for n in (1, 2, 3) if ctx.thorough else (1, 2):
            import itertools

            for w in itertools.product(al, repeat=n):
                k += 1
                explore(ctx, _mk(kind, "".join(w), 1 + k % n if n > 1 else 1, sfh_type=["in_situ", "in_plus_ex_situ"][k % 2]), d, budget=0)
    ctx.sample(dict(words=k))


def part_box(ctx, d):
    """all (galaxies, ranks) in a box, every schedule with one deviation from each default order."""
    for kind in KINDS:
        G = 8 if ctx.thorough else 3 if kind.endswith("0") else 5
        for nr in range(1, G + 1):
            for n in range(nr, G + 1):
                b = 1 if nr <= 3 and (ctx.thorough or n <= 4) else 0
                for p in ("low", "high"):
                    explore(ctx, _mk(kind, _words(n, kind, nr), nr, sfh_type=["in_plus_ex_situ", "in_situ"][n % 2]), d, budget=b, prefer=p)
                    explore(ctx, _mk(kind, _words(n, kind, nr), nr, sfh_type=["in_plus_ex_situ", "in_situ"][n % 2]), d, budget=b, prefer=p, lazy=True)
        for nr, n in ((11, 13), (12, 12)) if ctx.thorough else ((11, 13),):  # ranks with two digits
            for p in ("low", "high"):
                explore(ctx, _mk(kind, _words(n, kind, 1), nr), d, budget=0, prefer=p)


def part_options(ctx, d):
    """command lines."""
    opts = [
        ["-fstar_tdelay", "0.5"], ["-mass_fit_min", "8.25"], ["-ssfrh_floor", "1e-11"],
        ["-fstar_tdelay", "2.0", "-mass_fit_min", "6.5", "-ssfrh_floor", "3e-13"],
    ]
    lm = [["-logmp0_min", "10.2"], ["-logmp0_min", "12.35"], ["-logmp0_min", "11.5", "-fstar_tdelay", "0.25"]]
    for kind in KINDS:
        for o in opts + (lm if kind != "tng" else []):
            for sim, st in (("DR1", "in_situ"), ("DR1_nomerging", "in_plus_ex_situ")):
                explore(ctx, _mk(kind, _words(6, kind, 2), 2, opts=o, sim=sim, sfh_type=st), d, budget=0)
    for sim in ("DR1", "DR1_nomerging"):
        explore(ctx, Case("um0", ["ghs", "hg"], 2, sim=sim, subs=(0, 1)), d, budget=0)
        explore(ctx, Case("um0", ["gh", "sgh", "hhgg"], 2, sim=sim, subs=(9, 10, 11)), d, budget=0)
        explore(ctx, Case("um0", [_words(12, "um")], 2, sim=sim, subs=(3,), test=True), d, budget=0)
        for st in ("high", "low"):
            # several sub-volumes in one run, and numbers of one to three digits
            explore(ctx, Case("um", ["ghs", "hg"], 2, sim=sim, subs=(0, 1)), d, budget=1 if ctx.thorough else 0, prefer=st)
            explore(ctx, Case("um", ["gh", "sgh", "hhgg"], 2, sim=sim, subs=(9, 10, 11)), d, budget=0, prefer=st)
            explore(ctx, Case("um", ["ghn"], 3, sim=sim, subs=(575,), opts=["-num_subvols_tot", "576"]), d, budget=0, prefer=st)
            explore(ctx, Case("um", ["ghn"], 2, sim=sim, subs=(4,), opts=["-num_subvols_tot", "9"]), d, budget=0, prefer=st)
            explore(ctx, Case("um", [_words(12, "um")], 2, sim=sim, subs=(3,), test=True), d, budget=0, prefer=st)
    explore(ctx, _mk("tng", _words(12, "tng"), 2, test=True), d, budget=0)
    explore(ctx, _mk("tng", "ghg", 2, outdir_exists=False), d)


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c25_")
    try:
        ctx.run_part("full", part_full, d)
        ctx.run_part("words", part_words, d)
        ctx.run_part("box", part_box, d)
        ctx.run_part("options", part_options, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
