"""C32: the distributed halo-history fits: every halo once, in order, extended to the time of the whole sample, under any interleaving."""

import contextlib
import inspect
import io
import itertools
import os
import shutil
import sys
import tempfile

import h5py
import numpy as np

from . import sched
from .core import REPO, Violation

LEVEL = "model_checking"
RULE = (
    "galacticus_diffmah_fitter_script.py itself runs as ranks under the controlled scheduler of C25 (switch points at every communicator call, "
    "file open, write, read, existence test and removal; writes reaching the disk at once or at close). All (halos, ranks) in a small box x words over "
    "an alphabet of halos (full histories, histories that end early, non-monotonic ones, lifetimes below, at and above the minimum) x command "
    "lines; for small rank counts every reachable state and transition is visited. After every complete execution the table is compared with "
    "the catalogue row by row; the fitter is a stand-in that checks everything it was handed."
)
ASSUMPTIONS = [
    "the fitter and the removal command are replaced by stand-ins (removal acts in the scratch directory only)",
    "ranks share one file system in which a completed write is visible to every rank",
]
ORACLE = "the catalogue: one row per halo, in order, with the result of fitting that halo's running-maximum history held constant up to the latest time of any halo"

SCRIPT = os.path.join("scripts", "galacticus_analysis", "galacticus_diffmah_fitter_script.py")
COLS = ("logm0", "logtc", "early_index", "late_index", "t_peak", "loss", "n_points_per_fit", "fit_algo")
# letter -> (first time, last time, shape)
LET = {
    "g": (0.5, 13.75, "up"),
    "h": (1.0, 13.75, "dip"),
    "e": (0.5, 9.0, "up"),
    "f": (2.0, 12.0, "dip"),
    "d": (8.0, 8.25, "up"),  # lifetime below every minimum used
    "q": (8.0, 8.5, "up"),  # exactly the default minimum
    "b": (12.75, 13.75, "dip"),  # ends last but lives briefly
}


def halo(w, i):
    a, b, shape = LET[w]
    n = 4 + i % 3
    t = np.linspace(a, b, n)
    t[0], t[-1] = a, b
    m = 1e12 * (1 + 0.1 * i) * np.linspace(0.05, 1.0, n)
    if shape == "dip":
        m[-1] = 0.5 * m[-2]
        m[1] = 0.5 * m[0]
    return t, m


class Case:
    def __init__(self, word, nranks, opts=(), inbn=None, outbn="diffmah_fits.h5", test=False, outdir_exists=True, nested=False, cwd=False):
        self.word, self.nranks, self.opts, self.inbn, self.outbn, self.test = word, nranks, list(opts), inbn, outbn, test
        self.outdir_exists, self.nested, self.cwd = outdir_exists, nested, cwd

    def desc(self):
        return dict(halos=self.word if len(self.word) < 40 else f"{self.word[:20]}... ({len(self.word)})", ranks=self.nranks, options=self.opts, outbn=self.outbn, test=self.test)

    @property
    def dtmin(self):
        return float(self.opts[self.opts.index("-dt_fit_min") + 1]) if "-dt_fit_min" in self.opts else 0.5


class World:
    def __init__(self, case, d):
        from diffmah.fitting_helpers import diffmah_fitter_helpers as cfh

        self.cfh, self.case = cfh, case
        self.indir, self.outdir = os.path.join(d, "in"), os.path.join(d, "out")
        if case.nested or not case.outdir_exists:
            self.outdir = os.path.join(self.outdir, "run", "a") if case.nested else os.path.join(self.outdir, "run")
        for x in (os.path.join(d, "in"), os.path.join(d, "out")):
            if os.path.exists(x):
                shutil.rmtree(x)
            os.makedirs(x)
        self.top = os.path.join(d, "out")
        self.halos = [halo(w, i) for i, w in enumerate(case.word)]
        bn = case.inbn or "galacticus_11To14.2Mhalo_SFHinsitu_AHearin.hdf5"
        with h5py.File(os.path.join(self.indir, bn), "w") as f:
            g = f.create_group("Outputs/Output1/nodeData")
            vl = h5py.vlen_dtype(np.dtype("f8"))
            n = len(self.halos)
            for nm, j in (("haloAccretionHistoryTime", 0), ("haloAccretionHistoryMass", 1)):
                x = g.create_dataset(nm, (n,), dtype=vl)
                for i, h in enumerate(self.halos):
                    x[i] = h[j]
            g["nodeIsIsolated"] = np.arange(n) % 2
            g["basicTimeLastIsolated"] = np.linspace(1, 13, n)
        self.argv = ["-indir", self.indir] + ([] if case.cwd else ["-outdir", self.outdir]) + case.opts
        if case.inbn:
            self.argv += ["-inbn", case.inbn]
        if case.outbn != "diffmah_fits.h5":
            self.argv += ["-outbn", case.outbn]
        if case.test:
            self.argv += ["-test", "1"]
        self.fn = os.path.join(REPO, SCRIPT)
        with open(self.fn) as f:
            self.code = compile(f.read(), self.fn, "exec")
        self.t0 = max(t[-1] for t, _ in self.halos)
        k = np.array_split(np.arange(len(self.halos)), case.nranks)
        self.rows = [int(i) for part in k for i in (part[:50] if case.test else part)]
        self.by = {"tmp_sfh_fits_rank_0_in_situ.dat": b"another script\n", "diffstar_fits_in_situ.hdf5": b"another output", "mah_fits.txt": b"notes"}
        if case.outbn != "diffmah_fits.h5":
            self.by["diffmah_fits.h5"] = b"an earlier run"

    def given(self, i):
        t, m = self.halos[i]
        skip = bool(t[-1] - t[0] < self.case.dtmin)
        m = np.maximum.accumulate(m)
        if t[-1] < self.t0:
            t, m = np.append(t, self.t0), np.append(m, m[-1])
        return t, m, skip

    def result(self, i, skip):
        if skip:
            return [-99.0] * 6 + [-1]
        return [12.0 + 0.01 * i, 0.1 + 0.001 * i, 2.5 - 0.01 * i, 0.3 + 0.002 * i, 5.0 + 0.05 * i, 0.125 + i, i % 2]

    def fitter(self, sig):
        def diffmah_fitter(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            v = b.arguments
            t, m = np.asarray(v["t_sim"], dtype=float), np.asarray(v["mah_sim"], dtype=float)
            c = dict(self.case.desc(), t_sim=t, mah_sim=m)
            for i in range(len(self.halos)):
                t1, m1, skip = self.given(i)
                if t.shape == t1.shape == m.shape and np.allclose(t, t1, rtol=1e-9) and np.allclose(m, m1, rtol=1e-9):
                    break
            else:
                raise Violation("fitter called with a history that is not the one of any halo", c)
            if bool(v["force_skip_fit"]) != skip:
                raise Violation(f"halo {i}: fit skipped: {bool(v['force_skip_fit'])}, expected {skip}", c)
            for nm, p in sig.parameters.items():
                if nm not in ("t_sim", "mah_sim", "force_skip_fit") and v[nm] != p.default:
                    raise Violation(f"fitter called with {nm}={v[nm]}", c)
            self.fits.append(i)
            r = self.result(i, skip)
            loss_data = self.cfh.DiffmahFitLossData(t1, np.log10(m1), 0.0, np.log10(self.t0))
            return self.cfh.DiffmahFitResult(self.make([np.float32(x) for x in r[:5]]), r[5], skip, not skip, r[6], loss_data)

        return diffmah_fitter

    def body(self, r):
        exec(self.code, {"__name__": "__main__", "__file__": self.fn, "__builtins__": __builtins__})

    def reset(self):
        for k in os.listdir(self.top):
            p = os.path.join(self.top, k)
            (shutil.rmtree if os.path.isdir(p) else os.remove)(p)
        if self.case.outdir_exists and not self.case.nested:
            for k, v in self.by.items():
                with open(os.path.join(self.outdir, k), "wb") as f:
                    f.write(v)
        self.fits = []

    def check(self, run):
        case = self.case
        c = dict(case.desc(), schedule=[f"{r}:{l}" for r, l in run.trace][:400])
        by = self.by if case.outdir_exists and not case.nested else {}
        left, want = set(os.listdir(self.outdir)), set(by) | {case.outbn}
        if left != want:
            raise Violation(f"files after the run: missing {sorted(want - left)}, unexpected {sorted(left - want)}", c)
        for k, v in by.items():
            with open(os.path.join(self.outdir, k), "rb") as f:
                if f.read() != v:
                    raise Violation(f"file {k} of another run was changed", c)
        if sorted(self.fits) != sorted(self.rows):
            raise Violation(f"halos fitted {sorted(self.fits)}, expected each of {self.rows} once", c)
        with h5py.File(os.path.join(self.outdir, case.outbn), "r") as f:
            if set(f) != set(COLS):
                raise Violation(f"columns {sorted(f)}", c)
            for j, k in enumerate(COLS):
                got = f[k][:]
                if got.shape != (len(self.rows),):
                    raise Violation(f"{k}: {got.shape} rows, expected {len(self.rows)}", c)
                for row, i in enumerate(self.rows):
                    t, m, skip = self.given(i)
                    r = self.result(i, skip)
                    e = int(np.sum(m < m[-1])) if k == "n_points_per_fit" else r[min(j, 6)]
                    if not np.isclose(float(got[row]), float(e), rtol=2e-5, atol=0):
                        raise Violation(f"{k} of row {row} is {got[row]}, expected {e} (halo {i})", c)

    @contextlib.contextmanager
    def installed(self):
        cfh = self.cfh
        from diffmah import diffmah_kernels as dk

        self.make = dk.DEFAULT_MAH_PARAMS._make
        real = cfh.diffmah_fitter
        cfh.diffmah_fitter = self.fitter(inspect.signature(real))
        argv, mods = sys.argv, {k: sys.modules.get(k) for k in ("mpi4py", "mpi4py.MPI")}
        sys.modules.update(sched.stub_mpi())
        sys.argv = [self.fn] + self.argv
        here = os.getcwd()
        if self.case.cwd:
            os.chdir(self.outdir)
        try:
            yield
        finally:
            cfh.diffmah_fitter = real
            sys.argv = argv
            os.chdir(here)
            for k, v in mods.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v


def explore(ctx, case, d, budget=None, prefer="low", lazy=False):
    w = World(case, d)
    w.reset()
    with w.installed(), sched.Hooks(d, w.top, lazy=lazy), contextlib.redirect_stdout(io.StringIO()):
        ex = sched.Explorer(case.nranks, w.body, w.top, w.reset, w.check, budget, prefer, None)
        try:
            ex.explore()
        except Violation as e:
            if isinstance(e.case, dict):
                e.case.setdefault("schedule", [f"{r}:{l}" for r, l in getattr(e, "schedule", [])][:400])
            raise
        except Exception as e:
            tb = [t for t in getattr(e, "rank_tb", []) if t]
            raise Violation(
                f"{type(e).__name__}: {e}",
                dict(case.desc(), schedule=[f"{r}:{l}" for r, l in getattr(e, "schedule", [])][:400], traceback=tb[-1][-1500:] if tb else None),
            )
    if ex.capped:
        ctx.exhaustive = False
    ctx.st(states=ex.states, transitions=ex.trans, traces=ex.full)
    return ex


PATTERN = "gehdfbqgdehf"


def word(n, shift=0):
    return "".join((PATTERN * 5)[shift : shift + n])


def part_full(ctx, d):
    """two ranks (thorough: also three): every reachable state."""
    tot = []
    for nr in (1, 2):
        for n in range(nr, 6 if ctx.thorough else 5):
            for shift in (n + nr, 3):
                for lazy in (False, True):
                    ex = explore(ctx, Case(word(n, shift), nr), d, lazy=lazy)
                    tot.append((n, nr, lazy, ex.runs, ex.states))
    for n in (3, 4) if ctx.thorough else (3,):
        for lazy in (False, True) if ctx.thorough else (True,):
            ex = explore(ctx, Case(word(n, 2), 3), d, lazy=lazy)
            tot.append((n, 3, lazy, ex.runs, ex.states))
    ctx.sample(dict(explored=tot))


def part_words(ctx, d):
    """all words of halos over one to three ranks, default schedules."""
    k = 0
    for n in (1, 2, 3) if ctx.thorough else (1, 2):
        for w in itertools.product(LET, repeat=n):
            for nr in range(1, n + 1):
                k += 1
                explore(ctx, Case("".join(w), nr), d, budget=0, prefer=["low", "high"][k % 2])
    ctx.sample(dict(words=k))


def part_box(ctx, d):
    """all (halos, ranks) in a box, every schedule with one deviation from each default order."""
    G = 9 if ctx.thorough else 6
    for nr in range(1, G + 1):
        for n in range(nr, G + 1):
            b = 1 if nr <= 3 and (ctx.thorough or n <= 4) else 0
            for p in ("low", "high"):
                for lazy in (False, True):
                    explore(ctx, Case(word(n, nr), nr), d, budget=b, prefer=p, lazy=lazy)
    for nr, n in ((11, 13), (12, 12)):
        for p in ("low", "high"):
            explore(ctx, Case(word(n, 1), nr), d, budget=0, prefer=p)


def part_options(ctx, d):
    """command lines; inputs and outputs under other names; a directory that does not exist yet; the short run."""
    for o in (["-dt_fit_min", "0.2"], ["-dt_fit_min", "0.25"], ["-dt_fit_min", "1.0"], ["-dt_fit_min", "5"], ["-dt_fit_min", "11"]):
        for nr in (1, 2, 3):
            explore(ctx, Case("gehdfbq", nr, opts=o), d, budget=0, prefer=["low", "high"][nr % 2])
    for p in ("low", "high"):
        explore(ctx, Case("gehd", 2, inbn="block_1.hdf5"), d, budget=1, prefer=p)
        explore(ctx, Case("gehd", 2, outbn="fits_of_block_1.h5"), d, budget=1, prefer=p)
        explore(ctx, Case("ged", 2, outdir_exists=False), d, budget=1, prefer=p)
        explore(ctx, Case("ged", 2, nested=True), d, budget=1, prefer=p)
        explore(ctx, Case("gedf", 2, cwd=True), d, budget=1, prefer=p)
        explore(ctx, Case(word(9), 2, test=True), d, budget=0, prefer=p)
        # more than fifty halos on a rank: a short run takes the first fifty of each rank
        explore(ctx, Case((PATTERN * 9)[:104], 2, test=True), d, budget=0, prefer=p, lazy=True)


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c32_")
    try:
        ctx.run_part("full", part_full, d)
        ctx.run_part("words", part_words, d)
        ctx.run_part("box", part_box, d)
        ctx.run_part("options", part_options, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
