"""C34: a killed run can simply be run again: whatever it left behind, the next run writes what it would write in a clean directory."""

import contextlib
import gc
import io
import itertools
import os
import shutil
import tempfile

import h5py
import numpy as np

from . import c25, c29, c31, c32, c33, sched
from .core import Violation

LEVEL = "model_checking"
RULE = (
    "Crash points of the scripts that write per-rank or per-sub-volume files. Each script runs as ranks under the controlled scheduler of "
    "C25; after every step of every explored schedule the files on disk are recorded, as they are and with the file written last torn inside "
    "its last write. From every recorded disk image the script is run again, with every rank count and catalogue of the case (the same and "
    "others), and must end with the same tables and files as in a clean directory. The runs started from an image are themselves "
    "killed at every step (thorough: until no new disk image appears, that is for any number of crashes in a row)."
)
ASSUMPTIONS = [
    "a kill loses nothing that had reached the disk and tears at most the write in progress",
    "the fitters, catalogue readers and the removal command are the stand-ins of C25, C29 and C32",
]
ORACLE = "the tables of the same run in a clean directory, from the catalogue (C25, C29, C32)"


class Target:
    """one script with the configurations (rank count, catalogue, ...) it may be run with in one output directory."""

    def __init__(self, name, configs, make, outdir, h5=False):
        self.name, self.configs, self.make, self.outdir, self.h5 = name, configs, make, outdir, h5


def _c25(ctx, kind, confs):
    return Target(c25.SCRIPTS[kind], confs, lambda d, c: c25.World(ctx, c25.Case(kind, c[1] if isinstance(c[1], list) else [c[1]], c[0], **(c[2] if len(c) > 2 else {})), d), lambda w: w.outdir)


def _c32(confs):
    return Target("galacticus_diffmah_fitter_script.py", confs, lambda d, c: c32.World(c32.Case(c[1], c[0]), d), lambda w: w.outdir)


def _c29(kind, confs):
    def make(d, c):
        w = c29.World(d, kind, c[1], **(c[2] if len(c) > 2 else {}))
        w.nranks = c[0]
        return w

    return Target(f"measure_smhm ({kind})", confs, make, lambda w: w.out, True)


def _read(p):
    with sched._real_open(p, "rb") as f:
        return f.read()


def _h5(k):
    return k.endswith((".hdf5", ".h5"))


def _key(img):
    return tuple((k, len(v) if _h5(k) else v) for k, v in sorted(img.items()))


class Shots:
    """disk images at every step of the runs; torn variants of the file written last."""

    def __init__(self, d, by, cuts):
        self.d, self.by, self.cuts, self.out = d, by, cuts, {}
        self.prev = {}

    def __call__(self, run):
        if len(run.trace) <= 1 + run.n:
            self.prev = {}
        now = {}
        for k in os.listdir(self.d):
            if k not in self.by:
                now[k] = _read(os.path.join(self.d, k))
        self.add(now)
        for k, v in now.items():
            old = self.prev.get(k, b"")
            if v == old or not v:
                continue
            lo = len(old) if v.startswith(old) else 0
            for n in self.points(lo, len(v), _h5(k)):
                self.add({**now, k: v[:n]})
        self.prev = now

    def points(self, lo, hi, h5):
        if h5:
            return {0, 8, hi // 2, hi - 1}
        if self.cuts == "all" and hi - lo < 40:
            return range(lo + 1, hi)
        return {x for x in (lo + 1, (lo + hi) // 2, hi - 1) if lo < x < hi} if self.cuts else ()

    def add(self, img):
        self.out.setdefault(_key(img), dict(img))


def _execute(ctx, t, w, conf, image, history, budget, prefer, shots):
    """runs the program of world w from the given disk image; checks the tables."""
    d = t.outdir(w)
    reset0, check0 = w.reset, w.check

    def reset():
        reset0()
        for k, v in image.items():
            with sched._real_open(os.path.join(d, k), "wb") as f:
                f.write(v)

    def check(run):
        opened = {l.split()[1] for _, l in run.trace if l.split()[0] in ("open", "h5open") and l.split()[-1] != "r"}
        for k in list(os.listdir(d)):  # what another rank count left behind may stay; what this run wrote may not
            if k in image and k not in opened and k not in w.by and _read(os.path.join(d, k)) == image[k] and k not in finals:
                os.remove(os.path.join(d, k))
        check0(run)

    finals = set(getattr(w, "outs", [])) or {"smdpl_smhm.h5", "smdpl_smhm_samples_haloes.h5", "smdpl_mstar_ssfr.h5", "diffmah_fits.h5"}
    w.reset, w.check = reset, check
    collect, gc.collect = gc.collect, lambda *a: 0
    np.random.seed(7)
    try:
        ex = sched.Explorer(conf[0], w.body, d, reset, check, budget, prefer)
        ex.observe = shots
        ex.explore()
    except Exception as e:
        c = dict(script=t.name, run=conf, interrupted=history, left_behind={k: v.decode(errors="replace")[-300:] if not _h5(k) else f"{len(v)} bytes" for k, v in image.items()})
        tb = [x for x in getattr(e, "rank_tb", []) if x]
        if isinstance(e, Violation):
            raise Violation(f"after an interrupted run: {e}", dict(c, detail=e.case))
        raise Violation(f"after an interrupted run: {type(e).__name__}: {e}", dict(c, traceback=tb[-1][-1200:] if tb else None))
    finally:
        gc.collect = collect
        w.reset, w.check = reset0, check0
    ctx.st(states=ex.states, transitions=ex.trans, traces=ex.full)
    return ex


@contextlib.contextmanager
def _world(t, d, conf):
    w = t.make(d, conf)
    w.reset()
    with w.installed(), sched.Hooks(d, t.outdir(w), h5=t.h5), contextlib.redirect_stdout(io.StringIO()):
        yield w


def explore(ctx, t, d, first=None, rerun=0, depth=1, cuts=True, cap=None):
    """first: budget of the first runs (None: every interleaving); depth: crashes in a row (None: until no new image appears)."""
    done, frontier, k = {}, {}, 0
    for conf in t.configs:
        with _world(t, d, conf) as w:
            sh = Shots(t.outdir(w), w.by, cuts)
            for p in ("low", "high"):
                b = first if conf[0] <= 2 or ctx.thorough else 0
                _execute(ctx, t, w, conf, {}, [], b, p, sh)
                if b is None:
                    break
            for key, img in sh.out.items():
                frontier.setdefault(key, (img, [str(conf)]))
    level = 0
    sizes = []
    while frontier:
        sizes.append(len(frontier))
        done.update(frontier)
        level += 1
        new = {}
        last = depth is not None and level >= depth
        for conf in t.configs:
            with _world(t, d, conf) as w:
                sh = None if last else Shots(t.outdir(w), w.by, cuts)
                for img, hist in frontier.values():
                    k += 1
                    _execute(ctx, t, w, conf, img, hist, rerun, ("low", "high")[k % 2], sh)
                    if sh:
                        for key, im in sh.out.items():
                            if key not in done and key not in new:
                                new[key] = (im, hist + [str(conf)])
                        sh.out = {}
        if last:
            break
        frontier = new
        if cap and len(done) + len(frontier) > cap:
            ctx.exhaustive = False
            break
    ctx.extra.setdefault("disk_images", {})[t.name] = sizes
    return done


def part_fits(ctx, d):
    """the galaxy-fitting scripts."""
    for kind in c25.KINDS:
        a, b = ("ghs", "hgn") if kind != "tng" else ("ghs", "seg")
        confs = [(2, a), (1, a), (2, b)] + ([(3, a)] if ctx.thorough or not kind.endswith("0") else []) + ([(1, b)] if ctx.thorough else [])
        explore(ctx, _c25(ctx, kind, confs), d, None, 0, 1, "all" if ctx.thorough else True)
        if ctx.thorough:
            explore(ctx, _c25(ctx, kind, [(2, "gh"), (1, "hg")]), d, None, 0, None)


def part_halos(ctx, d):
    explore(ctx, _c32([(2, "ged"), (1, "ged"), (2, "hgb")] + ([(3, "ged"), (1, "hgb")] if ctx.thorough else [])), d, None if ctx.thorough else 1)
    if ctx.thorough:
        explore(ctx, _c32([(2, "ge"), (1, "dh")]), d, None, 0, None)


def part_measure(ctx, d):
    """the measurement scripts."""
    for kind, confs in (
        ("smdpl", [(2, ("cs", "q", "m")), (1, ("cs", "q", "m")), (2, ("cs", "q", "m"), dict(missing=(1,))), (1, ("s", "cc", "q"), dict(sim="DR1_nomerging", missing=(0,)))]),
        ("tng", [(2, ("csq", "mt")), (2, ("sq", "cc"))]),
        ("gal", [(1, ("csqmt",)), (1, ("ssc",), dict(sfh_type="in_plus_ex_situ"))]),
    ):
        explore(ctx, _c29(kind, confs), d, None if ctx.thorough else 0)


def _torn(b, thorough):
    """what a killed writer can leave of a file, and things that are no table at all."""
    n = len(b)
    cut = {0, 1, 8, 96, n // 2, n - 1, n} | (set(range(0, n, max(1, n // 24))) if thorough else set())
    return [b[:k] for k in sorted(cut) if k <= n] + [b"not a table\n", b[: n // 2] + bytes(n - n // 2)]


def _h5read(fn):
    with h5py.File(fn, "r") as f:
        return {k: f[k][...] for k in f}


def part_tables(ctx, d):
    """collated tables and reduced catalogues: every chain of (complete or torn) writes under one name."""
    from diffstar.data_loaders import load_galacticus_sfh as lg
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    cols = ["halo_id", "a", "b", "success"]
    fn = os.path.join(d, "table.hdf5")

    def table(n, k):
        return np.array([[str(100 * k + i), f"{k + 0.5 * i:.5e}", f"{-99.0 if i % 2 else i:.5e}", str([1, 0, -1][(i + k) % 3])] for i in range(n)])

    tabs = [(table(5, 1), cols), (table(3, 2), cols), (table(5, 3), cols), (table(1, 4), cols), (table(4, 5), cols[:1] + ["loss", "x"] + cols[3:])]

    def check(t, c):
        got = _h5read(fn)
        if set(got) != set(t[1]):
            raise Violation(f"columns {sorted(got)} after a rewrite, expected {t[1]}", c)
        for j, k in enumerate(t[1]):
            e = t[0][:, j].astype(float)
            if got[k].shape != e.shape or not np.array_equal(got[k].astype(float), e):
                raise Violation(f"{k} after a rewrite is {got[k]}, expected {e}", c)

    for a, b in itertools.product(range(len(tabs)), repeat=2):
        if os.path.exists(fn):
            os.remove(fn)
        dfh.write_collated_data(fn, *tabs[a])
        check(tabs[a], dict(written=a))
        raw = _read(fn)
        for k, im in enumerate(_torn(raw, ctx.thorough)):
            with open(fn, "wb") as f:
                f.write(im)
            c = dict(first=a, second=b, left_behind=len(im), variant=k)
            bad = tabs[b][0][:, :-1]
            try:
                dfh.write_collated_data(fn, bad, tabs[b][1])
            except AssertionError:
                pass
            else:
                raise Violation("a table that does not match its header was accepted", c)
            if _read(fn) != im:
                raise Violation("a rejected table changed the file", c)
            try:
                dfh.write_collated_data(fn, *tabs[b])
            except Exception as e:
                raise Violation(f"cannot write over what was left behind: {type(e).__name__}: {e}", c)
            check(tabs[b], c)
            ctx.st(states=2, transitions=2, traces=1)

    g = os.path.join(d, "gal")
    os.makedirs(g)
    out = os.path.join(g, lg.BNAME_SFH_DATA)

    def catalogue(n, k):
        t = np.linspace(0.5, 13.5, 4 + k)
        np.save(os.path.join(g, "tarr_bulge.npy"), t)
        np.save(os.path.join(g, "tarr_disk.npy"), t)
        dm = {x: 1e9 * (1 + np.arange(n * len(t)).reshape(n, -1) + 10 * k + i) for i, x in enumerate(("in_situ_bulge", "in_situ_disk", "tot_bulge", "tot_disk"))}
        for x, v in dm.items():
            np.save(os.path.join(g, f"delta_mstar_{x}.npy"), v)
        with h5py.File(os.path.join(g, lg.BN_GALCUS), "w") as f:
            f["Outputs/Output1/nodeData/nodeIsIsolated"] = (np.arange(n) + k) % 2
        dt = np.diff(np.concatenate(([0.0], t)))
        return dict(sfh_in_situ=(dm["in_situ_bulge"] + dm["in_situ_disk"]) / dt / 1e9, sfh_tot=(dm["tot_bulge"] + dm["tot_disk"]) / dt / 1e9, is_cen=(np.arange(n) + k) % 2, tarr=t)

    for (n1, k1), (n2, k2) in itertools.product(((5, 0), (3, 1), (5, 2), (1, 0)), repeat=2):
        if os.path.exists(out):
            os.remove(out)
        catalogue(n1, k1)
        lg.write_galacticus_sfh_data_block(g)
        raw = _read(out)
        want = catalogue(n2, k2)
        for k, im in enumerate(_torn(raw, ctx.thorough)):
            with open(out, "wb") as f:
                f.write(im)
            c = dict(first=(n1, k1), second=(n2, k2), left_behind=len(im), variant=k)
            try:
                lg.write_galacticus_sfh_data_block(g)
            except Exception as e:
                raise Violation(f"cannot write over what was left behind: {type(e).__name__}: {e}", c)
            got = _h5read(out)
            if set(got) != set(want):
                raise Violation(f"columns {sorted(got)}", c)
            for x, e in want.items():
                if x == "tarr" or x == "is_cen":
                    ok = got[x].shape == e.shape and np.array_equal(got[x], e)
                else:
                    ok = got[x].shape == e.shape and np.allclose(got[x][:, 1:], e[:, 1:], rtol=1e-5)
                if not ok:
                    raise Violation(f"{x} after a rewrite does not belong to the catalogue written", c)
            ctx.st(states=1, transitions=1, traces=1)


def part_results(ctx, d):
    """fit-quality tables and population fits over torn or foreign results under the same name."""
    q = os.path.join(d, "quality")
    b = c33.Bench(q)
    t = np.linspace(0.4, 13.7, 11)
    puts = {
        "smdpl_dr1": lambda w: b.put_smdpl("DR1", [w[:2], w[2:]], [0, 3], 1),
        "galcus_insitu": lambda w: b.put_gal(w, t, "in_situ"),
        "galcus_inplusexsitu": lambda w: b.put_gal(w, t, "in_plus_ex_situ"),
        "tng": lambda w: b.put_tng(w * 5, t),
    }
    for sim, put in puts.items():
        b.clear()
        put("abgca")
        b.run(sim)
        raw = _read(os.path.join(b.out, c33.FILES[sim]))
        for k, im in enumerate(_torn(raw, ctx.thorough)):
            b.clear()
            cats = put("bagcd")
            with open(os.path.join(b.out, c33.FILES[sim]), "wb") as f:
                f.write(im)
            c33.check(ctx, b, sim, cats, dict(sim=sim, galaxies="bagcd", left_behind=len(im), variant=k))
    bench = c31.Bench(os.path.join(d, "fit"))
    f, best = c31.one(ctx, bench, "bdc", 3)
    raw = _read(f)
    for k, im in enumerate(_torn(raw, ctx.thorough)):
        for w in ("cb", "bac", "aNd", "a"):
            c31.one(ctx, bench, w, len(w), stale=im)
            c31.one(ctx, bench, w, len(w), stale=im, outname="mine")


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c34_")
    try:
        for nm, part in (("fits", part_fits), ("halos", part_halos), ("measure", part_measure), ("tables", part_tables), ("results", part_results)):
            e = os.path.join(d, nm)
            os.makedirs(e)
            ctx.run_part(nm, part, e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
