"""C31: the population fit saves the best point it visited, for every history of losses and gradients."""

import contextlib
import io
import itertools
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from . import popenv, ref
from .core import Violation

LEVEL = "fault_enumeration"
RULE = (
    "The fitting script is run as written with a loss kernel that answers every newly visited point with the next letter of a word (values in every order, "
    "undefined loss, undefined gradient, both). All words up to the bound x number of steps are enumerated; a point visited again gets its old answer. After every run the "
    "saved file is compared with the visited points, the path with a float64 Adam, and, for every command line (data set, starting point, names), the data, "
    "kernel and starting point used with the ones asked for."
)
ASSUMPTIONS = ["a start with an undefined loss may end the run with an error (there is no gradient to step along), but may not save anything else than the start"]
ORACLE = "record of the visited points and float64 Adam"

NAME = "fit_mstar_ssfr_pdfs_mgash.py"
# letter -> (loss, scale of gradient)
LET = {"a": (5000.0, 1.0), "b": (1.0, -0.5), "c": (0.25, 2.0), "d": (0.01, -0.7), "N": (np.nan, np.nan), "K": (np.nan, 1.0), "I": (np.inf, 1.0), "J": (-np.inf, 1.0), "G": (0.001, np.nan), "H": (0.002, np.inf)}
BAD = "NKIJGH"
LR = 0.01


class Kernel:
    def __init__(self, word, n):
        self.word, self.n = word, n
        self.pts, self.order, self.calls, self.data = {}, [], 0, []
        self.g = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * (1 + 0.01 * np.arange(n))

    def answer(self, k):
        w = self.word[k] if k < len(self.word) else "a"
        l, s = LET[w]
        g = self.g * (s if np.isfinite(s) else 1.0)
        if not np.isfinite(s):
            g = g.copy()
            g[3] = s
        return w, l, g

    def __call__(self, p, *data):
        import jax.numpy as jnp

        self.calls += 1
        self.data.append(data)
        p = np.array(p, dtype=np.float64)
        key = p.astype(np.float32).tobytes()
        if key not in self.pts:
            self.pts[key] = len(self.order)
            self.order.append(p)
        w, l, g = self.answer(self.pts[key])
        return jnp.asarray(l), jnp.asarray(g)


KERN = {"mstar": ("loss_mstar_kern_tobs_grad_wrapper", 1), "mstar_ssfr_cen": ("loss_combined_wrapper", 2), "mstar_ssfr_cen_sat": ("loss_combined_3loss_wrapper", 3)}
HELP = ["get_loss_data_pdfs_mstar", "get_loss_data_pdfs_ssfr_central", "get_loss_data_pdfs_ssfr_satellite"]
OTHER = ["get_loss_data_smhm", "get_loss_data_pdfs_mstar_cen", "get_loss_data_pdfs_mstar_sat"]


class Bench:
    def __init__(self, d):
        self.d = d
        import diffstar.diffstarpop.loss_kernels.mstar_ssfr_loss_mgash_anyz as lk  # noqa: switches JAX to float64
        from diffstar.diffstarpop.kernels import defaults_mgash as dm
        from diffstar.diffstarpop.kernels import params as pp

        self.lk, self.dm, self.pp = lk, dm, pp
        self.fn, self.code = popenv.script(NAME)
        self.default = np.array(dm.DEFAULT_DIFFSTARPOP_U_PARAMS, dtype=np.float64)
        self.asked = []

    def run(self, word, argv, c, loss_type="mstar"):
        lk = self.lk
        k = {t: Kernel(word, len(self.default)) for t in KERN}
        saved = {}
        m = types.ModuleType("fit_get_loss_helpers_mgash")
        self.asked = []

        def helper(nm):
            def f(indir, nhalos, *a, **kw):
                self.asked.append((nm, indir, nhalos, a, kw))
                return ("data of " + nm,), ("plot",)

            return f

        for nm in HELP + OTHER:
            setattr(m, nm, helper(nm))
        try:
            for t, (nm, _) in KERN.items():
                saved[nm] = getattr(lk, nm)
                setattr(lk, nm, k[t])
            np.random.seed(5)
            with popenv.installed({"fit_get_loss_helpers_mgash": m}, [NAME] + argv), np.errstate(all="ignore"):
                exec(self.code, {"__name__": "__main__", "__file__": self.fn, "__builtins__": __builtins__})
        finally:
            for nm, f in saved.items():
                setattr(lk, nm, f)
        for t in KERN:
            if t != loss_type and k[t].calls:
                raise Violation(f"loss of data set {t} used", c)
        return k[loss_type]


def adam_path(K, start, n):
    """points of an Adam run that meets the kernel's answers in order, up to and including the first undefined one."""
    p, m, v = np.array(start), 0.0, 0.0
    out = []
    for i in range(n):
        out.append(p)
        w, l, g = K.answer(i)
        if w in BAD:
            break
        m = 0.1 * g + 0.9 * m
        v = 0.001 * g * g + 0.999 * v
        p = p - LR * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
    else:
        return out, None
    if w in "NKIJ" and i > 0:  # one further step along the last gradient
        g = K.answer(i - 1)[2]
        m = 0.1 * g + 0.9 * m
        v = 0.001 * g * g + 0.999 * v
        return out, p - LR * (m / (1 - 0.9 ** (i + 1))) / (np.sqrt(v / (1 - 0.999 ** (i + 1))) + 1e-8)
    return out, None


def check_file(bench, path, best, c):
    with np.load(path) as z:
        if set(z.files) != {"diffstarpop_params", "diffstarpop_u_params"}:
            raise Violation(f"saved columns {z.files}", c)
        u, p = z["diffstarpop_u_params"].astype(np.float64), z["diffstarpop_params"].astype(np.float64)
    if u.shape != bench.default.shape or p.shape != u.shape:
        raise Violation(f"saved shapes {u.shape} {p.shape}", c)
    if not any(np.allclose(u, b, rtol=3e-7, atol=1e-7) for b in best):
        raise Violation("saved parameters are not those of the best visited point", dict(c, saved=u[:6], best=[b[:6] for b in best]))
    b = dict(zip(bench.dm.DEFAULT_DIFFSTARPOP_U_PARAMS._fields, u))
    e = np.array([ref.pop_bounded(nm, b["u_" + nm]) for nm in bench.dm.DEFAULT_DIFFSTARPOP_PARAMS._fields])
    if not np.allclose(p, e, rtol=2e-4, atol=2e-4):
        i = int(np.argmax(np.abs(p - e)))
        raise Violation(f"saved bounded parameters are not the transform of the unbounded ones: entry {i} is {p[i]}, expected {e[i]}", c)



def one(ctx, bench, word, n, start=None, argv=(), loss_type="mstar", outname=None, indir="somewhere", nhalos=100, stale=None):
    out = os.path.join(bench.d, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(os.path.join(out, "other.npz"), "w") as f:
        f.write("keep")
    c = dict(losses=word, steps=n, options=list(argv), loss_type=loss_type)
    if stale is not None:  # what an earlier run left behind
        with open(os.path.join(out, (outname or "bestfit_diffstarpop_params") + ".npz"), "wb") as f:
            f.write(stale)
    start = bench.default if start is None else start
    av = ["-nstep", str(n), "-outdir", out, "-indir", indir, "-nhalos", str(nhalos)] + list(argv)
    if loss_type != "mstar":
        av += ["-loss_type", loss_type]
    if outname:
        av += ["-outname", outname]
    err = None
    try:
        K = bench.run(word, av, c, loss_type)
    except Violation:
        raise
    except Exception as e:
        if word[:1] and word[0] in "NKIJ":
            err = e
            K = None
        else:
            raise Violation(f"{type(e).__name__}: {e}", c)
    name = (outname or "bestfit_diffstarpop_params") + ".npz"
    left = set(os.listdir(out))
    if err is not None:
        if left != {"other.npz"}:
            raise Violation("a run without a single defined loss ended with an error and left a result", c)
        ctx.st(states=1, transitions=1, traces=1)
        return None
    if left != {"other.npz", name} or open(os.path.join(out, "other.npz")).read() != "keep":
        raise Violation(f"files after the run: {sorted(left)}", c)
    want = [(HELP[i], indir, nhalos) for i in range(KERN[loss_type][1])]
    if sorted(a[:3] for a in bench.asked) != sorted(want):
        raise Violation(f"data asked for: {bench.asked}, expected {want}", c)
    if any(d != tuple(("data of " + h,) for h, _, _ in want) for d in K.data):
        raise Violation(f"loss evaluated on {K.data[0]}", c)
    if not np.allclose(K.order[0], start, rtol=1e-6, atol=1e-7):
        raise Violation("the run does not start at the requested point", dict(c, first=K.order[0][:6], expected=start[:6]))
    path, extra = adam_path(K, start, n)
    pts = path + ([extra] if extra is not None else [])
    if len(K.order) < len(pts):
        raise Violation(f"{len(K.order)} points visited, the steps asked for give at least {len(pts)}", c)
    for i, e in enumerate(pts):
        if not np.allclose(K.order[i], e, rtol=1e-5, atol=2e-6):
            raise Violation(f"visited point {i} is not the next Adam step", dict(c, got=K.order[i][:4], expected=e[:4]))
    fl = [K.answer(i)[0] for i in range(len(K.order))]
    bad = [i for i, w in enumerate(fl) if w in BAD]
    if not bad and len(K.order) != n:
        raise Violation(f"{len(K.order)} points visited in {n} steps", c)
    if len(bad) == 1 and extra is not None and fl[bad[0]] in "NKIJ" and fl[bad[0] + 1] != fl[bad[0] - 1] and len(K.order) != n + 1:
        raise Violation(f"an undefined loss was stepped over, but {len(K.order)} points were visited instead of {n + 1}", c)
    ok = [i for i in range(len(K.order)) if fl[i] not in BAD]
    if ok:
        lo = min(K.answer(i)[1] for i in ok)
        best = [K.order[i] for i in ok if K.answer(i)[1] == lo]
    else:
        best = [start]
    check_file(bench, os.path.join(out, name), best, dict(c, visited="".join(fl)))
    ctx.st(states=len(K.order), transitions=max(0, len(K.order) - 1), traces=1)
    return os.path.join(out, name), best


def part_words(ctx, bench):
    D = 4 if ctx.thorough else 3
    k = 0
    for n in range(1, D + 1):
        al = "abcNKIJGH" if n <= 2 else "abcNG" if n == 3 or not ctx.thorough else "abNG"
        for w in itertools.product(al, repeat=n):
            one(ctx, bench, "".join(w), n)
            k += 1
            if any(x in "NKIJ" for x in w):  # the extra step meets a letter of its own
                for e in "dbNG" if ctx.thorough or n < 3 else "dN":
                    one(ctx, bench, "".join(w) + e, n)
                    k += 1
    ctx.sample(dict(words=k, depth=D))


def part_long(ctx, bench):
    """longer runs with one or two undefined answers at every position; best point at every position."""
    n = 7
    for i in range(n):
        for x in "dNGI" if ctx.thorough else "dNG":
            w = list("b" * n)
            w[i] = x
            one(ctx, bench, "".join(w), n)
            if i and x == "N":
                for j in range(i + 1, n + 1) if ctx.thorough else (i + 1, n):
                    for y in "Nd":
                        v = w + ["b"]
                        v[j] = y
                        one(ctx, bench, "".join(v), n)
    one(ctx, bench, "abcd" * 3, 12)
    one(ctx, bench, "dcba" * 4, 12)
    one(ctx, bench, "b" * 120 + "d" + "a" * 10, 125)


def part_options(ctx, bench):
    P = bench.pp.DiffstarPop_UParams_Diffstarfits_mgash
    for sim, t in P.items():
        one(ctx, bench, "bca", 3, start=np.array(t, dtype=np.float64), argv=["--params_path", "diffstarfits_" + sim], outname="fit_" + sim)
    for lt in KERN:
        for w in ("b", "bca", "aNd"):
            for kw in (dict(), dict(outname="mine"), dict(indir="/a/b/", nhalos=7), dict(argv=["--print_loss", "1"])):
                one(ctx, bench, w, len(w), loss_type=lt, **kw)
    # a fit started from the result of the previous one
    start = None
    src = os.path.join(bench.d, "start.npz")
    for w in ("cba", "bd", "aNc"):
        f, best = one(ctx, bench, w, len(w), start=start, argv=[] if start is None else ["--params_path", src])
        shutil.copy(f, src)
        start = np.load(src)["diffstarpop_u_params"].astype(np.float64)


def part_real(ctx, bench):
    """the real losses, on data built by the real builder: three steps."""
    from . import c30

    d = os.path.join(bench.d, "cat")
    os.makedirs(d)
    c30.Cat(("BB", "B.")).write(d)
    for lt in ("mstar",) if not ctx.thorough else ("mstar", "mstar_ssfr_cen_sat"):
        rec = []
        nm = KERN[lt][0]
        real = getattr(bench.lk, nm)

        def f(p, *data):
            r = real(p, *data)
            rec.append((np.array(p, dtype=np.float64), float(r[0]), bool(np.all(np.isfinite(r[1])))))
            return r

        out = os.path.join(bench.d, "real")
        os.makedirs(out, exist_ok=True)
        setattr(bench.lk, nm, f)
        try:
            np.random.seed(2)
            with popenv.installed({}, [NAME, "-nstep", "4", "-indir", d, "-outdir", out, "-nhalos", "20", "-loss_type", lt]), np.errstate(all="ignore"):
                popenv.fresh("fit_get_loss_helpers_mgash")
                exec(bench.code, {"__name__": "__main__", "__file__": bench.fn, "__builtins__": __builtins__})
        finally:
            setattr(bench.lk, nm, real)
        good = [r for r in rec if np.isfinite(r[1]) and r[2]]
        c = dict(loss_type=lt, losses=[r[1] for r in rec])
        if len({r[0].tobytes() for r in rec}) != 4 or len(good) != len(rec):
            raise Violation("four defined steps expected", c)
        b = min(r[1] for r in good)
        check_file(bench, os.path.join(out, "bestfit_diffstarpop_params.npz"), [r[0] for r in good if r[1] <= b * (1 + 1e-7)], c)
        ctx.st(states=4, transitions=3, traces=1)


def run(ctx):
    d = tempfile.mkdtemp(prefix="verif_c31_")
    try:
        bench = Bench(d)
        ctx.run_part("words", part_words, bench)
        ctx.run_part("long", part_long, bench)
        ctx.run_part("options", part_options, bench)
        ctx.run_part("real", part_real, bench)
    finally:
        shutil.rmtree(d, ignore_errors=True)
