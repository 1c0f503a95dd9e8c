"""C26: results do not depend on call history; inputs and shared defaults are never modified."""

import itertools
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from .core import VERIF, Violation

LEVEL = "model_checking"
RULE = (
    "Specification: a stateless machine, every call's result is a function of its letter alone. Letters = public calls with colliding shapes, "
    "end points, sums, options and keys, buffers refilled in place, and a file rewritten in place. Each letter's result is taken from a "
    "fresh process in which it is the only call; then one process walks a de Bruijn sequence in which every word of letters up to the bound "
    "occurs, and compares every result with the fresh one and (bit for bit) with earlier occurrences. After every call the arguments and all "
    "shared defaults of the package are compared with their snapshot, and whatever arrays, lists or dicts the call returned are overwritten."
)
ASSUMPTIONS = [
    "the state of NumPy's global random generator counts as an input of the fitter (its restarts draw from it)",
    "importing the loss kernels switches JAX to double precision (done by an imported package); they are exercised in C16, not here",
]
ORACLE = "the same call made first in a fresh process"

T5A = np.array([1.0, 3.0, 6.0, 9.0, 13.8], dtype="f4")
T5B = np.array([1.0, 4.0, 5.0, 9.0, 13.8], dtype="f4")  # same shape, ends and sum
T8 = np.linspace(0.5, 13.0, 8).astype("f4")
SA = [12.0, -10.0, 1.0, -1.0, 1.0, -0.50725, -1.01773, -0.212307]
SB = [11.5, -9.5, 2.0, -2.0, 0.6, -0.20725, -1.31773, -0.212307]  # same sum
MA = [12.0, 0.05, 2.6137643, 0.12692805, 14.0]
MB = [12.5, 0.25, 2.1137643, 0.42692805, 13.5]
BUF = {}
SCRATCH = [None]


def _sp(v):
    from diffstar import DEFAULT_DIFFSTAR_PARAMS as D

    return D._make([np.float32(x) for x in v])


def _spn(*vs):
    from diffstar import DEFAULT_DIFFSTAR_PARAMS as D

    return D._make([np.array(x, dtype="f4") for x in zip(*vs)])


def _mp(v):
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS as D

    return D._make([np.float32(x) for x in v])


def _mpn(*vs):
    from diffmah.diffmah_kernels import DEFAULT_MAH_PARAMS as D

    return D._make([np.array(x, dtype="f4") for x in zip(*vs)])


def _key(i):
    from jax import random as jran

    return jran.key(i)


LG = float(np.log10(13.8))


def _sfh1(s, m, t, **k):
    from diffstar import calc_sfh_singlegal

    return calc_sfh_singlegal, (_sp(s), _mp(m), t.copy()), dict(dict(lgt0=LG, fb=0.156), **k)


def _sfhn(ss, ms, t, **k):
    from diffstar import calc_sfh_galpop

    return calc_sfh_galpop, (_spn(*ss), _mpn(*ms), t.copy()), dict(dict(lgt0=LG, fb=0.156), **k)


def _mgas(s, m, t, pop=False, **k):
    from diffstar import calc_mgas_galpop, calc_mgas_singlegal

    return (calc_mgas_galpop, (_spn(s, SB), _mpn(m, MB), t.copy()), k) if pop else (calc_mgas_singlegal, (_sp(s), _mp(m), t.copy()), k)


def _pp(sim=None):
    from diffstar.diffstarpop import DEFAULT_DIFFSTARPOP_PARAMS, SIMULATION_FIT_PARAMS

    return DEFAULT_DIFFSTARPOP_PARAMS if sim is None else SIMULATION_FIT_PARAMS[sim]


def _mcp(key, sim=None, n=3, upid=-1, single=False):
    from diffstar import diffstarpop as dp

    a = [np.linspace(11.5, 13.5, n).astype("f4"), np.linspace(13.0, 6.0, n).astype("f4"), np.full(n, upid), np.linspace(-2, 0, n).astype("f4"), np.full(n, 13.0, "f4"), np.linspace(0, 4, n).astype("f4")]
    if single:
        return dp.mc_diffstar_params_singlegal, (_pp(sim), *[x[0] for x in a], _key(key)), {}
    return dp.mc_diffstar_params_galpop, (_pp(sim), *a, _key(key)), {}


def _mcs(key, sim=None, single=False, lgt0=LG, fb=0.156):
    from diffstar import diffstarpop as dp

    n = 2
    a = [np.array([12.0, 12.5], "f4"), np.full(n, -1), np.full(n, -1.0, "f4"), np.full(n, 13.0, "f4"), np.full(n, 1.0, "f4")]
    if single:
        return dp.mc_diffstar_sfh_singlegal, (_pp(sim), _mp(MA), *[x[0] for x in a], _key(key), T5A.copy()), dict(lgt0=lgt0, fb=fb)
    return dp.mc_diffstar_sfh_galpop, (_pp(sim), _mpn(MA, MB), *a, _key(key), T5A.copy()), dict(lgt0=lgt0, fb=fb)


def _bound(v, back=False):
    from diffstar import DEFAULT_DIFFSTAR_U_PARAMS, get_bounded_diffstar_params, get_unbounded_diffstar_params

    if back:
        return get_unbounded_diffstar_params, (_sp(v),), {}
    return get_bounded_diffstar_params, (DEFAULT_DIFFSTAR_U_PARAMS._make([np.float32(x / 10) for x in v]),), {}


def _popbound(sim, back=False):
    from diffstar import diffstarpop as dp

    return (dp.get_unbounded_diffstarpop_params, (_pp(sim),), {}) if back else (dp.get_bounded_diffstarpop_params, (dp.DEFAULT_DIFFSTARPOP_U_PARAMS,), {})


def _lossdata(sfh, **k):
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    return dfh.get_loss_data_default, (T8.copy().astype(float), np.array(sfh, dtype=float), _mp(MA)), k


def _loss(sfh, grad=False):
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    def f(t, s, m):
        u, d = dfh.get_loss_data_default(t, s, m)
        return (dfh.loss_grad_default_clipssfrh_np if grad else dfh.loss_default_clipssfrh)(u[0], d)

    return f, (T8.copy().astype(float), np.array(sfh, dtype=float), _mp(MA)), {}


def _fit(sfh):
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    def f(t, s, m):
        np.random.seed(3)
        return dfh.diffstar_fitter(t, s, m)

    return f, (np.linspace(0.5, 13.8, 20), np.array(sfh, dtype=float), _mp(MA)), {}


S8A, S8B = [0.1, 1, 5, 9, 7, 3, 1, 0.5], [0.1, 5, 1, 7, 9, 1, 3, 0.5]


def _mstar(t, s, pop=False):
    from diffstar.utils import cumulative_mstar_formed, cumulative_mstar_formed_galpop

    return (cumulative_mstar_formed_galpop, (t.copy(), np.array([s, s[::-1]], "f4")), {}) if pop else (cumulative_mstar_formed, (t.copy(), np.array(s, "f4")), {})


def _fstar(d):
    from diffstar.utils import compute_fstar

    return compute_fstar, (T8.copy(), np.cumsum(S8A).astype("f4") * 1e9, d), {}


def _buffer(which):
    """one pair of arrays, refilled in place before the call."""
    from diffstar import calc_sfh_singlegal

    if not BUF:
        BUF["t"] = np.zeros(5, "f4")
    BUF["t"][:] = T5A if which == "A" else T5B
    return calc_sfh_singlegal, (_sp(SA), _mp(MA), BUF["t"]), dict(return_smh=True, lgt0=LG, fb=0.156)


def _file(which):
    import h5py

    from diffstar.data_loaders import load_flat_hdf5

    fn = os.path.join(SCRATCH[0], "table.h5")
    with h5py.File(fn, "w") as f:
        f["x"] = np.arange(4.0) * (1 if which == "A" else -1)
        f["y"] = np.arange(4)
    return load_flat_hdf5, (fn,), {}


def _header():
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    return dfh.get_header, (), {}


def _outline(ok):
    from diffstar.fitting_helpers import diffstar_fitting_helpers as dfh

    return (dfh.get_outline, (7, _sp(SA), 0.25, 1), {}) if ok else (dfh.get_outline_nofit, (8,), {})


def _arr1d():
    from diffstar.utils import get_1d_arrays

    return get_1d_arrays, (np.arange(3.0), 2.0, np.arange(3)), {}


def _varied(k):
    from collections import namedtuple

    from diffstar import diffstarpop as dp
    from diffstar.diffstarpop.param_utils import get_all_diffstarpop_u_params

    names = dp.DEFAULT_DIFFSTARPOP_U_PARAMS._fields
    V = BUF.setdefault("V", namedtuple("V", names[:2]))
    return get_all_diffstarpop_u_params, (V(np.float32(k), np.float32(-k)),), {}


def _dt(t, jx=False):
    from diffstar import utils as u

    return (u._jax_get_dt_array if jx else u._get_dt_array), (t.copy(),), {}


def _interp(t):
    from diffstar.utils import jax_np_interp

    x = np.array([2.0, 5.0, 8.0], "f4")
    return jax_np_interp, (x, t.copy(), t[::-1].copy(), np.searchsorted(t, x)), {}


def _cov(s):
    from diffstar.diffstarpop.utils import covariance_from_correlation

    return covariance_from_correlation, (np.array([[1, s], [s, 1]]), np.array([2.0, 3.0])), {}


LETTERS = {
    "sfh A": lambda: _sfh1(SA, MA, T5A),
    "sfh B": lambda: _sfh1(SB, MB, T5A),
    "sfh A tB": lambda: _sfh1(SA, MA, T5B),
    "sfh A t8": lambda: _sfh1(SA, MA, T8),
    "sfh A early epoch": lambda: _sfh1(SA, MA, T5A, lgt0=1.0),
    "sfh A fb": lambda: _sfh1(SA, MA, T5A, fb=0.2),
    "sfh A mass": lambda: _sfh1(SA, MA, T5A, return_smh=True),
    "pop AB": lambda: _sfhn([SA, SB], [MA, MB], T5A),
    "pop BA mass": lambda: _sfhn([SB, SA], [MB, MA], T5A, return_smh=True),
    "pop BA tB": lambda: _sfhn([SB, SA], [MB, MA], T5B),
    "pop AAA": lambda: _sfhn([SA] * 3, [MA, MB, MA], T5A, lgt0=1.0, fb=0.1),
    "gas A": lambda: _mgas(SA, MA, T5A),
    "gas A fb": lambda: _mgas(SA, MA, T5A, fb=0.2),
    "gas pop": lambda: _mgas(SB, MA, T5A, pop=True),
    "mc k0": lambda: _mcp(0),
    "mc k1": lambda: _mcp(1),
    "mc k0 tng": lambda: _mcp(0, "tng"),
    "mc k0 sat": lambda: _mcp(0, upid=5),
    "mc single": lambda: _mcp(0, single=True),
    "mc n5": lambda: _mcp(0, n=5),
    "mcsfh k0": lambda: _mcs(0),
    "mcsfh k1 gal": lambda: _mcs(1, "galacticus_in_situ", lgt0=1.0, fb=0.1),
    "mcsfh single": lambda: _mcs(0, single=True),
    "bound": lambda: _bound(SA),
    "unbound": lambda: _bound(SB, True),
    "pop bound": lambda: _popbound(None),
    "pop unbound": lambda: _popbound("smdpl_dr1", True),
    "loss data A": lambda: _lossdata(S8A),
    "loss data B": lambda: _lossdata(S8B),
    "loss data opts": lambda: _lossdata(S8A, fstar_tdelay=0.5, ssfrh_floor=1e-11, dlogm_cut=2.0, t_fit_min=2.0, mass_fit_min=8.0, fb=0.1, lgt0=1.0),
    "loss A": lambda: _loss(S8A),
    "grad B": lambda: _loss(S8B, True),
    "mass A": lambda: _mstar(T8, S8A),
    "mass B": lambda: _mstar(T8, S8B),
    "mass pop": lambda: _mstar(T8, S8A, True),
    "fstar 1": lambda: _fstar(1.0),
    "fstar 2": lambda: _fstar(2.0),
    "buffer A": lambda: _buffer("A"),
    "buffer B": lambda: _buffer("B"),
    "file A": lambda: _file("A"),
    "file B": lambda: _file("B"),
    "header": _header,
    "row": lambda: _outline(True),
    "no-fit row": lambda: _outline(False),
    "1d arrays": _arr1d,
    "varied 1": lambda: _varied(1.0),
    "varied 2": lambda: _varied(2.0),
    "cells A": lambda: _dt(T5A),
    "cells B": lambda: _dt(T5B),
    "jax cells A": lambda: _dt(T5A, True),
    "interp A": lambda: _interp(T5A),
    "interp B": lambda: _interp(T5B),
    "cov A": lambda: _cov(0.25),
    "cov B": lambda: _cov(-0.25),
}
SLOW = {"fit": lambda: _fit(5 * np.exp(-np.linspace(0.5, 13.8, 20) / 5))}


def flat(x, path=""):
    """list of (path, ndarray or str)."""
    if isinstance(x, dict):
        return [z for k in sorted(x) for z in flat(x[k], f"{path}.{k}")]
    if hasattr(x, "_fields"):
        return [z for k, v in zip(x._fields, x) for z in flat(v, f"{path}.{k}")]
    if isinstance(x, (list, tuple)):
        return [z for i, v in enumerate(x) for z in flat(v, f"{path}[{i}]")]
    if isinstance(x, str) or x is None:
        return [(path, np.array(str(x)))]
    try:
        return [(path, np.array(x))]
    except TypeError:  # random keys
        from jax import random as jran

        return [(path, np.array(jran.key_data(x)))]


def bits(a):
    return (a.shape, a.dtype.str, a.tobytes())


def frozen(x):
    return [(p, bits(a)) for p, a in flat(x)]


def scribble(x):
    """overwrite whatever is mutable in a result."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fiu" and x.size:
            x[...] = 77
    elif isinstance(x, dict):
        for v in list(x.values()):
            scribble(v)
        x["junk"] = 1
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        x.append("junk")
    elif isinstance(x, tuple):
        for v in x:
            scribble(v)


def shared():
    """snapshot of the package's shared values: tuples, arrays, non-empty dicts and lists, upper-case numbers, default arguments."""
    out = {}
    for mn in sorted(sys.modules):
        if mn != "diffstar" and not mn.startswith("diffstar."):
            continue
        for k, v in sorted(vars(sys.modules[mn]).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (tuple, list, dict)) and len(v):
                out[mn, k] = v
            elif isinstance(v, np.ndarray) or type(v).__name__ == "ArrayImpl":
                out[mn, k] = v
            elif isinstance(v, (int, float, str)) and k.isupper():
                out[mn, k] = v
            elif callable(v):
                f = getattr(v, "__wrapped__", v)
                d = getattr(f, "__defaults__", None)
                if d:
                    out[mn, k] = d
                d = getattr(f, "__kwdefaults__", None)
                if d:
                    out[mn, k + "*"] = d
    return out


def _digest(v):
    try:
        return frozen(v)
    except Exception:
        return None


def call(name, table=None):
    f, a, k = (table or ALL)[name]()
    before = frozen((a, k))
    r = f(*a, **k)
    if frozen((a, k)) != before:
        bad = [p for (p, x), (_, y) in zip(frozen((a, k)), before) if x != y]
        raise Violation(f"call '{name}' modified its argument {bad}", dict(letter=name))
    got = flat(r)
    return r, got


ALL = {**LETTERS, **SLOW}


def baseline(names, out):
    """fresh process: one letter each (the caller starts one process per letter)."""
    import warnings

    warnings.filterwarnings("ignore")
    from .run import _stub_version

    _stub_version()
    SCRATCH[0] = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        _, got = call(names[0])
        with open(out, "wb") as f:
            pickle.dump(got, f)
    finally:
        import shutil

        shutil.rmtree(SCRATCH[0], ignore_errors=True)


def fresh_results(names, d):
    procs, res = [], {}

    def start(i, n):
        out = os.path.join(d, f"{i}.pkl")
        p = subprocess.Popen([sys.executable, "-c", f"from mc.c26 import baseline; baseline([{n!r}], {out!r})"], cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        return n, out, p

    todo = list(enumerate(names))
    while todo or procs:
        while todo and len(procs) < 10:
            procs.append(start(*todo.pop(0)))
        n, out, p = procs.pop(0)
        _, err = p.communicate()
        if p.returncode:
            raise Violation(f"call '{n}' fails in a fresh process: {err.decode()[-600:]}", dict(letter=n))
        with open(out, "rb") as f:
            res[n] = pickle.load(f)
    return res


def de_bruijn(k, n):
    """cyclic sequence over range(k) containing every word of length n once (Lyndon words)."""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[: n - 1]


class Walk:
    def __init__(self, ctx, fresh):
        self.ctx, self.fresh, self.first, self.hist = ctx, fresh, {}, []
        self.snap = None

    def check_shared(self, full):
        now = shared()
        if self.snap is None:
            self.snap = {k: _digest(v) for k, v in now.items()}
            self.keep = []
            self.quick = {k: quick_sig(v, self.keep) for k, v in now.items()}
            return
        for k, d in self.snap.items():
            v = now.get(k)
            if (full or quick_sig(v) != self.quick[k]) and _digest(v) != d:
                raise Violation(f"shared value {k[0]}.{k[1]} changed", dict(history=self.hist[-4:]))

    def run(self, name):
        ctx = self.ctx
        self.hist.append(name)
        c = dict(history=self.hist[-6:], length=len(self.hist))
        r, got = call(name)
        ref = self.fresh[name]
        if [p for p, _ in got] != [p for p, _ in ref]:
            raise Violation(f"'{name}': result has other parts than in a fresh process", c)
        if name in self.first and [(p, bits(a)) for p, a in got] != self.first[name]:
            raise Violation(f"'{name}': result differs from the same call made earlier", c)
        for (p, a), (_, b) in zip(got, ref):
            ok = a.shape == b.shape and a.dtype == b.dtype
            if ok:
                ok = np.allclose(a, b, rtol=2e-6, atol=0, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b)
            if not ok:
                raise Violation(f"'{name}'{p}: {a.ravel()[:6]}, in a fresh process {b.ravel()[:6]}", c)
        new = name not in self.first
        self.first.setdefault(name, [(p, bits(a)) for p, a in got])
        scribble(r)
        self.check_shared(new or len(self.hist) % 97 == 0)
        ctx.st(transitions=1)


def quick_sig(v, keep=None):
    """identity of everything immutable (kept alive through `keep`), contents of everything mutable."""
    if keep is not None:
        keep.append(v)
    if isinstance(v, dict):
        return [(k, quick_sig(x, keep)) for k, x in v.items()]
    if isinstance(v, (tuple, list)):
        return [quick_sig(x, keep) for x in v]
    if isinstance(v, np.ndarray):
        return bits(v)
    return id(v)


def part_walk(ctx, d):
    names = list(LETTERS)
    fresh = fresh_results(names + list(SLOW), d)
    w = Walk(ctx, fresh)
    import diffstar.data_loaders.load_smah_data  # noqa: everything the letters import, before the snapshot
    import diffstar.diffstarpop  # noqa
    import diffstar.fitting_helpers.diffstar_fitting_helpers  # noqa

    w.check_shared(True)
    seq = de_bruijn(len(names), 2)
    for i in seq:
        w.run(names[i])
    # the fitter after everything else, then everything else after the fitter
    for n in ["fit"] + names + ["fit"]:
        w.run(n)
    if ctx.thorough:
        import jax

        core = names[::2] + ["file B", "buffer B"]
        for i in de_bruijn(len(core), 3):
            w.run(core[i])
        for n in names:  # with the compilation caches dropped between calls
            jax.clear_caches()
            w.run(n)
        for n in reversed(names):
            w.run(n)
    w.check_shared(True)
    ctx.st(states=len(names), traces=len(w.hist))
    ctx.extra["shared_values_watched"] = len(w.snap)
    ctx.sample(dict(letters=len(names), calls=len(w.hist)))


def run(ctx):
    import shutil

    d = tempfile.mkdtemp(prefix="verif_c26_")
    SCRATCH[0] = d
    try:
        ctx.run_part("walk", part_walk, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
