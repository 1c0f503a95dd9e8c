"""Stand-ins that let the population scripts (scripts/diffstarpop_scripts) run offline, below a scratch directory.

astropy's age(z) is a closed form for flat LCDM, diffsky's soft histogram an independent numpy one, the binary catalogues and
all files under /lcrc/ come from the scratch directory.
"""

import contextlib
import io
import os
import sys
import types

import numpy as np

from . import ref
from .core import REPO

T0 = 13.7976158  # age today of the stand-in cosmology
OM = 0.307
SDIR = os.path.join(REPO, "scripts", "diffstarpop_scripts")


def age(z):
    """flat LCDM (matter + constant), scaled so that age(0) = T0."""
    z = np.asarray(z, dtype=float)
    f = lambda x: np.arcsinh(np.sqrt((1 - OM) / OM) * (1 + x) ** -1.5)
    return T0 * f(z) / f(0.0)


def z_of_age(t):
    u = np.sinh(np.asarray(t, dtype=float) / T0 * np.arcsinh(np.sqrt((1 - OM) / OM)))
    return (np.sqrt((1 - OM) / OM) / u) ** (2.0 / 3) - 1


class _Q:
    def __init__(self, v):
        self.value = v


class _Cosmo:
    def age(self, z):
        return _Q(age(z))


def tw_ndhist_weighted(nddata, ndsig, ydata, ndbins_lo, ndbins_hi):
    x, s = np.asarray(nddata, dtype=float)[:, None, :], np.asarray(ndsig, dtype=float)[:, None, :]
    w = np.prod(ref.tw_bin_weight(x, s, np.asarray(ndbins_lo)[None], np.asarray(ndbins_hi)[None]), axis=2)
    return np.asarray(ydata, dtype=float).reshape(-1) @ w


def tw_ndhist(nddata, ndsig, ndbins_lo, ndbins_hi):
    return tw_ndhist_weighted(nddata, ndsig, np.ones(len(nddata)), ndbins_lo, ndbins_hi)


def modules(load_mock):
    ast, cosmo = types.ModuleType("astropy"), types.ModuleType("astropy.cosmology")
    for k in ("Planck13", "Planck15", "Planck18"):
        setattr(cosmo, k, _Cosmo())
    cosmo.z_at_value = lambda f, v, **k: z_of_age(getattr(v, "value", v))
    ast.cosmology = cosmo
    um, lm = types.ModuleType("umachine_pyio"), types.ModuleType("umachine_pyio.load_mock")
    lm.load_mock_from_binaries = load_mock
    um.load_mock = lm
    nd = types.ModuleType("diffsky.diffndhist")
    nd.tw_ndhist, nd.tw_ndhist_weighted = tw_ndhist, tw_ndhist_weighted
    return {"astropy": ast, "astropy.cosmology": cosmo, "umachine_pyio": um, "umachine_pyio.load_mock": lm, "diffsky.diffndhist": nd}


class Redirect:
    """paths below /lcrc/ and /Users/ are taken from the scratch directory."""

    def __init__(self, root):
        self.root = root
        self.saved = []

    def path(self, p):
        if isinstance(p, str) and p.startswith(("/lcrc/", "/Users/")):
            return os.path.join(self.root, p.lstrip("/"))
        return p

    def __enter__(self):
        import h5py

        def wrap(mod, name):
            real = getattr(mod, name)

            def f(p=".", *a, **k):
                return real(self.path(p), *a, **k)

            self.saved.append((mod, name, real))
            setattr(mod, name, f)

        wrap(np, "load")
        wrap(os, "listdir")
        wrap(os.path, "isfile")
        wrap(os.path, "exists")
        real = h5py.File
        R = self

        class File(real):
            def __init__(self, name, *a, **k):
                super().__init__(R.path(name), *a, **k)

        self.saved.append((h5py, "File", real))
        h5py.File = File
        return self

    def __exit__(self, *a):
        for m, n, r in reversed(self.saved):
            setattr(m, n, r)
        self.saved = []


@contextlib.contextmanager
def installed(extra, argv, quiet=True):
    """sys.modules, sys.path and sys.argv for a script of this directory."""
    import matplotlib

    matplotlib.use("Agg")
    keep = {}
    for k, v in extra.items():
        keep[k] = sys.modules.get(k)
        sys.modules[k] = v
    import diffsky

    had = getattr(diffsky, "diffndhist", None)
    if "diffsky.diffndhist" in extra:
        diffsky.diffndhist = extra["diffsky.diffndhist"]
    sys.path.insert(0, SDIR)
    old = sys.argv
    sys.argv = list(argv)
    try:
        with contextlib.redirect_stdout(io.StringIO()) if quiet else contextlib.nullcontext():
            yield
    finally:
        sys.argv = old
        sys.path.remove(SDIR)
        if had is None and hasattr(diffsky, "diffndhist"):
            del diffsky.diffndhist
        for k, v in keep.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def fresh(name):
    """import a module of the scripts directory from the current tree."""
    import importlib

    sys.modules.pop(name, None)
    return importlib.import_module(name)


def script(name):
    fn = os.path.join(SDIR, name)
    with open(fn) as f:
        return fn, compile(f.read(), fn, "exec")
