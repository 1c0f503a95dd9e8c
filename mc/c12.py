"""C12: Monte Carlo populations are reproducible and independent per galaxy."""

import itertools

import numpy as np

from . import gal, pop, ref
from .core import f32

LEVEL = "exploration"
RULE = (
    "Every population size 1..N and every word over an alphabet of contrasting galaxies up to a bound, for several keys and parameter "
    "sets: each row must equal the single-galaxy draw with the split key; every single-row edit of every input column must leave all "
    "other rows bit-identical. Non-trivial = population of at least two galaxies."
)

# logmp0, upid, lgmu, lgmhost, tinf and halo history
GALS = [
    (12.1, -1, 0.0, 0.0, -100.0, [12.0, 0.05, 2.6137643, 0.12692805, 14.0]),
    (13.4, 3, -1.2, 14.1, 4.0, [13.5, 0.3, 3.5, 0.6, 9.0]),
    (11.2, 7, -2.6, 13.2, 0.6, [11.4, -0.2, 2.2, 0.3, 3.0]),
    (14.6, -1, -0.5, 13.0, 5.0, [14.8, 0.4, 4.2, 1.1, 20.0]),
    (10.6, 0, -3.0, 12.0, 9.0, [10.8, 0.1, 5.0, 0.2, 6.5]),
]
COLS = ("logmp0", "upid", "lgmu", "lgmhost", "tinf")


def _arrays(word, rot=0):
    G = [GALS[w] for w in word]
    a = {c: np.array([g[i] for g in G], dtype=np.int32 if c == "upid" else np.float32) for i, c in enumerate(COLS)}
    M = np.array([g[5] for g in G], dtype=np.float32)
    return a, gal.nt_mah(list(M.T))


def _P(p):
    return pop.nt({k: v[0] for k, v in pop.cols([p]).items()})


def _leaves(r):
    import jax

    return [np.asarray(x) for x in jax.tree_util.tree_leaves(r)]


def _check_pop(ctx, p, word, key, tarr, lgt0, fb, sfh=True):
    from diffstar.diffstarpop import mc_diffstar_params_galpop, mc_diffstar_params_singlegal, mc_diffstar_sfh_galpop
    from diffstar.diffstarpop.mc_diffstarpop_mgash import mc_diffstar_u_params_galpop
    from jax import random as jran

    a, mah = _arrays(word)
    n = len(word)
    P = _P(p)
    c = dict(params=p, word=word, n=n)
    args = (P, a["logmp0"], mah.t_peak, a["upid"], a["lgmu"], a["lgmhost"], a["tinf"], key)
    r = mc_diffstar_params_galpop(*args)
    for x in _leaves(r):
        if x.shape != (n,):
            ctx.fail(f"population output of shape {x.shape}, expected {(n,)}", c)
    keys = jran.split(key, n)
    for i in range(n):
        s = mc_diffstar_params_singlegal(P, a["logmp0"][i], mah.t_peak[i], a["upid"][i], a["lgmu"][i], a["lgmhost"][i], a["tinf"][i], keys[i])
        for nm, x, y in zip(("ms", "q"), r[:2], s[:2]):
            ctx.close(f"{nm} parameters of galaxy {i}", np.array([np.asarray(v)[i] for v in x]), np.array([float(v) for v in y]), 1e-5, 1e-5, case=lambda idx: dict(c, i=i))
        ctx.close("quenched fraction", np.asarray(r[2])[i], np.asarray(s[2]), 1e-5, 1e-6, case=lambda idx: dict(c, i=i))
        if bool(np.asarray(r[3])[i]) != bool(s[3]) :
            ctx.fail("quenched flag of the population row differs from the single-galaxy draw", dict(c, i=i))
    u = mc_diffstar_u_params_galpop(*args)
    for j in (0, 1):
        ex = np.array(ref.bounded(np.array([np.asarray(v) for v in u[j]], dtype=np.float64)))
        ctx.close("bounded and unbounded generators describe the same draw", np.array([np.asarray(v) for v in r[j]]), ex, 1e-5, 2e-5, case=lambda idx: c)
    ctx.close("quenched fraction (unbounded generator)", u[2], r[2], 1e-6, 1e-7)
    ctx.same("flag (unbounded generator)", u[3], r[3], c)
    ctx.ev(n, n if n > 1 else 0)
    if not sfh:
        return r
    q = mc_diffstar_sfh_galpop(P, mah, a["logmp0"], a["upid"], a["lgmu"], a["lgmhost"], a["tinf"], key, tarr, lgt0=lgt0, fb=fb)
    for j, nm in enumerate(("diffstar_params_ms", "diffstar_params_q")):
        ctx.close(f"{nm} returned with the SFHs", np.array([np.asarray(v) for v in getattr(q, nm)]), np.array([np.asarray(v) for v in r[j]]), 1e-5, 1e-5, case=lambda idx: c)
    ctx.close("frac_q returned with the SFHs", q.frac_q, r[2], 1e-5, 1e-6)
    ctx.same("mc_is_q returned with the SFHs", q.mc_is_q, r[3], c)
    for nm, pp in (("sfh_ms", q.diffstar_params_ms), ("sfh_q", q.diffstar_params_q)):
        got = np.asarray(getattr(q, nm), dtype=np.float64)
        if got.shape != (n, len(tarr)):
            ctx.fail(f"{nm} shape {got.shape}", c)
        S = [np.asarray(v, dtype=np.float64) for v in pp]
        M = [np.asarray(v, dtype=np.float64) for v in mah]
        v, lo, hi = ref.sfh_band([x[:, None] for x in S], [x[:, None] for x in M], f32(tarr)[None], float(f32(lgt0)), float(f32(fb)))
        ctx.close(f"{nm} is the SFH of the returned parameters", got, v, 2e-3, 1e-20, lo=lo, hi=hi, case=lambda idx: dict(c, idx=idx, lgt0=lgt0, fb=fb))
    ctx.ev(2 * n * len(tarr), 2 * n * len(tarr) if n > 1 else 0)
    return r


def _psets():
    return [pop.interiorise(p, 5e-3) for p in [pop.default(), pop.calibrations()[2], pop.at_frac(0.45)]]


def part_words(ctx):
    from jax import random as jran

    t = np.array([0.3, 1.5, 5.0, 10.0, 13.7], dtype=np.float32)
    L = 3 if ctx.thorough else 2
    k = 0
    ps = _psets()
    for n in range(1, L + 1):
        for word in itertools.product(range(len(GALS)), repeat=n):
            fb, lgt0 = ((0.156, np.log10(13.8)), (0.19, np.log10(13.2)))[k % 2]
            _check_pop(ctx, ps[k % 3], word, jran.PRNGKey(1000 * ctx.seed + k), t, lgt0, fb)
            k += 1
    ctx.sample(dict(words=k))


def part_sizes(ctx):
    from jax import random as jran

    t = np.linspace(0.5, 13.0, 4).astype(np.float32)
    sizes = (list(range(1, 17)) + [33, 64, 100, 257]) if ctx.thorough else [3, 8, 65]
    for n in sizes:
        word = tuple((3 * i + n) % len(GALS) for i in range(n))
        _check_pop(ctx, _psets()[n % 3], word, jran.PRNGKey(ctx.seed + n), t, np.log10(13.8), 0.156)


def part_large(ctx):
    """populations of realistic size: every row against the single-galaxy kernel mapped over the split keys."""
    import jax
    from diffstar.diffstarpop import mc_diffstar_params_galpop, mc_diffstar_params_singlegal
    from jax import random as jran

    one = jax.jit(jax.vmap(mc_diffstar_params_singlegal, in_axes=(None, 0, 0, 0, 0, 0, 0, 0)))
    for n in (600, 1025, 5000, 20011) if ctx.thorough else (1025, 5000):
        word = tuple((3 * i + i // 7) % len(GALS) for i in range(n))
        a, mah = _arrays(word)
        P = _P(_psets()[n % 3])
        key = jran.PRNGKey(ctx.seed + n)
        h = (a["logmp0"], mah.t_peak, a["upid"], a["lgmu"], a["lgmhost"], a["tinf"])
        r = mc_diffstar_params_galpop(P, *h, key)
        s = one(P, *h, jran.split(key, n))
        for nm, x, y in zip(("ms", "q"), r[:2], s[:2]):
            ctx.close(f"{nm} parameters of a row", np.array([np.asarray(v) for v in x]), np.array([np.asarray(v) for v in y]), 1e-5, 1e-5, case=lambda idx: dict(n=n, idx=idx))
        ctx.close("quenched fraction of a row", r[2], s[2], 1e-5, 1e-6, case=lambda idx: dict(n=n, idx=idx))
        f, u = np.asarray(r[3], dtype=bool), np.asarray(s[3], dtype=bool)
        ctx.true("quenched flags of the rows", (f != u).mean() <= 2e-4, lambda idx: dict(n=n))
        ctx.ev(n, n)


def part_edits(ctx):
    """change one input of one galaxy: nobody else moves (bitwise)."""
    from diffstar.diffstarpop import mc_diffstar_params_galpop, mc_diffstar_sfh_galpop
    from jax import random as jran

    t = np.array([1.0, 6.0, 13.0], dtype=np.float32)
    new = dict(logmp0=12.9, upid=-1, lgmu=-0.7, lgmhost=14.4, tinf=2.2)
    for n in ((2, 3, 5, 7) if ctx.thorough else (2, 5)):
        word = tuple((2 * i + 1) % len(GALS) for i in range(n))
        for p in _psets():
            P = _P(p)
            key = jran.PRNGKey(ctx.seed + 77 * n)
            a, mah = _arrays(word)
            M = [np.array(x) for x in mah]

            def run(a, M):
                return _leaves(mc_diffstar_sfh_galpop(P, gal.nt_mah(M), a["logmp0"], a["upid"], a["lgmu"], a["lgmhost"], a["tinf"], key, t, lgt0=np.log10(13.8), fb=0.156)) + _leaves(
                    mc_diffstar_params_galpop(P, a["logmp0"], M[4], a["upid"], a["lgmu"], a["lgmhost"], a["tinf"], key))

            base = run(a, M)
            again = run(a, M)
            for x, y in zip(base, again):
                ctx.same("reproducible", x, y, dict(word=word))
            for i in range(n):
                others = np.arange(n) != i
                for c in COLS + ("t_peak", "logm0"):
                    b, N = {k: v.copy() for k, v in a.items()}, [x.copy() for x in M]
                    if c == "t_peak":
                        N[4][i] = 7.3
                    elif c == "logm0":
                        N[0][i] += 0.4
                    elif c == "upid":
                        b[c][i] = 4 if b[c][i] == -1 else -1
                    else:
                        b[c][i] = new[c]
                    for x, y in zip(run(b, N), base):
                        ctx.same("changing one galaxy leaves the others alone", x[others], y[others], dict(word=word, galaxy=i, column=c))
                    ctx.ev(n)


def part_deviates(ctx):
    """no two galaxies of a population share random deviates; different keys give different populations."""
    from diffstar.diffstarpop.mc_diffstarpop_mgash import mc_diffstar_u_params_galpop
    from jax import random as jran

    p = pop.at_frac(0.5)
    for k in p:
        if k.endswith("_slp"):
            p[k] = 0.0
    P = _P(p)
    seen = None
    for n in ((2, 3, 10, 400, 2000) if ctx.thorough else (2, 3, 10, 400)):
        prev = {}
        for s in range(4):
            key = jran.PRNGKey(ctx.seed + s)
            one = np.ones(n, dtype=np.float32)
            r = mc_diffstar_u_params_galpop(P, 12.2 * one, 9.0 * one, np.full(n, -1, dtype=np.int32), 0 * one, 0 * one, -100 * one, key)
            U = np.concatenate([np.array([np.asarray(v) for v in r[0]])[:4], np.array([np.asarray(v) for v in r[1]])])
            for j in range(12):
                u = U[j]
                # identical halos: any equality of a drawn parameter means a shared deviate (allow rare float32 coincidences)
                ctx.true(f"deviates of parameter {j} distinct across galaxies", np.unique(u).size >= n - max(0, n // 50), lambda idx: dict(n=n, seed=s, param=j))
            if n >= 400:
                z = (U - U.mean(axis=1, keepdims=True)) / U.std(axis=1, keepdims=True)
                for lag in (1, 2, n // 2):
                    cc = (z * np.roll(z, lag, axis=1)).mean(axis=1)
                    ctx.true("deviates of different galaxies independent", np.abs(cc) < 6 / np.sqrt(n), lambda idx: dict(n=n, seed=s, lag=lag, corr=cc))
                cc = np.corrcoef(z) - np.eye(12)
                ctx.true("deviates of different parameters independent", np.abs(cc) < 6 / np.sqrt(n), lambda idx: dict(n=n, seed=s, pair=idx))
            for s2, V in prev.items():
                ctx.true("different keys give different draws", (np.abs(U - V) > 0).mean() > 0.95, lambda idx: dict(n=n, seeds=(s, s2)))
            prev[s] = U
            ctx.ev(n)


def part_single_sfh(ctx):
    from diffstar.diffstarpop import mc_diffstar_params_singlegal, mc_diffstar_sfh_singlegal
    from jax import random as jran

    tabs = [np.array([13.0]), np.linspace(0.1, 13.8, 7), np.array([0.5, 3.0])]
    for k, (p, i) in enumerate(itertools.product(_psets(), range(len(GALS)))):
        a, mah = _arrays((i,))
        P = _P(p)
        mh = gal.nt_mah([x[0] for x in mah])
        for s in range(3 if ctx.thorough else 2):
            key = jran.PRNGKey(13 * ctx.seed + 5 * k + s)
            t = tabs[(k + s) % 3].astype(np.float32)
            fb, lgt0 = ((0.156, np.log10(13.8)), (0.12, np.log10(13.1)))[(k + s) % 2]
            q = mc_diffstar_sfh_singlegal(P, mh, a["logmp0"][0], a["upid"][0], a["lgmu"][0], a["lgmhost"][0], a["tinf"][0], key, t, lgt0=lgt0, fb=fb)
            r = mc_diffstar_params_singlegal(P, a["logmp0"][0], mh.t_peak, a["upid"][0], a["lgmu"][0], a["lgmhost"][0], a["tinf"][0], key)
            c = dict(params=p, galaxy=i, key=s, fb=fb, lgt0=lgt0)
            for x, y in ((q.diffstar_params_ms, r[0]), (q.diffstar_params_q, r[1])):
                ctx.close("parameters returned with the SFH", np.array([float(v) for v in x]), np.array([float(v) for v in y]), 1e-5, 1e-5, case=lambda idx: c)
            ctx.close("fraction", np.asarray(q.frac_q), np.asarray(r[2]), 1e-5, 1e-6)
            ctx.true("flag", bool(q.mc_is_q) == bool(r[3]), lambda idx: c)
            for nm, pp in (("sfh_ms", q.diffstar_params_ms), ("sfh_q", q.diffstar_params_q)):
                v, lo, hi = ref.sfh_band([float(x) for x in pp], [float(x) for x in mh], f32(t), float(f32(lgt0)), float(f32(fb)))
                ctx.close(f"{nm} is the SFH of the returned parameters", getattr(q, nm), v, 2e-3, 1e-20, lo=lo, hi=hi, case=lambda idx: c)
            ctx.ev(2 * t.size)


def run(ctx):
    ctx.run_part("words", part_words)
    ctx.run_part("sizes", part_sizes)
    ctx.run_part("large", part_large)
    ctx.run_part("edits", part_edits)
    ctx.run_part("deviates", part_deviates)
    ctx.run_part("single_sfh", part_single_sfh)
