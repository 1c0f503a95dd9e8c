"""C13: calibration tables."""

import importlib
import itertools

import numpy as np

from . import pop, ref
from .core import f32

LEVEL = "exploration"
RULE = (
    "The complete finite space of shipped calibrations (2 tables x 5 simulations, bounded and unbounded) and all their pairs; each one run "
    "through the real galaxy generator on a lattice of halo masses, peak times, host ids, infall histories and keys. Non-trivial = all."
)

FAMS = ("diffstarfits", "diffstarpopfits")


def _tables():
    from diffstar.diffstarpop.kernels import params as kp

    return dict(
        diffstarfits=(kp.DiffstarPop_Params_Diffstarfits_mgash, kp.DiffstarPop_UParams_Diffstarfits_mgash),
        diffstarpopfits=(kp.DiffstarPop_Params_Diffstarpopfits_mgash, kp.DiffstarPop_UParams_Diffstarpopfits_mgash),
    )


CONST = dict(
    diffstarfits=dict(
        smdpl_dr1_nomerging="DIFFSTARFITS_SMDPL", smdpl_dr1="DIFFSTARFITS_SMDPL_DR1", tng="DIFFSTARFITS_TNG",
        galacticus_in_situ="DIFFSTARFITS_GALACTICUS_IN", galacticus_in_plus_ex_situ="DIFFSTARFITS_GALACTICUS_INPLUSEX",
    ),
    diffstarpopfits=dict(
        smdpl_dr1_nomerging="DIFFSTARPOP_FITS_SMDPL", smdpl_dr1="DIFFSTARPOP_FITS_SMDPL_DR1", tng="DIFFSTARPOP_FITS_TNG",
        galacticus_in_situ="DIFFSTARPOP_FITS_GALACTICUS_IN", galacticus_in_plus_ex_situ="DIFFSTARPOP_FITS_GALACTICUS_INPLUSEX",
    ),
)


def part_tables(ctx):
    from diffstar.diffstarpop import SIMULATION_FIT_PARAMS, get_bounded_diffstarpop_params, get_unbounded_diffstarpop_params

    T = _tables()
    order = tuple(pop.names())
    ctx.true("the model has every documented population parameter", sorted(order) == sorted(ref.POP_BOUNDS))
    ctx.true("the top-level table offers every simulation", sorted(SIMULATION_FIT_PARAMS) == sorted(pop.SIMS), lambda i: dict(names=list(SIMULATION_FIT_PARAMS)))
    for s in pop.SIMS:
        ctx.same("top-level table is the population-fit table", np.array(SIMULATION_FIT_PARAMS[s], dtype=float), np.array(T["diffstarpopfits"][0][s], dtype=float), dict(sim=s))
    for fam in FAMS:
        P, U = T[fam]
        m = importlib.import_module(f"diffstar.diffstarpop.kernels.params.params_{fam}_mgash")
        ctx.true("simulation names", sorted(P) == sorted(pop.SIMS) and sorted(U) == sorted(pop.SIMS) and sorted(m.sim_name_list) == sorted(pop.SIMS), lambda i: dict(family=fam, P=list(P), U=list(U)))
        for s in pop.SIMS:
            c = dict(family=fam, sim=s)
            p, u = P[s], U[s]
            ctx.true("bounded fields in the model's order", p._fields == order, lambda i: c)
            ctx.true("unbounded fields in the model's order", u._fields == tuple("u_" + k for k in order), lambda i: c)
            sub = importlib.import_module(f"diffstar.diffstarpop.kernels.params.params_{fam}_mgash_{s}")
            base = CONST[fam][s] + "_DIFFSTARPOP_"
            ctx.same("table entry is the named simulation's calibration", np.array(p, dtype=float), np.array(getattr(sub, base + "PARAMS"), dtype=float), c)
            ctx.same("unbounded table entry is the named simulation's calibration", np.array(u, dtype=float), np.array(getattr(sub, base + "U_PARAMS"), dtype=float), c)
            src = getattr(sub, "SFH_PDF_QUENCH_PDICT", None)
            if isinstance(src, dict):  # the values as written, by name
                for k, v in src.items():
                    ctx.true(f"value of {k} is the one written for {k}", float(getattr(p, k)) == float(v), lambda i: dict(c, param=k, written=v, got=float(getattr(p, k))))
            for k in order:
                lo, hi = ref.POP_BOUNDS[k]
                v = float(getattr(p, k))
                ctx.true(f"{k} within its documented bounds", lo < v < hi, lambda i: dict(c, param=k, value=v, bounds=(lo, hi)))
                # the written value is quoted to 3 decimals
                ctx.close(f"unbounded {k} maps back", ref.pop_bounded(k, float(getattr(u, "u_" + k))), v, 1e-5, 1e-4 * (hi - lo), case=lambda i: dict(c, param=k))
                ctx.ev(1)
            b = get_bounded_diffstarpop_params(u)
            ub = get_unbounded_diffstarpop_params(p)
            for k in order:
                lo, hi = ref.POP_BOUNDS[k]
                ctx.close(f"bounded(unbounded table) {k}", float(getattr(b, k)), float(getattr(p, k)), 1e-5, 1e-4 * (hi - lo), case=lambda i: dict(c, param=k))
                ctx.close(f"unbounded(bounded table) {k}", float(getattr(ub, "u_" + k)), float(getattr(u, "u_" + k)), 1e-3, 1e-2, case=lambda i: dict(c, param=k))
    ctx.sample(dict(sims=pop.SIMS, parameters=len(order)))


def part_distinct(ctx):
    T = _tables()
    allp = [(fam, s, T[fam][0][s], T[fam][1][s]) for fam in FAMS for s in pop.SIMS]
    for a, b in itertools.combinations(allp, 2):
        n = int((np.array(a[2], dtype=float) != np.array(b[2], dtype=float)).sum())
        nu = int((np.array(a[3], dtype=float) != np.array(b[3], dtype=float)).sum())
        ctx.true("differently named calibrations differ", n > 0 and nu > 0, lambda i: dict(a=a[:2], b=b[:2]))
        ctx.ev(1)


def part_galaxies(ctx):
    """every calibration gives finite galaxies and valid fractions everywhere."""
    from diffstar.diffstarpop import mc_diffstar_sfh_galpop
    from jax import random as jran

    from . import gal

    lgm = [10.5, 11.5, 12.2, 12.5, 13.0, 13.8, 14.5, 15.5]
    tpk = [1.0, 4.0, 9.0, 13.0, 20.0]
    inf = [(-1, 0.0, 0.0, -100.0), (5, -3.0, 12.0, 0.0), (5, -1.0, 13.4, 3.0), (5, -0.1, 15.0, 12.0)]
    g = np.meshgrid(np.arange(len(lgm)), np.arange(len(tpk)), np.arange(len(inf)), indexing="ij")
    L, K, I = [x.ravel() for x in g]
    n = L.size
    l, t = f32(lgm)[L], f32(tpk)[K]
    v = np.array(inf)[I]
    M = [l, np.full(n, 0.1), np.full(n, 3.0), np.full(n, 0.3), t]
    tarr = np.array([0.2, 1.0, 3.0, 7.0, 10.0, 13.7], dtype=np.float32)
    T = _tables()
    sims = pop.SIMS
    for fam in FAMS:
        for s in sims:
            p = T[fam][0][s]
            c = {k: float(f32(x)) for k, x in p._asdict().items()}
            for key in range(4 if ctx.thorough else 2):
                r = mc_diffstar_sfh_galpop(
                    p, gal.nt_mah(M), l.astype(np.float32), v[:, 0].astype(np.int32), v[:, 1].astype(np.float32), v[:, 2].astype(np.float32), v[:, 3].astype(np.float32),
                    jran.PRNGKey(ctx.seed + key), tarr, lgt0=np.log10(13.8), fb=0.156)
                case = lambda idx: None if not idx else dict(family=fam, sim=s, lgm=l[idx[-1] if len(idx) == 1 else idx[0]], key=key)
                for nm in ("sfh_ms", "sfh_q"):
                    x = np.asarray(getattr(r, nm), dtype=np.float64)
                    ctx.true(f"{nm} finite and positive", np.isfinite(x) & (x > 0), case)
                for nm in ("diffstar_params_ms", "diffstar_params_q"):
                    for k, x in zip(ref.NAMES, getattr(r, nm)):
                        lo, hi = ref.BOUNDS[k]
                        x = np.asarray(x, dtype=np.float64)
                        ctx.true(f"{k} finite and in bounds", (x >= lo - 1e-6) & (x <= hi + 1e-6), case)
                fq = np.asarray(r.frac_q, dtype=np.float64)
                ex = np.where(v[:, 0] == -1, ref.frac_q(c, l, t, "cen"), ref.qprob_sat(c, v[:, 1], v[:, 2], v[:, 3], ref.frac_q(c, l, t, "sat")))
                ctx.close("quenched fraction", fq, ex, 0, 5e-5, case=case)
                ctx.true("valid quenched fraction", (fq >= 0) & (fq <= 1), case)
                ctx.ev(n)


def run(ctx):
    ctx.run_part("tables", part_tables)
    ctx.run_part("distinct", part_distinct)
    ctx.run_part("galaxies", part_galaxies)
