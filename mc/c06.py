"""C06: the gas reservoir closes the baryon budget."""

import numpy as np

from . import gal, ref
from .core import f32, product_array

LEVEL = "exploration"
RULE = (
    "Full lattice of galaxies (halo x main-sequence x quenching letters, halos that peak before/inside/after the table) x time tables "
    "(3 entries upwards, regular and irregular, entries exactly at a peak time) x cosmologies (given and defaulted), single and "
    "population entry points. Non-trivial: times at which the halo accretes."
)
LGT0, FB = float(np.log10(13.8)), 0.156
TABLES = [
    (0.5, 6.5, 13.8),
    (0.05, 0.3, 1.0, 2.0, 3.0, 6.5, 9.0, 12.0, 13.8),
    tuple(np.round(np.linspace(0.2, 14.4, 25), 3)),
    (0.01, 0.02, 0.5, 5.0, 5.1, 5.2, 13.0, 20.0),
]


def oracle(ctx, what, r, S, M, tab, lgt0, fb, case):
    """r: GalHistory with (n, nt) arrays; S, M columns."""
    t = f32(tab)
    s = [f32(c)[:, None] for c in S]
    m = [f32(c)[:, None] for c in M]
    lgt0, fb = float(np.float32(lgt0)), float(np.float32(fb))
    sfh, smh, dm, mg = [np.asarray(getattr(r, k), dtype=np.float64) for k in ("sfh", "smh", "dmgash", "mgash")]
    v, lo, hi = ref.sfh_band(s, m, t[None, :], lgt0, fb)
    ctx.close(f"{what} sfh", sfh, v, 1e-3, 1e-20, lo=lo, hi=hi, case=case)
    star = ref.mstar_formed(t, sfh)
    ctx.close(f"{what} smh", smh, star, 3e-5, 1e-5, case=case)
    acc = fb * ref.dmhdt(m, t[None, :], lgt0)
    tot = ref.mstar_formed(t, acc)
    scale = np.maximum.accumulate(np.abs(tot), axis=1) + smh
    ctx.close(f"{what} budget: gas + stars = fb x accreted", mg + smh, tot, 1e-3, 2e-5 * scale + 1e-3, case=case)
    cell = ref.dt_array(t)
    e = ref.dt_array(mg) / cell / 1e9
    # rounding of the midpoints of the gas masses
    big = np.abs(mg)
    nb = np.maximum(big, np.maximum(np.pad(big, ((0, 0), (1, 0)), mode="edge")[:, :-1], np.pad(big, ((0, 0), (0, 1)), mode="edge")[:, 1:]))
    ctx.close(f"{what} gas accretion rate", dm, e, 1e-5, 6e-7 * nb / cell / 1e9 + 1e-12, case=case)
    ctx.ev(4 * sfh.size, 4 * int((acc > 0).sum()))


def lattice(ctx):
    th = ctx.thorough
    mah = product_array(
        [9.5, 11.5, 13.0, 15.0] if th else [10.5, 12.3, 14.9], [-0.5, 0.05, 0.6], [1.0, 2.6, 6.0], [0.13, 0.9], [0.3, 2.0, 6.5, 9.0, 12.5, 20.0]
    )
    ms = product_array([10.5, 12.3], [-11.0, -8.6], [0.5, 3.0], [-3.0, -0.2])
    q = [np.array([a, b]) for a, b in zip(gal.UNQ, [0.6, -0.8, -1.8, -0.7])]
    M, S, Q = gal.cross(mah, ms, q)
    return S + Q, M


def call_pop(S, M, tab, *a, **k):
    from diffstar import calc_mgas_galpop

    return calc_mgas_galpop(gal.nt_sfh([np.asarray(c) for c in S]), gal.nt_mah([np.asarray(c) for c in M]), np.array(tab, np.float32), *a, **k)


def part_pop(ctx):
    S, M = lattice(ctx)
    n = len(M[0])
    for tab in TABLES:
        for i in range(0, n, 6000):
            s, m = [c[i : i + 6000] for c in S], [c[i : i + 6000] for c in M]
            r = call_pop(s, m, tab, LGT0, FB)
            oracle(ctx, "population", r, s, m, tab, LGT0, FB, gal.case_of(s, m, tab, LGT0, FB))
    ctx.sample(dict(galaxies=n, tables=TABLES))


def part_cosmo(ctx):
    S, M = gal.alphabet_cols()
    for tab in TABLES:
        for fb in (0.05, 0.156, 0.17, 0.5):
            for t0 in (12.7, 13.8, 14.3):
                r = call_pop(S, M, tab, lgt0=np.log10(t0), fb=fb)
                oracle(ctx, "cosmology", r, S, M, tab, np.log10(t0), fb, gal.case_of(S, M, tab, np.log10(t0), fb))
        for kw, t0, fb in (({}, 13.8, 0.156), (dict(fb=0.3), 13.8, 0.3), (dict(lgt0=np.log10(13.0)), 13.0, 0.156)):
            r = call_pop(S, M, tab, **kw)
            oracle(ctx, "default cosmology", r, S, M, tab, np.log10(t0), fb, gal.case_of(S, M, tab, np.log10(t0), fb))


def part_single(ctx):
    from diffstar import calc_mgas_singlegal

    S, M = lattice(ctx)
    ix = np.arange(0, len(M[0]), 7 if ctx.thorough else 41)
    SA, MA = gal.alphabet_cols()
    S = [np.concatenate([a, c[ix]]) for a, c in zip(SA, S)]
    M = [np.concatenate([a, c[ix]]) for a, c in zip(MA, M)]
    combos = [({}, 13.8, 0.156), (dict(fb=0.25, lgt0=np.log10(13.2)), 13.2, 0.25)]
    for tab in TABLES:
        t = np.array(tab, np.float32)
        for kw, t0, fb in combos:
            rows = [calc_mgas_singlegal(gal.nt_sfh([c[i] for c in S]), gal.nt_mah([c[i] for c in M]), t, **kw) for i in range(len(M[0]))]
            r = type(rows[0])(*[np.array([np.asarray(getattr(x, k)) for x in rows]) for k in rows[0]._fields])
            oracle(ctx, "single", r, S, M, tab, np.log10(t0), fb, gal.case_of(S, M, tab, np.log10(t0), fb))
    ctx.sample(dict(galaxies=len(M[0])))


def part_same_sfh(ctx):
    """same sfh/smh as the SFH model for the same cosmology."""
    from diffstar import calc_sfh_galpop

    S, M = gal.alphabet_cols()
    for tab in TABLES:
        for fb, t0 in ((0.156, 13.8), (0.3, 13.1)):
            r = call_pop(S, M, tab, lgt0=np.log10(t0), fb=fb)
            q = calc_sfh_galpop(gal.nt_sfh(S), gal.nt_mah(M), np.array(tab, np.float32), lgt0=np.log10(t0), fb=fb, return_smh=True)
            ctx.close("sfh", r.sfh, q.sfh, 1e-4, 1e-20)
            ctx.close("smh", r.smh, q.smh, 1e-4, 1e-6)
            ctx.ev(2 * np.size(q.sfh))


def run(ctx):
    ctx.run_part("population", part_pop)
    ctx.run_part("cosmology", part_cosmo)
    ctx.run_part("single", part_single)
    ctx.run_part("same_sfh", part_same_sfh)
