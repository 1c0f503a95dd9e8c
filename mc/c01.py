"""C01: star formation history obeys the baryonic accretion law."""

import numpy as np

from . import gal, ref
from .core import f32, product_array

LEVEL = "exploration"
RULE = (
    "Full Cartesian lattices over halo-history letters x main-sequence letters x quenching letters x time letters "
    "(times include each peak time exactly, the first table time and times beyond the table), x (fb, lgt0) letters, plus "
    "every (sub)table of a time alphabet for the time-independence clause. A point is non-trivial when the rate is above the floor."
)
ASSUMPTIONS = [
    "the law is continuous between lattice letters; float32 tolerance 1e-3 relative, widened by log-time rounding for narrow quenching events",
]

LGT0, FB = ref.LGT0_DEFAULT, ref.FB_DEFAULT


def part_ms(ctx):
    th = ctx.thorough
    logm0 = [8.5, 11.3, 12.6, 15.5] if not th else [8.0, 9.5, 11.0, 12.0, 12.9, 14.0, 16.0]
    mah = product_array(
        logm0,
        [-0.9, 0.05, 0.8] if not th else [-0.95, -0.3, 0.05, 0.4, 0.95],
        [0.3, 2.6, 9.5],
        [0.12, 1.5] if not th else [0.1, 0.6, 4.8],
        [0.4, 6.5, 13.8, 19.5] if not th else [0.06, 2.5, 6.5, 13.8, 19.5],
    )
    ms = product_array(
        [9.1, 11.4, 13.4] if not th else [9.02, 10.5, 11.6, 12.4, 13.48],
        [-11.9, -9.7, -8.1],
        [0.03, 1.2, 4.9],
        [-4.9, -1.1, -0.02],
    )
    q = [np.array([x]) for x in gal.UNQ]
    tarr = [0.01, 0.03, 0.1, 0.4, 0.39, 0.41, 0.9, 1.0, 2.0, 3.3, 5.0, 6.45, 6.5, 6.55, 8.0, 10.0, 12.0, 13.79, 13.8, 13.81, 16.0, 19.5, 20.5]
    M, S, Q = gal.cross(mah, ms, q)
    n = len(M[0])
    ctx.sample(dict(n_galaxies=n, n_times=len(tarr), first=[c[0] for c in S + Q], last=[c[-1] for c in S + Q]))
    step = 100000
    for i in range(0, n, step):
        sl = slice(i, i + step)
        s, m = [c[sl] for c in S + Q], [c[sl] for c in M]
        got = gal.check_law(ctx, "SFH", s, m, tarr, LGT0, FB)
        ctx.true("SFR floor", got >= np.float64(np.float32(ref.SFR_MIN)), gal.case_of(s, m, tarr, LGT0, FB))
        # frozen after the peak: identical rate at all times >= t_peak (unquenched galaxy)
        after = f32(tarr)[None, :] >= f32(m[4])[:, None]
        big = np.where(after, got, -np.inf).max(axis=1)
        small = np.where(after, got, np.inf).min(axis=1)
        has = after.sum(axis=1) > 1
        ctx.true("frozen after peak", (big <= small * (1 + 1e-4)) | ~has, gal.case_of(s, m, tarr, LGT0, FB))


def part_quench(ctx):
    th = ctx.thorough
    q = gal.q_lattice(
        [0.12, 0.5, 0.85, 1.0, 1.14, 1.5, 1.95] if not th else list(np.linspace(0.11, 1.99, 17)),
        [-2.95, -1.5, -0.9, -0.5, -0.2, -0.02] if not th else list(np.linspace(-2.99, -0.02, 12)),
        [-2.98, -2.0, -1.0, -0.2, -0.01] if not th else [-2.99, -2.2, -1.5, -1.0, -0.5, -0.2, -0.02],
        [0.0, 0.01, 0.4, 0.9, 1.0],
    )
    gals = [[np.array([g[k][j] for g in gal.ALPHABET]) for j in range(5 if k else 4)] for k in (0, 1)]
    tt = [0.011, 0.1, 0.5, 1.0, 1.3, 1.5, 2.0, 2.5, 3.16, 4.0, 5.0, 6.0, 7.07, 7.5, 8.5, 10.0, 10.5, 11.5, 13.0, 13.8, 18.0, 25.0, 31.6, 40.0]
    pair = [gals[0] + gals[1]]
    P, Q = gal.cross(pair[0], q)
    S, M = P[:4] + Q, P[4:]
    ctx.sample(dict(n_galaxies=len(M[0]), n_times=len(tt)))
    gal.check_law(ctx, "quenched SFH", S, M, tt, LGT0, FB)


def part_cosmo(ctx):
    fbs = [0.05, 0.156, 0.1738, 0.3, 1.0]
    t0s = [12.5, 13.2, 13.8, 14.6]
    tt = [0.05, 1.0, 3.0, 6.5, 9.0, 13.0, 14.0, 15.0]
    base = gal.alphabet_cols()
    for fb in fbs:
        for t0 in t0s:
            gal.check_law(ctx, f"SFH at fb={fb} t0={t0}", *base, tt, np.log10(t0), fb,
                          got=gal.sfh_galpop(*base, tt, np.log10(t0), fb, batch=8))
    ctx.sample(dict(fb=fbs, t0=t0s))


def part_single(ctx):
    """calc_sfh_singlegal on every galaxy letter x quenching lattice, one jitted call each."""
    from diffstar import calc_sfh_singlegal

    qs = gal.q_lattice([0.3, 1.0, 1.8], [-2.0, -0.5], [-2.5, -0.5], [0.0, 0.5, 1.0])
    tt = f32([0.01, 0.3, 1.0, 2.0, 3.0, 5.9, 6.5, 9.0, 10.0, 13.8, 14.0, 20.0])
    t32 = tt.astype(np.float32)
    for g, m in gal.ALPHABET:
        for j in range(-1, len(qs[0])):
            p = list(g) if j < 0 else list(g[:4]) + [float(c[j]) for c in qs]
            got = np.asarray(calc_sfh_singlegal(gal.nt_sfh(p), gal.nt_mah(m), t32, lgt0=np.float32(LGT0), fb=np.float32(FB)))
            v, lo, hi = ref.sfh_band(f32(p), f32(m), tt, f32(LGT0), f32(FB))
            ctx.close("single-galaxy SFH", got, v, 1e-3, 1e-20, lo=lo, hi=hi,
                      case=lambda idx: dict(p=p, m=m, t=float(tt[idx[0]]) if idx else None))
            ctx.ev(got.size, int((v > 2e-14).sum()))


def part_tables(ctx):
    """the value at a time does not depend on the table: every ordered sub-table of a time alphabet."""
    import itertools

    from diffstar import calc_sfh_galpop, calc_sfh_singlegal

    letters = [0.01, 0.8, 3.0, 6.5, 9.0, 13.8, 14.0, 16.0]
    n = 0
    for k in (1, 2, 3, 8) if not ctx.thorough else (1, 2, 3, 4, 8):
        perms = itertools.permutations(range(8), k) if k < 4 else [tuple(range(8)), tuple(range(7, -1, -1)), (3,) * 8, (0, 7, 1, 6, 2, 5, 3, 4)]
        if k == 4:
            perms = itertools.permutations(range(8), 4)
        for tup in perms:
            tab = np.array([letters[i] for i in tup], dtype=np.float32)
            g = n % len(gal.ALPHABET)
            p, m = gal.ALPHABET[g]
            if n % 3 == 0:
                gi = [g, (g + 1) % 6]
                S, M = gal.alphabet_cols(gi)
                got = np.asarray(calc_sfh_galpop(gal.nt_sfh(S), gal.nt_mah(M), tab, lgt0=LGT0, fb=FB))
            else:
                gi = [g]
                got = np.asarray(calc_sfh_singlegal(gal.nt_sfh(p), gal.nt_mah(m), tab, lgt0=LGT0, fb=FB))[None, :]
            for row, gg in zip(got, gi):
                pp, mm = gal.ALPHABET[gg]
                v, lo, hi = ref.sfh_band(f32(pp), f32(mm), f32(tab), f32(LGT0), f32(FB))
                ctx.close("SFH on a sub-table", row, v, 1e-3, 1e-20, lo=lo, hi=hi, case=lambda idx: dict(table=tab, galaxy=gg, i=idx))
            ctx.ev(got.size)
            n += 1
    ctx.sample(dict(tables=n, letters=letters))


def run(ctx):
    ctx.run_part("main_sequence_lattice", part_ms)
    ctx.run_part("quenching_lattice", part_quench)
    ctx.run_part("cosmology", part_cosmo)
    ctx.run_part("single_galaxy", part_single)
    ctx.run_part("time_tables", part_tables)
