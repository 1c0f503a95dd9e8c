"""C05: population results equal independent single-galaxy results."""

import itertools

import numpy as np

from . import gal, ref
from .core import f32

LEVEL = "model_checking"
RULE = (
    "Populations are words over a 6-letter galaxy alphabet. All words up to length 3 (4 thorough), all permutations of 4-galaxy "
    "populations, all (population size, number of times) pairs in a box covering sizes 1, 4, 5, 8 and n_gal == n_time; state = "
    "population, transition = append/replace/swap one galaxy, every word replayed on the population functions and compared row by "
    "row with the single-galaxy functions."
)
LGT0, FB = float(np.log10(13.8)), 0.156


class Singles:
    def __init__(self):
        self.cache = {}

    def get(self, g, tab):
        from diffstar import calc_mgas_singlegal, calc_sfh_singlegal

        key = (g, tab)
        if key not in self.cache:
            t = np.array(tab, dtype=np.float32)
            p, m = gal.ALPHABET[g]
            p, m = gal.nt_sfh(p), gal.nt_mah(m)
            a = calc_sfh_singlegal(p, m, t, lgt0=LGT0, fb=FB, return_smh=True)
            b = calc_mgas_singlegal(p, m, t, LGT0, FB) if len(tab) > 2 else None
            # oracle: law of C01, so that a defect shared by both code paths is seen too
            v, lo, hi = ref.sfh_band(f32(gal.ALPHABET[g][0]), f32(gal.ALPHABET[g][1]), f32(tab), LGT0, FB)
            self.cache[key] = dict(sfh=np.asarray(a.sfh, np.float64), smh=np.asarray(a.smh, np.float64),
                                   gas=None if b is None else {k: np.asarray(getattr(b, k), np.float64) for k in ("sfh", "smh", "dmgash", "mgash")},
                                   law=(v, lo, hi))
        return self.cache[key]


def compare(ctx, S, word, tab, gas=True, cum=True):
    from diffstar import calc_mgas_galpop, calc_sfh_galpop
    from diffstar.utils import cumulative_mstar_formed_galpop

    t = np.array(tab, dtype=np.float32)
    p, m = gal.alphabet_cols(word)
    p, m = gal.nt_sfh(p), gal.nt_mah(m)
    r = calc_sfh_galpop(p, m, t, lgt0=LGT0, fb=FB, return_smh=True)
    r0 = calc_sfh_galpop(p, m, t, lgt0=LGT0, fb=FB)
    ref_rows = [S.get(g, tab) for g in word]
    case = lambda idx: dict(population=word, table=tab, row=idx[0] if idx else None)
    e_sfh = np.array([x["sfh"] for x in ref_rows])
    e_smh = np.array([x["smh"] for x in ref_rows])
    rt = 2e-4  # rounding of exponentials in differently vectorised programs
    lo = np.array([x["law"][1] for x in ref_rows])
    hi = np.array([x["law"][2] for x in ref_rows])
    ctx.close("galpop sfh", r.sfh, e_sfh, rt, 1e-20, case=case, lo=np.minimum(lo, e_sfh), hi=np.maximum(hi, e_sfh))
    ctx.close("galpop sfh without smh", r0, e_sfh, rt, 1e-20, case=case, lo=np.minimum(lo, e_sfh), hi=np.maximum(hi, e_sfh))
    ctx.close("galpop smh", r.smh, e_smh, 5e-4, 1e-6, case=case)
    ctx.close("sfh law", r.sfh, np.array([x["law"][0] for x in ref_rows]), 1e-3, 1e-20, case=case, lo=lo, hi=hi)
    if cum:
        s = np.asarray(r.sfh)
        ctx.close("galpop mstar formed", cumulative_mstar_formed_galpop(t, s), np.asarray(r.smh), 1e-5, 1e-6, case=case)
    if gas and len(tab) > 2:
        g = calc_mgas_galpop(p, m, t, LGT0, FB)
        scale = np.array([np.abs(x["gas"]["mgash"]).max() + x["gas"]["smh"].max() for x in ref_rows])[:, None]
        cell = np.gradient(f32(tab))[None, :] * 1e9
        for k in ("sfh", "smh"):
            e = np.array([x["gas"][k] for x in ref_rows])
            ctx.close(f"gas galpop {k}", getattr(g, k), e, 5e-4, 1e-6, case=case, lo=np.minimum(e, lo) if k == "sfh" else None, hi=np.maximum(e, hi) if k == "sfh" else None)
        e = np.array([x["gas"]["mgash"] for x in ref_rows])
        ctx.close("gas galpop mgash", g.mgash, e, 5e-4, 2e-5 * scale, case=case)
        e = np.array([x["gas"]["dmgash"] for x in ref_rows])
        ctx.close("gas galpop dmgash", g.dmgash, e, 1e-3, 2e-5 * scale / cell, case=case)
    ctx.st(states=1, transitions=len(word), traces=1)


TAB = tuple(float(x) for x in (0.05, 0.7, 2.0, 3.1, 6.5, 9.0, 13.8))


def part_words(ctx):
    S = Singles()
    K = len(gal.ALPHABET)
    for n in range(1, 5 if ctx.thorough else 4):
        for w in itertools.product(range(K), repeat=n):
            compare(ctx, S, w, TAB, cum=n < 3)
    ctx.sample(dict(words="all words of length <= %d over %d galaxies" % (n, K), table=TAB))


def part_perms(ctx):
    S = Singles()
    for sub in itertools.combinations(range(6), 4):
        for w in itertools.permutations(sub):
            compare(ctx, S, w, TAB, cum=False, gas=ctx.thorough or sub[0] == 0)


def part_sizes(ctx):
    S = Singles()
    sizes = [1, 2, 3, 4, 5, 6, 8, 9, 13] if not ctx.thorough else list(range(1, 15)) + [20, 31]
    times = [1, 2, 3, 4, 5, 8, 13] if not ctx.thorough else list(range(1, 11)) + [13, 31]
    for nt in times:
        tab = tuple(float(x) for x in np.round(np.linspace(0.4, 13.7, nt), 4)) if nt > 1 else (5.5,)
        for ng in sizes:
            compare(ctx, S, tuple(i % 6 for i in range(ng)), tab)
    ctx.sample(dict(sizes=sizes, times=times))


def part_large(ctx):
    """many rows: a lattice population, random-access rows against the law, and reversed/rolled populations."""
    qs = gal.q_lattice([0.4, 1.0, 1.6], [-1.5, -0.4], [-2.0, -0.3], [0.2, 0.9])
    P, M = gal.alphabet_cols()
    C, Q = gal.cross(P[:4] + M, qs)
    s, m = C[:4] + Q, C[4:]
    n = len(m[0])
    a = gal.sfh_galpop(s, m, TAB, LGT0, FB, batch=n)
    for name, ix in (("reversed", np.arange(n)[::-1]), ("rolled", np.roll(np.arange(n), 17)), ("doubled", np.repeat(np.arange(n), 2)), ("half", np.arange(0, n, 2)), ("large", (np.arange(5003) * 31) % n), ("at 1025", (np.arange(1025) * 17 + 3) % n)):
        b = gal.sfh_galpop([c[ix] for c in s], [c[ix] for c in m], TAB, LGT0, FB, batch=len(ix))
        ctx.close(name, b, a[ix], 2e-4, 1e-20, case=lambda idx: dict(how=name, row=idx))
        ctx.st(states=len(ix), transitions=len(ix), traces=1)
    gal.check_law(ctx, "law", s, m, TAB, LGT0, FB, got=a)


def run(ctx):
    ctx.run_part("words", part_words)
    ctx.run_part("permutations", part_perms)
    ctx.run_part("sizes", part_sizes)
    ctx.run_part("large", part_large)
