"""C04: stellar mass formed is the cumulative trapezoid of the SFR."""

import itertools

import numpy as np

from . import gal, ref
from .core import f32

LEVEL = "model_checking"
RULE = (
    "Transition system: state = (time, rate, accumulated mass), a transition appends one (time step, rate) letter; all words up to "
    "the bound are enumerated and every word is replayed on cumulative_mstar_formed(_galpop)."
)

RATES = [0.0, 1e-14, 1.0, 250.0, -5.0]


def _ref_words(t, R):
    """explicit model: accumulate letter by letter; returns mass after each letter and sum of |terms|."""
    m, mag = np.zeros(R.shape), np.zeros(R.shape)
    acc = np.zeros(R.shape[0])
    am = np.zeros(R.shape[0])
    tp, rp = ref.T_BIRTH_MIN, np.full(R.shape[0], ref.SFR_MIN)
    for i in range(t.size):
        term = (t[i] - tp) * 0.5 * (rp + R[:, i]) * 1e9
        acc = acc + term
        am = am + (t[i] - tp) * 0.5 * (np.abs(rp) + np.abs(R[:, i])) * 1e9
        m[:, i], mag[:, i] = acc, am
        tp, rp = t[i], R[:, i]
    return m, mag


def part_words(ctx):
    from diffstar.utils import cumulative_mstar_formed_galpop

    T0 = [0.01, 0.37, 2.0]
    DT = [0.01, 0.5, 3.0]
    L = 6 if ctx.thorough else 5
    for n in range(1, L + 1):
        R = f32(np.array(list(itertools.product(RATES, repeat=n)), dtype=np.float64))
        R32 = R.astype(np.float32)
        for t0 in T0:
            for dts in itertools.product(DT, repeat=n - 1):
                t = f32(np.cumsum([t0] + list(dts)))
                got = np.asarray(cumulative_mstar_formed_galpop(t.astype(np.float32), R32), dtype=np.float64)
                m, mag = _ref_words(t, R)
                case = lambda idx: dict(t=t, sfr=R[idx[0]]) if idx else dict(t=t)
                ctx.close("mass formed", got, m, 1e-6, 1e-300 + 4e-6 * mag, case=case)
                nonneg = (R >= 0).all(axis=1)
                ctx.true("never decreases for non-negative rates", np.diff(got[nonneg], axis=1) >= 0, lambda idx: dict(t=t, sfr=R[nonneg][idx[0]]))
                ctx.st(states=len(R), transitions=len(R), traces=len(R))
        ctx.sample(dict(length=n, words=len(R) * 3 * 3 ** (n - 1)))


def part_single(ctx):
    """one-galaxy function; prefixes/extensions and linearity by direct comparison of implementation runs."""
    from diffstar.utils import cumtrapz, cumulative_mstar_formed

    DT = [0.02, 0.7, 2.5]
    rates = [0.0, 3.0, 40.0]
    L = 4 if ctx.thorough else 3
    for n in range(1, L + 1):
        for dts in itertools.product(DT, repeat=n):
            t = np.cumsum(np.array(dts)).astype(np.float32)
            for w in itertools.product(rates, repeat=n):
                s = np.array(w, dtype=np.float32)
                a = np.asarray(cumulative_mstar_formed(t, s), dtype=np.float64)
                m, mag = _ref_words(f32(t), f32(s)[None, :])
                ctx.close("mass formed (single)", a, m[0], 1e-6, 4e-6 * mag[0], case=lambda idx: dict(t=t, sfr=s))
                c = np.asarray(cumtrapz(t, s), dtype=np.float64)
                ctx.close("cumtrapz", c, ref.cumtrapz(f32(t), f32(s)), 3e-6, 1e-7 * mag[0] / 1e9, case=lambda idx: dict(t=t, sfr=s))
                ctx.st(states=1, transitions=n, traces=2)
    # extension: later entries never change earlier masses
    t = np.linspace(0.1, 13.8, 40).astype(np.float32)
    base = (5 + 4 * np.sin(t)).astype(np.float32)
    full = np.asarray(cumulative_mstar_formed(t, base), dtype=np.float64)
    for k in range(1, 40):
        for tail in (0.0, 1e3, -50.0):
            s = base.copy()
            s[k:] = tail
            a = np.asarray(cumulative_mstar_formed(t, s), dtype=np.float64)
            ctx.close("history up to t only", a[:k], full[:k], 2e-6, case=lambda idx: dict(k=k, tail=tail))
            ctx.st(states=1, transitions=1, traces=1)
        p = np.asarray(cumulative_mstar_formed(t[:k], base[:k]), dtype=np.float64)
        ctx.close("prefix table", p, full[:k], 3e-6, case=lambda idx: dict(k=k))
    for a_ in (0.5, 2.0, 1000.0):
        ctx.close("linearity", np.asarray(cumulative_mstar_formed(t, (a_ * base).astype(np.float32)), dtype=np.float64), a_ * full, 1e-5)


def part_long(ctx):
    from diffstar.utils import cumulative_mstar_formed, cumulative_mstar_formed_galpop

    rows = []
    for n in (1, 2, 7, 50, 64, 100, 300, 1000):
        for kind in range(4):
            t = [np.linspace(0.01, 13.8, n), np.logspace(-2, np.log10(13.8), n), np.linspace(0.01, 3.7, n) ** 2 + 0.01, 13.8 - np.logspace(np.log10(13.7), -2, n)][kind]
            t = f32(np.sort(t))
            if n > 1 and not (np.diff(t) > 0).all():
                continue
            R = f32(np.array([np.ones(n), t, np.exp(-t) * t * 30, np.where(np.arange(n) % 2, 0.0, 9.0), 1e3 * np.exp(-((t - 6) ** 2) * 8)]))
            m, mag = _ref_words(t, R)
            got = np.asarray(cumulative_mstar_formed_galpop(t.astype(np.float32), R.astype(np.float32)), dtype=np.float64)
            ctx.close("mass formed (long table)", got, m, 3e-5, 1e-6 * mag, case=lambda idx: dict(n=n, kind=kind, i=idx))
            for i in range(len(R)):
                g1 = np.asarray(cumulative_mstar_formed(t.astype(np.float32), R[i].astype(np.float32)), dtype=np.float64)
                ctx.close("mass formed (long table, single)", g1, m[i], 3e-5, 1e-6 * mag[i], case=lambda idx: dict(n=n, kind=kind, row=i))
            ctx.st(states=len(R) * n, transitions=len(R) * n, traces=2 * len(R))
            rows.append(n)


def part_history(ctx):
    """the mass history returned with an SFH is the integral of that same SFH."""
    from diffstar import calc_sfh_galpop, calc_sfh_singlegal

    S, M = gal.alphabet_cols()
    tabs = [[0.5], [13.8], [0.01, 13.8], list(np.linspace(0.1, 13.8, 8)), list(np.linspace(0.05, 20, 6)), list(np.logspace(-1, 1.14, 50)), list(np.linspace(0.1, 13.7, 5)), list(np.linspace(0.1, 13.7, 4))]
    for tab in tabs:
        t = np.array(tab, dtype=np.float32)
        for fb, lgt0 in ((0.156, np.log10(13.8)), (0.2, np.log10(13.0))):
            r = calc_sfh_galpop(gal.nt_sfh(S), gal.nt_mah(M), t, lgt0=lgt0, fb=fb, return_smh=True)
            p = calc_sfh_galpop(gal.nt_sfh(S), gal.nt_mah(M), t, lgt0=lgt0, fb=fb)
            sfh, smh = np.asarray(r.sfh, dtype=np.float64), np.asarray(r.smh, dtype=np.float64)
            ctx.close("sfh with and without return_smh", sfh, np.asarray(p), 1e-5)
            m, mag = _ref_words(f32(t), sfh)
            case = lambda idx: dict(t=t, galaxy=idx, fb=fb)
            ctx.close("smh of galpop", smh, m, 3e-5, 1e-6 * mag, case=case)
            for i in range(len(S[0])):
                q = calc_sfh_singlegal(gal.nt_sfh([c[i] for c in S]), gal.nt_mah([c[i] for c in M]), t, lgt0=lgt0, fb=fb, return_smh=True)
                s1 = np.asarray(q.sfh, dtype=np.float64)
                m1, mag1 = _ref_words(f32(t), s1[None, :])
                ctx.close("smh of singlegal", np.asarray(q.smh, dtype=np.float64), m1[0], 3e-5, 1e-6 * mag1[0], case=lambda idx: dict(t=t, galaxy=i, fb=fb))
                v = ref.sfh_band(f32([c[i] for c in S]), f32([c[i] for c in M]), f32(t), f32(lgt0), f32(fb))
                ctx.close("sfh of singlegal", s1, v[0], 1e-3, 1e-20, lo=v[1], hi=v[2], case=lambda idx: dict(t=t, galaxy=i, fb=fb))
                ctx.st(states=t.size, transitions=t.size, traces=1)
            ctx.st(states=sfh.size, transitions=sfh.size, traces=len(S[0]))


def run(ctx):
    ctx.run_part("words", part_words)
    ctx.run_part("single", part_single)
    ctx.run_part("long_tables", part_long)
    ctx.run_part("history", part_history)
