"""C15: soft histograms and the soft stellar-to-halo-mass relation."""

import itertools

import numpy as np

from . import ref
from .core import f32

LEVEL = "model_checking"
RULE = (
    "Explicit model: a histogram accumulated point by point (state = bin contents, transition = one (point, scatter, weight) letter). All "
    "words up to the bound over the alphabet are enumerated for every binning of the menu and replayed on the real histogram."
)

X = [-1.0, 0.0, 0.3, 1.0, 1.5, 2.6]
S = [0.05, 0.4, 2.0]
W = [1.0, 0.0, -2.5, 40.0]
BINS = {
    "unit": ([0.0, 1.0], [1.0, 2.0]),
    "uneven": ([-0.5, 0.3, 0.35], [0.3, 0.35, 3.0]),
    "wide": ([-20.0], [20.0]),
    "overlap": ([0.0, 0.5, -3.0], [1.0, 1.5, 9.0]),
    "tiling": (list(np.linspace(-12, 12, 13)[:-1]), list(np.linspace(-12, 12, 13)[1:])),
}


def _jits():
    from diffstar.diffstarpop.sumstats.diffndhist import tw_ndhist, tw_ndhist_weighted

    return tw_ndhist, tw_ndhist_weighted


def part_words(ctx):
    """1-d: all words of letters, batched by vmap over words."""
    import jax

    h, hw = _jits()
    letters = list(itertools.product(X, S, W))
    L = 3 if ctx.thorough else 2
    vh = jax.jit(jax.vmap(h, in_axes=(0, 0, None, None)))
    vw = jax.jit(jax.vmap(hw, in_axes=(0, 0, 0, None, None)))
    LT = f32(np.array(letters))
    for n in range(1, L + 1):
        if n == 3:
            sub = LT[::3]
        else:
            sub = LT
        idx = np.array(list(itertools.product(range(len(sub)), repeat=n)))
        A = sub[idx]  # (words, n, 3)
        for nm, (lo, hi) in BINS.items():
            lo_, hi_ = f32(lo), f32(hi)
            pw = ref.tw_bin_weight(A[:, :, 0][..., None], A[:, :, 1][..., None], lo_, hi_)  # words, n, bins
            e, ew = np.zeros((len(A), len(lo_))), np.zeros((len(A), len(lo_)))
            mag = np.zeros((len(A), 1))
            for i in range(n):  # the model: accumulate letter by letter
                e += pw[:, i]
                ew += A[:, i, 2][:, None] * pw[:, i]
                mag += np.abs(A[:, i, 2])[:, None]
            B = (lo_[:, None].astype(np.float32), hi_[:, None].astype(np.float32))
            a = (A[:, :, :1].astype(np.float32), A[:, :, 1:2].astype(np.float32))
            got = np.asarray(vh(*a, *B), dtype=np.float64)
            gw = np.asarray(vw(*a, A[:, :, 2].astype(np.float32), *B), dtype=np.float64)
            case = lambda i: dict(points=A[i[0]][:, 0], scatter=A[i[0]][:, 1], weights=A[i[0]][:, 2], bins=nm) if i else None
            ctx.close("histogram", got, e, 3e-6, 4e-6 * n, case=case)
            ctx.close("weighted histogram", gw, ew, 3e-6, 4e-6 * mag, case=case)
            if nm in ("wide", "tiling"):
                ctx.close("support inside the tiling: total weight recovered", gw.sum(axis=1), A[:, :, 2].sum(axis=1), 3e-6, 1e-5 * mag[:, 0], case=case)
            ctx.true("non-negative", got >= -4e-6, case)
            ctx.st(states=len(A), transitions=len(A), traces=2 * len(A))
    ctx.sample(dict(letters=len(letters), bound=L, binnings=list(BINS)))


def part_nd(ctx):
    """2-d and 3-d: product over dimensions."""
    import jax

    h, hw = _jits()
    rng_pts = {
        2: [((0.0, 1.0), (0.4, 0.05)), ((1.5, -1.0), (2.0, 0.4)), ((0.3, 0.3), (0.05, 2.0)), ((-1.0, 2.6), (0.4, 0.4)), ((1.0, 0.0), (2.0, 0.05))],
        3: [((0.0, 1.0, 0.5), (0.4, 0.05, 1.0)), ((1.5, -1.0, 0.0), (2.0, 0.4, 0.1)), ((0.3, 0.3, 2.0), (0.05, 2.0, 0.4)), ((1.0, 0.0, 1.0), (0.5, 0.6, 0.7))],
    }
    for d, pts in rng_pts.items():
        edges = [np.array([-1.0, 0.5, 1.0]), np.array([0.0, 0.7, 3.0]), np.array([-0.5, 1.2, 2.0])][:d]
        cells = list(itertools.product(range(2), repeat=d))
        lo = f32(np.array([[edges[k][c[k]] for k in range(d)] for c in cells]))
        hi = f32(np.array([[edges[k][c[k] + 1] for k in range(d)] for c in cells]))
        big_lo, big_hi = f32([[e[0] for e in edges]]), f32([[e[-1] for e in edges]])
        for n in range(1, 5 if ctx.thorough else 4):
            for word in itertools.product(range(len(pts)), repeat=n):
                x = f32(np.array([pts[w][0] for w in word]))
                s = f32(np.array([pts[w][1] for w in word]))
                y = f32(np.array([(1.0, -2.0, 30.0, 0.5)[(w + i) % 4] for i, w in enumerate(word)]))
                a = [z.astype(np.float32) for z in (x, s)]
                c = dict(dim=d, word=word)
                g = np.asarray(h(*a, lo.astype(np.float32), hi.astype(np.float32)), dtype=np.float64)
                gw = np.asarray(hw(*a, y.astype(np.float32), lo.astype(np.float32), hi.astype(np.float32)), dtype=np.float64)
                ctx.close("histogram", g, ref.tw_hist(x, s, lo, hi), 3e-6, 5e-6 * n, case=lambda i: c)
                ctx.close("weighted histogram", gw, ref.tw_hist(x, s, lo, hi, y), 3e-6, 5e-6 * np.abs(y).sum(), case=lambda i: c)
                b = np.asarray(h(*a, big_lo.astype(np.float32), big_hi.astype(np.float32)), dtype=np.float64)
                ctx.close("adjacent cells add up to the merged cell", g.sum(), b[0], 3e-6, 2e-5 * n, case=lambda i: c)
                ctx.st(states=1, transitions=n, traces=3)


def part_laws(ctx):
    """metamorphic: order, additivity, linearity, splitting bins, for a fixed larger set."""
    h, hw = _jits()
    for n in (64, 1100):
        _laws(ctx, h, hw, n)


def _laws(ctx, h, hw, n):
    z = n / 64.0
    i = np.arange(n)
    x = f32(np.stack([np.sin(1.7 * i) * 2, np.cos(0.9 * i)], axis=1)).astype(np.float32)
    s = f32(np.stack([0.1 + 0.05 * (i % 7), 0.2 + 0.1 * (i % 5)], axis=1)).astype(np.float32)
    y = f32(((i * 7) % 11) - 4.0).astype(np.float32)
    e = np.linspace(-6, 6, 9)
    cells = list(itertools.product(range(8), repeat=2))
    lo = np.array([[e[a], e[b]] for a, b in cells], dtype=np.float32)
    hi = np.array([[e[a + 1], e[b + 1]] for a, b in cells], dtype=np.float32)
    full, fw = np.asarray(h(x, s, lo, hi), dtype=np.float64), np.asarray(hw(x, s, y, lo, hi), dtype=np.float64)
    ctx.close("histogram", full, ref.tw_hist(x, s, lo, hi), 1e-5, 5e-5 * z)
    ctx.close("weighted histogram", fw, ref.tw_hist(x, s, lo, hi, y), 1e-5, 5e-4 * z)
    ctx.close("total weight", full.sum(), n, 1e-5)
    ctx.close("total weight", fw.sum(), y.sum(), 1e-5, 5e-3 * z)
    for r in range(1, n, (5 if not ctx.thorough else 1) if n == 64 else 97):
        p = np.roll(i, r)[::-1]
        ctx.close("independent of point order", h(x[p], s[p], lo, hi), full, 1e-5, 2e-5 * z)
        ctx.close("independent of point order (weighted)", hw(x[p], s[p], y[p], lo, hi), fw, 1e-5, 2e-4 * z)
        ctx.close("additive over points", np.asarray(h(x[:r], s[:r], lo, hi)) + np.asarray(h(x[r:], s[r:], lo, hi)), full, 1e-5, 2e-5 * z)
        ctx.close("additive over points (weighted)", np.asarray(hw(x[:r], s[:r], y[:r], lo, hi)) + np.asarray(hw(x[r:], s[r:], y[r:], lo, hi)), fw, 1e-5, 2e-4 * z)
        q = np.roll(np.arange(len(lo)), r)
        ctx.close("each bin on its own", h(x, s, lo[q], hi[q]), full[q], 1e-5, 2e-5 * z)
        ctx.st(states=1, transitions=5, traces=5)
    for a in (-1.0, 0.0, 0.5, 1000.0):
        ctx.close("linear in weights", hw(x, s, (a * y).astype(np.float32), lo, hi), a * fw, 1e-5, (abs(a) * 1e-3 + 1e-6) * z)
        ctx.close("linear in weights", hw(x, s, (a * y + 3).astype(np.float32), lo, hi), a * fw + 3 * full, 1e-5, (abs(a) * 1e-3 + 1e-3) * z)
        ctx.st(states=1, transitions=1, traces=2)
    ctx.close("unit weights give the plain histogram", hw(x, s, np.ones(n, dtype=np.float32), lo, hi), full, 1e-6, 1e-6 * z)


def part_smhm(ctx):
    from diffstar.diffstarpop.sumstats import smhm

    edges = [[11.0, 12.0], [11.0, 11.5, 13.0, 14.0], list(np.linspace(10.5, 14.5, 9))]
    mh = [10.9, 11.3, 12.4, 13.9]
    sm = [7.0, 9.5, 11.0]
    sg = [0.05, 0.3, 1.5]
    letters = list(itertools.product(mh, sm, sg))
    L = 2
    words = [(w,) for w in letters] + list(itertools.product(letters, letters[:: 1 if ctx.thorough else 3]))
    words += [tuple(letters[(j * k + j) % len(letters)] for j in range(m)) for m in (5, 20, 100) for k in (1, 5, 7, 11)]
    for b in edges:
        bins = np.array(b, dtype=np.float32)
        for w in words:
            a = f32(np.array(w))
            got = np.asarray(smhm.compute_smhm(a[:, 0].astype(np.float32), a[:, 1].astype(np.float32), a[:, 2].astype(np.float32), bins), dtype=np.float64)
            if got.shape != (len(b) - 1,):
                ctx.fail(f"smhm shape {got.shape}", dict(bins=b, points=w))
            pw = ref.tw_bin_weight(a[:, 0][:, None], a[:, 2][:, None], f32(bins)[:-1], f32(bins)[1:])
            tot = pw.sum(axis=0)
            ok = tot > 0.02
            with np.errstate(all="ignore"):
                ex = (pw * a[:, 1][:, None]).sum(axis=0) / tot
            ctx.close("soft mean relation", got[ok], ex[ok], 2e-3, 0, case=lambda i: dict(bins=b, points=w))
            big = tot > 0.2
            ctx.close("soft mean relation", got[big], ex[big], 2e-4, 0, case=lambda i: dict(bins=b, points=w))
            for j in np.argwhere(ok)[:, 0]:
                c = a[pw[:, j] > 0, 1]
                ctx.true("between the smallest and largest contributing value", c.min() * 0.998 <= got[j] <= c.max() * 1.002, lambda i: dict(bins=b, points=w, bin=j, got=got[j]))
            ctx.st(states=1, transitions=len(w), traces=1)
    from diffstar.diffstarpop.sumstats import smdpl_smhm_targets

    x, y = smdpl_smhm_targets.umachine_smhm_z0_allhalos()
    ctx.true("target table", np.isfinite(x).all() and np.isfinite(y).all() and (np.diff(x) > 0).all() and x.size == y.size + 1)


def run(ctx):
    ctx.run_part("words", part_words)
    ctx.run_part("nd", part_nd)
    ctx.run_part("laws", part_laws)
    ctx.run_part("smhm", part_smhm)
