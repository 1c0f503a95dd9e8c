"""C20: the galaxy fitter returns consistent in-bounds parameters for the given options."""

import itertools

import numpy as np

from . import c19, ref
from .core import Violation, f32

LEVEL = "exploration"
RULE = (
    "Histories (model galaxies, bursts, gaps, empty, huge; with and without undefined entries) x halo letters x time tables x fit options and "
    "cosmologies, every single deviation from the defaults and pairs of deviations: each fit is run end to end and its returned parameters "
    "are put back into a float64 re-implementation of the targets, weights and loss for the same options. For every option at least one fit "
    "must be one whose loss would come out differently without that option (checked). Non-trivial = fit succeeded."
)
ASSUMPTIONS = ["the random restarts are pinned by the seed of numpy's global generator"]

T_OPT = dict(c19.OPT, lgt0=[1.0, 1.2], fb=[0.08, 0.25])
FULL = dict(c19.DEF, lgt0=None, fb=None)


def _ref_data(t, h, mah, o, lgt0, fb):
    """float64 fit data in the order ref_loss expects."""
    E = c19.recipe(t, h, o)
    w, wf = c19.weights(t, E["logm"], E["lf"], o)
    w, wf = [np.where(np.isinf(x), 1e10, x) for x in (w, wf)]
    edge = min(
        np.abs(E["logm"][-1] - E["logm"] - 0.1).min(), np.abs(E["lf"].max() - E["lf"] - 0.1).min(),
        np.abs(E["logm"] - E["logm"][-1] + o["dlogm_cut"]).min(), np.abs(E["logm"] - min(E["logm"][-1] - 0.5, o["mass_fit_min"])).min(),
    )
    ld = (t, None, E["m"], E["logm"], E["sfh"], E["lf"], None, None, w, wf, np.log10(t[np.argmax(E["lf"])]))
    return ld, edge, E


def _check_params(p, c):
    if tuple(getattr(p, "_fields", ())) != ref.NAMES:
        raise Violation(f"parameters are {getattr(p, '_fields', type(p))}, expected {ref.NAMES}", c)
    v = np.array([float(x) for x in p])
    if not np.isfinite(v).all():
        raise Violation("returned parameters are not finite", dict(c, params=v))
    for k, x in zip(ref.NAMES, v):
        lo, hi = ref.BOUNDS[k]
        d = 1e-5 * (hi - lo)
        if not lo - d <= x <= hi + d:
            raise Violation(f"{k} = {x} outside its bounds", dict(c, params=v))
    if v[7] < v[6] - 1e-5:
        raise Violation("rejuvenation below the drop", dict(c, params=v))
    return v


def fit(ctx, t, h, mah, over, c):
    from diffmah.defaults import LGT0

    from diffstar.defaults import FB
    from diffstar.fitting_helpers.diffstar_fitting_helpers import diffstar_fitter

    o = dict(c19.DEF, **{k: v for k, v in over.items() if k in c19.DEF})
    lgt0, fb = over.get("lgt0", float(LGT0)), over.get("fb", float(FB))
    np.random.seed(ctx.seed)
    t0, h0 = t.copy(), h.copy()
    r = diffstar_fitter(t, h, c19._mah(mah), **over)
    if len(r) != 3:
        raise Violation("result is not (parameters, loss, success)", c)
    p, loss, ok = r
    if not (np.array_equal(t, t0) and np.array_equal(h, h0, equal_nan=True)):
        raise Violation("inputs were modified", c)
    v = _check_params(p, c)
    return v, float(loss), int(ok), o, lgt0, fb


def check(ctx, t, h, mah, over, c, used=None):
    v, loss, ok, o, lgt0, fb = fit(ctx, t, h, mah, over, c)
    c = dict(c, over=over, params=v, loss=loss, success=ok)
    ld, edge, E = _ref_data(t, h, mah, o, lgt0, fb)
    if ok != 1:
        raise Violation("fit of a defined history did not succeed", c)
    soft = np.any(E["lf_hi"] - E["lf_lo"] > 1e-3)
    ctx.ev(1)
    if edge < 3e-5 or soft:
        return
    # plateaus of the averaged rate: any of the tied peaks
    tied = np.argwhere(E["lf"] > E["lf"].max() - 1e-5)[:, 0]
    cand = [c19.ref_loss(v, ld[:10] + (np.log10(t[j]),), mah, o, lgt0, fb) for j in tied]
    a, lo, hi = min(cand, key=lambda x: abs(x[0] - loss))
    ctx.close("loss re-evaluated at the returned parameters", loss, a, 3e-3, 3e-3, case=lambda i: dict(c, expected=a), lo=lo, hi=hi)
    if used is not None:
        for k in over:
            o2 = dict(o)
            l2, f2 = lgt0, fb
            if k == "lgt0":
                from diffmah.defaults import LGT0

                l2 = float(LGT0)
            elif k == "fb":
                f2 = ref.FB_DEFAULT
            else:
                o2[k] = c19.DEF[k]
            ld2, _, _ = _ref_data(t, h, mah, o2, l2, f2)
            b = c19.ref_loss(v, ld2, mah, o2, l2, f2)[0]
            if abs(b - loss) > 10 * (3e-3 + 3e-3 * max(a, b)):
                used[k] = used.get(k, 0) + 1


def _galaxies(t, mah, lgt0, fb):
    return {k: f32(ref.sfh(np.array(g), mah, t, lgt0, fb)) for k, g in c19.GALP.items()}


def part_defaults(ctx):
    T = c19.tables()
    for tn, t in T.items():
        H = c19.histories(t)
        for mn, mah in c19.MAHS.items():
            HH = dict(H, **_galaxies(t, mah, ref.LGT0_DEFAULT, ref.FB_DEFAULT)) if (mn == "mw" or ctx.thorough) else _galaxies(t, mah, ref.LGT0_DEFAULT, ref.FB_DEFAULT)
            for hn, h in HH.items():
                if not ctx.thorough and tn != "lin" and (len(hn) + len(mn)) % 3:
                    continue
                check(ctx, t, h, mah, {}, dict(table=tn, history=hn, halo=mn))
    ctx.sample(dict(histories=list(HH)))


def part_options(ctx):
    T = c19.tables()
    used = {}
    over = [{k: v} for k, vs in T_OPT.items() for v in vs]
    pairs = [{a: x, b: y} for (a, va), (b, vb) in itertools.combinations(T_OPT.items(), 2) for x, y in itertools.product(va, vb)]
    over += pairs if ctx.thorough else pairs[::9]
    for i, ov in enumerate(over):
        for tn, hn in (("lin", "gap"), ("lin", "early_q"), ("log", "late")) if len(ov) == 1 else (("lin", "gap" if i % 2 else "late_q"),):
            t = T[tn]
            mah = c19.MAHS["mw"]
            h = c19.histories(t).get(hn)
            if h is None:
                h = f32(ref.sfh(np.array(c19.GALP[hn]), mah, t, ref.LGT0_DEFAULT, ref.FB_DEFAULT))
            check(ctx, t, h, mah, ov, dict(table=tn, history=hn), used)
    ctx.extra["fits_that_depend_on_option"] = used
    for k in T_OPT:
        if not used.get(k):
            raise Violation(f"no fit whose loss depends on option {k}: the option has no effect", dict(used=used))


def part_recovery(ctx):
    """model galaxies: the best point reproduces the history that generated the target (the loss is small)."""
    T = c19.tables()
    t = T["lin"]
    good = n = 0
    for gn in ("ms", "late_q", "rejuv", "early_q"):
        for mn, mah in c19.MAHS.items():
            h = f32(ref.sfh(np.array(c19.GALP[gn]), mah, t, 1.13, 0.17))
            v, loss, ok, o, lgt0, fb = fit(ctx, t, h, mah, dict(lgt0=1.13, fb=0.17), dict(galaxy=gn, halo=mn))
            ld, _, E = _ref_data(t, h, mah, o, 1.13, 0.17)
            s = c19.start_point(float(ref.log_mah(mah, t, 1.13)[-1]))
            L0 = c19.ref_loss(s, ld, mah, o, 1.13, 0.17)[0]
            n += 1
            good += loss < max(0.3, 0.3 * L0)
            ctx.ev(1)
    ctx.true("fits improve on the documented starting point", good >= 0.75 * n, lambda i: dict(good=good, n=n))


def part_failure(ctx):
    """undefined entries: the documented starting point, 999.99 and -1."""
    T = c19.tables()
    t = T["lin"]
    for j, (mn, mah) in enumerate(c19.MAHS.items()):
        for k in (0, N_MID, len(t) - 1) if ctx.thorough else (N_MID,):
            h = c19.histories(t)["const"].copy()
            h[k] = np.nan
            ov = [{}, dict(lgt0=1.2), dict(fb=0.2), dict(t_fit_min=3.3)][j]
            c = dict(halo=mn, undefined_entry=k, over=ov)
            v, loss, ok, o, lgt0, fb = fit(ctx, t, h, mah, ov, c)
            c.update(params=v, loss=loss, success=ok)
            if ok != -1 or loss != 999.99:
                ctx.fail("no attempt can succeed: loss 999.99 and success -1 expected", c)
            p = c19.start_point(float(ref.log_mah(mah, t, lgt0)[-1]))
            ctx.close("documented starting point", v, p, 1e-4, 1e-4, case=lambda i: c)
            ctx.ev(1)


N_MID = 11


def run(ctx):
    ctx.run_part("defaults", part_defaults)
    ctx.run_part("options", part_options)
    ctx.run_part("recovery", part_recovery)
    ctx.run_part("failure", part_failure)
