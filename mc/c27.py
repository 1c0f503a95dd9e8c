"""C27: numerical building blocks match their definitions."""

import itertools

import numpy as np

from . import ref
from .core import Violation, f32, product_array

LEVEL = "exploration"
RULE = (
    "All words of table steps up to the bound (time cells, interpolation tables, trapezoids); full lattices of abscissa x centre x width/steepness x limits "
    "including joints, ties, reversed limits and negative steepness; all words of argument shapes up to length 4; all small correlation matrices on a "
    "lattice x all words of widths. Each evaluated on the real helper and compared with its textbook definition in float64. Non-trivial = all."
)
ASSUMPTIONS = ["inputs are float32-representable; tables have at least three rows for the time-cell helper used inside JAX"]
ORACLE = "textbook definitions in float64 numpy"

STEPS = (0.01, 0.25, 1.0, 3.0)


def _tables(nmin, nmax, t0s=(0.1, 1.0), steps=STEPS):
    for n in range(nmin, nmax + 1):
        for t0 in t0s:
            for w in itertools.product(steps, repeat=n - 1):
                yield f32(t0 + np.concatenate([[0.0], np.cumsum(w)]))


def part_cells(ctx):
    from diffstar.utils import _get_dt_array, _jax_get_dt_array

    N = 7 if ctx.thorough else 6
    import jax

    by_n = {}
    for t in _tables(2, N):
        by_n.setdefault(len(t), []).append(t)
    for n, ts in by_n.items():
        T = np.array(ts)
        ex = ref.dt_array(T)
        lo = T[:, 0] - (T[:, 1] - T[:, 0]) / 2
        if n >= 3:
            g = np.asarray(jax.vmap(_jax_get_dt_array)(T.astype("f4")), dtype=float)
            ctx.close("time cells (JAX)", g, ex, 1e-5, 4e-6, case=lambda i: dict(table=T[i[0]]))
            ctx.ev(g.size)
            for k in range(0, len(ts), max(1, len(ts) // 12)):  # un-vectorised
                ctx.close("time cells (JAX, one table)", np.asarray(_jax_get_dt_array(T[k].astype("f4"))), ex[k], 1e-5, 4e-6, case=lambda i: dict(table=T[k]))
        for k, t in enumerate(ts):
            g = _get_dt_array(t)
            ctx.close("time cells", g, ex[k], 1e-12, 1e-14, case=lambda i: dict(table=t))
            # they tile the table: edge i is half-way between table points
            edges = lo[k] + np.concatenate([[0.0], np.cumsum(g)])
            ctx.close("cells tile the table", edges[1:-1], 0.5 * (t[1:] + t[:-1]), 1e-12, 1e-13, case=lambda i: dict(table=t))
            ctx.true("cells have positive width", g > 0, lambda i: dict(table=t))
            ctx.ev(n)
    ctx.sample(dict(lengths=sorted(by_n), tables=sum(map(len, by_n.values()))))


def part_interp(ctx):
    from diffstar.diffstarpop.utils import jax_np_interp_vmap
    from diffstar.utils import cumtrapz, jax_np_interp

    N = 5 if ctx.thorough else 4
    YV = (0.0, 1.0, -2.0, 50.0)
    n = 0
    for k in range(2, N + 1):
        tabs = [t for t in _tables(k, k, t0s=(0.0, 1.0), steps=(0.25, 1.0, 3.0))]
        ys = list(itertools.product(YV, repeat=k))
        if k >= 4 and not ctx.thorough:
            ys = ys[::7]
        if k == 5:
            ys = ys[::5]
        Y = np.array(ys)
        for t in tabs:
            fr = np.array([0.0, 0.25, 0.5, 1.0])
            x = f32(np.unique(np.concatenate([t[i] + fr * (t[i + 1] - t[i]) for i in range(k - 1)])))
            hi = np.clip(np.searchsorted(t, x), 1, k - 1)
            # one row of times and one table of values per galaxy, shared abscissa
            X = np.tile(x, (len(Y), 1)).astype("f4")
            H = np.tile(hi, (len(Y), 1))
            ex = np.array([np.interp(x, t, y) for y in Y])
            g = np.asarray(jax_np_interp_vmap(X, np.tile(t, (len(Y), 1)).astype("f4"), Y[0].astype("f4"), H))
            ctx.close("interpolation (rows)", g, np.tile(ex[0], (len(Y), 1)), 1e-5, 1e-4, case=lambda i: dict(table=t, y=Y[0], x=x))
            for r in range(0, len(Y), max(1, len(Y) // 5)):
                g = np.asarray(jax_np_interp(x.astype("f4"), t.astype("f4"), Y[r].astype("f4"), hi))
                ctx.close("interpolation", g, ex[r], 1e-5, 1e-4, case=lambda i: dict(table=t, y=Y[r], x=x))
                n += 1
            ctx.ev(ex.size)
    # values extrapolate along the chosen segment
    t, y = np.array([0.0, 1.0, 3.0], "f4"), np.array([1.0, 2.0, 8.0], "f4")
    g = np.asarray(jax_np_interp(np.array([-1.0, 4.0], "f4"), t, y, np.array([1, 2])))
    ctx.close("segment beyond the table", g, np.array([0.0, 11.0]), 1e-5, 1e-5)

    import jax

    vc = jax.jit(jax.vmap(cumtrapz, in_axes=(None, 0)))
    for k in range(1, N + 2):
        ys = np.array(list(itertools.product(YV, repeat=k))[:: 1 if k <= 4 else 11])
        for ti, t in enumerate(_tables(k, k, t0s=(0.0, 2.0), steps=(0.25, 3.0))):
            ex = np.concatenate([np.zeros((len(ys), 1)), np.cumsum(0.5 * (ys[:, 1:] + ys[:, :-1]) * np.diff(t), axis=1)], axis=1)
            g = np.asarray(vc(t.astype("f4"), ys.astype("f4")))
            ctx.close("cumulative trapezoids", g, ex, 1e-5, 1e-4, case=lambda i: dict(table=t, y=ys[i[0]]))
            g1 = np.asarray(cumtrapz(t.astype("f4"), ys[-1].astype("f4")))
            ctx.close("cumulative trapezoids (one table)", g1, ex[-1], 1e-5, 1e-4, case=lambda i: dict(table=t, y=ys[-1]))
            ctx.ev(ex.size)
    ctx.sample(dict(depth=N))


def part_triweight(ctx):
    import jax

    from diffstar import utils as u
    from diffstar.diffstarpop import utils as pu

    z = np.unique(np.concatenate([np.linspace(-4, 4, 161 if not ctx.thorough else 641), [-3, 3, 0], np.array([-3, 3]) * (1 + 1e-6), np.array([-3, 3]) * (1 - 1e-6), [-1e6, 1e6]]))
    m, h, Z = product_array([0.0, 1.0, -12.5], [1.0, 0.25, 3.0], z)
    x = f32(m + h * Z)
    m, h = f32(m), f32(h)
    ex = ref.tw_cdf((x - m) / h)
    for nm, fn in (("tw_cuml_jax_kern", u.tw_cuml_jax_kern), ("_tw_cuml_lax_kern", pu._tw_cuml_lax_kern)):
        g = np.asarray(jax.jit(jax.vmap(fn))(x.astype("f4"), m.astype("f4"), h.astype("f4")), dtype=float)
        ctx.close(nm, g, ex, 0, 3e-5, case=lambda i: dict(x=x[i], m=m[i], h=h[i]))
        yy = (x.astype("f4") - m.astype("f4")) / h.astype("f4")
        ctx.true(f"{nm} is 0 below three widths", g[yy < -3] == 0)
        ctx.true(f"{nm} is 1 above three widths", g[yy > 3] == 1)
        G = g.reshape(9, len(z))
        ctx.true(f"{nm} never decreases", np.diff(G, axis=1) >= -2e-6, lambda i: dict(m=m.reshape(9, -1)[i[0], 0], h=h.reshape(9, -1)[i[0], 0], z=z[i[1]]))
        for i in range(0, len(x), 37):
            ctx.close(f"{nm} (one point)", fn(np.float32(x[i]), np.float32(m[i]), np.float32(h[i])), ex[i], 0, 3e-5, case=lambda _: dict(x=x[i], m=m[i], h=h[i]))
        ctx.ev(len(x))
    # bin weights
    e = np.array([-3.5, -3.0, -1.0, 0.0, 0.4, 3.0, 3.5, 20.0])
    m, h, a, b = product_array([0.0, 1.0], [1.0, 0.25, 4.0], e, e)
    a, b, m, h = f32(m + a * h), f32(m + b * h), f32(m), f32(h)
    ex = ref.tw_cdf((b - m) / h) - ref.tw_cdf((a - m) / h)
    g = np.asarray(jax.jit(jax.vmap(u.tw_bin_jax_kern))(*[v.astype("f4") for v in (m, h, a, b)]), dtype=float)
    ctx.close("tw_bin_jax_kern", g, ex, 0, 5e-5, case=lambda i: dict(m=m[i], h=h[i], L=a[i], H=b[i]))
    ex = ref.tw_bin_weight(m, h, a, b)
    g = np.asarray(jax.jit(jax.vmap(pu._tw_bin_weight_lax_kern))(*[v.astype("f4") for v in (m, h, a, b)]), dtype=float)
    ctx.close("_tw_bin_weight_lax_kern", g, ex, 0, 5e-5, case=lambda i: dict(x=m[i], sig=h[i], lo=a[i], hi=b[i]))
    # bins that partition the line share out a weight of exactly one
    for cuts in itertools.combinations(e[1:-1], 3):
        ed = f32(np.concatenate([[-30.0], cuts, [30.0]]))
        for x0, s in ((0.0, 1.0), (0.3, 0.5), (-1.0, 2.0)):
            w = [float(pu._tw_bin_weight_lax_kern(np.float32(x0), np.float32(s), np.float32(l), np.float32(r))) for l, r in zip(ed[:-1], ed[1:])]
            ctx.close("bin weights sum to one", sum(w), 1.0, 0, 5e-6, case=lambda _: dict(edges=ed, x=x0, sig=s))
            ctx.true("bin weights are not negative", np.array(w) >= -2e-6, lambda i: dict(edges=ed, x=x0, sig=s))
            ctx.ev(len(w))
    ctx.sample(dict(points=len(x)))


def part_sigmoid(ctx):
    from diffstar import utils as u
    from diffstar.diffstarpop import utils as pu

    nx = 41 if ctx.thorough else 17
    X = np.concatenate([np.linspace(-8, 8, nx), [-500.0, 500.0]])
    x, x0, k, lim = product_array(X, [0.0, -3.0, 12.5], [1.0, 0.1, 10.0, 100.0, -2.0, 0.0], np.arange(6))
    L = np.array([(0.0, 1.0), (-1.0, 1.0), (5.0, -3.0), (-12.0, -8.0), (9.0, 13.5), (2.0, 2.0)])
    lo, hi = L[lim.astype(int)].T
    x, x0, k, lo, hi = [f32(v) for v in (x + x0 * 0.5, x0, k, lo, hi)]
    c = lambda i: dict(x=x[i], x0=x0[i], k=k[i], ymin=lo[i], ymax=hi[i])
    a = [v.astype("f4") for v in (x, x0, k, lo, hi)]
    ex = ref.sigmoid(x, x0, k, lo, hi)
    for nm, m in (("utils", u), ("diffstarpop.utils", pu)):
        g = np.asarray(m._sigmoid(*a), dtype=float)
        ctx.close(f"{nm}._sigmoid", g, ex, 1e-5, 5e-6, case=c)
        ctx.true(f"{nm}._sigmoid stays between its limits", (g >= np.minimum(lo, hi) - 2e-6) & (g <= np.maximum(lo, hi) + 2e-6), c)
        ctx.ev(len(x))
        # inverse where the value is well inside the limits
        fr = np.array([0.01, 0.1, 0.3, 0.5, 0.8, 0.99])
        f, x0_, k_, l_ = product_array(fr, [0.0, -3.0, 12.5], [1.0, 0.1, 10.0, -2.0], np.arange(5))
        lo_, hi_ = L[l_.astype(int)].T
        y = f32(lo_ + f * (hi_ - lo_))
        x0_, k_, lo_, hi_ = [f32(v) for v in (x0_, k_, lo_, hi_)]
        exi = x0_ - np.log((hi_ - lo_) / (y - lo_) - 1) / k_
        gi = np.asarray(m._inverse_sigmoid(*[v.astype("f4") for v in (y, x0_, k_, lo_, hi_)]), dtype=float)
        cc = lambda i: dict(y=y[i], x0=x0_[i], k=k_[i], ymin=lo_[i], ymax=hi_[i])
        tol = 2e-5 * np.abs(exi) + 2e-3 / np.abs(k_)
        ctx.true(f"{nm}._inverse_sigmoid", np.abs(gi - exi) <= tol, lambda i: dict(cc(i), got=gi[i], expected=exi[i]))
        back = np.asarray(m._sigmoid(*[v.astype("f4") for v in (gi, x0_, k_, lo_, hi_)]), dtype=float)
        ctx.close(f"{nm}: sigmoid of its inverse", back, y, 2e-5, 2e-4, case=cc)
        ctx.ev(len(y))
        # scalars and mixed shapes
        g = np.asarray(m._sigmoid(np.float32(0.5), a[1][:7], np.float32(2.0), np.float32(-1.0), np.float32(1.0)), dtype=float)
        ctx.close(f"{nm}._sigmoid (mixed shapes)", g, ref.sigmoid(0.5, x0[:7], 2.0, -1.0, 1.0), 1e-5, 1e-6)
    # defaults of the population version: unit steepness about 0, between -1 and 1
    y = f32(np.array([-0.9, -0.1, 0.0, 0.6]))
    ctx.close("_inverse_sigmoid defaults", np.asarray(pu._inverse_sigmoid(y.astype("f4"))), -np.log(2 / (y + 1) - 1), 1e-5, 1e-5)
    arg = k * (x - x0)
    ex = lo + (hi - lo) * (0.5 * arg / np.sqrt(1 + arg**2) + 0.5)
    ctx.close("sigmoid_poly", np.asarray(u.sigmoid_poly(*a)), ex, 1e-5, 5e-6, case=c)
    ctx.ev(len(x))
    ctx.sample(dict(points=len(x)))


def part_shapes(ctx):
    from diffstar.utils import get_1d_arrays

    A = {
        "i": (3, 1), "f": (2.5, 1), "z": (np.array(7.0), 1), "one": (np.array([4.0]), 1), "n1": (np.array([9]), 1),
        "a3": (np.array([1.0, 2.0, 3.0]), 3), "b3": (np.array([4, 5, 6]), 3), "l3": ([7.0, 8.0, 9.0], 3), "g3": (np.array([1, 2, 3], dtype="f4"), 3),
        "a4": (np.arange(4.0), 4), "a2": (np.array([0.5, -0.5]), 2), "t": (np.array([True, False, True]), 3),
    }
    D = 4 if ctx.thorough else 3
    ok_n = bad_n = 0
    for n in range(1, D + 1):
        for w in itertools.product(A, repeat=n):
            args = [A[k][0] for k in w]
            sz = [A[k][1] for k in w]
            N = max(sz)
            copies = [np.array(a) for a in args]
            fits = all(s in (1, N) for s in sz)
            try:
                r = get_1d_arrays(*args)
            except AssertionError:
                if fits:
                    raise Violation("compatible arguments rejected", dict(args=w))
                bad_n += 1
                continue
            if not fits:
                raise Violation("mismatched lengths accepted", dict(args=w, got=[np.shape(x) for x in r]))
            if len(r) != n:
                raise Violation(f"{len(r)} arrays returned for {n} arguments", dict(args=w))
            for k, x, a in zip(w, r, copies):
                if np.shape(x) != (N,) or not np.array_equal(np.asarray(x, dtype=float), np.broadcast_to(a.astype(float), (N,))):
                    raise Violation(f"argument {k} broadcast to {x!r}", dict(args=w))
            for a, b in zip(args, copies):
                if not np.array_equal(np.asarray(a), b):
                    raise Violation("argument modified", dict(args=w))
            ok_n += 1
    ctx.ev(ok_n + bad_n)
    ctx.sample(dict(accepted=ok_n, rejected=bad_n))


def part_cov(ctx):
    import jax

    from diffstar.diffstarpop.utils import correlation_from_covariance, covariance_from_correlation

    vals = (-0.5, 0.0, 0.3) if not ctx.thorough else (-0.5, -0.1, 0.0, 0.3, 0.9)
    sig = (1e-3, 0.2, 1.0, 30.0)
    for n in range(1, 5):
        m = n * (n - 1) // 2
        cors = list(itertools.product(vals, repeat=m))
        sigs = list(itertools.product(sig, repeat=n))
        if n == 4:
            cors, sigs = cors[:: 7 if not ctx.thorough else 61], sigs[::9]
        if n == 3 and not ctx.thorough:
            sigs = sigs[::3]
        C = np.zeros((len(cors), n, n)) + np.eye(n)
        iu = np.triu_indices(n, 1)
        for j, c in enumerate(cors):
            C[j][iu] = c
            C[j] = C[j] + np.triu(C[j], 1).T
        C = f32(C)
        S = f32(np.array(sigs))
        i, j = [v.ravel() for v in np.meshgrid(np.arange(len(C)), np.arange(len(S)), indexing="ij")]
        cc, ss = C[i], S[j]
        case = lambda k: dict(corr=cc[k[0]], sigma=ss[k[0]])
        cov = np.asarray(jax.jit(jax.vmap(covariance_from_correlation))(cc.astype("f4"), ss.astype("f4")), dtype=float)
        ex = cc * ss[:, :, None] * ss[:, None, :]
        ctx.close("covariance", cov, ex, 1e-5, 1e-12, case=case)
        back = np.asarray(jax.jit(jax.vmap(correlation_from_covariance))(f32(ex).astype("f4")), dtype=float)
        ctx.close("correlation", back, cc, 1e-5, 1e-6, case=case)
        ctx.close("covariance of the recovered correlation", np.asarray(jax.vmap(covariance_from_correlation)(back.astype("f4"), ss.astype("f4"))), ex, 2e-5, 1e-12, case=case)
        ctx.close("one matrix", np.asarray(covariance_from_correlation(cc[-1].astype("f4"), ss[-1].astype("f4"))), ex[-1], 1e-5, 1e-12)
        ctx.close("one matrix back", np.asarray(correlation_from_covariance(ex[-1].astype("f4"))), cc[-1], 1e-5, 1e-6)
        ctx.ev(len(i))
    # no correlation reported where there is no covariance, even for a vanishing variance
    g = np.asarray(correlation_from_covariance(np.array([[4.0, 0.0], [0.0, 0.0]], "f4")))
    ctx.close("vanishing variance", g, np.array([[1.0, 0.0], [0.0, 0.0]]), 1e-6, 1e-6)
    ctx.sample(dict(max_dim=4))


def run(ctx):
    ctx.run_part("cells", part_cells)
    ctx.run_part("interp", part_interp)
    ctx.run_part("triweight", part_triweight)
    ctx.run_part("sigmoid", part_sigmoid)
    ctx.run_part("shapes", part_shapes)
    ctx.run_part("cov", part_cov)
